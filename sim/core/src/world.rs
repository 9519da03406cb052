//! The string world as the driver sees it: plans from seeds, checks, and smaller plans.

use crate::ctx::*;
use crate::driver::World;
use crate::exec::{Cover, Viol};
use crate::gen;
use crate::plan::*;
use crate::run::{self, Pool, Variant};
use crate::text::*;
use serde_json::Value;

pub struct Strings {
    pub prop: String,
    profile: gen::Profile,
    pool: Pool,
}
impl Strings {
    pub fn new(prop: &str) -> Strings {
        Strings {
            prop: prop.to_string(),
            profile: gen::profile(prop),
            pool: Pool::default(),
        }
    }
}

pub fn simpler_txt(t: &Txt) -> Vec<Txt> {
    let mut v = vec![];
    if t.style != 0 {
        v.push(Txt { style: 0, ..*t });
    }
    if t.spice.is_some() {
        v.push(Txt { spice: None, ..*t });
    }
    if t.fit != Fit::Len(0) {
        v.push(Txt {
            fit: Fit::Len(0),
            ..*t
        });
    }
    if let Fit::Len(n) = t.fit {
        for m in [1, 2, 4, n / 2, n.saturating_sub(1)] {
            if m < n {
                v.push(Txt {
                    fit: Fit::Len(m),
                    ..*t
                });
            }
        }
    }
    match t.fit {
        Fit::Cap(n) if n > 1 => v.push(Txt {
            fit: Fit::Cap(1),
            ..*t
        }),
        Fit::Rem(n) if n > 1 => v.push(Txt {
            fit: Fit::Rem(1),
            ..*t
        }),
        _ => {}
    }
    if t.seed > 4 {
        for s in [0, 1, 2] {
            v.push(Txt { seed: s, ..*t });
        }
    }
    if t.alt != Fit::Len(0) {
        v.push(Txt {
            alt: Fit::Len(0),
            ..*t
        });
    }
    v
}
fn simpler_pos(p: &Pos) -> Vec<Pos> {
    let v = match *p {
        Pos::Ch(0) => vec![],
        Pos::Ch(k) => vec![Pos::Ch(0), Pos::Ch(1), Pos::Ch(k / 2), Pos::Ch(k - 1)],
        Pos::Mid(k) if k > 0 => vec![Pos::Mid(0), Pos::Mid(k / 2)],
        Pos::Past(k) if k > 0 => vec![Pos::Past(0)],
        Pos::Max(k) if k > 0 => vec![Pos::Max(0)],
        Pos::Len => vec![Pos::Ch(0)],
        Pos::Again(_) => vec![Pos::Ch(0), Pos::Len],
        Pos::Abs(n) if n > 0 => vec![Pos::Abs(n / 2), Pos::Ch(0), Pos::Len],
        Pos::Wrap(a, b) if a > 0 || b > 0 => vec![Pos::Wrap(0, b), Pos::Wrap(a, 0)],
        _ => vec![],
    };
    v.into_iter().filter(|x| x != p).collect()
}
fn simpler_span(s: &Span) -> Vec<Span> {
    let mut v = vec![];
    for x in [
        Span { sb: 0, ..*s },
        Span { eb: 1, ..*s },
        Span { sb: 2, ..*s },
        Span { eb: 2, ..*s },
        Span { sort: false, ..*s },
        Span { adj: false, ..*s },
        Span {
            alt_s: s.s,
            alt_e: s.e,
            ..*s
        },
    ] {
        if x != *s {
            v.push(x);
        }
    }
    // towards 2 once; `sb` 0 and 2 must not chase one another
    if s.sb == 0 {
        v.retain(|x| x.sb == 0);
    }
    if s.sb == 2 {
        v.retain(|x| x.sb == 2);
    }
    if s.eb == 1 {
        v.retain(|x| x.eb == 1);
    }
    if s.eb == 2 {
        v.retain(|x| x.eb == 2);
    }
    v.extend(simpler_pos(&s.s).into_iter().map(|p| Span { s: p, ..*s }));
    v.extend(simpler_pos(&s.e).into_iter().map(|p| Span { e: p, ..*s }));
    v
}
fn simpler_items(i: &Items) -> Vec<Items> {
    let mut v: Vec<Items> = simpler_txt(&i.txt)
        .into_iter()
        .map(|txt| Items { txt, ..i.clone() })
        .collect();
    if i.cut != 0 {
        v.push(Items {
            cut: 0,
            ..i.clone()
        });
    }
    if i.endless {
        v.push(Items {
            endless: false,
            ..i.clone()
        });
    }
    if i.hint != crate::sources::Hint::Honest {
        v.push(Items {
            hint: crate::sources::Hint::Honest,
            ..i.clone()
        });
    }
    v
}
fn simpler_op(op: &Op) -> Vec<Op> {
    use Op::*;
    macro_rules! one {
        ($v:path, $x:expr, $f:ident) => {
            $f($x).into_iter().map($v).collect()
        };
    }
    match op {
        TryStr(t) => one!(TryStr, t, simpler_txt),
        StrTrunc(t) => one!(StrTrunc, t, simpler_txt),
        From(t) => one!(From, t, simpler_txt),
        Parse(t) => one!(Parse, t, simpler_txt),
        TryPushStr(t) => one!(TryPushStr, t, simpler_txt),
        PushTrunc(t) => one!(PushTrunc, t, simpler_txt),
        Add(t) => one!(Add, t, simpler_txt),
        WriteStr(t) => one!(WriteStr, t, simpler_txt),
        CmpText(t) => one!(CmpText, t, simpler_txt),
        TryIter(t) => one!(TryIter, t, simpler_items),
        IterTrunc(t) => one!(IterTrunc, t, simpler_items),
        CollectStrs(t) => one!(CollectStrs, t, simpler_items),
        TryChars(t) => one!(TryChars, t, simpler_items),
        CharsTrunc(t) => one!(CharsTrunc, t, simpler_items),
        CollectChars(t) => one!(CollectChars, t, simpler_items),
        ExtChars(t) => one!(ExtChars, t, simpler_items),
        ExtRefs(t) => one!(ExtRefs, t, simpler_items),
        ExtStrs(t) => one!(ExtStrs, t, simpler_items),
        TryU16(u) | U16Trunc(u) | U16Lossy(u) => {
            let mut v: Vec<Units> = (0..u.link.len())
                .map(|i| {
                    let mut u = u.clone();
                    u.link.remove(i);
                    u
                })
                .collect();
            v.extend(simpler_txt(&u.txt).into_iter().map(|txt| Units {
                txt,
                link: u.link.clone(),
            }));
            for (i, l) in u.link.iter().enumerate() {
                for k in [0, 1, l.0 / 2] {
                    if k < l.0 {
                        let mut u = u.clone();
                        u.link[i].0 = k;
                        v.push(u);
                    }
                }
            }
            v.into_iter()
                .map(|u| match op {
                    TryU16(_) => TryU16(u),
                    U16Trunc(_) => U16Trunc(u),
                    _ => U16Lossy(u),
                })
                .collect()
        }
        Truncate(p) => one!(Truncate, p, simpler_pos),
        Remove(p) => one!(Remove, p, simpler_pos),
        SplitOff(p, into) => {
            let mut v: Vec<Op> = simpler_pos(p)
                .into_iter()
                .map(|p| SplitOff(p, *into))
                .collect();
            if into.is_some() {
                v.insert(0, SplitOff(*p, None));
            }
            v
        }
        Retain(p) => (0..p.mode.min(6))
            .map(|mode| Retain(crate::plan::Pred { mode, ..*p }))
            .collect(),
        TryInsert(p, c) => simpler_pos(p)
            .into_iter()
            .map(|p| TryInsert(p, *c))
            .collect(),
        TryInsertStr(p, t) => simpler_pos(p)
            .into_iter()
            .map(|p| TryInsertStr(p, t.clone()))
            .chain(simpler_txt(t).into_iter().map(|t| TryInsertStr(*p, t)))
            .collect(),
        InsertTrunc(p, t) => simpler_pos(p)
            .into_iter()
            .map(|p| InsertTrunc(p, t.clone()))
            .chain(simpler_txt(t).into_iter().map(|t| InsertTrunc(*p, t)))
            .collect(),
        Drain(s, d) => simpler_span(s).into_iter().map(|s| Drain(s, *d)).collect(),
        ReplaceRange(s, t) => simpler_txt(t)
            .into_iter()
            .map(|t| ReplaceRange(*s, t))
            .chain(
                simpler_span(s)
                    .into_iter()
                    .map(|s| ReplaceRange(s, t.clone())),
            )
            .collect(),
        WriteFmt {
            a,
            b,
            cut,
            lit,
            ignore,
            by_char,
        } => {
            let mk = |a: &Txt, b: &Txt, cut, lit, ignore, by_char| WriteFmt {
                a: a.clone(),
                b: b.clone(),
                cut,
                lit,
                ignore,
                by_char,
            };
            let mut v: Vec<Op> = vec![
                mk(a, b, 0, *lit, *ignore, *by_char),
                mk(a, b, *cut, false, *ignore, *by_char),
                mk(a, b, *cut, *lit, false, *by_char),
                mk(a, b, *cut, *lit, *ignore, false),
            ];
            v.extend(
                simpler_txt(a)
                    .iter()
                    .map(|a| mk(a, b, *cut, *lit, *ignore, *by_char)),
            );
            v.extend(
                simpler_txt(b)
                    .iter()
                    .map(|b| mk(a, b, *cut, *lit, *ignore, *by_char)),
            );
            v.retain(|x| x != op);
            v
        }
        DNext(d, n) if *n > 1 => vec![DNext(*d, 1), DNext(*d, n / 2)],
        DBack(d, n) if *n > 1 => vec![DBack(*d, 1), DBack(*d, n / 2)],
        DIter(d, k, n) if *n > 0 => [0, 1, n / 2]
            .into_iter()
            .filter(|x| x < n)
            .map(|n| DIter(*d, *k, n))
            .collect(),
        Index(at) => simpler_at(at).into_iter().map(Index).collect(),
        Edit(v, at, u) => simpler_at(at).into_iter().map(|at| Edit(*v, at, *u)).collect(),
        _ => vec![],
    }
}
fn simpler_at(at: &crate::plan::At) -> Vec<crate::plan::At> {
    let a = simpler_pos(&at.a).into_iter().map(|a| crate::plan::At { a, ..*at });
    let b = simpler_pos(&at.b).into_iter().map(|b| crate::plan::At { b, ..*at });
    a.chain(b).collect()
}
fn simpler_step(s: &Step) -> Vec<Step> {
    let mut v = vec![];
    for i in 0..s.faults.len() {
        let mut t = s.clone();
        t.faults.remove(i);
        v.push(t);
    }
    if s.slot != 0 {
        v.push(Step {
            slot: 0,
            ..s.clone()
        });
    }
    for (i, f) in s.faults.iter().enumerate() {
        if f.at > 1 {
            for a in [1, f.at / 2, f.at - 1] {
                if a < f.at {
                    let mut t = s.clone();
                    t.faults[i] = Fault { at: a, ..*f };
                    v.push(t);
                }
            }
        }
    }
    v.extend(simpler_op(&s.op).into_iter().map(|op| Step {
        op,
        ..s.clone()
    }));
    v
}
/// Lists with parts taken out: halves, quarters, ..., single elements.
pub fn cuts<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut n = v.len();
    while n > 0 {
        let mut i = 0;
        while i < v.len() {
            let j = (i + n).min(v.len());
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[j..]);
            out.push(w);
            i += n;
        }
        n /= 2;
    }
    out
}

impl World for Strings {
    type P = Plan;
    fn name(&self) -> &'static str {
        "strings"
    }
    fn plan(&mut self, seed: u64) -> Plan {
        gen::plan(&self.prop, &self.profile, seed, run::kinds())
    }
    fn check(&mut self, p: &Plan, cover: &mut Cover) -> Vec<Viol> {
        run::check(&self.prop, p, &mut self.pool, cover)
    }
    fn size(&self, p: &Plan) -> usize {
        p.tasks.iter().map(|t| t.steps.len() + t.nested.len()).sum()
    }
    fn smaller(&self, p: &Plan, failed_at: Option<(usize, usize)>) -> Vec<Plan> {
        let mut out = vec![];
        if let Some((t, s)) = failed_at {
            if p.tasks[t].steps.len() > s + 1 {
                let mut q = p.clone();
                q.tasks[t].steps.truncate(s + 1);
                out.push(q);
            }
        }
        if p.tasks.len() > 1 {
            for i in 0..p.tasks.len() {
                let mut q = p.clone();
                q.tasks.remove(i);
                out.push(q);
            }
        }
        if !p.choices.is_empty() {
            for v in [vec![], p.choices[..p.choices.len() / 2].to_vec()] {
                out.push(Plan {
                    choices: v,
                    ..p.clone()
                });
            }
        }
        for t in 0..p.tasks.len() {
            if !p.tasks[t].nested.is_empty() {
                for c in cuts(&p.tasks[t].nested) {
                    let mut q = p.clone();
                    q.tasks[t].nested = c;
                    out.push(q);
                }
            }
            for c in cuts(&p.tasks[t].steps) {
                let mut q = p.clone();
                q.tasks[t].steps = c;
                out.push(q);
            }
        }
        if p.log != LogMode::Off {
            out.push(Plan {
                log: LogMode::Off,
                ..p.clone()
            });
        }
        if p.shared_kind.is_some() {
            out.push(Plan {
                shared_kind: None,
                ..p.clone()
            });
        }
        for t in 0..p.tasks.len() {
            let now = run::kind(&p.tasks[t].kind);
            if self.profile.kind.is_none() {
                let mut smaller: Vec<_> = run::kinds()
                    .iter()
                    .filter(|k| !k.cache && (k.cap < now.cap || now.cache))
                    .collect();
                smaller.sort_by_key(|k| k.cap);
                for k in smaller.iter().take(12) {
                    let mut q = p.clone();
                    q.tasks[t].kind = k.name.to_string();
                    out.push(q);
                }
            }
        }
        for t in 0..p.tasks.len() {
            for i in 0..p.tasks[t].steps.len() {
                for s in simpler_step(&p.tasks[t].steps[i]) {
                    let mut q = p.clone();
                    q.tasks[t].steps[i] = s;
                    out.push(q);
                }
            }
            for i in 0..p.tasks[t].nested.len() {
                for s in simpler_step(&p.tasks[t].nested[i]) {
                    let mut q = p.clone();
                    q.tasks[t].nested[i] = s;
                    out.push(q);
                }
            }
        }
        if p.choices.len() < 60 {
            for i in 0..p.choices.len() {
                if p.choices[i] != 0 {
                    let mut q = p.clone();
                    q.choices[i] = 0;
                    out.push(q);
                }
            }
        }
        out
    }
    fn record(&mut self, p: &Plan, other: Option<&Value>) -> Option<(Vec<String>, Value)> {
        run::record(&self.prop, p, other, &mut self.pool)
    }
    fn history(&mut self, p: &Plan) -> Vec<String> {
        let mut c = Cover::default();
        run::run(p, &Variant::default(), &mut self.pool, &mut c)
            .recs
            .iter()
            .map(|r| {
                format!(
                    "task {} step {}{}: {}",
                    r.task,
                    r.step,
                    if r.nested { " (nested)" } else { "" },
                    r.line
                )
            })
            .collect()
    }
}
