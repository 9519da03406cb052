//! Runs plans against the real strings and the growable model, and compares.

use crate::adapt::*;
use crate::ctx::*;
use crate::mem::Cell;
use crate::plan::*;
use crate::sched::Sched;
use crate::text::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const fn tag(n: u32) -> u32 {
    1 << n
}
pub const C01: u32 = tag(1);
pub const C02: u32 = tag(2);
pub const C03: u32 = tag(3);
pub const C04: u32 = tag(4);
pub const C05: u32 = tag(5);
pub const C06: u32 = tag(6);
pub const C07: u32 = tag(7);
pub const C08: u32 = tag(8);
pub const C09: u32 = tag(9);
pub const C10: u32 = tag(10);
pub const C11: u32 = tag(11);
pub const C12: u32 = tag(12);
pub const C13: u32 = tag(13);
pub const C14: u32 = tag(14);
pub const C15: u32 = tag(15);
pub const C16: u32 = tag(16);

pub fn tag_names(t: u32) -> Vec<String> {
    (1..20)
        .filter(|i| t & (1 << i) != 0)
        .map(|i| format!("C{i:02}"))
        .collect()
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: u32,
    pub task: usize,
    pub step: usize,
    pub msg: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub task: usize,
    pub step: usize,
    pub nested: bool,
    /// ended by a panic of caller code
    pub caller_panic: bool,
    /// the outcome depends on what the logger or an equivocating caller did
    pub loose: bool,
    pub line: String,
}

pub const NOPS: usize = 96;
#[derive(Clone)]
pub struct Ops(pub [u64; NOPS]);
impl Default for Ops {
    fn default() -> Ops {
        Ops([0; NOPS])
    }
}
/// What a batch of runs touched.
#[derive(Default)]
pub struct Cover {
    pub runs: u64,
    pub steps: u64,
    pub events: u64,
    pub allocs: u64,
    pub states: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub switches: u64,
    pub yields: u64,
    pub fired: [[u64; 7]; NSITES],
    pub seams: [u64; NSITES],
    pub link: [u64; 6],
    pub own: Vec<(String, u64)>,
    pub ops: Ops,
    pub digests: Vec<u64>,
}
impl Cover {
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(e) = self.own.iter_mut().find(|e| e.0 == name) {
            e.1 += n;
        } else {
            self.own.push((name.to_string(), n));
        }
    }
    pub fn merge(&mut self, o: Cover) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.events += o.events;
        self.allocs += o.allocs;
        self.switches += o.switches;
        self.yields += o.yields;
        self.states.extend(o.states);
        self.traces.extend(o.traces);
        self.schedules.extend(o.schedules);
        for i in 0..NSITES {
            self.seams[i] += o.seams[i];
            for j in 0..7 {
                self.fired[i][j] += o.fired[i][j];
            }
        }
        for i in 0..6 {
            self.link[i] += o.link[i];
        }
        for i in 0..NOPS {
            self.ops.0[i] += o.ops.0[i];
        }
        for (k, n) in o.own {
            self.count(&k, n);
        }
    }
    /// takes this thread's seam counters
    pub fn take_ctx(&mut self) {
        let c = ctx();
        for i in 0..NSITES {
            self.seams[i] += c.seam_stats[i];
            c.seam_stats[i] = 0;
            for j in 0..7 {
                self.fired[i][j] += c.fired_stats[i][j];
                c.fired_stats[i][j] = 0;
            }
        }
        self.events += c.events;
        c.events = 0;
    }
}

pub struct Slot {
    pub cell: Cell,
    pub obj: *mut dyn Str,
    pub model: String,
    /// what earlier texts may have left in memory
    pub past: Vec<u8>,
}
/// A text that does not go to any place in particular.
const NOWHERE: (usize, usize) = (0, 0);
impl Slot {
    pub fn new(k: &Kind) -> Slot {
        let mut cell = Cell::new();
        let p = cell.place(k.size, k.align, true);
        Slot {
            obj: unsafe { (k.init)(p) },
            cell,
            model: String::with_capacity(300),
            past: Vec::with_capacity(300),
        }
    }
    fn remember(&mut self) {
        let n = self.model.len();
        if self.past.len() < n {
            self.past.resize(n, 0);
        }
        self.past[..n].copy_from_slice(self.model.as_bytes());
    }
    /// The text, and behind it what is left of earlier ones.
    fn past(&self) -> String {
        match std::str::from_utf8(&self.past) {
            Ok(s) => s.to_string(),
            Err(e) => String::from_utf8_lossy(&self.past[..e.valid_up_to()]).into_owned(),
        }
    }
    pub fn reset(&mut self, k: &Kind, high: bool) {
        let p = self.cell.place(k.size, k.align, high);
        self.obj = unsafe { (k.init)(p) };
        self.model.clear();
        self.past.clear();
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut dyn Str {
        unsafe { &mut *self.obj }
    }
}

pub struct Body {
    pub kind: &'static Kind,
    pub slots: [Slot; 3],
    pub fresh: Slot,
    pub drains: [Option<(Box<dyn DrainObj>, String)>; 2],
    /// the places last named
    pub last: [usize; 2],
}
impl Body {
    pub fn new(kind: &'static Kind) -> Body {
        Body {
            kind,
            slots: [Slot::new(kind), Slot::new(kind), Slot::new(kind)],
            fresh: Slot::new(kind),
            drains: [None, None],
            last: [0; 2],
        }
    }
    pub fn reset(&mut self, kind: &'static Kind, high: bool) {
        self.kind = kind;
        for s in self.slots.iter_mut() {
            s.reset(kind, high);
        }
        self.fresh.reset(kind, !high);
        self.drains = [None, None];
        self.last = [0; 2];
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Ch(char),
    OptCh(Option<char>),
    Text(String),
    Chars(Vec<Option<char>>),
    Cmp(Cmp),
    Flags(Vec<bool>),
    Bytes(Vec<u8>),
    Ord(i8),
}
#[derive(Debug)]
pub enum Got {
    Ok(Out),
    Err(E),
    Caller(Site),
    Endless,
    BadLog,
    Own(String),
}
impl Got {
    fn class(&self) -> u64 {
        match self {
            Got::Ok(_) => 0,
            Got::Err(e) => 1 + *e as u64,
            Got::Caller(s) => 10 + *s as u64,
            Got::Endless => 30,
            Got::BadLog => 31,
            Got::Own(_) => 32,
        }
    }
}

/// What must come of an operation.
struct Exp {
    out: Out,
    after: String,
    errs: Vec<E>,
    /// the text had to be cut
    cut: bool,
    /// additional properties concerned when a success is wrong
    ok_tags: u32,
    err_tags: u32,
    /// items that may be asked for
    pulls: Option<u32>,
    /// must panic (indexing)
    panics: bool,
    /// a panic or error of the caller leaves this text
    partial: Option<String>,
}
impl Exp {
    fn ok(out: Out, after: String) -> Exp {
        Exp {
            out,
            after,
            errs: vec![],
            cut: false,
            ok_tags: C01,
            err_tags: 0,
            pulls: None,
            panics: false,
            partial: None,
        }
    }
    fn unit(after: String) -> Exp {
        Exp::ok(Out::Unit, after)
    }
    fn errs(mut self, e: Vec<E>) -> Exp {
        self.errs = e;
        self
    }
    fn cut(mut self, cut: bool) -> Exp {
        self.cut = cut;
        self.ok_tags = if cut { C03 } else { C01 | C03 };
        self
    }
    fn tags(mut self, t: u32) -> Exp {
        self.ok_tags |= t;
        self.err_tags |= t;
        self
    }
    fn pulls(mut self, n: u32) -> Exp {
        self.pulls = Some(n);
        self
    }
}

fn prefix(s: &str, room: usize) -> &str {
    let mut n = room.min(s.len());
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}
fn inside_char(s: &str, i: u128) -> bool {
    i < s.len() as u128 && !s.is_char_boundary(i as usize)
}
pub fn fault_at(faults: &[Fault], s: Site, w: What) -> Option<u32> {
    faults
        .iter()
        .filter(|f| f.site == s && f.what == w)
        .map(|f| f.at)
        .min()
}

/// Items as a source delivers them: (text so far fits?, ...) flattened for the model.
fn sequence<T: Clone>(items: &[T], endless: bool, gap: Option<u32>, enough: usize) -> Vec<T> {
    let n = gap.map_or(usize::MAX, |g| g as usize - 1);
    if items.is_empty() {
        return vec![];
    }
    if endless {
        (0..n.min(enough))
            .map(|i| items[i % items.len()].clone())
            .collect()
    } else {
        items[..n.min(items.len())].to_vec()
    }
}

pub struct Exec<'a> {
    pub task: usize,
    pub nested: bool,
    pub body: &'a mut Body,
    pub shared: Option<*mut Slot>,
    pub readonly: Option<*mut Slot>,
    pub sched: Option<Arc<Sched>>,
    pub viols: Vec<Viol>,
    pub recs: Vec<Rec>,
    pub dead: bool,
    pub step: usize,
    pub states: Vec<u64>,
    pub link: [u64; 6],
    pub ops: Ops,
    /// how often the logger was last called in an operation of each kind
    pub logged: Ops,
    pub allocs: u64,
    pub steps: u64,
    /// order in which the shared string was used: (task, step)
    pub shared_log: Option<*mut Vec<(usize, usize)>>,
    pub record: bool,
}

const HARD_STOP: u32 = 3000;

impl<'a> Exec<'a> {
    pub fn new(task: usize, body: &'a mut Body) -> Exec<'a> {
        Exec {
            task,
            nested: false,
            body,
            shared: None,
            readonly: None,
            sched: None,
            viols: vec![],
            recs: vec![],
            dead: false,
            step: 0,
            states: vec![],
            link: [0; 6],
            ops: Ops([0; NOPS]),
            logged: Ops([20; NOPS]),
            allocs: 0,
            steps: 0,
            shared_log: None,
            record: true,
        }
    }
    fn viol(&mut self, tags: u32, msg: String) {
        self.viols.push(Viol {
            tags,
            task: self.task,
            step: self.step,
            msg,
        });
    }

    fn slot_ptr(&mut self, i: u8) -> *mut Slot {
        match i {
            SHARED if self.shared.is_some() => self.shared.unwrap(),
            READONLY if self.readonly.is_some() => self.readonly.unwrap(),
            i => &mut self.body.slots[i as usize % 3] as *mut Slot,
        }
    }

    pub fn perform(&mut self, i: usize, st: &Step) {
        if self.dead {
            return;
        }
        self.step = i;
        let shared = st.slot == SHARED && self.shared.is_some() && !self.nested;
        if shared {
            if let Some(s) = self.sched.clone() {
                s.lock(self.task);
            }
            if let Some(l) = self.shared_log {
                unsafe { (*l).push((self.task, i)) }
            }
        }
        self.op(st);
        if shared {
            if let Some(s) = self.sched.clone() {
                s.unlock(self.task);
            }
        }
    }

    /// With the places named that are those last named.
    fn placed(&mut self, st: &Step, m: &str) -> Step {
        let mut st = st.clone();
        let spots = self.body.last.map(|n| match u32::try_from(n) {
            Ok(n) => Pos::Abs(n),
            _ => Pos::Max((usize::MAX - n) as u8),
        });
        let own = st.slot < SHARED;
        for (p, last) in st.op.spots().into_iter().zip(self.body.last.iter_mut()) {
            if let Some(p) = p {
                if let Pos::Again(k) = *p {
                    *p = spots[k as usize % 2];
                }
                if own {
                    *last = p.at(m);
                }
            }
        }
        st
    }

    /// Leaves the step out; the places it names count all the same.
    pub fn pass(&mut self, st: &Step) {
        let sp = self.slot_ptr(st.slot);
        let m = unsafe { (*sp).model.clone() };
        self.placed(st, &m);
    }

    fn op(&mut self, st: &Step) {
        for s in self.body.slots.iter_mut() {
            s.remember();
        }
        let sp = self.slot_ptr(st.slot);
        let slot = unsafe { &mut *sp };
        let obj = slot.obj;
        let o = || unsafe { &mut *obj };
        let cap = slot.get().cap();
        let m = slot.model.clone();
        let past = match st.slot {
            SHARED | READONLY => m.clone(),
            _ => slot.past(),
        };
        let len = m.len();
        let room = cap - len;
        let st = self.placed(st, &m);
        let st = &st;
        let faults: &[Fault] = if self.nested { &[] } else { &st.faults };
        let gap = fault_at(faults, Site::Next, What::Gap);

        // helpers of the model
        let chars_of = |it: &Items| -> (Vec<char>, bool) {
            let t = it.txt.on(cap, &m, &past, NOWHERE);
            let v: Vec<char> = t.chars().collect();
            let e = it.endless && !v.is_empty();
            (v, e)
        };
        let pieces_of = |it: &Items| -> (Vec<(String, String)>, bool) {
            let t = it.txt.on(cap, &m, &past, NOWHERE);
            let alt = it.txt.other(cap, len);
            let mut p = pieces(&t, it.cut);
            if !it.endless && it.cut % 64 == 1 {
                // more of nothing than a byte can count
                let k = it.cut as usize / 64;
                let n = [1, 254, 255, 256, 257, 520][k % 6];
                let k = k / 6 % (p.len() + 1);
                p.splice(k..k, (0..n).map(|_| String::new()));
            }
            let v: Vec<(String, String)> = p
                .into_iter()
                .map(|p| (p, alt.clone()))
                .collect();
            let e = it.endless && v.iter().any(|x| !x.0.is_empty());
            (v, e)
        };
        let shape = |it: &Items, endless: bool| Shape {
            endless,
            hint: it.hint,
        };
        let enough = 2 * cap + 600;
        let flow = |sizes: &mut dyn Iterator<Item = usize>| -> u32 {
            let mut used = 0;
            let mut k = 0;
            for n in sizes.filter(|n| *n > 0) {
                used += n;
                if used > cap {
                    break;
                }
                k += 1;
            }
            k + 1
        };
        fn never_str(_: &char) -> bool {
            false
        }
        fn empty_pair(p: &(String, String)) -> bool {
            p.0.is_empty()
        }

        let begin = |watchers: &mut Exec<'_>, stop: Option<u32>| {
            if !watchers.nested {
                let c = ctx();
                c.begin(faults, stop.unwrap_or(0).saturating_add(HARD_STOP));
                c.resolve(watchers.logged.0[opcode(&st.op) as usize % NOPS] as u32);
                c.watch.clear();
                for i in 0..3 {
                    let p = &watchers.body.slots[i] as *const Slot;
                    if !std::ptr::eq(p, sp) {
                        let s = unsafe { &*p };
                        let b = unsafe {
                            std::slice::from_raw_parts(s.cell.ptr, watchers.body.kind.size)
                        };
                        c.watch.push((s.cell.ptr, b.to_vec()));
                    }
                }
            }
        };

        macro_rules! run {
            ($exp:expr, $f:expr) => {{
                let exp: Exp = $exp;
                begin(self, exp.pulls);
                let got = attempt($f);
                self.judge(st, sp, &m, exp, got);
            }};
        }
        let try_fit = |add: usize| -> Vec<E> {
            if len + add > cap {
                vec![E::Oob]
            } else {
                vec![]
            }
        };
        let fits = |n: usize| -> Vec<E> {
            if n > cap {
                vec![E::Oob]
            } else {
                vec![]
            }
        };
        self.steps += 1;
        self.ops.0[opcode(&st.op) as usize % NOPS] += 1;

        match &st.op {
            Op::New => run!(Exp::unit(String::new()), || o().ctor(Ctor::New).map(|_| Out::Unit)),
            Op::Default => run!(Exp::unit(String::new()), || o()
                .ctor(Ctor::Default)
                .map(|_| Out::Unit)),
            Op::TryStr(t) => {
                let (main, alt) = (t.on(cap, &m, &past, NOWHERE), t.other(cap, len));
                run!(Exp::unit(main.clone()).errs(fits(main.len())), || o()
                    .ctor(Ctor::TryStr(SimStr {
                        main: &main,
                        alt: &alt
                    }))
                    .map(|_| Out::Unit))
            }
            Op::StrTrunc(t) => {
                let (main, alt) = (t.on(cap, &m, &past, NOWHERE), t.other(cap, len));
                run!(
                    Exp::unit(prefix(&main, cap).to_string()).cut(main.len() > cap),
                    || o()
                        .ctor(Ctor::StrTrunc(SimStr {
                            main: &main,
                            alt: &alt
                        }))
                        .map(|_| Out::Unit)
                )
            }
            Op::From(t) => {
                let main = t.on(cap, &m, &past, NOWHERE);
                run!(
                    Exp::unit(prefix(&main, cap).to_string()).cut(main.len() > cap),
                    || o().ctor(Ctor::From(&main)).map(|_| Out::Unit)
                )
            }
            Op::Parse(t) => {
                let main = t.on(cap, &m, &past, NOWHERE);
                run!(Exp::unit(main.clone()).errs(fits(main.len())), || o()
                    .ctor(Ctor::Parse(&main))
                    .map(|_| Out::Unit))
            }
            Op::TryIter(it) | Op::IterTrunc(it) | Op::CollectStrs(it) | Op::ExtStrs(it) => {
                let (v, endless) = pieces_of(it);
                let seq = sequence(&v, endless, gap, enough);
                let mut all = String::new();
                for p in &seq {
                    all.push_str(&p.0);
                    if all.len() > 3 * cap + 1500 {
                        break;
                    }
                }
                let k = flow(&mut seq.iter().map(|p| p.0.len()));
                let src = || SimIter {
                    items: &v,
                    pos: 0,
                    shape: shape(it, endless),
                    empty: empty_pair as fn(&(String, String)) -> bool,
                };
                match &st.op {
                    Op::TryIter(_) => {
                        let mut e = Exp::unit(all.clone()).errs(fits(all.len()));
                        e.err_tags |= 0;
                        run!(e, || o()
                            .ctor(Ctor::TryIter(Strs(src())))
                            .map(|_| Out::Unit))
                    }
                    Op::ExtStrs(_) => run!(
                        Exp::unit(format!("{m}{}", prefix(&all, room)))
                            .cut(all.len() > room)
                            .pulls(k),
                        || {
                            o().extend_(Ext::Strs(Pieces(src())));
                            Ok(Out::Unit)
                        }
                    ),
                    op => {
                        let c = matches!(op, Op::CollectStrs(_));
                        run!(
                            Exp::unit(prefix(&all, cap).to_string())
                                .cut(all.len() > cap)
                                .pulls(k),
                            || o()
                                .ctor(if c {
                                    Ctor::CollectStrs(Pieces(src()))
                                } else {
                                    Ctor::IterTrunc(Strs(src()))
                                })
                                .map(|_| Out::Unit)
                        )
                    }
                }
            }
            Op::TryChars(it)
            | Op::CharsTrunc(it)
            | Op::CollectChars(it)
            | Op::ExtChars(it)
            | Op::ExtRefs(it) => {
                let (v, endless) = chars_of(it);
                let seq = sequence(&v, endless, gap, enough);
                let all: String = seq.iter().collect();
                let k = flow(&mut seq.iter().map(|c| c.len_utf8()));
                let src = || SimIter {
                    items: &v,
                    pos: 0,
                    shape: shape(it, endless),
                    empty: never_str as fn(&char) -> bool,
                };
                match &st.op {
                    Op::TryChars(_) => {
                        run!(Exp::unit(all.clone()).errs(fits(all.len())), || o()
                            .ctor(Ctor::TryChars(Chars(src())))
                            .map(|_| Out::Unit))
                    }
                    Op::ExtChars(_) | Op::ExtRefs(_) => {
                        let refs = matches!(&st.op, Op::ExtRefs(_));
                        run!(
                            Exp::unit(format!("{m}{}", prefix(&all, room)))
                                .cut(all.len() > room)
                                .pulls(k),
                            || {
                                o().extend_(if refs {
                                    Ext::Refs(CharRefs(src()))
                                } else {
                                    Ext::Chars(Chars(src()))
                                });
                                Ok(Out::Unit)
                            }
                        )
                    }
                    op => {
                        let c = matches!(op, Op::CollectChars(_));
                        run!(
                            Exp::unit(prefix(&all, cap).to_string())
                                .cut(all.len() > cap)
                                .pulls(k),
                            || o()
                                .ctor(if c {
                                    Ctor::CollectChars(Chars(src()))
                                } else {
                                    Ctor::CharsTrunc(Chars(src()))
                                })
                                .map(|_| Out::Unit)
                        )
                    }
                }
            }
            Op::TryU16(u) | Op::U16Trunc(u) | Op::U16Lossy(u) => {
                let t = u.txt.on(cap, &m, &past, NOWHERE);
                let (units, hits) = carry(&t, &u.link);
                for i in 0..6 {
                    self.link[i] += hits[i] as u64;
                }
                let other: Vec<u16> = u.txt.other(cap, len).encode_utf16().collect();
                let lossy = matches!(&st.op, Op::U16Lossy(_));
                // std's own decoding of what arrived
                let (mut whole, mut bad, mut over) = (String::new(), false, false);
                for r in char::decode_utf16(units.iter().copied()) {
                    let c = match r {
                        Ok(c) => c,
                        Err(_) if lossy => '\u{FFFD}',
                        Err(_) => {
                            bad = true;
                            break;
                        }
                    };
                    if whole.len() + c.len_utf8() > cap {
                        over = true;
                        break;
                    }
                    whole.push(c);
                }
                let src = SimUnits {
                    main: &units,
                    alt: &other,
                };
                let trunc = !matches!(&st.op, Op::TryU16(_));
                let mut e = Exp::unit(whole);
                if trunc {
                    e = e.cut(over);
                }
                let mut errs = vec![];
                if bad {
                    errs.push(E::Utf16);
                }
                if over && !trunc {
                    errs.push(E::Oob);
                }
                e = e.errs(errs).tags(C15);
                run!(e, || o()
                    .ctor(match &st.op {
                        Op::TryU16(_) => Ctor::TryU16(src),
                        Op::U16Trunc(_) => Ctor::U16Trunc(src),
                        _ => Ctor::U16Lossy(src),
                    })
                    .map(|_| Out::Unit))
            }
            Op::TryPushStr(t) => {
                let (main, alt) = (t.on(cap, &m, &past, NOWHERE), t.other(cap, len));
                run!(
                    Exp::unit(format!("{m}{main}")).errs(try_fit(main.len())),
                    || o()
                        .try_push_str_(SimStr {
                            main: &main,
                            alt: &alt
                        })
                        .map(|_| Out::Unit)
                )
            }
            Op::PushTrunc(t) => {
                let (main, alt) = (t.on(cap, &m, &past, NOWHERE), t.other(cap, len));
                run!(
                    Exp::unit(format!("{m}{}", prefix(&main, room))).cut(main.len() > room),
                    || {
                        o().push_str_truncate_(SimStr {
                            main: &main,
                            alt: &alt,
                        });
                        Ok(Out::Unit)
                    }
                )
            }
            Op::TryPush(c) => {
                let c = c.on(&m);
                run!(
                    Exp::unit(format!("{m}{c}")).errs(try_fit(c.len_utf8())),
                    || o().try_push_(c).map(|_| Out::Unit)
                )
            }
            Op::Truncate(p) => {
                let n = p.at(&m);
                let errs = if inside_char(&m, n as u128) {
                    vec![E::Utf8]
                } else {
                    vec![]
                };
                let after = if errs.is_empty() {
                    m[..n.min(len)].to_string()
                } else {
                    m.clone()
                };
                run!(Exp::unit(after).errs(errs), || o()
                    .truncate_(n)
                    .map(|_| Out::Unit))
            }
            Op::Pop => {
                let mut a = m.clone();
                let c = a.pop();
                run!(Exp::ok(Out::OptCh(c), a), || Ok(Out::OptCh(o().pop_())))
            }
            Op::Trim => run!(Exp::unit(m.trim().to_string()), || {
                o().trim_();
                Ok(Out::Unit)
            }),
            Op::Remove(p) => {
                let n = p.at(&m);
                let mut errs = vec![];
                if n >= len {
                    errs.push(E::Oob);
                } else if !m.is_char_boundary(n) {
                    errs.push(E::Utf8);
                }
                let mut a = m.clone();
                let c = if errs.is_empty() { a.remove(n) } else { ' ' };
                run!(Exp::ok(Out::Ch(c), a).errs(errs), || o()
                    .remove_(n)
                    .map(Out::Ch))
            }
            Op::Retain(p) => {
                let mut a = m.clone();
                let mut n = 0;
                a.retain(|c| {
                    n += 1;
                    p.keep(n, c)
                });
                let mut calls = 0;
                let mut f = |c: char| {
                    let _s = seam(Site::Pred);
                    calls += 1;
                    let v = c as u32;
                    if char::from_u32(v).is_none() {
                        ctx().bad = Some("a predicate was handed a value that is no character");
                    }
                    p.keep(calls, c)
                };
                run!(Exp::unit(a), || {
                    o().retain_(&mut f);
                    Ok(Out::Unit)
                })
            }
            Op::TryInsert(p, c) => {
                let (n, c) = (p.at(&m), c.on(&m));
                let mut errs = try_fit(c.len_utf8());
                if n > len {
                    errs.push(E::Oob);
                }
                if inside_char(&m, n as u128) {
                    errs.push(E::Utf8);
                }
                let mut a = m.clone();
                if errs.is_empty() {
                    a.insert(n, c);
                }
                run!(Exp::unit(a).errs(errs), || o()
                    .try_insert_(n, c)
                    .map(|_| Out::Unit))
            }
            Op::TryInsertStr(p, t) | Op::InsertTrunc(p, t) => {
                let n = p.at(&m);
                let (main, alt) = (t.on(cap, &m, &past, (n, n)), t.other(cap, len));
                let trunc = matches!(&st.op, Op::InsertTrunc(..));
                let mut errs = if trunc { vec![] } else { try_fit(main.len()) };
                if n > len {
                    errs.push(E::Oob);
                }
                if inside_char(&m, n as u128) {
                    errs.push(E::Utf8);
                }
                let mut a = m.clone();
                if errs.is_empty() {
                    a.insert_str(n, if trunc { prefix(&main, room) } else { &main });
                }
                let src = SimStr {
                    main: &main,
                    alt: &alt,
                };
                let mut e = Exp::unit(a).errs(errs);
                if trunc {
                    e = e.cut(main.len() > room);
                }
                run!(e, || if trunc {
                    o().insert_str_truncate_(n, src).map(|_| Out::Unit)
                } else {
                    o().try_insert_str_(n, src).map(|_| Out::Unit)
                })
            }
            Op::Clear => run!(Exp::unit(String::new()), || {
                o().clear_();
                Ok(Out::Unit)
            }),
            Op::SplitOff(p, into) => {
                let n = p.at(&m);
                let mut errs = vec![];
                if n > len {
                    errs.push(E::Oob);
                }
                if inside_char(&m, n as u128) {
                    errs.push(E::Utf8);
                }
                let (a, tail) = if errs.is_empty() {
                    (m[..n].to_string(), m[n..].to_string())
                } else {
                    (m.clone(), String::new())
                };
                let into = into.filter(|i| {
                    (*i as usize % 3) != st.slot as usize && st.slot != SHARED && !self.nested
                });
                let e = Exp::ok(Out::Text(tail), a).errs(errs).tags(C12);
                let target = into.map(|i| self.slot_ptr(i % 3));
                let mut got_text = None;
                begin(self, None);
                let got = attempt(|| {
                    let s = o().split_off_(n, target.map(|t| unsafe { &mut *(*t).obj }))?;
                    got_text = Some(s.clone());
                    Ok(Out::Text(s))
                });
                if let (Some(t), Some(s)) = (target, got_text) {
                    unsafe { (*t).model = s }
                }
                self.judge(st, sp, &m, e, got);
            }
            Op::Drain(r, d) => {
                let r = r.range(&m);
                let (s, e) = ends(&r, len);
                let errs = range_errs(&m, s, e);
                let d = *d as usize % 2;
                let (a, part) = if errs.is_empty() {
                    let (s, e) = (s as usize, e as usize);
                    (format!("{}{}", &m[..s], &m[e..]), m[s..e].to_string())
                } else {
                    (m.clone(), String::new())
                };
                let ex = Exp::ok(Out::Text(part), a).errs(errs).tags(C12);
                begin(self, None);
                let mut made = None;
                let got = attempt(|| {
                    let d = o().drain_(r)?;
                    made = Some(d);
                    Ok(Out::Unit)
                });
                let got = match (got, made) {
                    (Got::Ok(_), Some(x)) => {
                        let t = quietly(|| x.as_str_());
                        self.body.drains[d] = Some((x, t.clone()));
                        Got::Ok(Out::Text(t))
                    }
                    (g, _) => g,
                };
                self.judge(st, sp, &m, ex, got);
            }
            Op::ReplaceRange(r, t) => {
                let r = r.range(&m);
                let (s, e) = ends(&r, len);
                let (main, alt) = (t.on(cap, &m, &past, (s.min(999) as usize, e.min(999) as usize)), t.other(cap, len));
                let mut errs = range_errs(&m, s, e);
                if errs.is_empty() {
                    errs = fits(len - (e - s) as usize + main.len());
                } else if main.len() > cap {
                    // cannot fit, whatever is replaced
                    errs.push(E::Oob);
                } else if s <= e && e <= len as u128 {
                    errs.extend(fits(len - (e - s) as usize + main.len()));
                }
                let a = if errs.is_empty() {
                    format!("{}{main}{}", &m[..s as usize], &m[e as usize..])
                } else {
                    m.clone()
                };
                run!(Exp::unit(a).errs(errs), || o()
                    .replace_range_(
                        r,
                        SimStr {
                            main: &main,
                            alt: &alt
                        }
                    )
                    .map(|_| Out::Unit))
            }
            Op::Add(t) => {
                let main = t.on(cap, &m, &past, NOWHERE);
                run!(
                    Exp::unit(format!("{m}{}", prefix(&main, room))).cut(main.len() > room),
                    || {
                        o().add_(&main);
                        Ok(Out::Unit)
                    }
                )
            }
            Op::Index(at) => {
                let (i, part) = index(at, &m);
                let mut e = Exp::ok(
                    Out::Text(part.map_or(String::new(), |p| m[p].to_string())),
                    m.clone(),
                );
                e.panics = index(at, &m).1.is_none();
                run!(e, || Ok(Out::Text(o().index_(i))))
            }
            Op::Edit(via, at, upper) => {
                let (i, part) = index(at, &m);
                let part = if *via == Via::Index {
                    part
                } else {
                    Some(0..len)
                };
                let mut a = m.clone();
                let panics = part.is_none();
                if let Some(p) = part {
                    if *upper {
                        a[p].make_ascii_uppercase()
                    } else {
                        a[p].make_ascii_lowercase()
                    }
                }
                let mut e = Exp::unit(a);
                e.panics = panics;
                run!(e, || {
                    o().edit_(*via, i, *upper);
                    Ok(Out::Unit)
                })
            }
            Op::WriteStr(t) => {
                let main = t.on(cap, &m, &past, NOWHERE);
                let errs = if main.len() > room {
                    vec![E::Fmt]
                } else {
                    vec![]
                };
                run!(
                    Exp::unit(format!("{m}{main}")).errs(errs).tags(C09),
                    || o().write_str_(&main).map(|_| Out::Unit)
                )
            }
            Op::WriteChar(c) => {
                let c = c.on(&m);
                let errs = if c.len_utf8() > room {
                    vec![E::Fmt]
                } else {
                    vec![]
                };
                run!(Exp::unit(format!("{m}{c}")).errs(errs).tags(C09), || o()
                    .write_char_(c)
                    .map(|_| Out::Unit))
            }
            Op::WriteLit(i) => {
                let main = LITS[*i as usize % LITS.len()];
                let errs = if main.len() > room {
                    vec![E::Fmt]
                } else {
                    vec![]
                };
                run!(Exp::unit(format!("{m}{main}")).errs(errs).tags(C09), || o()
                    .write_lit_(*i)
                    .map(|_| Out::Unit))
            }
            Op::WriteFmt {
                a,
                b,
                cut,
                lit,
                ignore,
                by_char,
            } => {
                let pa = pieces(&a.on(cap, &m, &past, NOWHERE), *cut);
                let pb = pieces(&b.on(cap, &m, &past, NOWHERE), *cut ^ 0x55);
                let sa = SimSource {
                    pieces: &pa,
                    ignore: *ignore,
                    by_char: *by_char,
                };
                let sb = SimSource {
                    pieces: &pb,
                    ignore: *ignore,
                    by_char: *by_char,
                };
                // the model: pieces one after the other, each whole or not at all
                let ferr = fault_at(faults, Site::Source, What::Err);
                let fpanic = fault_at(faults, Site::Source, What::Panic);
                let mut text = m.clone();
                let mut n = 0;
                let mut end: Option<E> = None;
                let mut panicked = false;
                let put = |text: &mut String, s: &str| -> bool {
                    if text.len() + s.len() > cap {
                        return false;
                    }
                    text.push_str(s);
                    true
                };
                for part in 0..3 {
                    if end.is_some() || panicked {
                        break;
                    }
                    if part == 1 {
                        if *lit && !put(&mut text, "-\u{e9}-") {
                            end = Some(E::Fmt);
                        }
                        continue;
                    }
                    for p in if part == 0 { &pa } else { &pb } {
                        n += 1;
                        // the first matching fault in the list decides, as at the seam
                        if Some(n) == fpanic && (Some(n) != ferr || first_is_panic(faults, n)) {
                            panicked = true;
                            break;
                        }
                        if Some(n) == ferr {
                            end = Some(E::Fmt);
                            break;
                        }
                        let ok = if *by_char {
                            let mut ok = true;
                            for c in p.chars() {
                                if !put(&mut text, c.encode_utf8(&mut [0; 4])) {
                                    ok = false;
                                    break;
                                }
                            }
                            ok
                        } else {
                            put(&mut text, p)
                        };
                        if !ok && !*ignore {
                            end = Some(E::Fmt);
                            break;
                        }
                    }
                }
                let mut e = Exp::unit(text.clone()).tags(C09);
                e.partial = Some(text);
                if end.is_some() {
                    e.errs = vec![E::Fmt];
                }
                run!(e, || o().write_fmt_(&sa, *lit, &sb).map(|_| Out::Unit))
            }
            Op::Display { room } | Op::Debug { room, .. } => {
                let alt = match &st.op {
                    Op::Debug { alt, .. } => Some(*alt),
                    _ => None,
                };
                let full = match alt {
                    None => m.clone(),
                    Some(alt) => quietly(|| o().twin_debug_(&m, alt)),
                };
                let flags = (*room % 8) as u8;
                let room = match *room {
                    r if r >= 1000 => usize::MAX,
                    r => r as usize % (full.len() + 2),
                };
                let mut k = SimSink::new(room);
                begin(self, None);
                let kp: *mut SimSink = &mut k;
                let got = attempt(|| {
                    let k = unsafe { &mut *kp };
                    match alt {
                        None => o().display_(k, flags)?,
                        Some(alt) => o().debug_(k, alt)?,
                    }
                    Ok(Out::Unit)
                });
                let mut e = Exp::unit(m.clone()).tags(C09 | C13);
                e.partial = Some(m.clone());
                if k.failed {
                    e.errs = vec![E::Fmt];
                }
                let done = matches!(got, Got::Ok(_));
                let label = if alt.is_some() { "Debug" } else { "Display" };
                if !full.starts_with(&k.buf) || (done && !k.failed && k.buf != full) {
                    let t = if alt.is_some() { C09 | C13 } else { C01 | C09 | C13 };
                    self.viol(
                        t,
                        format!("{label} of {m:?} wrote {:?}, not {full:?}", k.buf),
                    );
                }
                if k.after_failure {
                    self.viol(C09, format!("{label} wrote on after the sink had failed"));
                }
                self.judge(st, sp, &m, e, got);
            }
            Op::Cmp(other) => {
                let op = self.slot_ptr(*other % 3);
                let mo = unsafe { (*op).model.clone() };
                if unsafe { (*op).get().as_any().type_id() != slot.get().as_any().type_id() } {
                    return;
                }
                let oo = unsafe { (*op).obj };
                run!(
                    Exp::ok(Out::Cmp(cmp_of(&m, &mo)), m.clone()).tags(C13),
                    || Ok(Out::Cmp(o().cmp_(unsafe { &*oo })))
                )
            }
            Op::CmpText(t) => {
                let s = t.on(cap, &m, &past, NOWHERE);
                let s = if t.seed % 3 == 0 { m.clone() } else { s };
                if t.seed % 3 == 1 && !m.is_empty() {
                    let b = bounds(&m);
                    let k = b[t.seed as usize / 3 % b.len()];
                    let (x, y) = match t.seed % 4 {
                        0 => (k, m.len()),
                        _ => (0, k),
                    };
                    let same = y - x == m.len();
                    run!(
                        Exp::ok(Out::Flags(vec![same, !same, same, !same]), m.clone()).tags(C13),
                        || Ok(Out::Flags(o().cmp_own_(x, y).to_vec()))
                    );
                    return;
                }
                run!(
                    Exp::ok(
                        Out::Flags(vec![m == s, m != s, m == s, m != s]),
                        m.clone()
                    )
                    .tags(C13),
                    || Ok(Out::Flags(o().cmp_text_(&s).to_vec()))
                )
            }
            Op::Hash => {
                let mut want = SimHasher::new();
                std::hash::Hash::hash(m.as_str(), &mut want);
                std::hash::Hash::hash_slice(&[m.as_str(), m.as_str()], &mut want);
                let mut h = SimHasher::new();
                let hp: *mut SimHasher = &mut h;
                run!(
                    Exp::ok(Out::Bytes(want.buf), m.clone()).tags(C13),
                    || {
                        o().hash_(unsafe { &mut *hp }, false);
                        o().hash_(unsafe { &mut *hp }, true);
                        Ok(Out::Bytes(unsafe { (*hp).buf.clone() }))
                    }
                )
            }
            Op::Fresh => self.fresh(st, sp, &m),
            Op::Copy(from, _) | Op::CloneFrom(from) => {
                let how = match &st.op {
                    Op::Copy(_, clone) => *clone as u8,
                    _ => 2,
                };
                let from = if *from == READONLY { READONLY } else { *from % 3 };
                let fp = self.slot_ptr(from);
                if unsafe { (*fp).get().as_any().type_id() != slot.get().as_any().type_id() }
                    || std::ptr::eq(fp, sp)
                {
                    return;
                }
                let mo = unsafe { (*fp).model.clone() };
                let fo = unsafe { (*fp).obj };
                run!(Exp::unit(mo).tags(C08), || {
                    o().copy_from_(unsafe { &*fo }, how);
                    Ok(Out::Unit)
                })
            }
            Op::Lookup(t, same) => {
                let key = if *same { m.clone() } else { t.on(cap, &m, &past, NOWHERE) };
                let hit = key == m;
                run!(
                    Exp::ok(Out::Flags(vec![hit, hit]), m.clone()).tags(C13),
                    || {
                        let r = o().map_lookup_(&key);
                        Ok(Out::Flags(vec![r.0, r.1]))
                    }
                )
            }
            Op::Views => {
                run!(
                    Exp::ok(
                        Out::Flags(vec![true, true, true, true, true, m.is_empty()]),
                        m.clone()
                    )
                    .tags(C13),
                    || {
                        let v = o().views();
                        let e = o().is_empty_();
                        let n = o().len_() == m.len();
                        Ok(Out::Flags(vec![
                            v[0].as_bytes() == m.as_bytes(),
                            v[1].as_bytes() == m.as_bytes(),
                            v[2].as_bytes() == m.as_bytes(),
                            v[3].as_bytes() == m.as_bytes(),
                            n,
                            e,
                        ]))
                    }
                )
            }
            Op::DNext(d, n) | Op::DBack(d, n) => {
                let back = matches!(&st.op, Op::DBack(..));
                let d = *d as usize % 2;
                let Some((x, dm)) = self.body.drains[d].as_mut() else {
                    return;
                };
                let mut want = vec![];
                let mut left = dm.clone();
                for _ in 0..*n {
                    if back {
                        want.push(left.pop());
                    } else {
                        want.push((!left.is_empty()).then(|| left.remove(0)));
                    }
                }
                let xp: *mut dyn DrainObj = &mut **x;
                let dmp: *mut String = dm;
                begin(self, None);
                let got = attempt(|| {
                    let x = unsafe { &mut *xp };
                    Ok(Out::Chars(
                        (0..*n)
                            .map(|_| if back { x.next_back_() } else { x.next_() })
                            .collect(),
                    ))
                });
                unsafe { *dmp = left };
                let e = Exp::ok(Out::Chars(want), m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, e, got);
            }
            Op::DStr(d) => {
                let d = *d as usize % 2;
                let Some((x, dm)) = self.body.drains[d].as_ref() else {
                    return;
                };
                let (xp, want): (*const dyn DrainObj, _) = (&**x, dm.clone());
                begin(self, None);
                let got = attempt(|| Ok(Out::Text(unsafe { (*xp).as_str_() })));
                let e = Exp::ok(Out::Text(want), m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, e, got);
            }
            Op::DCopy(d, e, clone) => {
                let (d, e) = (*d as usize % 2, *e as usize % 2);
                let Some((x, dm)) = self.body.drains[d].as_ref() else {
                    return;
                };
                let (xp, want): (*const dyn DrainObj, _) = (&**x, dm.clone());
                let mut made = None;
                begin(self, None);
                let got = attempt(|| {
                    made = Some(unsafe { (*xp).copy_(*clone) });
                    Ok(Out::Unit)
                });
                if let Some(x) = made {
                    if d != e {
                        self.body.drains[e] = Some((x, want));
                    }
                }
                let ex = Exp::ok(Out::Unit, m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, ex, got);
            }
            Op::DCollect(d, rev) => {
                let d = *d as usize % 2;
                let Some((x, dm)) = self.body.drains[d].as_mut() else {
                    return;
                };
                let want: String = if *rev {
                    dm.chars().rev().collect()
                } else {
                    dm.clone()
                };
                let xp: *mut dyn DrainObj = &mut **x;
                let dmp: *mut String = dm;
                begin(self, None);
                let got = attempt(|| Ok(Out::Text(unsafe { (*xp).collect_(*rev) })));
                unsafe { (*dmp).clear() };
                let e = Exp::ok(Out::Text(want), m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, e, got);
            }
            Op::DIter(d, kind, n) => {
                let d = *d as usize % 2;
                let Some((x, dm)) = self.body.drains[d].as_mut() else {
                    return;
                };
                let mut want = String::with_capacity(4096);
                let left = quietly(|| {
                    let mut it = dm.chars();
                    adaptors(&mut it, *kind, *n, &mut want);
                    it.as_str().to_string()
                });
                let xp: *mut dyn DrainObj = &mut **x;
                let dmp: *mut String = dm;
                begin(self, None);
                let mut out = String::with_capacity(4096);
                let got = attempt(|| {
                    unsafe { (*xp).iter_(*kind, *n, &mut out) };
                    Ok(Out::Text(out))
                });
                unsafe { *dmp = left };
                let e = Exp::ok(Out::Text(want), m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, e, got);
            }
            Op::DEach(d, kind) => {
                let d = *d as usize % 2;
                let Some((x, dm)) = self.body.drains[d].as_mut() else {
                    return;
                };
                let ends = if self.nested {
                    None
                } else {
                    fault_at(faults, Site::Consumer, What::Panic)
                };
                let mut want = String::with_capacity(1100);
                let left = quietly(|| {
                    let mut it = dm.chars();
                    // a panic at the n-th: so many have left the iterator
                    match (kind % HANDS, ends.map(|n| n as usize)) {
                        (k @ 0..=5, Some(n)) => {
                            for i in 1..=n {
                                let back = k == 2 || k == 5;
                                let c = if back { it.next_back() } else { it.next() };
                                let Some(c) = c else { break };
                                if i < n {
                                    want.push(c)
                                }
                            }
                        }
                        (k, Some(n)) => {
                            let mut it = it.clone();
                            for _ in 1..n {
                                let c = if k == 7 { it.next_back() } else { it.next() };
                                want.extend(c);
                            }
                        }
                        _ => hand_over(&mut it, *kind, &mut |c| want.push(c)),
                    }
                    it.as_str().to_string()
                });
                let xp: *mut dyn DrainObj = &mut **x;
                let dmp: *mut String = dm;
                begin(self, None);
                let mut seen = String::with_capacity(1100);
                let sp2: *mut String = &mut seen;
                let got = attempt(|| {
                    let mut f = |c: char| {
                        let _s = seam(Site::Consumer);
                        let seen = unsafe { &mut *sp2 };
                        if seen.len() < 1000 {
                            seen.push(c)
                        }
                    };
                    unsafe { (*xp).each_(*kind, &mut f) };
                    Ok(Out::Unit)
                });
                unsafe { *dmp = left };
                if seen != want && !matches!(got, Got::Caller(Site::Log) | Got::Own(_)) {
                    self.viol(C12, format!("the consumer was given {seen:?}, not {want:?}"));
                }
                let e = Exp::ok(Out::Unit, m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, e, got);
            }
            Op::DNew(d) => {
                let d = *d as usize % 2;
                let Some((x, dm)) = self.body.drains[d].as_mut() else {
                    return;
                };
                dm.clear();
                let xp: *mut dyn DrainObj = &mut **x;
                begin(self, None);
                let got = attempt(|| {
                    unsafe { (*xp).clear_() };
                    Ok(Out::Unit)
                });
                let e = Exp::ok(Out::Unit, m.clone()).tags(C12);
                self.judge_drain(d, st, sp, &m, e, got);
            }
            Op::DDrop(d) | Op::DLeak(d) => {
                let leak = matches!(&st.op, Op::DLeak(_));
                let Some((x, _)) = self.body.drains[*d as usize % 2].take() else {
                    return;
                };
                let e = Exp::unit(m.clone()).tags(C12);
                run!(e, || {
                    if leak {
                        x.leak_();
                    } else {
                        drop(x);
                    }
                    Ok(Out::Unit)
                })
            }
            Op::DCmp(a, b) => {
                let (a, b) = (*a as usize % 2, *b as usize % 2);
                let (Some((x, mx)), Some((y, my))) =
                    (self.body.drains[a].as_ref(), self.body.drains[b].as_ref())
                else {
                    return;
                };
                let mut h = SimHasher::new();
                std::hash::Hash::hash(mx.as_str(), &mut h);
                // with itself: with one of the same text and without its past
                let twin = quietly(|| x.twin_(mx));
                let shown = twin.as_ref().map(|t| quietly(|| t.debug_()));
                let (yp, my): (*const dyn DrainObj, &str) = match &twin {
                    Some(t) if a == b => (&**t, mx),
                    _ => (&**y, my),
                };
                let (c, r) = (cmp_of(mx, my), cmp_of(my, mx));
                let want = Out::Text(format!("{c:?} {r:?} {:x?} {shown:?}", h.buf));
                let xp: *const dyn DrainObj = &**x;
                begin(self, None);
                let got = attempt(|| {
                    let (x, y) = unsafe { (&*xp, &*yp) };
                    let mut h = SimHasher::new();
                    x.hash_(&mut h);
                    Ok(Out::Text(format!(
                        "{:?} {:?} {:x?} {:?}",
                        x.cmp_(y),
                        y.cmp_(x),
                        h.buf,
                        shown.as_ref().map(|_| x.debug_())
                    )))
                });
                let e = Exp::ok(want, m.clone()).tags(C13);
                self.judge_drain(a, st, sp, &m, e, got);
            }
        }
    }

    /// Rendering of a string with this text and no past.
    fn fresh(&mut self, st: &Step, sp: *mut Slot, m: &str) {
        let obj = unsafe { (*sp).obj };
        if unsafe { (*sp).get().as_any().type_id() }
            != self.body.fresh.get().as_any().type_id()
        {
            return;
        }
        let fo = self.body.fresh.obj;
        let want = quietly(|| {
            let o = unsafe { &mut *fo };
            let _ = o.ctor(Ctor::From(m));
            o.twin_debug_(m, false)
        });
        let c = cmp_of(m, m);
        let e = Exp::ok(
            Out::Text(format!("{c:?} {c:?} {want} true true")),
            m.to_string(),
        )
        .tags(C13);
        if !self.nested {
            ctx().begin(&st.faults, HARD_STOP);
            ctx().resolve(20);
            ctx().watch.clear();
        }
        let got = attempt(|| {
            let (o, f) = unsafe { (&*obj, &*fo) };
            let a = o.cmp_(f);
            let b = f.cmp_(o);
            let mut k = SimSink::new(usize::MAX);
            o.debug_(&mut k, false)?;
            let (mut h, mut g) = (SimHasher::new(), SimHasher::new());
            o.hash_(&mut h, false);
            f.hash_(&mut g, false);
            let (mut x, mut y) = (SimSink::new(usize::MAX), SimSink::new(usize::MAX));
            o.display_(&mut x, 9)?;
            f.display_(&mut y, 9)?;
            for i in 0..6 {
                // wider, narrower and cut short: whatever it does, it does to both
                let (w, p) = (m.len() + 7, m.len() / 2);
                o.show_as_(&mut x, i, w, p)?;
                f.show_as_(&mut y, i, w, p)?;
            }
            Ok(Out::Text(format!(
                "{a:?} {b:?} {} {} {}",
                k.buf,
                h.buf == g.buf,
                x.buf == y.buf
            )))
        });
        self.judge(st, sp, m, e, got);
    }

    fn judge_drain(&mut self, d: usize, st: &Step, sp: *mut Slot, m: &str, e: Exp, got: Got) {
        let logged = matches!(got, Got::Caller(Site::Log));
        self.judge(st, sp, m, e, got);
        if logged || self.dead {
            // cut short by the logger: go on from what there is
            if let Some((x, dm)) = self.body.drains[d].as_mut() {
                let t = quietly(|| x.as_str_());
                *dm = t;
            }
        }
    }

    fn judge(&mut self, st: &Step, sp: *mut Slot, m: &str, e: Exp, got: Got) {
        let slot = unsafe { &mut *sp };
        let opname = || {
            let s = format!("{:?}", st.op);
            s.split(['(', ' ', '{']).next().unwrap_or("").to_string()
        };
        let (mut fired, mut allocs, mut pulls) = (vec![], 0, 0);
        if !self.nested {
            let c = ctx();
            pulls = c.pulls;
            allocs = c.end();
            fired = c.fired.clone();
            if !fired.iter().any(|f| f.site == Site::Log && f.what == What::Panic) {
                self.logged.0[opcode(&st.op) as usize % NOPS] = c.counts[Site::Log as usize] as u64;
            }
            if let Some(b) = c.bad.take() {
                self.viol(C02 | C08, format!("during {}: {b}", opname()));
            }
            c.watch.clear();
        }
        let fired_is = |s: Site, w: What| fired.iter().any(|f| f.site == s && f.what == w);
        let log_panic = fired_is(Site::Log, What::Panic);
        let alt = fired.iter().any(|f| f.what == What::Alt);
        let caller_fault = fired
            .iter()
            .find(|f| f.what == What::Panic && f.site != Site::Log)
            .copied();

        // 1. the object itself
        let len = quietly(|| slot.get().len_());
        let cap = slot.get().cap();
        if len > cap {
            self.viol(
                C02 | C01 | C03 | C04,
                format!("{}: length {len} exceeds capacity {cap}", opname()),
            );
            self.dead = true;
            return;
        }
        let now: Vec<u8> = slot.get().bytes().to_vec();
        let Ok(now) = String::from_utf8(now) else {
            let t = match &got {
                Got::Ok(_) => e.ok_tags,
                Got::Err(_) => C04,
                Got::Caller(Site::Log) => 0,
                Got::Caller(_) => C05,
                _ => 0,
            };
            self.viol(
                C02 | t,
                format!("{}: the text is no longer UTF-8", opname()),
            );
            self.dead = true;
            return;
        };
        if !slot.cell.intact() {
            self.viol(
                C02,
                format!("{}: wrote outside the string's storage", opname()),
            );
            self.dead = true;
            return;
        }

        // 2. the outcome
        let mut bad: Vec<(u32, String)> = vec![];
        let class_tags = if e.errs.is_empty() {
            e.ok_tags
        } else {
            C04 | e.err_tags
        };
        let mut caller_panic = false;
        match &got {
            Got::Own(p) => {
                if !(e.panics && e.errs.is_empty()) {
                    bad.push((
                        C07 | if alt || log_panic { 0 } else { class_tags },
                        format!("panicked on its own account: {p}"),
                    ));
                }
                if now != m && !alt && !log_panic && e.panics {
                    bad.push((C01, format!("text became {now:?} from {m:?} in a panic")));
                }
            }
            Got::BadLog => bad.push((C02, "the logger was handed text that is not UTF-8".into())),
            Got::Endless => bad.push((
                C07 | if e.pulls.is_some() { C03 } else { 0 },
                format!("asked an endless source for more than {pulls} items"),
            )),
            Got::Caller(Site::Log) => {}
            Got::Caller(s) => {
                caller_panic = true;
                let want = e.partial.as_deref().unwrap_or(m);
                if now != want && !alt && !log_panic {
                    let t = match s {
                        Site::Source => C09,
                        Site::Sink => C09 | C13,
                        Site::Hasher => C13,
                        Site::Consumer => C12,
                        _ => C05,
                    };
                    bad.push((
                        t,
                        format!("after a panic of the caller's code ({s:?}) the text is {now:?}, not {want:?}"),
                    ));
                }
            }
            _ if log_panic => {}
            _ if caller_fault.is_some() => {
                bad.push((
                    C05,
                    format!(
                        "a panic of the caller's code ({:?}) did not reach the caller",
                        caller_fault.unwrap().site
                    ),
                ));
            }
            Got::Err(_) if alt => {
                if now != m {
                    bad.push((
                        C04 | e.err_tags,
                        format!("failed, but the text became {now:?} from {m:?}"),
                    ));
                }
            }
            Got::Ok(Out::Text(part)) if alt && matches!(st.op, Op::Drain(..)) => {
                // whichever range it was: what is gone from the string is what comes out
                let whole = (0..=now.len())
                    .filter(|p| now.is_char_boundary(*p))
                    .any(|p| format!("{}{part}{}", &now[..p], &now[p..]) == m);
                if !whole {
                    bad.push((
                        C12,
                        format!("drained {part:?}, leaving {now:?}: no part of the text"),
                    ));
                }
            }
            Got::Ok(_) if alt => {}
            Got::Err(x) => {
                let want = e.partial.as_deref().unwrap_or(m);
                if e.errs.is_empty() {
                    bad.push((
                        C04 | e.ok_tags,
                        format!("failed with {x:?} though it had to succeed"),
                    ));
                } else if !e.errs.contains(x) {
                    bad.push((
                        C04 | e.err_tags,
                        format!("failed with {x:?}; only {:?} apply", e.errs),
                    ));
                }
                if now != want {
                    bad.push((
                        C04 | e.err_tags,
                        format!("failed with {x:?}, but the text is {now:?}, not {want:?}"),
                    ));
                }
            }
            Got::Ok(v) => {
                if e.panics {
                    bad.push((
                        C01,
                        format!("gave {v:?} for an index that has to be refused"),
                    ));
                } else if !e.errs.is_empty() {
                    bad.push((
                        C04 | e.err_tags | if e.cut { C03 } else { 0 },
                        format!("succeeded though {:?} applies; the text is {now:?}", e.errs),
                    ));
                } else {
                    if *v != e.out {
                        bad.push((e.ok_tags, format!("returned {v:?}, not {:?}", e.out)));
                    }
                    if now != e.after {
                        bad.push((
                            e.ok_tags,
                            format!("from {m:?} the text became {now:?}, not {:?}", e.after),
                        ));
                    }
                }
            }
        }
        if let Some(k) = e.pulls {
            if pulls > k && !alt && !self.nested && !matches!(got, Got::Endless) {
                bad.push((
                    C03,
                    format!("asked its source for {pulls} items where {k} settle the matter"),
                ));
            }
        }
        if allocs > 0 && !matches!(got, Got::Own(_)) {
            self.allocs += allocs as u64;
            bad.push((C06, format!("asked for memory {allocs} times")));
        }
        let after_class = |s: &str| -> u64 {
            if s.is_empty() {
                0
            } else if s.len() == cap {
                2
            } else {
                1
            }
        };
        // 3. the others
        for i in 0..3 {
            let p: *mut Slot = &mut self.body.slots[i];
            if std::ptr::eq(p, sp) {
                continue;
            }
            let s = unsafe { &*p };
            let n = quietly(|| s.get().len_());
            if n > s.get().cap() || s.get().bytes() != s.model.as_bytes() || !s.cell.intact() {
                let into = matches!(&st.op, Op::SplitOff(_, Some(k)) if *k as usize % 3 == i);
                let t = if into { C01 | C12 | C02 } else { C02 | C08 };
                bad.push((t, format!("string {i}, which was not concerned, changed")));
                self.dead = true;
            }
        }
        for i in 0..2 {
            if let Some((x, dm)) = self.body.drains[i].as_mut() {
                let acting = matches!(&st.op, Op::DNext(d, _) | Op::DBack(d, _) | Op::DCollect(d, _) | Op::DIter(d, ..) | Op::DEach(d, _) | Op::DNew(d) if *d as usize % 2 == i)
                    || matches!(&st.op, Op::Drain(_, d) if *d as usize % 2 == i);
                if acting && matches!(got, Got::Caller(Site::Log)) {
                    continue;
                }
                let t = quietly(|| x.as_str_());
                if t != *dm {
                    bad.push((
                        if acting { C12 | C01 } else { C12 | C08 },
                        format!("drain {i} still holds {t:?}, not {dm:?}"),
                    ));
                    *dm = t;
                }
            }
        }

        // 4. note it down
        let before_class = after_class(m);
        let cap_class = usize::BITS - cap.leading_zeros();
        let mut h = opcode(&st.op) as u64
            | before_class << 8
            | after_class(&now) << 10
            | got.class() << 12
            | (e.cut as u64) << 20
            | (e.panics as u64) << 21
            | (m.is_ascii() as u64) << 22
            | (cap_class as u64) << 24
            | ((cap - now.len()).min(5) as u64) << 28;
        for f in &fired {
            h = crate::rng::mix(h ^ (f.site as u64) << 8 ^ (f.what as u64) << 4 ^ (f.at.min(4) as u64));
        }
        self.states.push(h);
        let loose = alt || log_panic || caller_panic || !fired.is_empty();
        if self.record {
            // rendering is compared on its own: the two families render their names differently
            let shown = match (&got, &st.op) {
                (Got::Ok(_), Op::Fresh) => "Ok".to_string(),
                (Got::Own(_), _) => "Own panic".to_string(),
                _ => format!("{got:?}"),
            };
            let mut line = format!("{} {shown} | {now:?}", opname());
            for d in self.body.drains.iter().flatten() {
                line.push_str(&format!(" d={:?}", d.1));
            }
            self.recs.push(Rec {
                task: self.task,
                step: self.step,
                nested: self.nested,
                caller_panic,
                loose,
                line,
            });
        }
        for (t, msg) in bad {
            let name = opname();
            let kind = self.body.kind.name;
            let fs = if fired.is_empty() {
                String::new()
            } else {
                format!(" [faults fired: {fired:?}]")
            };
            self.viol(t, format!("{kind} {name} on {m:?}: {msg}{fs}"));
        }
        // the model goes on from what is there
        slot.model = now;
    }
}

fn first_is_panic(faults: &[Fault], n: u32) -> bool {
    faults
        .iter()
        .find(|f| f.site == Site::Source && f.at == n)
        .is_some_and(|f| f.what == What::Panic)
}

pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    let c = ctx();
    let old = std::mem::replace(&mut c.quiet, true);
    let r = f();
    ctx().quiet = old;
    r
}

fn attempt(f: impl FnOnce() -> R<Out>) -> Got {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Got::Ok(v),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => {
            if let Some(i) = p.downcast_ref::<Injected>() {
                Got::Caller(i.0)
            } else if p.is::<Endless>() {
                Got::Endless
            } else if p.is::<BadLog>() {
                Got::BadLog
            } else {
                Got::Own(ctx().panic_msg.replace('\n', " "))
            }
        }
    }
}

fn range_errs(m: &str, s: u128, e: u128) -> Vec<E> {
    let mut v = vec![];
    if s > e || e > m.len() as u128 {
        v.push(E::Oob);
    }
    if inside_char(m, s) || inside_char(m, e) {
        v.push(E::Utf8);
    }
    v
}

fn index(at: &At, m: &str) -> (Idx, Option<std::ops::Range<usize>>) {
    let (a, b) = (at.a.at(m) as u8, at.b.at(m) as u8);
    let (x, y) = (a as usize, b as usize);
    let (i, r) = match at.kind % 7 {
        0 => (Idx::From(a), x..m.len()),
        1 => (Idx::To(b), 0..y),
        2 => (Idx::Full, 0..m.len()),
        3 => (Idx::Range(a, b), x..y),
        4 => (Idx::ToInc(b), 0..y + 1),
        5 => (Idx::Inc(a, b), x..y + 1),
        _ => {
            // the text `str` selects
            let r = m.get(spent(x, y)).map(|p| {
                let at = p.as_ptr() as usize - m.as_ptr() as usize;
                at..at + p.len()
            });
            return (Idx::Spent(a, b), r);
        }
    };
    let ok = m.get(r.clone()).is_some();
    (i, ok.then_some(r))
}

fn cmp_of(a: &str, b: &str) -> Cmp {
    Cmp {
        eq: a == b,
        ne: a != b,
        lt: a < b,
        le: a <= b,
        gt: a > b,
        ge: a >= b,
        cmp: ord(a.cmp(b)),
        partial: a.partial_cmp(b).map(ord),
        chosen: [a.min(b).to_string(), a.max(b).to_string(), a.to_string()],
    }
}

pub fn opcode(op: &Op) -> u8 {
    match op {
        Op::New => 0,
        Op::Default => 1,
        Op::TryStr(_) => 2,
        Op::StrTrunc(_) => 3,
        Op::From(_) => 4,
        Op::Parse(_) => 5,
        Op::TryIter(_) => 6,
        Op::IterTrunc(_) => 7,
        Op::CollectStrs(_) => 8,
        Op::TryChars(_) => 9,
        Op::CharsTrunc(_) => 10,
        Op::CollectChars(_) => 11,
        Op::TryU16(_) => 12,
        Op::U16Trunc(_) => 13,
        Op::U16Lossy(_) => 14,
        Op::TryPushStr(_) => 15,
        Op::PushTrunc(_) => 16,
        Op::TryPush(_) => 17,
        Op::Truncate(_) => 18,
        Op::Pop => 19,
        Op::Trim => 20,
        Op::Remove(_) => 21,
        Op::Retain(_) => 22,
        Op::TryInsert(..) => 23,
        Op::TryInsertStr(..) => 24,
        Op::InsertTrunc(..) => 25,
        Op::Clear => 26,
        Op::SplitOff(..) => 27,
        Op::Drain(..) => 28,
        Op::ReplaceRange(..) => 29,
        Op::ExtChars(_) => 30,
        Op::ExtRefs(_) => 31,
        Op::ExtStrs(_) => 32,
        Op::Add(_) => 33,
        Op::Index(_) => 34,
        Op::Edit(..) => 35,
        Op::WriteStr(_) => 36,
        Op::WriteChar(_) => 37,
        Op::WriteFmt { .. } => 38,
        Op::Display { .. } => 39,
        Op::Debug { .. } => 40,
        Op::Cmp(_) => 41,
        Op::CmpText(_) => 42,
        Op::Hash => 43,
        Op::Fresh => 44,
        Op::Copy(..) => 45,
        Op::Lookup(..) => 46,
        Op::Views => 47,
        Op::DNext(..) => 48,
        Op::DBack(..) => 49,
        Op::DStr(_) => 50,
        Op::DCopy(..) => 51,
        Op::DCollect(..) => 52,
        Op::DDrop(_) => 53,
        Op::DLeak(_) => 54,
        Op::DCmp(..) => 55,
        Op::DEach(..) => 56,
        Op::DNew(_) => 57,
        Op::WriteLit(_) => 58,
        Op::CloneFrom(_) => 59,
        Op::DIter(_, k, _) => 60 + k % ADAPTORS,
    }
}
