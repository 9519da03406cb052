//! One run of a plan, and the twin runs that some properties are about.

use crate::adapt::*;
use crate::ctx::*;
use crate::exec::*;
use crate::plan::*;
use crate::sched::Sched;
use std::collections::HashSet;
use std::sync::{Arc, OnceLock};

static KINDS: OnceLock<Vec<&'static Kind>> = OnceLock::new();
pub fn register(k: Vec<&'static Kind>) {
    let _ = KINDS.set(k);
}
pub fn kinds() -> &'static [&'static Kind] {
    KINDS.get().expect("registered")
}
pub fn kind(name: &str) -> &'static Kind {
    kinds()
        .iter()
        .find(|k| k.name == name)
        .or_else(|| {
            // a plan made with all capacities, replayed with fewer: take the nearest
            let n: usize = name
                .trim_start_matches("ArrayString<")
                .trim_end_matches('>')
                .parse()
                .unwrap_or(63);
            kinds()
                .iter()
                .filter(|k| !k.cache)
                .min_by_key(|k| k.cap.abs_diff(n))
        })
        .expect("kind")
}

#[derive(Clone, Default)]
pub struct Variant {
    /// every task by itself, nothing nested, shared strings used in this order
    pub alone: Option<Vec<(usize, usize)>>,
    /// how many nested operations each task ran
    pub nested: Vec<usize>,
    pub skip: HashSet<(usize, usize)>,
    pub log: Option<LogMode>,
    pub kind: Option<&'static str>,
    pub keep_going: bool,
}
#[derive(Default)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    pub recs: Vec<Rec>,
    pub shared_log: Vec<(usize, usize)>,
    pub nested: Vec<usize>,
    pub dead: bool,
}

/// Storage is reused from run to run.
#[derive(Default)]
pub struct Pool {
    bodies: Vec<Body>,
    slots: Vec<Slot>,
}
impl Pool {
    fn body(&mut self, k: &'static Kind, high: bool) -> Body {
        let mut b = self.bodies.pop().unwrap_or_else(|| Body::new(k));
        b.reset(k, high);
        b
    }
    fn slot(&mut self, k: &'static Kind, high: bool) -> Slot {
        let mut s = self.slots.pop().unwrap_or_else(|| Slot::new(k));
        s.reset(k, high);
        s
    }
}

struct Send_<T>(T);
unsafe impl<T> Send for Send_<T> {}
impl<T> Send_<T> {
    fn get(self) -> T {
        self.0
    }
}

fn start_readonly(s: &mut Slot) {
    // residue behind the text, as histories leave it
    quietly(|| {
        let o = s.get();
        let _ = o.ctor(Ctor::From(&crate::text::make(1, 77, o.cap())));
        let _ = o.ctor(Ctor::From(&crate::text::make(9, 42, o.cap() * 2 / 3)));
    });
    s.model = String::from_utf8(s.get().bytes().to_vec()).unwrap_or_default();
}

struct Outcome {
    viols: Vec<Viol>,
    recs: Vec<Rec>,
    states: Vec<u64>,
    nested: usize,
    dead: bool,
    link: [u64; 6],
    ops: Ops,
    allocs: u64,
    steps: u64,
    evhash: u64,
}

/// Runs steps of one task with whatever nests inside them.
#[allow(clippy::too_many_arguments)]
fn drive<'a>(
    e: &mut Exec<'a>,
    n: &mut Exec<'_>,
    task: &Task,
    from: usize,
    to: usize,
    v: &Variant,
    npos: &mut usize,
    sched: Option<(&Arc<Sched>, usize)>,
) {
    let c = ctx();
    let np: *mut usize = npos;
    let ne: *mut Exec<'_> = n;
    let mut hook = || unsafe {
        if *np < task.nested.len() {
            let i = *np;
            *np += 1;
            (*ne).perform(i, &task.nested[i]);
        }
    };
    {
        let h: &mut dyn FnMut() = &mut hook;
        let h: *mut dyn FnMut() = unsafe { std::mem::transmute(h) };
        c.nest = if v.alone.is_none() && !task.nested.is_empty() {
            Some(h)
        } else {
            None
        };
    }
    for i in from..to {
        if v.skip.contains(&(e.task, i)) {
            e.pass(&task.steps[i]);
            continue;
        }
        if let Some((s, me)) = sched {
            s.yield_now(me, false);
        }
        if v.alone.is_some() {
            let mut st = task.steps[i].clone();
            st.faults
                .retain(|f| !matches!(f.what, What::Nest | What::Switch));
            e.perform(i, &st);
        } else {
            e.perform(i, &task.steps[i]);
        }
    }
    ctx().nest = None;
}

fn outcome(e: Exec<'_>, n: Exec<'_>, npos: usize) -> Outcome {
    let mut viols = e.viols;
    viols.extend(n.viols.into_iter().map(|mut v| {
        v.tags |= C08;
        v.msg = format!("(nested) {}", v.msg);
        v
    }));
    let mut recs = e.recs;
    recs.extend(n.recs);
    let mut states = e.states;
    states.extend(n.states);
    Outcome {
        viols,
        recs,
        states,
        nested: npos,
        dead: e.dead || n.dead,
        link: e.link,
        ops: e.ops,
        allocs: e.allocs,
        steps: e.steps + n.steps,
        evhash: 0,
    }
}

pub fn run(plan: &Plan, v: &Variant, pool: &mut Pool, cover: &mut Cover) -> RunOut {
    let log = v.log.unwrap_or(plan.log);
    set_log(log);
    let nt = plan.tasks.len();
    let mut out = RunOut {
        nested: vec![0; nt],
        ..RunOut::default()
    };
    let kind_of = |t: &Task| kind(v.kind.unwrap_or(&t.kind));
    let mut bodies: Vec<(Body, Body)> = plan
        .tasks
        .iter()
        .map(|t| {
            let k = kind_of(t);
            (pool.body(k, plan.high), pool.body(k, !plan.high))
        })
        .collect();
    let mut shared = plan.shared_kind.as_ref().map(|k| {
        let k = kind(k);
        let mut ro = pool.slot(k, plan.high);
        start_readonly(&mut ro);
        (pool.slot(k, plan.high), ro)
    });
    let sp = shared
        .as_mut()
        .map(|(a, b)| (a as *mut Slot, b as *mut Slot));
    let slog: *mut Vec<(usize, usize)> = &mut out.shared_log;
    let mut results: Vec<Option<Outcome>> = (0..nt).map(|_| None).collect();

    let setup = |e: &mut Exec<'_>| {
        if let Some((a, b)) = sp {
            e.shared = Some(a);
            e.readonly = Some(b);
            e.shared_log = Some(slog);
        }
    };

    if nt == 1 || v.alone.is_some() {
        let mut it = bodies.iter_mut();
        let mut es: Vec<(Exec<'_>, Exec<'_>, usize, usize)> = vec![];
        for t in 0..nt {
            let (b, nb) = it.next().unwrap();
            let mut e = Exec::new(t, b);
            setup(&mut e);
            let mut n = Exec::new(t, nb);
            n.nested = true;
            es.push((e, n, 0, 0));
        }
        ctx().evhash = 0;
        if let Some(order) = &v.alone {
            for (t, s) in order {
                let (e, n, pos, np) = &mut es[*t];
                if *s >= *pos {
                    drive(e, n, &plan.tasks[*t], *pos, s + 1, v, np, None);
                    *pos = s + 1;
                }
            }
        }
        for (t, (e, n, pos, np)) in es.iter_mut().enumerate() {
            let task = &plan.tasks[t];
            drive(e, n, task, *pos, task.steps.len(), v, np, None);
            if v.alone.is_some() {
                // what ran nested, run by itself
                for i in 0..v.nested.get(t).copied().unwrap_or(0) {
                    ctx().depth += 1;
                    n.perform(i, &task.nested[i]);
                    ctx().depth -= 1;
                }
            }
        }
        let h = ctx().evhash;
        for (t, (e, n, _, np)) in es.into_iter().enumerate() {
            let mut o = outcome(e, n, np);
            o.evhash = h;
            results[t] = Some(o);
        }
        cover.take_ctx();
    } else {
        let sched = Arc::new(Sched::new(nt, plan.choices.clone()));
        let spp = Send_((sp, slog));
        let spp = Arc::new(std::sync::Mutex::new(spp));
        std::thread::scope(|scope| {
            let mut handles = vec![];
            for (t, b) in bodies.iter_mut().enumerate() {
                let sched = sched.clone();
                let b = Send_(b);
                let spp = spp.clone();
                let task = &plan.tasks[t];
                let v = &v;
                handles.push(scope.spawn(move || {
                    let b = b.get();
                    sched.enter(t);
                    let c = ctx();
                    c.logmode = log;
                    c.sched = Some((sched.clone(), t));
                    let mut e = Exec::new(t, &mut b.0);
                    {
                        let g = spp.lock().unwrap();
                        if let Some((a, r)) = g.0 .0 {
                            e.shared = Some(a);
                            e.readonly = Some(r);
                            e.shared_log = Some(g.0 .1);
                        }
                    }
                    e.sched = Some(sched.clone());
                    let mut n = Exec::new(t, &mut b.1);
                    n.nested = true;
                    let mut np = 0;
                    drive(
                        &mut e,
                        &mut n,
                        task,
                        0,
                        task.steps.len(),
                        v,
                        &mut np,
                        Some((&sched, t)),
                    );
                    ctx().sched = None;
                    let mut o = outcome(e, n, np);
                    o.evhash = ctx().evhash;
                    let mut cov = Cover::default();
                    cov.take_ctx();
                    sched.finish(t);
                    Send_((o, cov))
                }));
            }
            sched.start();
            for (t, h) in handles.into_iter().enumerate() {
                let (o, cov) = h.join().expect("task").get();
                cover.merge(cov);
                results[t] = Some(o);
            }
        });
        let s = sched.stats();
        cover.switches += s.switches;
        cover.yields += s.yields;
        cover.schedules.insert(s.trace);
    }
    let mut trace = 0u64;
    for (t, o) in results.into_iter().enumerate() {
        let o = o.unwrap();
        out.viols.extend(o.viols);
        out.nested[t] = o.nested;
        out.dead |= o.dead;
        for r in &o.recs {
            trace = crate::rng::hash_bytes(trace, r.line.as_bytes());
        }
        trace = crate::rng::mix(trace ^ o.evhash);
        out.recs.extend(o.recs);
        cover.states.extend(o.states);
        for i in 0..6 {
            cover.link[i] += o.link[i];
        }
        for i in 0..NOPS {
            cover.ops.0[i] += o.ops.0[i];
        }
        cover.allocs += o.allocs;
        cover.steps += o.steps;
    }
    cover.traces.insert(trace);
    for (a, b) in bodies {
        pool.bodies.push(a);
        pool.bodies.push(b);
    }
    if let Some((a, b)) = shared {
        pool.slots.push(a);
        pool.slots.push(b);
    }
    set_log(LogMode::Off);
    out
}

/// What the histories of two runs disagree on.
fn differ(
    a: &[Rec],
    b: &[Rec],
    tag: u32,
    how: &str,
    skip: &HashSet<(usize, usize)>,
) -> Option<Viol> {
    let key = |r: &Rec| (r.nested, r.task, r.step);
    let mut x: Vec<&Rec> = a
        .iter()
        .filter(|r| r.nested || !skip.contains(&(r.task, r.step)))
        .collect();
    let mut y: Vec<&Rec> = b.iter().collect();
    x.sort_by_key(|r| key(r));
    y.sort_by_key(|r| key(r));
    for (p, q) in x.iter().zip(y.iter()) {
        if key(p) != key(q) || p.line != q.line {
            return Some(Viol {
                tags: tag,
                task: p.task,
                step: p.step,
                msg: format!("{how}: {} -- but: {}", p.line, q.line),
            });
        }
    }
    if x.len() != y.len() {
        return Some(Viol {
            tags: tag,
            task: 0,
            step: 0,
            msg: format!("{how}: {} operations against {}", x.len(), y.len()),
        });
    }
    None
}

/// Runs a plan the way the property wants it and returns what was wrong with it.
pub fn check(prop: &str, plan: &Plan, pool: &mut Pool, cover: &mut Cover) -> Vec<Viol> {
    cover.runs += 1;
    let first = run(plan, &Variant::default(), pool, cover);
    let mut viols = first.viols;
    let none = HashSet::new();
    if first.dead {
        return viols;
    }
    match prop {
        "C05" => {
            let skip: HashSet<(usize, usize)> = first
                .recs
                .iter()
                .filter(|r| r.caller_panic && !r.line.starts_with("Write"))
                .map(|r| (r.task, r.step))
                .collect();
            if !skip.is_empty() {
                let v = Variant {
                    skip: skip.clone(),
                    ..Variant::default()
                };
                let second = run(plan, &v, pool, cover);
                cover.count("histories rerun without the aborted operations", 1);
                viols.extend(differ(
                    &first.recs,
                    &second.recs,
                    C05,
                    "after operations aborted by the caller's panics",
                    &skip,
                ));
            }
        }
        "C08" => {
            let v = Variant {
                alone: Some(first.shared_log.clone()),
                nested: first.nested.clone(),
                ..Variant::default()
            };
            let second = run(plan, &v, pool, cover);
            cover.count("histories rerun alone", plan.tasks.len() as u64);
            viols.extend(differ(
                &first.recs,
                &second.recs,
                C08,
                "interleaved",
                &none,
            ));
        }
        "C14" => {
            let v = Variant {
                kind: Some("ArrayString<63>"),
                ..Variant::default()
            };
            let second = run(plan, &v, pool, cover);
            cover.count("histories run on both strings", 1);
            if !second.dead {
                viols.extend(differ(
                    &first.recs,
                    &second.recs,
                    C14,
                    "CacheString",
                    &none,
                ));
            }
        }
        "C16" => {
            let mut digest = 0;
            for r in &first.recs {
                digest = crate::rng::hash_bytes(digest, r.line.as_bytes());
            }
            cover.digests.push(digest);
            if cfg!(feature = "logs") {
                for (mode, how) in [
                    (LogMode::Render, "with a rendering logger"),
                    (LogMode::Reenter, "with a logger that uses strings"),
                ] {
                    let v = Variant {
                        log: Some(mode),
                        ..Variant::default()
                    };
                    let second = run(plan, &v, pool, cover);
                    cover.count(&format!("histories rerun {how}"), 1);
                    if !second.dead {
                        viols.extend(differ(&second.recs, &first.recs, C16, how, &none));
                    }
                }
            }
        }
        _ => {}
    }
    viols
}

/// A plan's history and what its other run has to know (see `isolate`).
pub fn record(
    prop: &str,
    plan: &Plan,
    other: Option<&serde_json::Value>,
    pool: &mut Pool,
) -> Option<(Vec<String>, serde_json::Value)> {
    let mut c = Cover::default();
    let v = match (prop, other) {
        ("C05" | "C08", None) => Variant::default(),
        ("C05", Some(x)) => Variant {
            skip: serde_json::from_value(x.clone()).ok()?,
            ..Variant::default()
        },
        ("C08", Some(x)) => {
            let (alone, nested) = serde_json::from_value(x.clone()).ok()?;
            Variant {
                alone: Some(alone),
                nested,
                ..Variant::default()
            }
        }
        _ => return None,
    };
    let out = run(plan, &v, pool, &mut c);
    let aborted = |r: &Rec| prop == "C05" && r.caller_panic && !r.line.starts_with("Write");
    let mut recs: Vec<&Rec> = out.recs.iter().filter(|r| !aborted(r)).collect();
    recs.sort_by_key(|r| (r.nested, r.task, r.step));
    let lines = recs.iter().map(|r| r.line.clone()).collect();
    let how = if prop == "C05" {
        let skip: Vec<(usize, usize)> = out
            .recs
            .iter()
            .filter(|r| aborted(r))
            .map(|r| (r.task, r.step))
            .collect();
        serde_json::json!(skip)
    } else {
        serde_json::json!((out.shared_log, out.nested))
    };
    Some((lines, how))
}
