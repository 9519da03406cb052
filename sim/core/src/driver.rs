//! Searches over seeds with several processes, survives what the code under test does to them,
//! cuts failing plans down and writes and replays them.

use crate::ctx::*;
use crate::exec::{tag_names, Cover, Viol};
use crate::mem;
use crate::rng::{hash_bytes, mix};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

pub trait World {
    type P: Serialize + DeserializeOwned + Clone + PartialEq;
    fn name(&self) -> &'static str;
    fn plan(&mut self, seed: u64) -> Self::P;
    fn check(&mut self, p: &Self::P, cover: &mut Cover) -> Vec<Viol>;
    /// smaller plans, most promising first
    fn smaller(&self, p: &Self::P, failed_at: Option<(usize, usize)>) -> Vec<Self::P>;
    fn size(&self, p: &Self::P) -> usize;
    /// What a plan's operations gave, and what has to be known to run it the other way: without
    /// the operations that the caller's panics aborted, or everything by itself.
    fn record(&mut self, _p: &Self::P, _other: Option<&Value>) -> Option<(Vec<String>, Value)> {
        None
    }
    /// the recorded history of a plan, for comparison across builds
    fn history(&mut self, _p: &Self::P) -> Vec<String> {
        vec![]
    }
}

pub fn prop_tag(prop: &str) -> u32 {
    1 << prop.trim_start_matches('C').parse::<u32>().unwrap_or(31)
}
pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(1, prop.as_bytes())) ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

pub struct Args(pub HashMap<String, String>);
impl Args {
    pub fn parse(mut it: impl Iterator<Item = String>) -> Args {
        let mut m = HashMap::new();
        while let Some(k) = it.next() {
            if let Some(k) = k.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                m.insert("file".into(), k);
            }
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

/// No address-space randomisation, so that a run that depends on addresses repeats as well.
pub fn settle_process() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p as libc::c_ulong & NO_RANDOMIZE == 0 {
            if libc::personality(p as libc::c_ulong | NO_RANDOMIZE) != -1 {
                use std::os::unix::process::CommandExt;
                let mut a = std::env::args_os();
                a.next();
                if std::env::var_os("DST_SETTLED").is_none() {
                    let e = std::process::Command::new("/proc/self/exe")
                        .args(a)
                        .env("DST_SETTLED", "1")
                        .exec();
                    eprintln!("re-exec: {e}");
                }
            }
        }
        // failing runs may die in many ways; none needs a core file
        let l = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    install_hook();
    install_logger();
    install_trap();
}

/// How one execution of a plan in a process of its own ended.
#[derive(Clone, Debug)]
pub enum End {
    Fine,
    Viol(Viol),
    /// killed by that signal; true if the allocator had refused something
    Died(i32, bool),
    Hung,
}
#[derive(Serialize, Deserialize)]
struct WireViol {
    tags: u32,
    task: usize,
    step: usize,
    msg: String,
}

fn pick_viol(v: Vec<Viol>, tag: u32) -> Option<Viol> {
    v.into_iter().find(|v| v.tags & tag != 0)
}

/// Runs something in a process of its own and returns what it sent back.
fn apart(limit: Duration, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, (End, Vec<u8>)> {
    let page = mem::shared_page();
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            mem::set_progress(page);
            let s = f();
            let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]);
            let _ = f.write_all(&s);
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let t0 = Instant::now();
        let mut pfd = libc::pollfd {
            fd: fds[0],
            events: libc::POLLIN,
            revents: 0,
        };
        let mut buf = vec![];
        let mut hung = false;
        loop {
            let left = limit.saturating_sub(t0.elapsed());
            if left.is_zero() {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::poll(&mut pfd, 1, left.as_millis().min(1000) as i32);
            if n > 0 {
                let mut b = [0; 65536];
                match f.read(&mut b) {
                    Ok(0) => break,
                    Ok(n) => buf.extend_from_slice(&b[..n]),
                    Err(_) => break,
                }
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let refused = mem::refused_of(page);
        libc::munmap(page as *mut _, mem::PAGE);
        if hung {
            return Err((End::Hung, buf));
        }
        if libc::WIFSIGNALED(st) {
            return Err((End::Died(libc::WTERMSIG(st), refused), buf));
        }
        if libc::WEXITSTATUS(st) != 0 {
            return Err((End::Died(-libc::WEXITSTATUS(st), refused), buf));
        }
        Ok(buf)
    }
}

/// How many of a worker's first runs are run twice more.
const REPEATED: u64 = 12;

fn wired(v: Viol) -> WireViol {
    WireViol {
        tags: v.tags,
        task: v.task,
        step: v.step,
        msg: v.msg,
    }
}

/// One plan in a process of its own, after others that are not judged.
pub fn trial<W: World>(w: &mut W, before: &[W::P], p: &W::P, tag: u32, limit: Duration) -> End {
    let r = apart(limit, || {
        let mut c = Cover::default();
        for q in before {
            let _ = w.check(q, &mut c);
        }
        let v = pick_viol(w.check(p, &mut c), tag).map(wired);
        serde_json::to_vec(&v).unwrap()
    });
    ended(r)
}

fn ended(r: Result<Vec<u8>, (End, Vec<u8>)>) -> End {
    match r {
        Err((e, _)) => e,
        Ok(buf) => match serde_json::from_slice::<Option<WireViol>>(&buf) {
            Ok(Some(v)) => End::Viol(Viol {
                tags: v.tags,
                task: v.task,
                step: v.step,
                msg: v.msg,
            }),
            Ok(None) => End::Fine,
            Err(_) => End::Died(0, false),
        },
    }
}

/// Does the library remember something outside the strings? A sequence of plans in one process
/// against the same without the operations that panics aborted (C05), or the last plan after
/// others against the same plan by itself (C08), each in a process of its own.
pub fn isolate<W: World>(w: &mut W, prop: &str, before: &[W::P], p: &W::P) -> Option<String> {
    let limit = Duration::from_secs(30);
    let mut both = |skip: Option<&Vec<Value>>| -> Option<Vec<(Vec<String>, Value)>> {
        let r = apart(limit, || {
            let mut out = vec![];
            let n = before.len();
            for (i, q) in before.iter().chain([p]).enumerate() {
                if prop == "C08" && skip.is_some() && i < n {
                    continue;
                }
                let Some(r) = w.record(q, skip.map(|s| &s[i])) else {
                    return b"null".to_vec();
                };
                if prop == "C08" && i < n {
                    out.push((vec![], r.1));
                } else {
                    out.push(r);
                }
            }
            serde_json::to_vec(&out).unwrap()
        });
        serde_json::from_slice(&r.ok()?).ok()
    };
    let a = both(None)?;
    let skips: Vec<Value> = a.iter().map(|x| x.1.clone()).collect();
    let b = both(Some(&skips))?;
    let x: Vec<&String> = a.iter().flat_map(|r| &r.0).collect();
    let y: Vec<&String> = b.iter().flat_map(|r| &r.0).collect();
    for (p, q) in x.iter().zip(&y) {
        if p != q {
            let how = if prop == "C05" {
                "after operations aborted by the caller's panics"
            } else {
                "after work on other strings"
            };
            return Some(format!("{how}: {p} -- but otherwise: {q}"));
        }
    }
    (x.len() != y.len()).then(|| format!("{} operations against {}", x.len(), y.len()))
}

fn same(a: &End, b: &End) -> bool {
    match (a, b) {
        (End::Viol(_), End::Viol(_)) => true,
        (End::Died(x, r), End::Died(y, q)) => (x == y || (!*r && !*q)) && r == q,
        (End::Hung, End::Hung) => true,
        _ => false,
    }
}

pub fn minimise<W: World>(
    w: &mut W,
    before: &[W::P],
    p: W::P,
    tag: u32,
    end: End,
) -> (W::P, End, u64) {
    let (mut p, mut end) = (p, end);
    let t0 = Instant::now();
    let hang = matches!(end, End::Hung);
    let limit = Duration::from_millis(if hang { 1500 } else { 10_000 });
    let budget = Duration::from_secs(40);
    let mut tried = 0;
    'again: loop {
        let at = match &end {
            End::Viol(v) => Some((v.task, v.step)),
            _ => None,
        };
        for c in w.smaller(&p, at) {
            if t0.elapsed() > budget || tried > 6000 {
                break 'again;
            }
            if c == p {
                continue;
            }
            tried += 1;
            let e = trial(w, before, &c, tag, limit);
            if same(&end, &e) {
                p = c;
                end = e;
                continue 'again;
            }
        }
        break;
    }
    (p, end, tried)
}

fn describe(end: &End) -> (String, Vec<String>) {
    match end {
        End::Fine => ("nothing".into(), vec![]),
        End::Viol(v) => (v.msg.clone(), tag_names(v.tags)),
        End::Died(_, true) => (
            "the process aborted when the allocator refused a request made by an operation".into(),
            vec!["C06".into()],
        ),
        End::Died(s, _) => (format!("the process died (signal {s})"), vec![]),
        End::Hung => ("an operation did not return".into(), vec![]),
    }
}

/// Leaves out what is not needed.
fn shorten<P: Clone>(v: &mut Vec<P>, mut still: impl FnMut(&[P]) -> bool) {
    let t0 = Instant::now();
    let mut n = v.len().div_ceil(2);
    while n > 0 && !v.is_empty() {
        let mut i = 0;
        while i < v.len() && t0.elapsed() < Duration::from_secs(40) {
            let mut c = v.clone();
            c.drain(i..(i + n).min(v.len()));
            if still(&c) {
                *v = c;
            } else {
                i += n;
            }
        }
        n = if n == 1 { 0 } else { n.div_ceil(2) };
    }
}

#[derive(Default)]
struct Part {
    cover: Cover,
    viol: Option<(u64, WireViol)>,
    /// some runs that were odd, though not in the way this property is about
    odd: Vec<u64>,
    digests: Vec<(u64, u64)>,
    repeats: (u64, u64),
}
fn put_u64s(out: &mut Vec<u8>, v: impl ExactSizeIterator<Item = u64>) {
    out.extend_from_slice(&(v.len() as u64).to_le_bytes());
    for x in v {
        out.extend_from_slice(&x.to_le_bytes());
    }
}
fn write_part(path: &str, p: &Part) {
    let c = &p.cover;
    let mut o = vec![];
    put_u64s(
        &mut o,
        vec![
            c.runs, c.steps, c.events, c.allocs, c.switches, c.yields, p.repeats.0, p.repeats.1,
        ]
        .into_iter(),
    );
    put_u64s(&mut o, c.states.iter().copied().collect::<Vec<_>>().into_iter());
    put_u64s(&mut o, c.traces.iter().copied().collect::<Vec<_>>().into_iter());
    put_u64s(
        &mut o,
        c.schedules.iter().copied().collect::<Vec<_>>().into_iter(),
    );
    put_u64s(
        &mut o,
        c.fired.iter().flatten().copied().collect::<Vec<_>>().into_iter(),
    );
    put_u64s(&mut o, c.seams.iter().copied());
    put_u64s(&mut o, c.link.iter().copied());
    put_u64s(&mut o, c.ops.0.iter().copied());
    put_u64s(
        &mut o,
        p.digests
            .iter()
            .flat_map(|d| [d.0, d.1])
            .collect::<Vec<_>>()
            .into_iter(),
    );
    let tail = serde_json::to_vec(&(&c.own, &p.viol, &p.odd)).unwrap();
    o.extend_from_slice(&tail);
    std::fs::write(path, o).expect("write part");
}
fn read_part(path: &str) -> Option<Part> {
    let b = std::fs::read(path).ok()?;
    let mut at = 0;
    let mut get = || -> Vec<u64> {
        let n = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
        at += 8;
        let v = (0..n)
            .map(|i| u64::from_le_bytes(b[at + 8 * i..at + 8 * i + 8].try_into().unwrap()))
            .collect();
        at += 8 * n;
        v
    };
    let mut p = Part::default();
    let h = get();
    let c = &mut p.cover;
    (c.runs, c.steps, c.events, c.allocs) = (h[0], h[1], h[2], h[3]);
    (c.switches, c.yields) = (h[4], h[5]);
    p.repeats = (h[6], h[7]);
    c.states = get().into_iter().collect();
    c.traces = get().into_iter().collect();
    c.schedules = get().into_iter().collect();
    for (i, x) in get().into_iter().enumerate() {
        c.fired[i / 7][i % 7] = x;
    }
    for (i, x) in get().into_iter().enumerate() {
        c.seams[i] = x;
    }
    for (i, x) in get().into_iter().enumerate() {
        c.link[i] = x;
    }
    for (i, x) in get().into_iter().enumerate() {
        c.ops.0[i] = x;
    }
    p.digests = get().chunks(2).map(|d| (d[0], d[1])).collect();
    #[allow(clippy::type_complexity)]
    let (own, viol, odd): (Vec<(String, u64)>, Option<(u64, WireViol)>, Vec<u64>) =
        serde_json::from_slice(&b[at..]).ok()?;
    p.odd = odd;
    p.cover.own = own;
    p.viol = viol;
    Some(p)
}

fn trace_of<W: World>(w: &mut W, p: &W::P) -> u64 {
    let mut c = Cover::default();
    let v = w.check(p, &mut c);
    let mut t: Vec<u64> = c.traces.iter().copied().collect();
    t.extend(c.schedules.iter().copied());
    t.sort();
    let mut h = 0;
    for x in t {
        h = mix(h ^ x);
    }
    for x in v {
        h = hash_bytes(h, x.msg.as_bytes());
    }
    mix(h ^ c.events)
}

/// All that the worker that met this run did before it, and then this run, in a process of its own.
fn lead<W: World>(
    w: &mut W,
    prop: &str,
    (seed, workers, i): (u64, u64, u64),
    tag: u32,
    limit: Duration,
) -> End {
    let r = apart(limit, || {
        let mut j = i % workers;
        loop {
            let mut c = Cover::default();
            let plan = w.plan(run_seed(seed, prop, j));
            let v = w.check(&plan, &mut c);
            if j == i {
                return serde_json::to_vec(&pick_viol(v, tag).map(wired)).unwrap();
            }
            if j / workers < REPEATED {
                let _ = (trace_of(w, &plan), trace_of(w, &plan));
            }
            j += workers;
        }
    });
    ended(r)
}

/// `check`: the search. Returns the exit code.
pub fn search<W: World>(w: &mut W, prop: &str, a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let runs = a.num("runs", 1000);
    let workers = a.num("workers", 8).max(1);
    let deadline = Duration::from_secs(a.num("deadline", 400));
    let build = a.get("build").unwrap_or("A").to_string();
    let tmp = a.get("tmp").unwrap_or("/tmp").to_string();
    let tag = prop_tag(prop);
    let t0 = Instant::now();
    let page: Vec<_> = (0..workers).map(|_| mem::shared_page()).collect();
    let mut pids = vec![];
    for k in 0..workers {
        let part = format!("{tmp}/part-{}-{k}", std::process::id());
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            mem::set_progress(page[k as usize]);
            let mut p = Part::default();
            let mut i = k;
            while i < runs {
                if i / workers % 64 == 0 && t0.elapsed() > deadline {
                    break;
                }
                mem::set_index(i + 1);
                let s = run_seed(seed, prop, i);
                let plan = w.plan(s);
                let v = w.check(&plan, &mut p.cover);
                for d in p.cover.digests.drain(..) {
                    p.digests.push((i, d));
                }
                let mut odd = !v.is_empty();
                if i / workers < REPEATED {
                    // the same seed again has to give the same execution
                    p.repeats.0 += 1;
                    if trace_of(w, &plan) == trace_of(w, &plan) {
                        p.repeats.1 += 1;
                    } else {
                        odd = true;
                    }
                }
                if odd {
                    if std::env::var_os("DST_ODD").is_some() {
                        match v.first() {
                            Some(v) => eprintln!("odd run {i}: {:?} {}", tag_names(v.tags), v.msg),
                            None => eprintln!("odd run {i}: did not repeat"),
                        }
                    }
                    // the state they depend on may take a while to build up
                    let far = p.odd.last().map_or(0, |l| 3 * (l + workers * 10));
                    if p.odd.len() < 6 && i >= far {
                        p.odd.push(i);
                    }
                }
                if let Some(v) = pick_viol(v, tag) {
                    p.viol = Some((
                        i,
                        WireViol {
                            tags: v.tags,
                            task: v.task,
                            step: v.step,
                            msg: v.msg,
                        },
                    ));
                    break;
                }
                if p.cover.traces.len() > 3_000_000 {
                    p.cover.traces.clear();
                }
                i += workers;
            }
            write_part(&part, &p);
            unsafe { libc::_exit(0) };
        }
        pids.push((pid, part, false));
    }
    // watch over them
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers as usize];
    let mut failed: Vec<(u64, End)> = vec![];
    let mut infra: Option<String> = None;
    let hang_after = Duration::from_secs(40);
    loop {
        let mut alive = 0;
        for k in 0..pids.len() {
            if pids[k].2 {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[k].0, &mut st, libc::WNOHANG) };
            let idx = mem::index_of(page[k]);
            if r == 0 {
                alive += 1;
                if seen[k].0 != idx {
                    seen[k] = (idx, Instant::now());
                } else if seen[k].1.elapsed() > hang_after {
                    unsafe {
                        libc::kill(pids[k].0, libc::SIGKILL);
                        libc::waitpid(pids[k].0, &mut st, 0);
                    }
                    pids[k].2 = true;
                    failed.push((idx.saturating_sub(1), End::Hung));
                }
                continue;
            }
            pids[k].2 = true;
            if libc::WIFSIGNALED(st) {
                let s = libc::WTERMSIG(st);
                if s == libc::SIGKILL || s == libc::SIGTERM {
                    infra = Some(format!("worker {k} was ended from outside (signal {s})"));
                } else {
                    failed.push((idx.saturating_sub(1), End::Died(s, mem::refused_of(page[k]))));
                }
            } else if libc::WEXITSTATUS(st) != 0 {
                failed.push((
                    idx.saturating_sub(1),
                    End::Died(-libc::WEXITSTATUS(st), mem::refused_of(page[k])),
                ));
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut cover = Cover::default();
    let mut digests = vec![];
    let mut repeats = (0, 0);
    let mut odd = vec![];
    for (_, part, _) in &pids {
        if let Some(p) = read_part(part) {
            cover.merge(p.cover);
            digests.extend(p.digests);
            repeats.0 += p.repeats.0;
            repeats.1 += p.repeats.1;
            odd.extend(p.odd);
            if let Some((i, v)) = p.viol {
                failed.push((
                    i,
                    End::Viol(Viol {
                        tags: v.tags,
                        task: v.task,
                        step: v.step,
                        msg: v.msg,
                    }),
                ));
            }
        }
        let _ = std::fs::remove_file(part);
    }
    if let Some(f) = a.get("digests") {
        digests.sort();
        let s: String = digests
            .iter()
            .map(|(i, d)| format!("{i} {d:016x}\n"))
            .collect();
        std::fs::write(f, s).expect("digests");
    }
    failed.sort_by_key(|f| f.0);
    let mut violation = Value::Null;
    if let Some((i, end)) = failed.into_iter().next() {
        let s = run_seed(seed, prop, i);
        let plan = w.plan(s);
        let full = w.size(&plan);
        let limit = Duration::from_secs(if matches!(end, End::Hung) { 10 } else { 30 });
        let mut again = trial(w, &[], &plan, tag, limit);
        let mut before: Vec<W::P> = vec![];
        let mut n = 1;
        while !same(&end, &again) && before.len() as u64 <= i / workers && n < 5000 {
            // then what the worker had run before matters
            before = (1..=n.min(i / workers))
                .rev()
                .map(|j| w.plan(run_seed(seed, prop, i - j * workers)))
                .collect();
            again = trial(w, &before, &plan, tag, limit);
            if n >= i / workers {
                break;
            }
            n *= 4;
        }
        let mut after = Value::Null;
        if !same(&end, &again) && i >= workers && !matches!(end, End::Hung) {
            // or all of it
            let much = t0.elapsed() * 2 + Duration::from_secs(30);
            if same(&end, &lead(w, prop, (seed, workers, i), tag, much)) {
                let dict = a.get("dict").and_then(|f| std::fs::read_to_string(f).ok());
                after = json!({
                    "workers": workers, "every": a.get("every") == Some("1"),
                    "dict": dict.and_then(|s| serde_json::from_str::<Value>(&s).ok()),
                });
            }
        }
        let reproduced = same(&end, &again);
        if reproduced {
            shorten(&mut before, |b| same(&end, &trial(w, b, &plan, tag, limit)));
        } else {
            before.clear();
        }
        let (min, end, tried) = if reproduced {
            minimise(w, &before, plan, tag, again)
        } else {
            (plan, end, 0)
        };
        let (msg, tags) = describe(&end);
        let dir = a.get("replays").unwrap_or("/tmp");
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{dir}/{prop}-{build}-{i}.json");
        let file = json!({
            "property": prop,
            "world": w.name(),
            "build": build,
            "verif_seed": seed,
            "run": i,
            "run_seed": s,
            "violation": msg,
            "tags": tags,
            "how": match &end { End::Viol(_) => "violation", End::Hung => "hang", _ => "crash" },
            "reproduced_in_a_fresh_process": reproduced || !after.is_null(),
            "after_all_runs_of_the_worker": after,
            "steps_before_minimising": full,
            "steps": w.size(&min),
            "candidates_tried": tried,
            "before": before,
            "plan": min,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("replay file");
        println!("violation: {msg}");
        println!("REPLAY {path}");
        violation = json!({"message": msg, "replay": path, "run": i, "tags": tags, "reproduced": reproduced || !after.is_null()});
    }
    if violation.is_null() && matches!(prop, "C05" | "C08") {
        odd.sort();
        let t1 = Instant::now();
        'odd: for i in odd {
            let mut n = 0;
            while t1.elapsed() < Duration::from_secs(100) {
                let plan = w.plan(run_seed(seed, prop, i));
                let mut before: Vec<W::P> = (1..=n)
                    .rev()
                    .map(|j| w.plan(run_seed(seed, prop, i - j * workers)))
                    .collect();
                if isolate(w, prop, &before, &plan).is_some() {
                    let full = w.size(&plan);
                    shorten(&mut before, |b| isolate(w, prop, b, &plan).is_some());
                    // a violation may sit in an earlier plan of the sequence than the last
                    let (mut min, mut tried) = (plan, 0);
                    let t1 = Instant::now();
                    'again: loop {
                        for c in w.smaller(&min, None) {
                            if t1.elapsed() > Duration::from_secs(20) {
                                break 'again;
                            }
                            tried += 1;
                            if c != min && isolate(w, prop, &before, &c).is_some() {
                                min = c;
                                continue 'again;
                            }
                        }
                        break;
                    }
                    for k in 0..before.len() {
                        'this: loop {
                            for c in w.smaller(&before[k], None) {
                                if t1.elapsed() > Duration::from_secs(40) {
                                    break 'this;
                                }
                                let old = std::mem::replace(&mut before[k], c);
                                tried += 1;
                                if old != before[k] && isolate(w, prop, &before, &min).is_some() {
                                    continue 'this;
                                }
                                before[k] = old;
                            }
                            break;
                        }
                    }
                    let msg = isolate(w, prop, &before, &min).unwrap_or_default();
                    let dir = a.get("replays").unwrap_or("/tmp");
                    let _ = std::fs::create_dir_all(dir);
                    let path = format!("{dir}/{prop}-{build}-{i}.json");
                    let file = json!({
                        "property": prop,
                        "world": w.name(),
                        "build": build,
                        "verif_seed": seed,
                        "run": i,
                        "run_seed": run_seed(seed, prop, i),
                        "violation": msg,
                        "tags": [prop],
                        "how": "isolation",
                        "reproduced_in_a_fresh_process": true,
                        "steps_before_minimising": full,
                        "steps": w.size(&min),
                        "candidates_tried": tried,
                        "before": before,
                        "plan": min,
                    });
                    std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap())
                        .expect("replay file");
                    println!("violation: {msg}");
                    println!("REPLAY {path}");
                    violation = json!({"message": msg, "replay": path, "run": i, "tags": [prop], "reproduced": true});
                    break 'odd;
                }
                if n >= i / workers || n >= 5000 {
                    break;
                }
                n = (n * 3 + 1).min(i / workers);
            }
        }
    }
    let mut fired = serde_json::Map::new();
    for (i, s) in SITES.iter().enumerate() {
        for (j, x) in WHATS.iter().enumerate() {
            if cover.fired[i][j] > 0 {
                fired.insert(format!("{s:?}/{x:?}"), json!(cover.fired[i][j]));
            }
        }
    }
    for (i, n) in ["lose", "dup", "delay", "flip", "bad", "cut"].iter().enumerate() {
        if cover.link[i] > 0 {
            fired.insert(format!("Link/{n}"), json!(cover.link[i]));
        }
    }
    let seams: serde_json::Map<String, Value> = SITES
        .iter()
        .enumerate()
        .filter(|(i, _)| cover.seams[*i] > 0)
        .map(|(i, s)| (format!("{s:?}"), json!(cover.seams[i])))
        .collect();
    let own: serde_json::Map<String, Value> =
        cover.own.iter().map(|(k, n)| (k.clone(), json!(n))).collect();
    let out = json!({
        "property": prop, "build": build, "world": w.name(), "seed": seed,
        "runs_wanted": runs, "runs": cover.runs, "steps": cover.steps, "events": cover.events,
        "wall_s": wall, "states": cover.states.len(), "traces": cover.traces.len(),
        "schedules": cover.schedules.len(), "switches": cover.switches, "yields": cover.yields,
        "fired": fired, "seams": seams, "own": own, "allocations_seen": cover.allocs,
        "op_kinds": cover.ops.0.iter().filter(|n| **n > 0).count(),
        "repeated": repeats.0, "repeated_identically": repeats.1,
        "violation": violation, "infrastructure": infra,
    });
    if let Some(f) = a.get("out") {
        std::fs::write(f, serde_json::to_string(&out).unwrap()).expect("out");
    }
    println!(
        "{prop} build {build}: {} runs, {} steps, {} states, {wall:.1} s",
        cover.runs,
        cover.steps,
        cover.states.len()
    );
    if !violation.is_null() {
        1
    } else if infra.is_some() {
        eprintln!("{}", infra.unwrap());
        3
    } else {
        0
    }
}

/// `replay FILE`: the plan once more. Exit code 1 if it fails again.
pub fn replay<W: World>(w: &mut W, file: &Value) -> i32 {
    let prop = file["property"].as_str().unwrap_or("C01").to_string();
    let plan: W::P = serde_json::from_value(file["plan"].clone()).expect("plan");
    let before: Vec<W::P> = serde_json::from_value(file["before"].clone()).unwrap_or_default();
    if file["how"] == "isolation" {
        return match isolate(w, &prop, &before, &plan) {
            None => {
                println!("the plans run without a violation of {prop}");
                0
            }
            Some(msg) => {
                println!("violation of {prop}: {msg}");
                1
            }
        };
    }
    let after = &file["after_all_runs_of_the_worker"];
    let end = if after.is_object() {
        if let Ok(d) = serde_json::from_value(after["dict"].clone()) {
            crate::text::register_dict(d);
        }
        let n = |v: &Value| v.as_u64().unwrap_or(1);
        let at = (n(&file["verif_seed"]), n(&after["workers"]), n(&file["run"]));
        lead(w, &prop, at, prop_tag(&prop), Duration::from_secs(700))
    } else {
        trial(w, &before, &plan, prop_tag(&prop), Duration::from_secs(30))
    };
    let (msg, tags) = describe(&end);
    match end {
        End::Fine => {
            println!("the plan runs without a violation of {prop}");
            0
        }
        _ => {
            println!("violation of {prop} {tags:?}: {msg}");
            1
        }
    }
}

pub fn run_command<W: World>(
    w: &mut W,
    cmd: &str,
    prop: &str,
    a: &Args,
    file: Option<Value>,
) -> i32 {
    if let Some(f) = a.get("dict") {
        let s = std::fs::read_to_string(f).expect("dictionary");
        crate::text::register_dict(serde_json::from_str(&s).expect("dictionary"));
    }
    match (cmd, file) {
        ("check", _) => search(w, prop, a),
        ("replay", Some(f)) => replay(w, &f),
        ("history", Some(f)) => {
            let p: W::P = serde_json::from_value(f["plan"].clone()).expect("plan");
            for l in w.history(&p) {
                println!("{l}");
            }
            0
        }
        ("cross", Some(f)) => cross(w, &f, a),
        ("plan", _) => {
            let i = a.num("index", 0);
            let s = run_seed(a.num("seed", 1), prop, i);
            let plan = w.plan(s);
            println!(
                "{}",
                json!({"property": prop, "world": w.name(), "run": i, "run_seed": s, "plan": plan})
            );
            0
        }
        _ => {
            eprintln!("usage: check|replay|history|plan");
            2
        }
    }
}

/// `cross FILE --other BIN --out FILE`: cuts down a plan whose history differs between this
/// program and another build of it. Exit code 1 if the histories do differ.
pub fn cross<W: World>(w: &mut W, f: &Value, a: &Args) -> i32 {
    let me = std::fs::read_link("/proc/self/exe").expect("self");
    let other = a.get("other").expect("--other").to_string();
    let tmp = format!("{}/cross-{}.json", a.get("tmp").unwrap_or("/tmp"), std::process::id());
    let one = |bin: &str| -> Vec<String> {
        match std::process::Command::new(bin).args(["history", &tmp]).output() {
            Ok(o) => {
                let mut v: Vec<String> = String::from_utf8_lossy(&o.stdout)
                    .lines()
                    .map(|l| l.to_string())
                    .collect();
                if !o.status.success() {
                    v.push(format!("ended with {}", o.status));
                }
                v
            }
            Err(e) => vec![format!("cannot run: {e}")],
        }
    };
    let differ = |p: &W::P| -> Option<String> {
        let mut g = f.clone();
        g["plan"] = serde_json::to_value(p).unwrap();
        std::fs::write(&tmp, g.to_string()).expect("tmp");
        let (x, y) = (one(me.to_str().unwrap()), one(&other));
        if x == y {
            return None;
        }
        let n = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
        let none = "nothing".to_string();
        Some(format!(
            "with diagnostics, debug: {} -- without, release: {}",
            x.get(n).unwrap_or(&none),
            y.get(n).unwrap_or(&none)
        ))
    };
    let mut p: W::P = serde_json::from_value(f["plan"].clone()).expect("plan");
    let Some(mut msg) = differ(&p) else {
        println!("the histories agree");
        let _ = std::fs::remove_file(&tmp);
        return 0;
    };
    let t0 = Instant::now();
    let full = w.size(&p);
    if let Some(out) = a.get("out") {
        'again: loop {
            for c in w.smaller(&p, None) {
                if t0.elapsed() > Duration::from_secs(40) {
                    break 'again;
                }
                if let Some(m) = differ(&c) {
                    if c != p {
                        (p, msg) = (c, m);
                        continue 'again;
                    }
                }
            }
            break;
        }
        let mut g = f.clone();
        g["build"] = json!("AB");
        g["violation"] = json!(msg);
        g["how"] = json!("histories of the two builds differ");
        g["steps_before_minimising"] = json!(full);
        g["steps"] = json!(w.size(&p));
        g["plan"] = serde_json::to_value(&p).unwrap();
        std::fs::write(out, serde_json::to_string_pretty(&g).unwrap()).expect("out");
    }
    let _ = std::fs::remove_file(&tmp);
    println!("violation: {msg}");
    1
}
