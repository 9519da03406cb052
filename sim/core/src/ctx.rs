//! The seams: every place where the library calls out, and the per-thread simulator state
//! that decides what happens there. Nothing here reads a clock or any other outside state.

use crate::sched::Sched;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::panic::panic_any;
use std::sync::Arc;

#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize, Debug)]
pub enum Site {
    Pred,
    Next,
    AsRef,
    Range,
    Units,
    Hasher,
    Sink,
    Source,
    Log,
    /// the n-th machine instruction of the operation
    Instr,
    /// the allocator, for the whole operation
    Alloc,
    /// what the caller does with each character of a draining iterator
    Consumer,
}
pub const NSITES: usize = 12;
pub const SITES: [Site; NSITES] = [
    Site::Pred,
    Site::Next,
    Site::AsRef,
    Site::Range,
    Site::Units,
    Site::Hasher,
    Site::Sink,
    Site::Source,
    Site::Log,
    Site::Instr,
    Site::Alloc,
    Site::Consumer,
];

#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize, Debug)]
pub enum What {
    /// the caller's code (or the logger) panics
    Panic,
    /// the sink or source reports an error
    Err,
    /// the caller's conversion answers differently this time
    Alt,
    /// the iterator reports its end, though it would go on if asked again
    Gap,
    /// another operation runs nested, as in a callback or an interrupt handler
    Nest,
    /// another task runs now
    Switch,
    /// the allocator refuses
    Refuse,
}
pub const WHATS: [What; 7] = [
    What::Panic,
    What::Err,
    What::Alt,
    What::Gap,
    What::Nest,
    What::Switch,
    What::Refuse,
];

#[derive(Copy, Clone, Eq, PartialEq, Hash, Serialize, Deserialize, Debug)]
pub struct Fault {
    pub site: Site,
    pub at: u32,
    pub what: What,
}

/// Panic payloads that the simulator raises.
pub struct Injected(#[allow(dead_code)] pub Site);
pub struct Endless;

#[derive(Copy, Clone, Eq, PartialEq, Serialize, Deserialize, Debug)]
pub enum LogMode {
    Off,
    /// every record is rendered
    Render,
    /// every record is rendered into a string of this crate, nested inside the operation
    Reenter,
}

/// `at` beyond this counts from the end
pub const LATE: u32 = 1 << 20;
pub struct Ctx {
    pub faults: Vec<Fault>,
    pub fired: Vec<Fault>,
    pub counts: [u32; NSITES],
    pub pulls: u32,
    pub pull_stop: u32,
    pub logmode: LogMode,
    pub depth: u32,
    pub nest: Option<*mut dyn FnMut()>,
    pub sched: Option<(Arc<Sched>, usize)>,
    pub events: u64,
    pub evhash: u64,
    /// checks read the strings without the simulator taking notice
    pub quiet: bool,
    /// objects nobody is modifying, and their bytes
    pub watch: Vec<(*const u8, Vec<u8>)>,
    pub watch_left: u32,
    /// something that must hold while control is outside the library did not
    pub bad: Option<&'static str>,
    /// a value could not be made as asked for: what follows from that is not judged
    pub unmade: bool,
    /// where an unexpected panic came from
    pub panic_msg: String,
    instr_left: u32,
    instr_what: What,
    // statistics
    pub fired_stats: [[u64; 7]; NSITES],
    pub seam_stats: [u64; NSITES],
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static REFUSE: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u32> = const { Cell::new(0) };
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    static CTX: UnsafeCell<Option<Box<Ctx>>> = const { UnsafeCell::new(None) };
}

/// The simulated allocator: generous outside library code; inside, it counts and may refuse.
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on_alloc() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if on_alloc() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn on_alloc() -> bool {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return false;
    }
    ALLOCS.with(|a| a.set(a.get() + 1));
    if REFUSE.with(|r| r.get()) {
        crate::mem::note_refused();
        return true;
    }
    false
}

#[allow(clippy::mut_from_ref)]
pub fn ctx() -> &'static mut Ctx {
    CTX.with(|c| unsafe {
        let slot = &mut *c.get();
        if slot.is_none() {
            *slot = Some(Box::new(Ctx {
                faults: Vec::with_capacity(64),
                fired: Vec::with_capacity(64),
                counts: [0; NSITES],
                pulls: 0,
                pull_stop: u32::MAX,
                logmode: LogMode::Off,
                depth: 0,
                nest: None,
                sched: None,
                events: 0,
                evhash: 0,
                quiet: false,
                watch: Vec::with_capacity(8),
                watch_left: 0,
                bad: None,
                unmade: false,
                panic_msg: String::with_capacity(512),
                instr_left: 0,
                instr_what: What::Nest,
                fired_stats: [[0; 7]; NSITES],
                seam_stats: [0; NSITES],
            }));
        }
        &mut *(slot.as_mut().unwrap().as_mut() as *mut Ctx)
    })
}

pub fn armed() -> bool {
    ARMED.with(|a| a.get())
}

impl Ctx {
    pub fn begin(&mut self, faults: &[Fault], pull_stop: u32) {
        self.faults.clear();
        self.faults.extend_from_slice(faults);
        self.fired.clear();
        self.counts = [0; NSITES];
        self.pulls = 0;
        self.pull_stop = pull_stop;
        self.watch_left = 4;
        self.bad = None;
        self.panic_msg.clear();
        ALLOCS.with(|a| a.set(0));
        REFUSE.with(|r| r.set(faults.iter().any(|f| f.what == What::Refuse)));
        self.instr_left = 0;
        if let Some(f) = faults.iter().find(|f| f.site == Site::Instr) {
            self.instr_left = f.at.max(1);
            self.instr_what = f.what;
        }
    }
    /// Faults planned from the end of an operation strike where its last run of this length did.
    pub fn resolve(&mut self, last: u32) {
        for f in &mut self.faults {
            if f.at > LATE {
                f.at = (last + 1).saturating_sub(f.at - LATE).max(1);
            }
        }
    }
    pub fn end(&mut self) -> u32 {
        self.faults.clear();
        self.instr_left = 0;
        REFUSE.with(|r| r.set(false));
        ALLOCS.with(|a| a.get())
    }
    pub fn fired_what(&self, w: What) -> bool {
        self.fired.iter().any(|f| f.what == w)
    }
    pub fn fired_at(&self, s: Site, w: What) -> bool {
        self.fired.iter().any(|f| f.what == w && f.site == s)
    }
    pub fn note_fired(&mut self, f: Fault) {
        if self.fired.len() < self.fired.capacity() {
            self.fired.push(f);
        }
        self.fired_stats[f.site as usize][f.what as usize] += 1;
    }
    pub fn event(&mut self, code: u64) {
        self.events += 1;
        self.evhash = crate::rng::mix(self.evhash ^ code);
    }
}

/// Runs library code: from here to the matching end, allocator requests are the library's.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            stop_stepping();
            ARMED.with(|a| a.set(self.0));
        }
    }
    let c = ctx();
    if c.quiet {
        return f();
    }
    let g = G(ARMED.with(|a| a.replace(true)));
    if c.instr_left > 0 && c.depth == 0 {
        start_stepping();
    }
    let r = f();
    drop(g);
    r
}

/// In caller code: allocator requests are the caller's again.
pub struct Seam {
    pub what: Option<What>,
    live: bool,
    stepped: bool,
}
impl Drop for Seam {
    fn drop(&mut self) {
        if self.live {
            ARMED.with(|a| a.set(true));
            if self.stepped && ctx().instr_left > 0 && !std::thread::panicking() {
                start_stepping();
            }
        }
    }
}

/// The library called out at `site`.
pub fn seam(site: Site) -> Seam {
    if !armed() {
        return Seam {
            what: None,
            live: false,
            stepped: false,
        };
    }
    ARMED.with(|a| a.set(false));
    let stepped = STEPPING.with(|s| s.get());
    if stepped {
        stop_stepping();
    }
    let mut g = Seam {
        what: None,
        live: true,
        stepped,
    };
    let c = ctx();
    c.seam_stats[site as usize] += 1;
    if c.depth > 0 {
        return g;
    }
    c.counts[site as usize] += 1;
    let n = c.counts[site as usize];
    c.event(0x100 + site as u64);
    if c.watch_left > 0 {
        c.watch_left -= 1;
        for (p, b) in &c.watch {
            if unsafe { std::slice::from_raw_parts(*p, b.len()) } != &b[..] {
                c.bad = Some("a string that nobody is modifying changed in mid-operation");
            }
        }
    }
    if c.sched.is_some() {
        yield_now(false);
    }
    let c = ctx();
    let hit = c
        .faults
        .iter()
        .find(|f| f.site == site && f.at == n)
        .copied();
    if let Some(f) = hit {
        match f.what {
            What::Panic => {
                c.note_fired(f);
                panic_any(Injected(site));
            }
            What::Nest => {
                c.note_fired(f);
                run_nested();
            }
            What::Switch => {
                if c.sched.is_some() {
                    c.note_fired(f);
                    yield_now(true);
                }
            }
            w => {
                // the seam itself says whether it took effect
                g.what = Some(w);
            }
        }
    }
    g
}

/// An item was handed to the library by a source.
pub fn pulled() {
    let c = ctx();
    if c.depth > 0 {
        return;
    }
    c.pulls += 1;
    if c.pulls > c.pull_stop {
        panic_any(Endless);
    }
}

pub fn run_nested() {
    let c = ctx();
    if c.depth > 0 {
        return;
    }
    if let Some(n) = c.nest {
        c.depth += 1;
        struct D;
        impl Drop for D {
            fn drop(&mut self) {
                ctx().depth -= 1;
            }
        }
        let _d = D;
        unsafe { (*n)() }
    }
}

pub fn yield_now(forced: bool) {
    let c = ctx();
    if c.depth > 0 {
        return;
    }
    if let Some((s, me)) = &c.sched {
        let (s, me) = (Arc::as_ptr(s), *me);
        unsafe { (*s).yield_now(me, forced) }
    }
}

// ---- the logger -----------------------------------------------------------------------------

pub struct SimLogger;
struct Fixed {
    buf: [u8; 512],
    n: usize,
}
impl std::fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.n < self.buf.len() {
                self.buf[self.n] = b;
                self.n += 1;
            }
        }
        Ok(())
    }
}
impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        if !armed() {
            return;
        }
        let c = ctx();
        if c.logmode == LogMode::Off || c.depth > 0 {
            return;
        }
        let g = seam(Site::Log);
        // rendering runs library code again (Display and Debug of strings), nested
        c.depth += 1;
        struct D;
        impl Drop for D {
            fn drop(&mut self) {
                ctx().depth -= 1;
            }
        }
        let d = D;
        if c.logmode == LogMode::Render {
            let mut f = Fixed {
                buf: [0; 512],
                n: 0,
            };
            let _ = f.write_fmt(*r.args());
            let s = std::str::from_utf8(&f.buf[..f.n]);
            if let Err(e) = s {
                if e.error_len().is_some() || f.n < 500 {
                    drop(d);
                    drop(g);
                    std::panic::panic_any(BadLog);
                }
            }
        } else {
            let mut f = arraystring::MaxString::new();
            let _ = f.write_fmt(*r.args());
        }
        drop(d);
        drop(g);
    }
    fn flush(&self) {}
}
/// The library handed the logger text that is not UTF-8.
pub struct BadLog;

pub fn install_logger() {
    static L: SimLogger = SimLogger;
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Off);
}
pub fn set_log(mode: LogMode) {
    ctx().logmode = mode;
    log::set_max_level(if mode == LogMode::Off {
        log::LevelFilter::Off
    } else {
        log::LevelFilter::Trace
    });
}

// ---- instruction-level preemption -----------------------------------------------------------

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

fn start_stepping() {
    STEPPING.with(|s| s.set(true));
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
fn stop_stepping() {
    if STEPPING.with(|s| s.replace(false)) {
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
        }
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        if !STEPPING.with(|s| s.get()) {
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        if !armed() {
            return;
        }
        let c = ctx();
        if c.instr_left > 1 {
            c.instr_left -= 1;
            return;
        }
        let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let lo = &__executable_start as *const u8 as usize;
        let hi = &etext as *const u8 as usize;
        if rip < lo || rip >= hi {
            return;
        }
        // here: between two instructions of the library
        c.instr_left = 0;
        STEPPING.with(|s| s.set(false));
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        ARMED.with(|a| a.set(false));
        let errno = *libc::__errno_location();
        let what = c.instr_what;
        let at = c
            .faults
            .iter()
            .find(|f| f.site == Site::Instr)
            .map_or(0, |f| f.at);
        c.event(0x200);
        match what {
            What::Switch => {
                if c.sched.is_some() {
                    c.note_fired(Fault {
                        site: Site::Instr,
                        at,
                        what,
                    });
                    yield_now(true);
                }
            }
            _ => {
                c.note_fired(Fault {
                    site: Site::Instr,
                    at,
                    what: What::Nest,
                });
                run_nested();
            }
        }
        *libc::__errno_location() = errno;
        ARMED.with(|a| a.set(true));
    }
}

/// Panics are part of the simulation: keep quiet about them, remember the unexpected ones.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = ARMED.with(|a| a.replace(false));
        if !info.payload().is::<Injected>() && !info.payload().is::<Endless>() {
            use std::fmt::Write;
            let c = ctx();
            c.panic_msg.clear();
            let _ = write!(c.panic_msg, "{}", info);
        } else {
            ARMED.with(|a| a.set(was));
        }
    }));
}

pub fn install_trap() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}
