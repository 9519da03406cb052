//! The disk, in memory: a virtual file system for SQLite with faults, torn and lost writes, and
//! a clock that only moves when told to.

use dstcore::rng::{mix, Rng};
use libsqlite3_sys as ffi;
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::ptr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Read,
    Write,
    Sync,
    Truncate,
    Delete,
    Open,
    Lock,
    Access,
}
pub const NOPS: usize = 8;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Do {
    /// the operation fails and does nothing
    Fail,
    /// it fails, but was carried out, or (writes) half of it was
    FailLate,
    /// no room from here on, for that many operations
    Full(u8),
    /// another process holds the lock
    Busy,
    /// the clock jumps by that many minutes
    Clock(i16),
    /// the power fails here
    Crash,
    /// bit `.1 % 8` of byte `.0` of the database file turns over
    Rot(u32, u8),
}
pub const DOS: [&str; 7] = [
    "disk operation failed",
    "disk operation failed halfway",
    "disk full",
    "lock held elsewhere",
    "clock jumped",
    "crash",
    "stored bit flipped",
];
fn code(d: &Do) -> usize {
    match d {
        Do::Fail => 0,
        Do::FailLate => 1,
        Do::Full(_) => 2,
        Do::Busy => 3,
        Do::Clock(_) => 4,
        Do::Crash => 5,
        Do::Rot(..) => 6,
    }
}
/// at the `at`-th operation of that kind
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DiskFault {
    pub op: Op,
    pub at: u32,
    pub what: Do,
}

enum Pend {
    Write(usize, Vec<u8>),
    Cut(usize),
}
#[derive(Default)]
struct File {
    data: Vec<u8>,
    durable: Vec<u8>,
    pend: Vec<Pend>,
    shared: u32,
    reserved: usize,
    pending: usize,
    exclusive: usize,
}
enum Dir {
    Make(String, usize),
    Gone(String),
}
#[derive(Default)]
pub struct Disk {
    files: Vec<File>,
    names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    dir: Vec<Dir>,
    pub dead: bool,
    armed: bool,
    pub ops: u64,
    counts: [u32; NOPS],
    faults: Vec<DiskFault>,
    full: u32,
    pub fired: [u64; 7],
    pub rotten: bool,
    pub crashes: u64,
    pub torn: u64,
    pub lost: u64,
    sector: usize,
    noise: u64,
    /// milliseconds
    pub now: i64,
    pub slept: i64,
    next_handle: usize,
    pub hash: u64,
}

struct Global(UnsafeCell<Option<Disk>>);
// one thread uses it
unsafe impl Sync for Global {}
static DISK: Global = Global(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn disk() -> &'static mut Disk {
    unsafe { (*DISK.0.get()).get_or_insert_with(Disk::default) }
}
/// a new, empty disk
pub fn format(sector: usize, seed: u64) {
    let d = disk();
    *d = Disk {
        sector,
        noise: mix(seed ^ 77),
        now: 212_000_000_000_000,
        ..Disk::default()
    };
    unsafe {
        // the generator takes new noise from the disk
        ffi::sqlite3_randomness(0, ptr::null_mut());
    }
}

impl Disk {
    pub fn arm(&mut self, faults: &[DiskFault]) {
        self.faults = faults.to_vec();
        self.counts = [0; NOPS];
        self.armed = true;
    }
    pub fn disarm(&mut self) {
        self.armed = false;
        self.faults.clear();
        self.full = 0;
    }
    fn random(&mut self) -> u64 {
        self.noise = self.noise.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.noise)
    }
    /// What happens to this operation.
    fn meet(&mut self, op: Op) -> Option<Do> {
        if self.dead {
            return Some(Do::Fail);
        }
        self.ops += 1;
        self.now += 1;
        if !self.armed {
            return None;
        }
        let n = self.counts[op as usize];
        self.counts[op as usize] += 1;
        self.hash = mix(self.hash ^ (op as u64) << 8);
        let mut hit = None;
        let mut i = 0;
        while i < self.faults.len() {
            let f = self.faults[i];
            if f.op == op && f.at == n {
                self.faults.remove(i);
                self.fired[code(&f.what)] += 1;
                self.hash = mix(self.hash ^ code(&f.what) as u64 ^ 0x55);
                match f.what {
                    Do::Clock(m) => self.now += m as i64 * 60_000,
                    Do::Rot(at, bit) => {
                        if let Some(&id) = self.names.get("/db") {
                            let f = &mut self.files[id];
                            if !f.data.is_empty() {
                                let k = at as usize % f.data.len();
                                f.data[k] ^= 1 << (bit % 8);
                                if k < f.durable.len() {
                                    f.durable[k] ^= 1 << (bit % 8);
                                }
                                self.rotten = true;
                            }
                        }
                    }
                    Do::Full(k) => self.full = k as u32 + 1,
                    Do::Crash => {
                        self.dead = true;
                        hit = Some(Do::Crash);
                    }
                    w => hit = hit.or(Some(w)),
                }
            } else {
                i += 1;
            }
        }
        if hit.is_none() && self.full > 0 && op == Op::Write {
            self.full -= 1;
            hit = Some(Do::Full(0));
        }
        hit
    }
    /// The power comes back: what was not synced is lost, kept or torn.
    pub fn reboot(&mut self) {
        self.crashes += 1;
        self.dead = false;
        self.full = 0;
        let mut r = Rng::new(self.random());
        let keep = if self.dir.is_empty() { 0 } else { r.below(self.dir.len() + 1) };
        for d in self.dir.drain(..).take(keep) {
            match d {
                Dir::Make(n, id) => {
                    self.durable_names.insert(n, id);
                }
                Dir::Gone(n) => {
                    self.durable_names.remove(&n);
                }
            }
        }
        self.names = self.durable_names.clone();
        let sector = self.sector;
        let mode = r.below(4);
        for f in &mut self.files {
            let mut d = std::mem::take(&mut f.durable);
            for p in f.pend.drain(..) {
                match p {
                    Pend::Cut(n) => {
                        if r.chance(1, 2) {
                            d.truncate(n);
                        } else {
                            self.lost += 1;
                        }
                    }
                    Pend::Write(off, b) => {
                        // sector by sector
                        let mut at = 0;
                        while at < b.len() {
                            let end = (((off + at) / sector + 1) * sector - off).min(b.len());
                            let (mut s, mut e) = (at, end);
                            let fate = match mode {
                                0 => 0,
                                1 => 3,
                                _ => r.below(4),
                            };
                            match fate {
                                0 => e = s,
                                1 => e = s + r.below(e - s + 1),
                                2 => s += r.below(e - s + 1),
                                _ => {}
                            }
                            if e == s {
                                self.lost += 1;
                            } else {
                                if e - s < end - at {
                                    self.torn += 1;
                                }
                                if d.len() < off + e {
                                    d.resize(off + e, 0);
                                }
                                d[off + s..off + e].copy_from_slice(&b[s..e]);
                            }
                            at = end;
                        }
                    }
                }
            }
            f.data = d.clone();
            f.durable = d;
            f.shared = 0;
            f.reserved = 0;
            f.pending = 0;
            f.exclusive = 0;
        }
    }
}

// ---- what SQLite calls ----------------------------------------------------------------------

#[repr(C)]
struct Handle {
    base: ffi::sqlite3_file,
    file: usize,
    me: usize,
    level: c_int,
}
unsafe fn handle<'a>(f: *mut ffi::sqlite3_file) -> &'a mut Handle {
    &mut *(f as *mut Handle)
}
fn name_of(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    x_unlock(f, 0);
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_read(
    f: *mut ffi::sqlite3_file,
    out: *mut c_void,
    n: c_int,
    off: ffi::sqlite3_int64,
) -> c_int {
    let h = handle(f);
    let d = disk();
    let out = std::slice::from_raw_parts_mut(out as *mut u8, n as usize);
    if d.meet(Op::Read).is_some() {
        out.fill(0xEE);
        return ffi::SQLITE_IOERR_READ;
    }
    let data = &d.files[h.file].data;
    let off = (off as usize).min(data.len());
    let have = out.len().min(data.len() - off);
    out[..have].copy_from_slice(&data[off..off + have]);
    if have < out.len() {
        out[have..].fill(0);
        return ffi::SQLITE_IOERR_SHORT_READ;
    }
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_write(
    f: *mut ffi::sqlite3_file,
    b: *const c_void,
    n: c_int,
    off: ffi::sqlite3_int64,
) -> c_int {
    let h = handle(f);
    let d = disk();
    let mut b = std::slice::from_raw_parts(b as *const u8, n as usize);
    let rc = match d.meet(Op::Write) {
        None => ffi::SQLITE_OK,
        Some(Do::Full(_)) => {
            // as much as there is room for
            b = &b[..b.len() / 3];
            ffi::SQLITE_FULL
        }
        Some(Do::FailLate) => {
            b = &b[..b.len() / 2];
            ffi::SQLITE_IOERR_WRITE
        }
        Some(Do::Crash) => ffi::SQLITE_IOERR_WRITE,
        Some(_) => return ffi::SQLITE_IOERR_WRITE,
    };
    if b.is_empty() {
        return rc;
    }
    let off = off as usize;
    let file = &mut d.files[h.file];
    if file.data.len() < off + b.len() {
        file.data.resize(off + b.len(), 0);
    }
    file.data[off..off + b.len()].copy_from_slice(b);
    file.pend.push(Pend::Write(off, b.to_vec()));
    rc
}
unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, n: ffi::sqlite3_int64) -> c_int {
    let h = handle(f);
    let d = disk();
    let rc = match d.meet(Op::Truncate) {
        None => ffi::SQLITE_OK,
        Some(Do::FailLate | Do::Crash) => ffi::SQLITE_IOERR_TRUNCATE,
        Some(_) => return ffi::SQLITE_IOERR_TRUNCATE,
    };
    let file = &mut d.files[h.file];
    if file.data.len() > n as usize {
        file.data.truncate(n as usize);
        file.pend.push(Pend::Cut(n as usize));
    }
    rc
}
unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _: c_int) -> c_int {
    let h = handle(f);
    let d = disk();
    let rc = match d.meet(Op::Sync) {
        None => ffi::SQLITE_OK,
        Some(Do::FailLate) => ffi::SQLITE_IOERR_FSYNC,
        Some(_) => return ffi::SQLITE_IOERR_FSYNC,
    };
    let file = &mut d.files[h.file];
    file.durable.clone_from(&file.data);
    file.pend.clear();
    // a new file's name becomes durable with its contents
    let id = h.file;
    if let Some(k) = d.dir.iter().position(|e| matches!(e, Dir::Make(_, i) if *i == id)) {
        // names are settled in order
        for e in d.dir.drain(..=k) {
            match e {
                Dir::Make(n, id) => {
                    d.durable_names.insert(n, id);
                }
                Dir::Gone(n) => {
                    d.durable_names.remove(&n);
                }
            }
        }
    }
    rc
}
unsafe extern "C" fn x_file_size(f: *mut ffi::sqlite3_file, n: *mut ffi::sqlite3_int64) -> c_int {
    let d = disk();
    if d.dead {
        return ffi::SQLITE_IOERR_FSTAT;
    }
    *n = d.files[handle(f).file].data.len() as i64;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let h = handle(f);
    if h.level >= level {
        return ffi::SQLITE_OK;
    }
    let d = disk();
    match d.meet(Op::Lock) {
        None => {}
        Some(Do::Busy) => return ffi::SQLITE_BUSY,
        Some(_) => return ffi::SQLITE_IOERR_LOCK,
    }
    let (me, file) = (h.me, &mut d.files[h.file]);
    let other = |x: usize| x != 0 && x != me;
    if level == ffi::SQLITE_LOCK_SHARED {
        if other(file.pending) || other(file.exclusive) {
            return ffi::SQLITE_BUSY;
        }
        file.shared += 1;
        h.level = level;
        return ffi::SQLITE_OK;
    }
    if other(file.reserved) || other(file.pending) || other(file.exclusive) {
        return ffi::SQLITE_BUSY;
    }
    if level == ffi::SQLITE_LOCK_RESERVED {
        file.reserved = me;
        h.level = level;
        return ffi::SQLITE_OK;
    }
    file.pending = me;
    h.level = ffi::SQLITE_LOCK_PENDING;
    if file.shared > 1 {
        return ffi::SQLITE_BUSY;
    }
    file.exclusive = me;
    h.level = level;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let h = handle(f);
    if h.level <= level {
        return ffi::SQLITE_OK;
    }
    let (me, file) = (h.me, &mut disk().files[h.file]);
    for x in [&mut file.reserved, &mut file.pending, &mut file.exclusive] {
        if *x == me {
            *x = 0;
        }
    }
    if level == 0 && h.level >= ffi::SQLITE_LOCK_SHARED {
        file.shared = file.shared.saturating_sub(1);
    }
    h.level = level;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let h = handle(f);
    let d = disk();
    if d.dead {
        return ffi::SQLITE_IOERR_CHECKRESERVEDLOCK;
    }
    let file = &d.files[h.file];
    *out = (file.reserved != 0 || file.pending != 0 || file.exclusive != 0) as c_int;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_file_control(_: *mut ffi::sqlite3_file, _: c_int, _: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector_size(_: *mut ffi::sqlite3_file) -> c_int {
    disk().sector as c_int
}
unsafe extern "C" fn x_characteristics(_: *mut ffi::sqlite3_file) -> c_int {
    0
}
static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 1,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_file_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector_size),
    xDeviceCharacteristics: Some(x_characteristics),
    xShmMap: None,
    xShmLock: None,
    xShmBarrier: None,
    xShmUnmap: None,
    xFetch: None,
    xUnfetch: None,
};

unsafe extern "C" fn x_open(
    _: *mut ffi::sqlite3_vfs,
    name: ffi::sqlite3_filename,
    f: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    let h = handle(f);
    h.base.pMethods = ptr::null();
    let d = disk();
    match d.meet(Op::Open) {
        None => {}
        Some(Do::Full(_)) => return ffi::SQLITE_FULL,
        Some(_) => return ffi::SQLITE_CANTOPEN,
    }
    let n = name_of(name as *const c_char);
    let id = match d.names.get(&n) {
        Some(&i) if !n.is_empty() => i,
        _ => {
            if flags & ffi::SQLITE_OPEN_CREATE == 0 {
                return ffi::SQLITE_CANTOPEN;
            }
            d.files.push(File::default());
            let i = d.files.len() - 1;
            if !n.is_empty() {
                d.names.insert(n.clone(), i);
                d.dir.push(Dir::Make(n, i));
            }
            i
        }
    };
    d.next_handle += 1;
    h.base.pMethods = &METHODS;
    h.file = id;
    h.me = d.next_handle;
    h.level = 0;
    if !out.is_null() {
        *out = flags;
    }
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_delete(_: *mut ffi::sqlite3_vfs, name: *const c_char, sync: c_int) -> c_int {
    let d = disk();
    let rc = match d.meet(Op::Delete) {
        None => ffi::SQLITE_OK,
        Some(Do::FailLate | Do::Crash) => ffi::SQLITE_IOERR_DELETE,
        Some(_) => return ffi::SQLITE_IOERR_DELETE,
    };
    let n = name_of(name);
    if d.names.remove(&n).is_none() {
        return ffi::SQLITE_IOERR_DELETE_NOENT;
    }
    d.dir.push(Dir::Gone(n));
    if sync != 0 && rc == ffi::SQLITE_OK {
        let all: Vec<Dir> = d.dir.drain(..).collect();
        for e in all {
            match e {
                Dir::Make(n, id) => {
                    d.durable_names.insert(n, id);
                }
                Dir::Gone(n) => {
                    d.durable_names.remove(&n);
                }
            }
        }
    }
    rc
}
unsafe extern "C" fn x_access(
    _: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    _: c_int,
    out: *mut c_int,
) -> c_int {
    let d = disk();
    if d.meet(Op::Access).is_some() {
        return ffi::SQLITE_IOERR_ACCESS;
    }
    *out = d.names.contains_key(&name_of(name)) as c_int;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_full_pathname(
    _: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    n: c_int,
    out: *mut c_char,
) -> c_int {
    let s = CStr::from_ptr(name).to_bytes();
    if s.len() + 1 > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    ptr::copy_nonoverlapping(name, out, s.len() + 1);
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_randomness(_: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let d = disk();
    for i in 0..n as usize {
        *out.add(i) = d.random() as c_char;
    }
    n
}
unsafe extern "C" fn x_sleep(_: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    let d = disk();
    d.now += us as i64 / 1000;
    d.slept += us as i64 / 1000;
    us
}
unsafe extern "C" fn x_current_time(_: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = disk().now as f64 / 86_400_000.0;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_current_time64(
    _: *mut ffi::sqlite3_vfs,
    out: *mut ffi::sqlite3_int64,
) -> c_int {
    *out = disk().now;
    ffi::SQLITE_OK
}
unsafe extern "C" fn x_last_error(_: *mut ffi::sqlite3_vfs, _: c_int, _: *mut c_char) -> c_int {
    0
}

// ---- SQLite's memory: what is freed is overwritten and kept for a while ------------------------

const KEPT: usize = 128;
struct Kept(UnsafeCell<([*mut u8; KEPT], usize)>);
unsafe impl Sync for Kept {}
static FREED: Kept = Kept(UnsafeCell::new(([ptr::null_mut(); KEPT], 0)));
unsafe extern "C" fn m_malloc(n: c_int) -> *mut c_void {
    let p = libc::malloc(n as usize + 16) as *mut u8;
    if p.is_null() {
        return ptr::null_mut();
    }
    *(p as *mut usize) = n as usize;
    p.add(16) as *mut c_void
}
unsafe extern "C" fn m_size(p: *mut c_void) -> c_int {
    if p.is_null() {
        return 0;
    }
    *((p as *mut u8).sub(16) as *mut usize) as c_int
}
unsafe extern "C" fn m_free(p: *mut c_void) {
    if p.is_null() {
        return;
    }
    let n = m_size(p) as usize;
    ptr::write_bytes(p as *mut u8, 0xDD, n);
    let k = &mut *FREED.0.get();
    let i = k.1;
    k.1 = (i + 1) % KEPT;
    let old = std::mem::replace(&mut k.0[i], (p as *mut u8).sub(16));
    libc::free(old as *mut libc::c_void);
}
unsafe extern "C" fn m_realloc(p: *mut c_void, n: c_int) -> *mut c_void {
    let q = m_malloc(n);
    if !q.is_null() && !p.is_null() {
        let k = m_size(p).min(n) as usize;
        ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, k);
        m_free(p);
    }
    q
}
unsafe extern "C" fn m_roundup(n: c_int) -> c_int {
    (n + 7) & !7
}
unsafe extern "C" fn m_init(_: *mut c_void) -> c_int {
    ffi::SQLITE_OK
}
unsafe extern "C" fn m_shutdown(_: *mut c_void) {}

/// Once per process, before anything else touches SQLite.
pub fn install() {
    unsafe {
        let mem = Box::leak(Box::new(ffi::sqlite3_mem_methods {
            xMalloc: Some(m_malloc),
            xFree: Some(m_free),
            xRealloc: Some(m_realloc),
            xSize: Some(m_size),
            xRoundup: Some(m_roundup),
            xInit: Some(m_init),
            xShutdown: Some(m_shutdown),
            pAppData: ptr::null_mut(),
        }));
        assert_eq!(
            ffi::sqlite3_config(ffi::SQLITE_CONFIG_MALLOC, mem as *mut ffi::sqlite3_mem_methods),
            ffi::SQLITE_OK
        );
        // no small-block cache between a caller and the poison
        ffi::sqlite3_config(ffi::SQLITE_CONFIG_LOOKASIDE, 0 as c_int, 0 as c_int);
        assert_eq!(ffi::sqlite3_initialize(), ffi::SQLITE_OK);
        let v = Box::leak(Box::new(ffi::sqlite3_vfs {
            iVersion: 2,
            szOsFile: std::mem::size_of::<Handle>() as c_int,
            mxPathname: 64,
            pNext: ptr::null_mut(),
            zName: c"sim".as_ptr(),
            pAppData: ptr::null_mut(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full_pathname),
            xDlOpen: None,
            xDlError: None,
            xDlSym: None,
            xDlClose: None,
            xRandomness: Some(x_randomness),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_current_time),
            xGetLastError: Some(x_last_error),
            xCurrentTimeInt64: Some(x_current_time64),
            xSetSystemCall: None,
            xGetSystemCall: None,
            xNextSystemCall: None,
        }));
        assert_eq!(ffi::sqlite3_vfs_register(v, 1), ffi::SQLITE_OK);
    }
}
