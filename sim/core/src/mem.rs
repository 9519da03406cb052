//! Storage for the strings under test: each sits against a guard page, surrounded by canaries.
//! Also the page shared with the parent process that tells it how far a worker got.

use std::sync::atomic::{AtomicU64, Ordering};

pub const PAGE: usize = 4096;

pub struct Cell {
    base: *mut u8, // guard | data page | guard
    pub ptr: *mut u8,
    size: usize,
}

fn canary(i: usize) -> u8 {
    // never valid UTF-8, so a read that strays is noticed as well
    0xF8 | ((i * 5 + 3) & 7) as u8
}

impl Cell {
    pub fn new() -> Cell {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                3 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            let base = p as *mut u8;
            assert_eq!(
                libc::mprotect(
                    base.add(PAGE) as *mut _,
                    PAGE,
                    libc::PROT_READ | libc::PROT_WRITE
                ),
                0
            );
            Cell {
                base,
                ptr: base.add(PAGE),
                size: 0,
            }
        }
    }
    /// Gives room for an object, at the end of the page (`high`) or at its start.
    pub fn place(&mut self, size: usize, align: usize, high: bool) -> *mut u8 {
        unsafe {
            let data = self.base.add(PAGE);
            for i in 0..PAGE {
                *data.add(i) = canary(i);
            }
            let off = if high { (PAGE - size) & !(align - 1) } else { 0 };
            self.ptr = data.add(off);
            self.size = size;
            self.ptr
        }
    }
    /// Nothing but the object was written (looks at 320 bytes on either side).
    pub fn intact(&self) -> bool {
        unsafe {
            let data = self.base.add(PAGE);
            let off = self.ptr as usize - data as usize;
            let end = off + self.size;
            for i in off.saturating_sub(320)..off {
                if *data.add(i) != canary(i) {
                    return false;
                }
            }
            for i in end..PAGE.min(end + 320) {
                if *data.add(i) != canary(i) {
                    return false;
                }
            }
            true
        }
    }
}
impl Drop for Cell {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, 3 * PAGE);
        }
    }
}

/// Shared with the parent: [0] index of the run in progress + 1, [1] allocator refusals seen in
/// it.
static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn shared_page() -> *mut AtomicU64 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            PAGE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut AtomicU64
    }
}
pub fn set_progress(p: *mut AtomicU64) {
    PROGRESS.store(p as u64, Ordering::Relaxed);
}
fn prog(i: usize) -> Option<&'static AtomicU64> {
    let p = PROGRESS.load(Ordering::Relaxed) as *mut AtomicU64;
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p.add(i) })
    }
}
/// the run with this index (counted from 1) begins
pub fn set_index(i: u64) {
    if let Some(p) = prog(0) {
        p.store(i, Ordering::Relaxed);
        prog(1).unwrap().store(0, Ordering::Relaxed);
    }
}
pub fn index_of(page: *mut AtomicU64) -> u64 {
    unsafe { (*page).load(Ordering::Relaxed) }
}
/// whether the allocator refused something in the run in progress
pub fn refused_of(page: *mut AtomicU64) -> bool {
    unsafe { (*page.add(1)).load(Ordering::Relaxed) > 0 }
}
pub fn note_refused() {
    if let Some(p) = prog(1) {
        p.fetch_add(1, Ordering::Relaxed);
    }
}
