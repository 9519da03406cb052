//! The database world's simulator.
mod kinds;
mod sql;
mod vfs;

use dstcore::driver::*;
use dstcore::*;
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, Ordering};

/// What is freed is overwritten and kept for a while, so that reading it later gives garbage.
struct Poison;
const KEPT: usize = 256;
static mut FREED: [(*mut u8, usize, usize); KEPT] = [(std::ptr::null_mut(), 0, 1); KEPT];
static LOCK: AtomicBool = AtomicBool::new(false);
static mut NEXT: usize = 0;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ctx::SimAlloc.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 1024 {
            return ctx::SimAlloc.dealloc(p, l);
        }
        std::ptr::write_bytes(p, 0xDD, l.size());
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let i = NEXT;
        NEXT = (i + 1) % KEPT;
        let (q, n, a) = FREED[i];
        FREED[i] = (p, l.size(), l.align());
        LOCK.store(false, Ordering::Release);
        if !q.is_null() {
            ctx::SimAlloc.dealloc(q, Layout::from_size_align_unchecked(n, a));
        }
    }
}
#[global_allocator]
static A: Poison = Poison;

fn main() {
    let mut it = std::env::args();
    it.next();
    let cmd = it.next().unwrap_or_default();
    let a = Args::parse(it);
    settle_process();
    vfs::install();
    let file = a.get("file").map(|f| {
        let s = std::fs::read_to_string(f).expect("file");
        serde_json::from_str::<serde_json::Value>(&s).expect("json")
    });
    let prop = match &file {
        Some(f) => f["property"].as_str().unwrap_or("C11").to_string(),
        None => a.get("prop").unwrap_or("C11").to_string(),
    };
    std::process::exit(run_command(&mut sql::Sql::new(&prop), &cmd, &prop, &a, file));
}
