//! The allocator seam: counts, fails and interleaves library allocations.

use crate::ctx::{self, set_in_lib, Injected, IN_LIB, K};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
/// Bytes allocated by library code and not freed yet, by whomever.
pub static LIB_ALIVE: AtomicI64 = AtomicI64::new(0);
const MAX_BYTES: i64 = 3 << 30;
pub static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static PENDING: Cell<u64> = const { Cell::new(0) };
    /// Bytes allocated minus bytes freed by library code on this thread.
    pub static LIB_BALANCE: Cell<i64> = const { Cell::new(0) };
}

/// Every block is preceded by a header that remembers who allocated it.
fn header(l: &Layout) -> (Layout, usize) {
    let h = l.align().max(16);
    // A size close to isize::MAX is refused by the caller before this matters.
    (unsafe { Layout::from_size_align_unchecked(l.size() + h, h) }, h)
}

fn in_lib() -> bool {
    IN_LIB.with(|c| c.get()) == 1
}
/// Also while the harness only inspects a value.
fn by_lib() -> bool {
    IN_LIB.with(|c| c.get()) != 0
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_lib() {
            if ACTIVE.load(Relaxed) && !std::thread::panicking() {
                let _g = set_in_lib(0);
                if let Some(s) = ctx::event_raw(K::Alloc) {
                    PENDING.with(|p| p.set(s));
                    return std::ptr::null_mut();
                }
            }
            LIB_BALANCE.with(|b| b.set(b.get() + l.size() as i64));
        }
        if l.size() as i64 > MAX_BYTES {
            return std::ptr::null_mut();
        }
        // A runaway allocation ends in std's abort (reported as a crash), not
        // in the machine running out of memory.
        if LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) > MAX_BYTES {
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
            return std::ptr::null_mut();
        }
        let (o, h) = header(&l);
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let tag = if by_lib() { l.size() as u64 } else { 0 };
        LIB_ALIVE.fetch_add(tag as i64, Relaxed);
        let p = p.add(h);
        (p as *mut u64).sub(1).write_unaligned(tag);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_lib() {
            if ACTIVE.load(Relaxed) && !std::thread::panicking() {
                let _g = set_in_lib(0);
                crate::sched::yield_point();
            }
            LIB_BALANCE.with(|b| b.set(b.get() - l.size() as i64));
        }
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIB_ALIVE.fetch_sub((p as *mut u64).sub(1).read_unaligned() as i64, Relaxed);
        let (o, h) = header(&l);
        System.dealloc(p.sub(h), o)
    }
}

/// Installed as std's allocation error hook: an injected allocation failure
/// unwinds (as std allows) instead of aborting.
pub fn oom_hook(_l: Layout) {
    let s = PENDING.with(|p| p.replace(0));
    if s != 0 {
        let _g = set_in_lib(0);
        std::panic::resume_unwind(Box::new(Injected(s)));
    }
}
