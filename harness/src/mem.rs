//! Heap accounting (the server's share of it), and a refusal of absurd allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

pub struct Counting;
thread_local! {
    static OFF: Cell<isize> = const { Cell::new(0) };
}
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static BASE: AtomicIsize = AtomicIsize::new(0);
/// A single allocation above this is refused (the process aborts, the supervisor reports it).
pub const REFUSE: usize = 1 << 30;

/// While it is there, what this thread allocates is the simulation's own.
pub struct Mine(());
impl Mine {
    pub fn new() -> Mine {
        let _ = OFF.try_with(|o| o.set(o.get() + 1));
        Mine(())
    }
}
impl Drop for Mine {
    fn drop(&mut self) {
        let _ = OFF.try_with(|o| o.set(o.get() - 1));
    }
}
fn add(n: isize) {
    if OFF.try_with(|o| o.get()) != Ok(0) {
        return;
    }
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 && v > PEAK.load(Relaxed) {
        PEAK.store(v, Relaxed)
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
pub fn mark() {
    let l = LIVE.load(Relaxed);
    BASE.store(l, Relaxed);
    PEAK.store(l, Relaxed);
}
/// (peak, live) relative to the mark
pub fn since_mark() -> (usize, isize) {
    let b = BASE.load(Relaxed);
    ((PEAK.load(Relaxed) - b).max(0) as usize, LIVE.load(Relaxed) - b)
}
