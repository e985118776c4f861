//! Counts the allocations of the calling thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn live(change: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + change));
}

/// Bytes taken by the calling thread and not given back by it
pub fn in_use() -> i64 {
    LIVE.get()
}

fn note(size: usize) {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + size as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note(new);
        live(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        System.alloc_zeroed(l)
    }
}

/// Allocations and bytes allocated while running `f`
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (c, b) = (COUNT.get(), BYTES.get());
    let r = f();
    (r, COUNT.get() - c, BYTES.get() - b)
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of the calling thread, in microseconds
fn now() -> u64 {
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.sec as u64 * 1_000_000 + t.nsec as u64 / 1000
}

/// Processor time that `f` takes on this thread, in microseconds: the least of `n` runs
pub fn time<T>(n: usize, mut f: impl FnMut() -> T) -> u64 {
    (0..n)
        .map(|_| {
            let t = now();
            let r = f();
            let t = now() - t;
            drop(r);
            t
        })
        .min()
        .unwrap_or(0)
}
