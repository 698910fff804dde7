//! Counts what an execution costs: the bytes it asks of the allocator and the processor time of its
//! thread. Both leave out what other threads do meanwhile.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

pub struct Meter;

fn add(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(n as u64)));
}

// SAFETY: everything is passed on to the system's allocator
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

unsafe extern "C" {
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

/// The processor time this thread took, in nanoseconds.
pub fn thread_time() -> u64 {
    let mut ts = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &raw mut ts) };
    assert!(r == 0, "no clock of the thread's time");
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub bytes: u64,
    pub nanos: u64,
}

pub fn cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (b, t) = (BYTES.with(Cell::get), thread_time());
    let r = f();
    let (b2, t2) = (BYTES.with(Cell::get), thread_time());
    (r, Cost { bytes: b2.wrapping_sub(b), nanos: t2.saturating_sub(t) })
}
