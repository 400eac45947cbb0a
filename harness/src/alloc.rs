//! Counting global allocator: per-thread allocation and deallocation counts,
//! and a self-imposed limit on live bytes (so a runaway operation ends in a
//! deterministic allocation failure instead of exhausting the machine).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

pub const LIMIT: usize = 3 << 30;
static LIVE: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static OWN: Cell<bool> = const { Cell::new(false) };
    static METER: Cell<bool> = const { Cell::new(false) };
    static HELD: Cell<i64> = const { Cell::new(0) };
}

/// Bytes allocated (less bytes freed) inside `f` are added to this thread's `held`.
pub fn metered<R>(f: impl FnOnce() -> R) -> R {
    METER.with(|m| m.set(true));
    let r = f();
    METER.with(|m| m.set(false));
    r
}
pub fn held() -> i64 {
    HELD.with(|h| h.get())
}
pub fn held_reset() {
    HELD.with(|h| h.set(0));
}
fn hold(n: i64) {
    if METER.try_with(|m| m.get()).unwrap_or(false) {
        let _ = HELD.try_with(|h| h.set(h.get() + n));
    }
}

/// Bookkeeping of the monitors themselves, called from inside the observed operations:
/// its allocations are not counted.
pub fn own<R>(f: impl FnOnce() -> R) -> R {
    let old = OWN.with(|o| o.replace(true));
    let r = f();
    OWN.with(|o| o.set(old));
    r
}

fn up(c: &'static std::thread::LocalKey<Cell<u64>>) {
    if !OWN.try_with(|o| o.get()).unwrap_or(true) {
        let _ = c.try_with(|c| c.set(c.get() + 1));
    }
}

fn take(n: usize) -> bool {
    if LIVE.fetch_add(n, Relaxed).saturating_add(n) > LIMIT {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(&ALLOCS);
        if l.size() > LIMIT || !take(l.size()) {
            return std::ptr::null_mut();
        }
        hold(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(&ALLOCS);
        if l.size() > LIMIT || !take(l.size()) {
            return std::ptr::null_mut();
        }
        hold(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        up(&FREES);
        hold(-(l.size() as i64));
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        up(&ALLOCS);
        if n > LIMIT || !take(n) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        if !r.is_null() {
            hold(n as i64 - l.size() as i64);
        }
        LIVE.fetch_sub(if r.is_null() { n } else { l.size() }, Relaxed);
        r
    }
}

/// (allocations incl. reallocations, deallocations) on this thread so far.
pub fn counts() -> (u64, u64) {
    (ALLOCS.with(|c| c.get()), FREES.with(|c| c.get()))
}
