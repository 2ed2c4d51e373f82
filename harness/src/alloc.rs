//! The global allocator of every check: counts per-thread traffic, and refuses requests above a
//! limit, so that runaway growth is observed (as an error, or an abort) instead of exhausting memory.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

/// No single request may exceed this, whatever the machine offers.
pub const HARD_LIMIT: usize = 2 << 30;
/// All live memory of the process.
const TOTAL_LIMIT: i64 = 16 << 30;

thread_local! {
    static REQUESTED: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(HARD_LIMIT) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}

static TOTAL: AtomicI64 = AtomicI64::new(0);

fn admit(size: usize) -> bool {
    let limit = LIMIT.try_with(Cell::get).unwrap_or(HARD_LIMIT);
    if size > limit || TOTAL.load(Relaxed) + size as i64 > TOTAL_LIMIT {
        let _ = REFUSED.try_with(|c| c.set(c.get() + 1));
        return false;
    }
    true
}

fn note(size: i64) {
    TOTAL.fetch_add(size, Relaxed);
    let _ = LIVE.try_with(|l| {
        let v = l.get() + size;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
    if size > 0 {
        let _ = REQUESTED.try_with(|c| c.set(c.get() + size as u64));
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !admit(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && !admit(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            note(-(l.size() as i64));
            note(new as i64);
        }
        q
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Usage {
    /// Bytes requested in total.
    pub requested: u64,
    /// Number of allocations.
    pub count: u64,
    /// Most bytes live at once, over what was live at the start.
    pub peak: i64,
    /// Bytes still live at the end, over what was live at the start.
    pub left: i64,
    /// Requests refused.
    pub refused: u64,
}

/// Runs `f`, measuring what this thread allocates meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let (r0, c0, l0, f0) = (
        REQUESTED.with(Cell::get),
        COUNT.with(Cell::get),
        LIVE.with(Cell::get),
        REFUSED.with(Cell::get),
    );
    PEAK.with(|p| p.set(l0));
    let out = f();
    let u = Usage {
        requested: REQUESTED.with(Cell::get) - r0,
        count: COUNT.with(Cell::get) - c0,
        peak: PEAK.with(Cell::get) - l0,
        left: LIVE.with(Cell::get) - l0,
        refused: REFUSED.with(Cell::get) - f0,
    };
    (out, u)
}

struct Reset(usize);
impl Drop for Reset {
    fn drop(&mut self) {
        LIMIT.with(|l| l.set(self.0));
    }
}

/// Runs `f` while requests above `limit` bytes on this thread fail.
pub fn with_limit<T>(limit: usize, f: impl FnOnce() -> T) -> T {
    let old = LIMIT.with(|l| l.replace(limit));
    let _reset = Reset(old);
    f()
}
