//! Global allocator that counts the memory held by the current thread. Requests beyond 4 GiB fail,
//! so that a size taken from a hostile file shows as an abort and never exhausts the machine.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

const REFUSE: usize = 4 << 30;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
    static MOST: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Whether `n` more bytes exceed what the thread may hold, or one more request what it may make.
#[inline]
fn over(n: usize) -> bool {
    let count = COUNT.try_with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    n > REFUSE || count.unwrap_or(0) > MOST.try_with(|m| m.get()).unwrap_or(u64::MAX) || CUR.try_with(|c| c.get()).unwrap_or(0).saturating_add(n as isize) > LIMIT.try_with(|l| l.get()).unwrap_or(isize::MAX)
}

/// Requests that make the current thread hold more than `n` bytes fail from now on, which aborts
/// the process. Without it an endless loop that collects elements would exhaust the machine.
pub fn limit(n: usize) {
    let now = CUR.with(|c| c.get());
    LIMIT.with(|l| l.set(now.saturating_add(n.min(isize::MAX as usize) as isize)));
}

#[inline]
fn add(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if over(n.saturating_sub(l.size())) || n > REFUSE {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            add(n as isize - l.size() as isize);
        }
        q
    }
}

/// Runs `f` and returns the most memory it held at any time beyond what was held before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - before).max(0) as usize)
}

/// Runs `f` and returns how many requests it made and how many bytes they added up to. A run that
/// makes more than `most` requests is aborted.
pub fn work<T>(most: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
    let (count, total) = (COUNT.with(|c| c.get()), TOTAL.with(|c| c.get()));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            let _ = MOST.try_with(|m| m.set(u64::MAX));
        }
    }
    let reset = Reset;
    MOST.with(|m| m.set(count.saturating_add(most)));
    let r = f();
    drop(reset);
    (r, COUNT.with(|c| c.get()) - count, TOTAL.with(|c| c.get()) - total)
}
