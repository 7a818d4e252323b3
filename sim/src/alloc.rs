//! Counting allocator: the "memory" device of the simulation. Tracks live/peak/largest request per
//! thread, and refuses requests above a per-thread limit (a failing allocation).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static ZEROED: Cell<usize> = const { Cell::new(usize::MAX) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}

fn on_alloc(n: usize, limit: &'static std::thread::LocalKey<Cell<usize>>) -> bool {
    limit
        .try_with(|l| {
            if n > l.get() {
                REFUSED.with(|r| r.set(r.get() + 1));
                LARGEST.with(|x| x.set(x.get().max(n)));
                return false;
            }
            LIVE.with(|x| {
                let v = x.get() + n as isize;
                x.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
            LARGEST.with(|x| {
                if n > x.get() {
                    x.set(n)
                }
            });
            true
        })
        .unwrap_or(true)
}
fn on_free(n: usize) {
    let _ = LIVE.try_with(|x| x.set(x.get() - n as isize));
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size(), &LIMIT) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size(), &ZEROED) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !on_alloc(new, &LIMIT) {
            return std::ptr::null_mut();
        }
        on_free(l.size());
        System.realloc(p, l, new)
    }
}

pub struct Usage {
    pub peak: usize,
    pub largest: usize,
}
/// Measures peak growth and the largest single request while `f` runs.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|x| x.get());
    PEAK.with(|x| x.set(base));
    LARGEST.with(|x| x.set(0));
    let r = f();
    let peak = PEAK.with(|x| x.get()) - base;
    (r, Usage { peak: peak.max(0) as usize, largest: LARGEST.with(|x| x.get()) })
}
/// Requests above `n` bytes fail on this thread until the limit is changed.
pub fn set_limit(n: usize) {
    LIMIT.with(|x| x.set(n));
    ZEROED.with(|x| x.set(n));
}
/// The limit of requests for zeroed memory, which costs nothing until it is touched.
pub fn set_zeroed_limit(n: usize) {
    ZEROED.with(|x| x.set(n));
}
pub fn refused() -> u64 {
    REFUSED.with(|x| x.get())
}
