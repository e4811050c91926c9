//! Allocator which counts the bytes a thread holds, to bound what one call allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and gives the bytes it held at most beyond what was held before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    let top = PEAK.with(|p| p.get());
    (r, (top - before).max(0) as usize)
}

/// The bytes the calling thread holds; only differences mean something.
pub fn now() -> isize {
    NOW.with(|c| c.get())
}
