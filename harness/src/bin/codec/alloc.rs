//! Allocator that measures, per thread, the peak of live bytes since a reset,
//! and refuses absurd single requests (which then shows up as an abort).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
pub struct Meter;
const ABSURD: usize = 1 << 31;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ABSURD {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ABSURD {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ABSURD {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
}
pub fn reset() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
}
pub fn peak() -> usize {
    PEAK.with(|p| p.get().max(0) as usize)
}
