//! A per-thread limit on memory: a run whose code under test grows without end fails an allocation
//! (and so ends in the crash handler of check.rs, on the guilty thread) instead of exhausting the
//! machine.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Far beyond anything a run needs.
const LIMIT: isize = 1 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(isize::MIN) };
}

pub struct Limited;

fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get();
        if v == isize::MIN {
            return true;
        }
        if n > 0 && v + n > LIMIT {
            return false;
        }
        l.set(v + n);
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

/// Start (or with `false` end) counting on this thread.
pub fn watch(on: bool) {
    LIVE.with(|l| l.set(if on { 0 } else { isize::MIN }));
}
