//! Counts the memory that the code under test holds on this thread.
//!
//! Every allocation carries a header that says whether it was made while
//! counting was on, so that freeing it at any time is accounted correctly.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn extended(l: Layout) -> Option<(Layout, usize)> {
    let head = l.align().max(16);
    let size = l.size().checked_add(head)?;
    Layout::from_size_align(size, head).ok().map(|x| (x, head))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (x, head) = match extended(l) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        finish(System.alloc(x), l, head)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (x, head) = match extended(l) {
            Some(x) => x,
            None => return std::ptr::null_mut(),
        };
        finish(System.alloc_zeroed(x), l, head)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (x, head) = extended(l).unwrap();
        if *(p.sub(8) as *const u64) == 1 {
            add(-(l.size() as i64));
        }
        System.dealloc(p.sub(head), x)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let (x, head) = extended(l).unwrap();
        let size = match new.checked_add(head) {
            Some(s) if s <= isize::MAX as usize - 4096 => s,
            _ => return std::ptr::null_mut(),
        };
        let counted = *(p.sub(8) as *const u64) == 1;
        let q = System.realloc(p.sub(head), x, size);
        if q.is_null() {
            return q;
        }
        if counted {
            add(new as i64 - l.size() as i64);
        }
        q.add(head)
    }
}

unsafe fn finish(base: *mut u8, l: Layout, head: usize) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(head);
    let on = ON.try_with(|o| o.get()).unwrap_or(false);
    *(p.sub(8) as *mut u64) = on as u64;
    if on {
        add(l.size() as i64);
        let _ = MADE.try_with(|m| m.set(m.get() + 1));
    }
    p
}

fn add(n: i64) {
    let _ = LIVE.try_with(|x| x.set(x.get() + n));
}

/// Counting is on (or off) while this lives.
pub struct Scope(bool);

impl Drop for Scope {
    fn drop(&mut self) {
        let _ = ON.try_with(|o| o.set(self.0));
    }
}

pub fn counted() -> Scope {
    Scope(ON.with(|o| o.replace(true)))
}

pub fn uncounted() -> Scope {
    Scope(ON.with(|o| o.replace(false)))
}

pub(crate) fn swap(on: bool) -> bool {
    ON.with(|o| o.replace(on))
}

/// bytes allocated while counting and not freed since, on this thread
pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}

/// number of counted allocations so far, on this thread
pub fn made() -> u64 {
    MADE.with(|x| x.get())
}

pub fn reset() {
    ON.with(|o| o.set(false));
    LIVE.with(|x| x.set(0));
}
