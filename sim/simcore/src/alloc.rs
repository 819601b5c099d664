//! Counting allocator with ownership domains: which part of the process allocated what is still alive.
//! Only the leak scenario turns it on; otherwise allocations are passed through (with a tag header).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const HARNESS: u8 = 0;
pub const SERVER: u8 = 1;

thread_local! {
    static DOMAIN: Cell<u8> = const { Cell::new(HARNESS) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
}

pub fn get_domain() -> u8 {
    DOMAIN.try_with(|d| d.get()).unwrap_or(HARNESS)
}
pub fn set_domain(d: u8) {
    let _ = DOMAIN.try_with(|c| c.set(d));
}

pub struct Guard(u8);
impl Drop for Guard {
    fn drop(&mut self) {
        set_domain(self.0);
    }
}
/// Allocations until the guard is dropped belong to the harness.
pub fn harness() -> Guard {
    let g = Guard(get_domain());
    set_domain(HARNESS);
    g
}
/// Allocations until the guard is dropped belong to the code under test.
pub fn server() -> Guard {
    let g = Guard(get_domain());
    set_domain(SERVER);
    g
}

/// (bytes, blocks) allocated by this OS thread's server domain and not freed yet.
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.with(|c| c.get()), LIVE_BLOCKS.with(|c| c.get()))
}

pub struct TaggingAlloc;

fn head(layout: &Layout) -> usize {
    layout.align().max(16)
}

// SAFETY: every block gets a header in front whose last byte holds the domain; sizes and alignments are kept.
unsafe impl GlobalAlloc for TaggingAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let h = head(&layout);
        let Ok(l) = Layout::from_size_align(layout.size() + h, h) else {
            return std::ptr::null_mut();
        };
        let p = System.alloc(l);
        if p.is_null() {
            return p;
        }
        let d = get_domain();
        *p.add(h - 1) = d;
        if d == SERVER {
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + layout.size() as i64));
            let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() + 1));
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let h = head(&layout);
        let d = *ptr.sub(1);
        if d == SERVER {
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - layout.size() as i64));
            let _ = LIVE_BLOCKS.try_with(|c| c.set(c.get() - 1));
        }
        let l = Layout::from_size_align_unchecked(layout.size() + h, h);
        System.dealloc(ptr.sub(h), l);
    }
}
