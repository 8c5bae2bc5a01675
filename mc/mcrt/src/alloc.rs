//! Arena allocator used while an execution is running: every logical thread bump-allocates from
//! a region of its own at a fixed address and memory is never reused within one execution, so
//! addresses are canonical (a function of the thread's own history) and every access to freed
//! memory is observable.
use std::alloc::{GlobalAlloc, Layout, System};

pub const REGION: usize = 1 << 20;
pub const ARENA_SIZE: usize = REGION * crate::engine::MAXT;
pub const ARENA: usize = 0x6000_0000_0000;

pub struct McAlloc;

#[global_allocator]
static GLOBAL: McAlloc = McAlloc;

#[inline(always)]
pub fn in_arena(p: usize) -> bool {
    p.wrapping_sub(ARENA) < ARENA_SIZE
}

unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if crate::engine::recording() {
            return crate::engine::arena_alloc(l.size(), l.align());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if crate::engine::recording() {
            let p = crate::engine::arena_alloc(l.size(), l.align());
            std::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            if crate::engine::recording() {
                crate::engine::arena_free(p as usize, l.size());
            }
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) || crate::engine::recording() {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            return q;
        }
        System.realloc(p, l, n)
    }
}
