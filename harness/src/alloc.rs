//! Allocator used under symbolic execution: sizes are made concrete and memory is
//! never reused, so that allocator metadata stays out of the path conditions.
use std::alloc::{GlobalAlloc, Layout};

pub struct Bump;

static mut NEXT: usize = 0;
static mut END: usize = 0;

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let size = crate::sym::conc(l.size() as u64) as usize;
            let align = l.align().max(8);
            let at = (NEXT + align - 1) & !(align - 1);
            if at + size > END {
                let need = (size + align + 65535) / 65536 + 16;
                let p = core::arch::wasm32::memory_grow(0, need);
                if p == usize::MAX {
                    return core::ptr::null_mut();
                }
                if p * 65536 != END {
                    NEXT = p * 65536;
                }
                END = (p + need) * 65536;
                return self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            }
            NEXT = at + size;
            at as *mut u8
        }
    }
    unsafe fn dealloc(&self, _p: *mut u8, _l: Layout) {}
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let n = crate::sym::conc(n as u64) as usize;
            let old = crate::sym::conc(l.size() as u64) as usize;
            if p as usize + old == NEXT && p as usize + n <= END {
                NEXT = p as usize + n;
                return p;
            }
            if n <= old {
                return p;
            }
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            core::ptr::copy_nonoverlapping(p, q, old);
            q
        }
    }
}
