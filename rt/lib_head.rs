#![allow(warnings)]
mod vp_alloc {
    use std::alloc::{GlobalAlloc, Layout};
    extern "C" { fn vp_ralloc(n: usize, a: usize) -> *mut u8; fn vp_rdealloc(p: *mut u8, n: usize, a: usize); }
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { vp_ralloc(l.size(), l.align()) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { vp_rdealloc(p, l.size(), l.align()) }
    }
    #[global_allocator]
    static G: A = A;
}
