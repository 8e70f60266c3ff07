use super::*;
#[repr(C)]
pub struct S { p: *const u8, n: usize }
pub unsafe fn texts(t: *const S, k: usize) -> Vec<String> {
    (0..k).map(|i| { let s = &*t.add(i); String::from_utf8_unchecked(::std::slice::from_raw_parts(s.p, s.n).to_vec()) }).collect()
}
pub unsafe fn give(r: &str, out: *mut u8, cap: usize) -> usize { assert!(r.len() <= cap); ::std::ptr::copy_nonoverlapping(r.as_ptr(), out, r.len()); r.len() }
#[no_mangle]
pub unsafe extern "C" fn k_c_doc(t: *const S, k: usize, class: bool, out: *mut u8, cap: usize) -> usize {
    give(&cpp_code::doc_comments_to_c_comments(&texts(t, k), class), out, cap)
}
