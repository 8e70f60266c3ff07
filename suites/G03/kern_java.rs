use super::*;
use crate::cpp::vp_kern_cpp::{texts, give, S};
#[no_mangle]
pub unsafe extern "C" fn k_java_doc(t: *const S, k: usize, class: bool, out: *mut u8, cap: usize) -> usize {
    give(&java_code::doc_comments_to_java_comments(&texts(t, k), class), out, cap)
}
