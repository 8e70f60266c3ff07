use crate::{namegen::new_unique_name, str_replace::replace_first_and_other};
use rustc_hash::FxHashSet;
use smol_str::SmolStr;
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str { ::std::str::from_utf8(::std::slice::from_raw_parts(p, n)).unwrap() }
unsafe fn put(r: &str, out: *mut u8, cap: usize) -> usize { let n = r.len(); assert!(n <= cap); ::std::ptr::copy_nonoverlapping(r.as_ptr(), out, n); n }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct S { p: *const u8, n: usize }
#[no_mangle]
pub unsafe extern "C" fn k_unique(names: *const S, k: usize, owned: bool, stem: S, out: *mut u8, cap: usize) -> usize {
    let names = ::std::slice::from_raw_parts(names, k);
    let stem = s(stem.p, stem.n);
    if owned {
        let mut set = FxHashSet::<SmolStr>::default();
        for x in names { set.insert(s(x.p, x.n).into()); }
        let r = new_unique_name(&set, stem);
        put(&r, out, cap)
    } else {
        let mut set = FxHashSet::<&str>::default();
        for x in names { set.insert(s(x.p, x.n)); }
        let r = new_unique_name(&set, stem);
        put(&r, out, cap)
    }
}
#[no_mangle]
pub unsafe extern "C" fn k_replace(src: S, from: S, first: S, other: S, out: *mut u8, cap: usize) -> usize {
    let r = replace_first_and_other(s(src.p, src.n), s(from.p, from.n), s(first.p, first.n), s(other.p, other.n));
    put(&r, out, cap)
}
