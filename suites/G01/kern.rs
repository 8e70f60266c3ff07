use crate::file_cache::{FileOperationsRegistrator, FileWriteCache, NoNeedFsOpsRegistration};
use std::io::Write;
use std::path::{Path, PathBuf};
struct Reg(Vec<PathBuf>);
impl FileOperationsRegistrator for Reg { fn register(&mut self, p: &Path) { self.0.push(p.into()); } }
/// returns 0 when the update reports success
#[no_mangle]
pub unsafe extern "C" fn k_update(parts: *const u8, lens: *const usize, k: usize, how: u32) -> i32 {
    let mut reg = Reg(vec![]);
    let mut f = FileWriteCache::new("d/out.h", &mut reg);
    assert!(reg.0.len() == 1 && reg.0[0] == Path::new("d/out.h"));
    let lens = ::std::slice::from_raw_parts(lens, k);
    let mut at = 0;
    for n in lens {
        let p = ::std::slice::from_raw_parts(parts.add(at), *n);
        match how {
            0 => f.write_all(p).unwrap(),
            1 => { let w = f.write(p).unwrap(); assert!(w == p.len()); f.flush().unwrap(); }
            2 => { let mut c = f.take_content(); c.extend_from_slice(p); f.replace_content(c); }
            _ => { f.define_item("x"); assert!(f.is_item_defined("x")); for b in p { f.write_all(&[*b]).unwrap(); } }
        }
        at += *n;
    }
    match f.update_file_if_necessary() { Ok(()) => 0, Err(_) => 1 }
}
#[no_mangle]
pub unsafe extern "C" fn k_items(a: *const u8, n: usize, b: *const u8, m: usize) -> i32 {
    let s = |p, n| ::std::str::from_utf8(::std::slice::from_raw_parts(p, n)).unwrap();
    let mut f = FileWriteCache::new("o", &mut NoNeedFsOpsRegistration);
    if f.is_item_defined(s(a, n)) { return -1; }
    f.define_item(s(a, n));
    if !f.is_item_defined(s(a, n)) { return -2; }
    if f.take_content().len() != 0 { return -3; }
    f.is_item_defined(s(b, m)) as i32
}
