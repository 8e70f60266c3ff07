use crate::{SourceCode,
    extension::ExtHandlers, typemap::TypeMap, CppConfig, ItemToExpand, JavaConfig, LanguageConfig, LanguageGenerator,
};
unsafe fn run(cfg: LanguageConfig, code: &[SourceCode], items: Vec<ItemToExpand>, remove: bool) -> i32 {
    let mut m = TypeMap::default();
    if !items.is_empty() { m.merge(crate::source_registry::SourceId::none(), "mod swig_foreign_types_map {}\n#[swig_code = \"let {to_var}: {to_var_type} = <{to_var_type}>::swig_from({from_var}, env);\"]\npub trait SwigFrom<T> { fn swig_from(_: T, env: *mut JNIEnv) -> Self; }", 64).map_err(|_| ()).unwrap(); }
    let (c, f, e) = Default::default();
    let h = ExtHandlers { class_ext_handlers: &c, method_ext_handlers: &f, enum_ext_handlers: &e };
    let r = match cfg {
        LanguageConfig::JavaConfig(c) => c.expand_items(&mut m, 64, code, items, remove, h),
        LanguageConfig::CppConfig(c) => c.expand_items(&mut m, 64, code, items, remove, h),
        _ => unreachable!(),
    };
    if r.is_ok() { 0 } else { 1 }
}
// generates the support files g1.hpp and g2.h
#[no_mangle]
pub unsafe extern "C" fn k_cpp(remove: bool) -> i32 {
    let code = [SourceCode { id_of_code: "g1.hpp".into(), code: "x RUST_SWIG_USER_NAMESPACE y".into() }, SourceCode { id_of_code: "g2.h".into(), code: "two".into() }];
    run(LanguageConfig::CppConfig(CppConfig::new("o".into(), "ns".into())), &code, vec![], remove)
}
#[no_mangle]
pub unsafe extern "C" fn k_java(remove: bool) -> i32 {
    run(LanguageConfig::JavaConfig(JavaConfig::new("o".into(), "p.q".into())), &[], vec![], remove)
}


// one class, one enum and one callback
fn items(l: &LanguageConfig) -> Vec<ItemToExpand> {
    use crate::{code_parse::*, source_registry::SourceId};
    let ts = |s: &str| -> ::proc_macro2::TokenStream { s.parse().unwrap() };
    let s = SourceId::none();
    vec![
        ItemToExpand::Class(match parse_foreigner_class(s, l, ts("class Kl { fn a::f(); }")) { Ok(c) => Box::new(c), Err(_) => panic!() }),
        ItemToExpand::Enum(match parse_foreign_enum(s, ts("enum En { A = X::A, }")) { Ok(c) => c, Err(_) => panic!() }),
        ItemToExpand::Interface(match parse_foreign_interface(s, ts("interface Cb { self_type X; on = X::on(&self); }")) { Ok(c) => c, Err(_) => panic!() }),
    ]
}
#[no_mangle]
pub unsafe extern "C" fn k_cpp_items(remove: bool) -> i32 {
    let l = LanguageConfig::CppConfig(CppConfig::new("o".into(), "ns".into()));
    let i = items(&l);
    run(l, &[], i, remove)
}
#[no_mangle]
pub unsafe extern "C" fn k_java_items(remove: bool) -> i32 {
    let l = LanguageConfig::JavaConfig(JavaConfig::new("o".into(), "p.q".into()));
    let i = items(&l);
    run(l, &[], i, remove)
}
