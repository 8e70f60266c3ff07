use crate::{source_registry::SourceRegistry, CppConfig, Generator, JavaConfig, LanguageConfig, MethodVariant, PythonConfig, SourceCode, SourceId};
use rustc_hash::FxHashMap;
static mut CALLS: u32 = 0;
static mut EMPTY: u32 = 0;
fn mark(v: &mut Vec<u8>, parts: &[&str]) {
    unsafe { CALLS += 1; if v.len() < 40 { EMPTY += 1; } }
    v.extend_from_slice(b"\n//");
    for p in parts { v.push(b':'); v.extend_from_slice(p.as_bytes()); }
    v.push(b';');
}
#[no_mangle] pub unsafe extern "C" fn k_calls() -> u32 { CALLS }
#[no_mangle] pub unsafe extern "C" fn k_short() -> u32 { EMPTY }
// lang: 0 C++, 1 Java, 2 Python; handlers: 0 none, 1 all
#[no_mangle]
pub unsafe extern "C" fn k_expand(lang: u8, handlers: bool, a: *const u8, na: usize, b: *const u8, nb: usize) -> i32 {
    let config = match lang { 0 => LanguageConfig::CppConfig(CppConfig::new("o".into(), "ns".into())), 1 => LanguageConfig::JavaConfig(JavaConfig::new("o".into(), "p.q".into())), _ => LanguageConfig::PythonConfig(PythonConfig::new("m".into())) };
    let mut src_reg = SourceRegistry::default();
    let map = src_reg.register(SourceCode { id_of_code: "map".into(), code: "mod swig_foreign_types_map { #![swig_foreigner_type = \"boolean\"] #![swig_rust_type = \"jboolean\"] }\n#[swig_code = \"let {to_var}: {to_var_type} = <{to_var_type}>::swig_from({from_var}, env);\"]\npub trait SwigFrom<T> { fn swig_from(_: T, env: *mut JNIEnv) -> Self; }".into() });
    let text = |p: *const u8, n: usize| String::from_utf8(::std::slice::from_raw_parts(p, n).to_vec()).unwrap();
    let mut ids = vec![src_reg.register(SourceCode { id_of_code: "a".into(), code: text(a, na) })];
    if nb != 0 { ids.push(src_reg.register(SourceCode { id_of_code: "b".into(), code: text(b, nb) })); }
    let mut g = Generator { init_done: false, config, conv_map: Default::default(), conv_map_source: vec![map], foreign_lang_helpers: vec![], pointer_target_width: 64, src_reg, rustfmt_bindings: false, remove_not_generated_files: false, class_ext_handlers: Default::default(), method_ext_handlers: Default::default(), enum_ext_handlers: Default::default() };
    if handlers {
        let k = |v: MethodVariant| match v { MethodVariant::Constructor => "C", MethodVariant::StaticMethod => "S", _ => "M" };
        g = g.register_class_attribute_callback("Ka", |v, n| mark(v, &["Ka", n])).register_class_attribute_callback("Kb", |v, n| mark(v, &["Kb", n]))
            .register_enum_attribute_callback("Ea", |v, n| mark(v, &["Ea", n])).register_enum_attribute_callback("Eb", |v, n| mark(v, &["Eb", n]))
            .register_method_attribute_callback("Ma", move |v, i| mark(v, &["Ma", i.class_name, i.method_name, k(i.variant)])).register_method_attribute_callback("Mb", move |v, i| mark(v, &["Mb", i.class_name, i.method_name, k(i.variant)]));
    }
    let r = g.expand_str(&ids, "o/out.rs");
    if let Err(e) = &r { eprintln!("ERR {e}"); }
    if r.is_ok() { 0 } else { 1 }
}
