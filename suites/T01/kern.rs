use crate::{
    source_registry::SourceId,
    typemap::{
        ast::{ForeignTypeName, GenericTypeConv},
        TypeMap, MapToForeignFlag, TypeConvCode,
    },
    error::invalid_src_id_span,
};
type Ty = ::syn::Type;
fn id(n: &str) -> ::syn::Ident { ::syn::Ident::new(n, ::proc_macro2::Span::call_site()) }
fn named(n: &str) -> Ty { let n = id(n); ::syn::parse_quote! { #n } }
fn code(s: &str) -> TypeConvCode { TypeConvCode::new(format!("{{to_var}} {{from_var}} {};", s), invalid_src_id_span()) }
unsafe fn emit(r: crate::error::Result<(Vec<::proc_macro2::TokenStream>, String)>, out: *mut u8, cap: usize) -> usize {
    match r {
        Ok((_, c)) => { assert!(c.len() <= cap); ::std::ptr::copy_nonoverlapping(c.as_ptr(), out, c.len()); c.len() }
        Err(_) => usize::MAX,
    }
}
const NAMES: [&str; 4] = ["A", "B", "C", "D"];
unsafe fn graph(adj: *const u8) -> (TypeMap, [crate::typemap::RustTypeIdx; 4]) {
    let mut m = TypeMap::default();
    m.generic_edges.clear();
    let ids = [0, 1, 2, 3].map(|i: usize| m.find_or_alloc_rust_type_no_src_id(&named(NAMES[i])).to_idx());
    for i in 0..4 { for j in 0..4 { if *adj.add(i * 4 + j) != 0 {
        m.add_conversion_rule(ids[i], ids[j], code(&format!("{}{}", NAMES[i], NAMES[j])).into());
    } } }
    (m, ids)
}
#[no_mangle]
pub unsafe extern "C" fn k_paths(adj: *const u8, from: u32, to: u32, out: *mut u8, cap: usize) -> usize {
    let (mut m, ids) = graph(adj);
    emit(m.convert_rust_types(ids[from as usize], ids[to as usize], "x", "y", "ret", invalid_src_id_span()), out, cap)
}
// foreign types attached to B, C, D in the order given: which one A maps to (0 = none); asked twice
#[no_mangle]
pub unsafe extern "C" fn k_foreign(adj: *const u8, incoming: bool, has: *const u8) -> u32 {
    let (mut m, ids) = graph(adj);
    for i in 1..4 { if *has.add(i) != 0 {
        m.add_foreign_rust_ty_idx(ForeignTypeName::new(format!("f{}", NAMES[i]), invalid_src_id_span()), ids[i]).unwrap();
    } }
    let dir = if incoming { ::petgraph::Direction::Incoming } else { ::petgraph::Direction::Outgoing };
    let mut ask = || m.map_through_conversion_to_foreign(ids[0], dir, MapToForeignFlag::FullSearch, invalid_src_id_span(), |_, _| None)
        .map(|f| { let n = m[f].name.display().to_string(); (1..4).find(|i| n == format!("f{}", NAMES[*i])).unwrap() as u32 }).unwrap_or(0);
    let a = ask();
    assert_eq!(a, ask());
    a
}
fn rule(m: &mut TypeMap, from: Ty, to: Ty, g: ::syn::Generics, c: &str) { m.generic_edges.push(GenericTypeConv::new(from, to, g, code(c))); }
// types Foo and Bar, whose marker traits are chosen by bits; generic rules chosen by bits; query chosen by q
#[no_mangle]
pub unsafe extern "C" fn k_generic(rules: *const u8, marks: *const u8, q: u32, out: *mut u8, cap: usize) -> usize {
    let mut m = TypeMap::default();
    m.generic_edges.clear();
    let on = |p: *const u8, i: usize| *p.add(i) != 0;
    for (k, n) in [(0, "Foo"), (2, "Bar")] {
        let mut t: Vec<&str> = vec![];
        if on(marks, k) { t.push("Class"); }
        if on(marks, k + 1) { t.push("Extra"); }
        m.find_or_alloc_rust_type_that_implements(&named(n), &t, SourceId::none());
    }
    let one: ::syn::Generics = ::syn::parse_quote! { <T: Class> };
    let both: ::syn::Generics = ::syn::parse_quote! { <T: Class + Extra> };
    let any: ::syn::Generics = ::syn::parse_quote! { <T> };
    if on(rules, 0) { rule(&mut m, ::syn::parse_quote! { Rc<T> }, ::syn::parse_quote! { &T }, any, "deref"); }
    if on(rules, 1) { rule(&mut m, ::syn::parse_quote! { &T }, ::syn::parse_quote! { Hold<T> }, one, "hold"); }
    if on(rules, 2) { rule(&mut m, ::syn::parse_quote! { Hold<T> }, ::syn::parse_quote! { Fin }, both, "fin"); }
    if on(rules, 3) { let (a, b) = (m.find_or_alloc_rust_type_no_src_id(&::syn::parse_quote! { &Foo }).to_idx(), m.find_or_alloc_rust_type_no_src_id(&named("Fin")).to_idx());
        m.add_conversion_rule(a, b, code("direct").into()); }
    let ty: Ty = if q == 0 { ::syn::parse_quote! { Rc<Foo> } } else { ::syn::parse_quote! { Rc<Bar> } };
    let a = m.find_or_alloc_rust_type_no_src_id(&ty).to_idx();
    let b = m.find_or_alloc_rust_type_no_src_id(&named("Fin")).to_idx();
    emit(m.convert_rust_types(a, b, "x", "y", "ret", invalid_src_id_span()), out, cap)
}
// type shapes: 0 T (patterns) / Foo, 1 Foo, 2 Bar, 3 &x, 4 &mut x, 5 Vec<x>, 6 Rc<x>, 7 (x, y), 8 Pair<x, y>, 9 [x], 10 *const x
unsafe fn shape(s: *const u8, t: &str) -> Ty {
    let leaf = |b: u8| named(match b { 0 => t, 1 => "Foo", _ => "Bar" });
    let (x, y) = (leaf(*s.add(1)), leaf(*s.add(2)));
    match *s {
        0 | 1 | 2 => leaf(*s),
        3 => ::syn::parse_quote! { &#x },
        4 => ::syn::parse_quote! { &mut #x },
        5 => ::syn::parse_quote! { Vec<#x> },
        6 => ::syn::parse_quote! { Rc<#x> },
        7 => ::syn::parse_quote! { (#x, #y) },
        8 => ::syn::parse_quote! { Pair<#x, #y> },
        9 => ::syn::parse_quote! { [#x] },
        _ => ::syn::parse_quote! { *const #x },
    }
}
// 0: no match; 1: match and the pattern with T replaced is the target; 2: match, but it is not
#[no_mangle]
pub unsafe extern "C" fn k_unify(pat: *const u8, target: *const u8) -> u32 {
    let (p, t) = (shape(pat, "T"), shape(target, "Baz"));
    let mut m = TypeMap::default();
    let t = m.find_or_alloc_rust_type_no_src_id(&t);
    let r = GenericTypeConv::new(p.clone(), p, ::syn::parse_quote! { <T> }, code("c"));
    let ret = match r.is_conv_possible(&t, None, |_| None) {
        None => 0,
        Some(c) => if c.to_ty_name == t.normalized_name { 1 } else { 2 },
    };
    ret
}
// foreign types attached to types that only generic rules reach from A, registered in the order given; which one A maps to (0 = none)
#[no_mangle]
pub unsafe extern "C" fn k_build(has: *const u8, rev: bool, class: bool) -> u32 {
    let mut m = TypeMap::default();
    m.generic_edges.truncate(2);
    rule(&mut m, ::syn::parse_quote! { T }, ::syn::parse_quote! { Hold<T> }, ::syn::parse_quote! { <T: Class> }, "hold");
    let a = m.find_or_alloc_rust_type_that_implements(&named("A"), if class { &["Class"] } else { &["Other"] }, SourceId::none()).to_idx();
    let tys: [Ty; 4] = [::syn::parse_quote! { &Hold<A> }, ::syn::parse_quote! { Hold<A> }, ::syn::parse_quote! { &mut A }, ::syn::parse_quote! { &A }];
    let mut add = |i: usize| if *has.add(i) != 0 {
        let t = m.find_or_alloc_rust_type_no_src_id(&tys[i]).to_idx();
        m.add_foreign_rust_ty_idx(ForeignTypeName::new(format!("f{}", i + 1), invalid_src_id_span()), t).unwrap();
    };
    if rev { for i in 0..4 { add(3 - i); } } else { for i in 0..4 { add(i); } }
    m.map_through_conversion_to_foreign(a, ::petgraph::Direction::Outgoing, MapToForeignFlag::FullSearch, invalid_src_id_span(), |_, _| None)
        .map(|f| { let n = m[f].name.display().to_string(); (1..5).find(|i| n == format!("f{}", i)).unwrap() as u32 }).unwrap_or(0)
}
