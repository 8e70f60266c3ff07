//! Driver: expands an interface file with the *current* generator of /repo.
//! usage: vgen cpp|java|python <in.rs.in> <out.rs> <out-dir> [opt..]
use flapigen::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (kind, src, out, dir) = (a[0].as_str(), &a[1], &a[2], PathBuf::from(&a[3]));
    let opts = &a[4..];
    let has = |s: &str| opts.iter().any(|o| o == s);
    let val = |s: &str| {
        opts.iter()
            .find_map(|o| o.strip_prefix(s).map(|x| x.to_string()))
    };
    std::fs::create_dir_all(&dir).unwrap();
    let cfg = match kind {
        "cpp" => {
            let mut c = CppConfig::new(dir, val("namespace=").unwrap_or("rust".into()));
            if has("boost") {
                c = c.use_boost();
            } else {
                c = c
                    .cpp_optional(CppOptional::Std17)
                    .cpp_variant(CppVariant::Std17)
                    .cpp_str_view(CppStrView::Std17);
            }
            if has("no-separate-impl") {
                c = c.separate_impl_headers(false);
            } else if has("separate-impl") {
                c = c.separate_impl_headers(true);
            }
            LanguageConfig::CppConfig(c)
        }
        "java" => {
            let mut c = JavaConfig::new(dir, val("package=").unwrap_or("com.example.rust".into()));
            if has("fence-std") {
                c = c.use_reachability_fence(JavaReachabilityFence::Std);
            }
            if let Some(n) = val("fence-gen=") {
                c = c.use_reachability_fence(JavaReachabilityFence::GenerateFence(
                    n.parse().unwrap(),
                ));
            }
            if let Some(p) = val("null-annotation=") {
                c = c.use_null_annotation_from_package(p);
            }
            if let Some(p) = val("optional=") {
                c = c.use_optional_package(p);
            }
            LanguageConfig::JavaConfig(c)
        }
        "python" => LanguageConfig::PythonConfig(PythonConfig::new(
            val("module=").unwrap_or("vmod".into()),
        )),
        _ => panic!("unknown kind {kind}"),
    };
    let mut g = Generator::new(cfg)
        .rustfmt_bindings(false)
        .with_pointer_target_width(64);
    if has("remove-stale") {
        g = g.remove_not_generated_files_from_output_directory(true);
    }
    // files named by options lie beside the interface file
    let beside = |f: &str| std::path::Path::new(src).parent().unwrap().join(f);
    for f in opts.iter().filter_map(|o| o.strip_prefix("typemap=")) {
        g = g.merge_type_map(f, &std::fs::read_to_string(beside(f)).unwrap());
    }
    let extra: Vec<PathBuf> = opts.iter().filter_map(|o| o.strip_prefix("extra=")).map(|f| beside(f)).collect();
    if extra.is_empty() {
        g.expand("vgen", src, out);
    } else {
        let mut srcs = vec![PathBuf::from(src)];
        srcs.extend(extra);
        g.expand_many("vgen", &srcs, out);
    }
}
