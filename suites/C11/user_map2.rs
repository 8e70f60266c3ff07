foreign_typemap!(
    ($p:r_type) Frost => i64 { $out = ($p.0 as i64) << 2; };
    ($p:r_type) Frost <= i64 { $out = Frost(($p ^ 1) as i32); };
    ($p:f_type, req_modules = ["\"frost.hpp\""]) => "Cold" "frost_out($p)";
    ($p:f_type, req_modules = ["\"frost.hpp\""]) <= "Cold" "frost_in($p)";
);
// a callback argument that becomes the result of the C++ function
foreign_typemap!(
    generic_alias!(COnce = swig_concat_idents!(COnce, swig_i_type!(T, output)));
    define_c_type!(
        module = "COnce!().h";
        #[repr(C)]
        pub struct COnce!() {
            cb: extern "C" fn(swig_i_type!(T, output), *mut ::std::os::raw::c_void),
            ctx: *mut ::std::os::raw::c_void,
        });
    ($p:r_type) <T> impl FnOnce(T) <= COnce!()
    {
        $out_no_type = move |x| {
            let _ = & $p;
            swig_from_rust_to_i_type!(T, x, x)
            ($p.cb)(x, $p.ctx);
        };
    };
    ($p:f_type, $tmp:temporary, input_to_output, req_modules = ["\"COnce!().h\"", "\"later.hpp\""]) <= "Later<swig_f_type!(T, output)>"
        r#"
        auto $tmp = new LaterState<swig_f_type!(T, output)>;
        Later<swig_f_type!(T, output)> $p{$tmp};
        $out;
        $out.ctx = $tmp;
        $out.cb = [](swig_i_type!(T, output) arg, void *opaque) {
            auto arg_cpp = swig_foreign_from_i_type!(T, arg);
            static_cast<LaterState<swig_f_type!(T, output)> *>(opaque)->put(std::move(arg_cpp));
        };
"#;
    foreign_code!(module = "frost.hpp";
r##"#pragma once
#include "heat.hpp"
inline Cold frost_out(int64_t v) noexcept { return Cold{v | 1, 2}; }
inline int64_t frost_in(const Cold &c) noexcept { return c.raw + c.calls; }
"##);
    foreign_code!(module = "later.hpp";
r##"#pragma once
#include <optional>
#include <memory>
#include <utility>
template <class T> struct LaterState { int n = 0; std::optional<T> v; void put(T &&t) { n++; v.emplace(std::move(t)); } };
template <class T> struct Later { std::unique_ptr<LaterState<T>> s; explicit Later(LaterState<T> *p) : s(p) {} int calls() const { return s->n; } T take() { return std::move(*s->v); } };
"##);
);
foreign_typemap!(
    ($p:r_type) OptBoth => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(7); };
    ($p:r_type) OptBoth <= i32 { $out = OptBoth($p.wrapping_mul(4).wrapping_sub(7)); };
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) => "OvOptBoth" "OvOptBoth{$p, 7}";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) => "OvOptBoth" "OvOptBoth{$p, 107}";
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) <= "OvOptBoth" "$p.raw + $p.extra * 7";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) <= "OvOptBoth" "$p.raw + $p.extra * 107";
);
foreign_typemap!(
    ($p:r_type) OptMap => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(9); };
    ($p:r_type) OptMap <= i32 { $out = OptMap($p.wrapping_mul(4).wrapping_sub(9)); };
    ($p:f_type, req_modules = ["\"ov.hpp\""]) => "OvOptMap" "OvOptMap{$p, 9}";
    ($p:f_type, req_modules = ["\"ov.hpp\""]) <= "OvOptMap" "$p.raw + $p.extra * 9";
);
foreign_typemap!(
    ($p:r_type) OptHalf <= i32 { $out = OptHalf($p.wrapping_mul(4).wrapping_sub(9)); };
    ($p:f_type, req_modules = ["\"ov.hpp\""]) <= "OvOptHalf" "$p.raw + $p.extra * 9";
);
