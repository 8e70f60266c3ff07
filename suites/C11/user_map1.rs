// merged with merge_type_map: new types and a change of built-in rules
foreign_typemap!(
    ($p:r_type) Temp => i64 { $out = ($p.0 as i64) * 16 + 3; };
    ($p:r_type) Temp <= i64 { $out = Temp(($p >> 4) as i32); };
    ($p:f_type, req_modules = ["\"heat.hpp\""]) => "Heat" "Heat{$p - 1}";
    ($p:f_type, req_modules = ["\"heat.hpp\""]) <= "Heat" "$p.raw + 9";
    foreign_code!(module = "heat.hpp";
r##"#pragma once
#include <stdint.h>
#include <stddef.h>
struct Heat { int64_t raw; };
struct Cold { int64_t raw; int calls; };
struct Pack { uint32_t lo, hi; };
struct Halves { uint32_t a, b; };
"##);
    foreign_code!(module = "split_out.hpp";
r##"#pragma once
#include "heat.hpp"
inline Halves split_out(uint64_t v) noexcept { return Halves{(uint32_t)v, (uint32_t)(v >> 32)}; }
"##);
    foreign_code!(module = "split_in.hpp";
r##"#pragma once
#include "heat.hpp"
inline uint64_t split_in(const Halves &h) noexcept { return (uint64_t)h.a << 32 | h.b; }
"##);
    foreign_code!(module = "flag.hpp";
r##"#pragma once
inline bool flag_out(char c) noexcept { return c == 6; }
inline char flag_in(bool b) noexcept { return b ? 7 : 0; }
"##);
);
// replaced again by the second map
foreign_typemap!(
    ($p:r_type) Frost => i64 { $out = -1 - ($p.0 as i64); };
    ($p:r_type) Frost <= i64 { $out = Frost(5 + $p as i32); };
    ($p:f_type, req_modules = ["\"heat.hpp\""]) => "Cold" "Cold{$p, 0}";
    ($p:f_type, req_modules = ["\"heat.hpp\""]) <= "Cold" "$p.raw";
);
// statements on the C++ side, with temporaries, in both directions
foreign_typemap!(
    ($p:r_type) Wide => u64 { $out = $p.0.rotate_left(8); };
    ($p:r_type) Wide <= u64 { $out = Wide($p.rotate_left(16)); };
    ($p:f_type, $tmp:temporary, req_modules = ["\"heat.hpp\""]) => "Pack"
        r#"
        const uint64_t $tmp = $p ^ 5u;
        $out{(uint32_t)$tmp, (uint32_t)($tmp >> 32)};
"#;
    ($p:f_type, $tmp:temporary, req_modules = ["\"heat.hpp\""]) <= "Pack"
        r#"
        const Pack &$tmp = $p;
        $out = (uint64_t)$tmp.hi << 32 | $tmp.lo;
"#;
);
// a built-in conversion changed on both sides
foreign_typemap!(
    ($p:r_type) bool => ::std::os::raw::c_char { $out = if $p { 6 } else { 9 }; };
    ($p:r_type) bool <= ::std::os::raw::c_char { $out = $p == 7; };
    ($p:f_type, req_modules = ["\"flag.hpp\""]) => "bool" "flag_out($p)";
    ($p:f_type, req_modules = ["\"flag.hpp\""]) <= "bool" "flag_in($p)";
);
// the two directions of one type, in rules of their own
foreign_typemap!(
    ($p:r_type) Split => u64 { $out = $p.0 + 1; };
    ($p:f_type, req_modules = ["\"split_out.hpp\""]) => "Halves" "split_out($p)";
);
foreign_typemap!(
    ($p:r_type) Split <= u64 { $out = Split($p ^ 6); };
    ($p:f_type, req_modules = ["\"split_in.hpp\""]) <= "Halves" "split_in($p)";
);
foreign_typemap!(
    ($p:r_type) Over => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(3); };
    ($p:r_type) Over <= i32 { $out = Over($p.wrapping_mul(4).wrapping_sub(3)); };
    ($p:f_type, req_modules = ["\"ov.hpp\""]) => "OvOver" "OvOver{$p, 3}";
    ($p:f_type, req_modules = ["\"ov.hpp\""]) <= "OvOver" "$p.raw + $p.extra * 3";
    foreign_code!(module = "ov.hpp";
r##"#pragma once
#include <stdint.h>
struct OvOver { int32_t raw, extra; };
struct OvOverIn { int32_t raw, extra; };
struct OvOverOut { int32_t raw, extra; };
struct OvOptBoth { int32_t raw, extra; };
struct OvOptSet { int32_t raw, extra; };
struct OvOptMap { int32_t raw, extra; };
struct OvOptIface { int32_t raw, extra; };
struct OvOptHalf { int32_t raw, extra; };
"##);
);
foreign_typemap!(
    ($p:r_type) OverIn => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(3); };
    ($p:r_type) OverIn <= i32 { $out = OverIn($p.wrapping_mul(4).wrapping_sub(3)); };
    ($p:f_type, req_modules = ["\"ov.hpp\""]) => "OvOverIn" "OvOverIn{$p, 3}";
    ($p:f_type, req_modules = ["\"ov.hpp\""]) <= "OvOverIn" "$p.raw + $p.extra * 3";
);
foreign_typemap!(
    ($p:r_type) OverOut => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(3); };
    ($p:r_type) OverOut <= i32 { $out = OverOut($p.wrapping_mul(4).wrapping_sub(3)); };
    ($p:f_type, req_modules = ["\"ov.hpp\""]) => "OvOverOut" "OvOverOut{$p, 3}";
    ($p:f_type, req_modules = ["\"ov.hpp\""]) <= "OvOverOut" "$p.raw + $p.extra * 3";
);
foreign_typemap!(
    ($p:r_type) OptBoth => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptBoth <= i32 { $out = OptBoth($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) => "OvOptBoth" "OvOptBoth{$p, 5}";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) => "OvOptBoth" "OvOptBoth{$p, 105}";
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) <= "OvOptBoth" "$p.raw + $p.extra * 5";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) <= "OvOptBoth" "$p.raw + $p.extra * 105";
);
foreign_typemap!(
    ($p:r_type) OptSet => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptSet <= i32 { $out = OptSet($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) => "OvOptSet" "OvOptSet{$p, 5}";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) => "OvOptSet" "OvOptSet{$p, 105}";
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) <= "OvOptSet" "$p.raw + $p.extra * 5";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) <= "OvOptSet" "$p.raw + $p.extra * 105";
);
foreign_typemap!(
    ($p:r_type) OptMap => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptMap <= i32 { $out = OptMap($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) => "OvOptMap" "OvOptMap{$p, 5}";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) => "OvOptMap" "OvOptMap{$p, 105}";
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) <= "OvOptMap" "$p.raw + $p.extra * 5";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) <= "OvOptMap" "$p.raw + $p.extra * 105";
);
foreign_typemap!(
    ($p:r_type) OptIface => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptIface <= i32 { $out = OptIface($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) => "OvOptIface" "OvOptIface{$p, 5}";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) => "OvOptIface" "OvOptIface{$p, 105}";
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) <= "OvOptIface" "$p.raw + $p.extra * 5";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) <= "OvOptIface" "$p.raw + $p.extra * 105";
);
foreign_typemap!(
    ($p:r_type) OptHalf => i32 { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptHalf <= i32 { $out = OptHalf($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) => "OvOptHalf" "OvOptHalf{$p, 5}";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) => "OvOptHalf" "OvOptHalf{$p, 105}";
    ($p:f_type, option = "CppStrView::Std17", req_modules = ["\"ov.hpp\""]) <= "OvOptHalf" "$p.raw + $p.extra * 5";
    ($p:f_type, option = "CppStrView::Boost", req_modules = ["\"ov.hpp\""]) <= "OvOptHalf" "$p.raw + $p.extra * 105";
);
