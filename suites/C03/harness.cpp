#include "vh.h"
#include "rust_interface/Obj.hpp"
#include "rust_interface/Fail.hpp"
#include "rust_interface/Why.hpp"
#include "rust_interface/Keeper.hpp"
#include "rust_interface/T.hpp"
using namespace rust;
static Why why_of(uint32_t x) { return x % 3 == 0 ? Why::WA : x % 3 == 1 ? Why::WB : Why::WC; }
static const char *const TXT[] = {"", "ab", "xyz!"};
static void is_text(const RustString &s, uint32_t k) {   // k concrete
    uint32_t n = k == 0 ? 0 : k == 1 ? 2 : 4;
    CHK(s.size() == n); CHK(s.empty() == (n == 0));
    CHK(s.to_string_view() == std::string_view(TXT[k], n));
}
#define OPTN(nm, T, nd, f) HARNESS(o_##nm) { bool some = nd_bool(); T x = (T)nd(); std::optional<T> a; if (some) a = x; auto r = T_o_##nm(a); CHK(r.has_value() == some); if (r) CHK(*r == (T)(f)); }
#define T_o_u8 T::o_u8
#define T_o_i8 T::o_i8
#define T_o_i16 T::o_i16
#define T_o_u32 T::o_u32
#define T_o_i64 T::o_i64
#define T_o_u64 T::o_u64
#define T_o_usize T::o_usize
OPTN(u8, uint8_t, nd_u8, x + 1)
OPTN(i8, int8_t, nd_u8, x)
OPTN(i16, int16_t, nd_u16, x)
OPTN(u32, uint32_t, nd_u32, ~x)
OPTN(i64, int64_t, nd_u64, 0 - (uint64_t)x)
OPTN(u64, uint64_t, nd_u64, x)
OPTN(usize, uintptr_t, nd_u64, x)
HARNESS(o_bool) { bool some = nd_bool(), x = nd_bool(); std::optional<bool> a; if (some) a = x; auto r = T::o_bool(a); CHK(r.has_value() == some); if (r) CHK(*r == !x); }
HARNESS(o_f32) { bool some = nd_bool(); uint32_t x = nd_f32(); std::optional<float> a; if (some) a = vp_f32(x); auto r = T::o_f32(a); CHK(r.has_value() == some); if (r) CHK(vp_b32(*r) == x); }
HARNESS(o_f64) { bool some = nd_bool(); uint64_t x = nd_f64(); std::optional<double> a; if (some) a = vp_f64(x); auto r = T::o_f64(a); CHK(r.has_value() == some); if (r) CHK(vp_b64(*r) == x); }
HARNESS(o_why) { bool some = nd_bool(); uint32_t x = nd_pick(3); std::optional<Why> a; if (some) a = why_of(x); auto r = T::o_why(a); CHK(r.has_value() == some); if (r) CHK(*r == why_of(x)); }
HARNESS(o_or) { bool some = nd_bool(); uint32_t x = nd_u32(), d = nd_u32(); std::optional<uint32_t> a; if (some) a = x; CHK(T::o_or(a, d) == (some ? x : d)); OBS(T::o_or(a, d)); }
HARNESS(o_two) {
    bool s1 = nd_bool(), s2 = nd_bool(), s3 = nd_bool(); uint8_t x = nd_u8();
    std::optional<uint8_t> a; if (s1) a = x; std::optional<double> b; if (s2) b = 1.5; std::optional<int16_t> c; if (s3) c = 3;
    CHK(T::o_two(a, b, c) == (s1 ? 1u : 0) + (s2 ? 2u : 0) + (s3 ? 4u : 0) + (s1 ? x * 256u : 0));
}
HARNESS(o_string_out) { bool some = nd_bool(); uint32_t k = nd_pick(3); auto r = T::o_string_out(some, k); CHK(r.has_value() == some); if (r) is_text(*r, k); }
HARNESS(o_str_in) {
    bool some = nd_bool(); uint32_t n = nd_pick(4); char b[4]; for (uint32_t i = 0; i < n; i++) { b[i] = (char)nd_u8(); v_assume((unsigned char)b[i] < 128); }
    std::optional<std::string_view> a; if (some) a = std::string_view(b, n);
    CHK(T::o_str_len(a) == (some ? (int64_t)n : -1));
    if (n) { uint32_t i = nd_pick(n); CHK(T::o_str_byte(a, i) == (some ? (int32_t)b[i] : -1)); }
}
HARNESS(o_obj_out) {
    uint32_t d0 = Obj::drops(); bool some = nd_bool(); uint32_t v = nd_u32();
    { auto r = T::o_obj_out(some, v); CHK(r.has_value() == some); if (r) { CHK(r->v() == v); CHK(Obj::drops() == d0); auto q = std::move(*r); CHK(q.v() == v); } }
    CHK(Obj::drops() == d0 + (some ? 1 : 0));
}
HARNESS(o_obj_in) {
    uint32_t d0 = Obj::drops(); bool some = nd_bool(); uint32_t v = nd_u32(), d = nd_u32();
    { std::optional<Obj> a; if (some) a = Obj(v); CHK(T::o_obj_in(std::move(a), d) == (some ? v : d)); CHK(Obj::drops() == d0 + (some ? 1 : 0)); }
    CHK(Obj::drops() == d0 + (some ? 1 : 0));
}
HARNESS(o_ref_in) {
    uint32_t v = nd_u32(), d = nd_u32(), w = nd_u32(); bool some = nd_bool(); uint32_t d0 = Obj::drops();
    { Obj o(v); CHK(T::o_ref_in(some ? &o : nullptr, d) == (some ? v : d)); CHK(T::o_mut_in(some ? &o : nullptr, w) == some); CHK(o.v() == (some ? w : v)); CHK(Obj::drops() == d0); }
    CHK(Obj::drops() == d0 + 1);
}
HARNESS(keeper) {
    uint32_t d0 = Obj::drops(), v = nd_u32(), v2 = nd_u32(); bool s1 = nd_bool(), s2 = nd_bool();
    uint32_t made = 0;
    {
        Keeper k; CHK(!k.has()); CHK(!k.peek().has_value());
        std::optional<Obj> a; if (s1) { a = Obj(v); made++; }
        k.put(std::move(a)); CHK(k.has() == s1);
        { auto p = k.peek(); CHK(p.has_value() == s1); if (p) CHK(p->v() == v); }
        CHK(Obj::drops() == d0);
        std::optional<Obj> b; if (s2) { b = Obj(v2); made++; }
        k.put(std::move(b)); CHK(k.has() == s2); CHK(Obj::drops() == d0 + (s1 ? 1 : 0));
        if (nd_bool()) { auto t = k.take(); CHK(t.has_value() == s2); if (t) CHK(t->v() == v2); CHK(!k.has()); CHK(!k.take().has_value()); }
        auto s = k.s(s1); CHK(s.has_value() == s1); if (s) CHK(*s == std::string_view("kept", 4));
        uint32_t x = nd_u32(); std::optional<uint32_t> by; if (s2) by = x; auto r = k.bump(by); CHK(r.has_value() == s2); if (r) CHK(*r == x); r = k.bump(by); if (r) CHK(*r == 2 * x);
    }
    CHK(Obj::drops() == d0 + made);
}
HARNESS(r_unit) { bool ok = nd_bool(); uint32_t k = nd_pick(3); auto r = T::r_unit(ok, k); CHK(r.has_value() == !ok); if (r) is_text(*r, k); }
HARNESS(r_u32_str) { bool ok = nd_bool(); if (ok) { uint32_t x = nd_u32(); auto r = T::r_u32_str(true, x); CHK(r.index() == 0); CHK(*std::get_if<uint32_t>(&r) == x); } else { uint32_t k = nd_pick(3); auto r = T::r_u32_str(false, k); CHK(r.index() == 1); is_text(*std::get_if<RustString>(&r), k); } }
HARNESS(r_obj_str) {
    uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint32_t x = ok ? nd_u32() : nd_pick(3);
    { auto r = T::r_obj_str(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) CHK(std::get_if<Obj>(&r)->v() == x); else is_text(*std::get_if<RustString>(&r), x);
      if (nd_bool()) { auto q = std::move(r); CHK(q.index() == (ok ? 0 : 1)); if (ok) CHK(std::get_if<Obj>(&q)->v() == x); } }
    CHK(Obj::drops() == d0 + (ok ? 1 : 0));
}
HARNESS(r_obj_fail) {
    uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint64_t x = nd_u64();
    { auto r = T::r_obj_fail(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) CHK(std::get_if<Obj>(&r)->v() == (uint32_t)x); else CHK(std::get_if<Fail>(&r)->code() == x); }
    CHK(Obj::drops() == d0 + (ok ? 1 : 0));
}
HARNESS(r_i64_fail) { bool ok = nd_bool(); int64_t x = (int64_t)nd_u64(); auto r = T::r_i64_fail(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) CHK(*std::get_if<int64_t>(&r) == x); else CHK(std::get_if<Fail>(&r)->code() == ((uint64_t)x ^ 1)); }
HARNESS(r_obj_why) { uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint32_t x = nd_u32(); { auto r = T::r_obj_why(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) CHK(std::get_if<Obj>(&r)->v() == x); else CHK(*std::get_if<Why>(&r) == why_of(x)); } CHK(Obj::drops() == d0 + (ok ? 1 : 0)); }
HARNESS(r_unit_why) { bool ok = nd_bool(); uint32_t x = nd_u32(); auto r = T::r_unit_why(ok, x); CHK(r.has_value() == !ok); if (r) CHK(*r == why_of(x)); }
HARNESS(r_u8_why) { bool ok = nd_bool(); uint32_t x = nd_u32(); auto r = T::r_u8_why(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) CHK(*std::get_if<uint8_t>(&r) == (uint8_t)x); else CHK(*std::get_if<Why>(&r) == why_of(x)); }
HARNESS(r_vec_str) { bool ok = nd_bool(); uint32_t x = ok ? nd_u32() : nd_pick(3); auto r = T::r_vec_str(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) { auto &v = *std::get_if<RustVecu8>(&r); CHK(v.size() == 3); CHK(v[0] == (uint8_t)x && v[1] == (uint8_t)(x >> 8) && v[2] == 7); } else is_text(*std::get_if<RustString>(&r), x); }
HARNESS(r_vecobj_str) {
    uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint32_t x = ok ? nd_u32() : nd_pick(3);
    { auto r = T::r_vecobj_str(ok, x); CHK(r.index() == (ok ? 0 : 1)); if (ok) { auto &v = *std::get_if<RustForeignVecObj>(&r); CHK(v.size() == 2); CHK(v[0].v() == x); CHK(v[1].v() == ~x); } else is_text(*std::get_if<RustString>(&r), x); }
    CHK(Obj::drops() == d0 + (ok ? 2 : 0));
}
HARNESS(ri_unit) { bool ok = nd_bool(); uint32_t x = nd_u32(); std::optional<uint32_t> a; if (!ok) a = x; CHK(T::ri_unit(a) == (ok ? -1 : (int64_t)x)); }
HARNESS(ri_unit_obj) { uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint64_t x = nd_u64(); uint64_t g; { if (ok) g = T::ri_unit_obj({}); else { auto r = T::r_obj_fail(false, x); g = T::ri_unit_obj(std::move(*std::get_if<Fail>(&r))); } } CHK(g == (ok ? 7 : ~x)); CHK(Obj::drops() == d0); }
HARNESS(ri_num) { bool ok = nd_bool(); uint32_t x = nd_u32(); int64_t e = nd_u64(); CHK(T::ri_num(ok ? std::variant<uint32_t, int64_t>{x} : std::variant<uint32_t, int64_t>{e}) == (ok ? ~(int64_t)x : (e ^ 5))); }
HARNESS(ri_obj) {   // what Rust hands out goes back in, both alternatives
    uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint64_t x = nd_u64();
    { auto r = T::r_obj_fail(ok, x); CHK(T::ri_obj(std::move(r)) == (ok ? (uint64_t)(uint32_t)x : ~x)); CHK(Obj::drops() == d0 + (ok ? 1 : 0)); }
    CHK(Obj::drops() == d0 + (ok ? 1 : 0));
}
HARNESS(ri_obj_why) { uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint32_t x = nd_u32(); { auto r = T::r_obj_why(ok, x); CHK(T::ri_obj_why(std::move(r)) == (ok ? (uint64_t)x : (uint64_t)(x % 3 + 1) << 40)); } CHK(Obj::drops() == d0 + (ok ? 1 : 0)); }
HARNESS(ri_vec) {
    uint32_t d0 = Obj::drops(); bool ok = nd_bool(); uint32_t x = nd_u32();
    { uint64_t g; if (ok) { auto r = T::r_vec_str(true, x); g = T::ri_vec(std::move(*std::get_if<RustVecu8>(&r))); } else g = T::ri_vec(Obj(x));
      CHK(g == (ok ? (3ull << 32) + (uint8_t)x + (uint8_t)(x >> 8) + 7 : ~(uint64_t)x)); }
    CHK(Obj::drops() == d0 + (ok ? 0 : 1));
}
HARNESS(ri_str) { bool ok = nd_bool(); uint32_t k = nd_pick(3); uint8_t e = nd_u8(); uint64_t g; uint32_t n = k == 0 ? 0 : k == 1 ? 2 : 4; if (ok) g = T::ri_str(std::string_view(TXT[k], n)); else g = T::ri_str(e); CHK(g == (ok ? n : 1000 + (uint64_t)e)); }
HARNESS(r_opt_str) {
    uint32_t d0 = Obj::drops(), k = nd_pick(3), x = k < 2 ? nd_u32() : nd_pick(3);
    { auto r = T::r_opt_str(k, x); CHK(r.index() == (k < 2 ? 0 : 1)); if (k < 2) { auto &o = *std::get_if<std::optional<Obj>>(&r); CHK(o.has_value() == (k == 0)); if (o) CHK(o->v() == x); } else is_text(*std::get_if<RustString>(&r), x); }
    CHK(Obj::drops() == d0 + (k == 0 ? 1 : 0));
}
HARNESS(p_num) { uint8_t a = nd_u8(); int64_t b = (int64_t)nd_u64(); auto r = T::p_num(std::make_pair(a, b)); CHK(r.first == b); CHK(r.second == a); }
HARNESS(p_f) { uint32_t a = nd_f32(); int32_t b = (int32_t)nd_u32(); auto r = T::p_f(vp_f32(a), b); CHK(vp_b32(r.first) == a); CHK(r.second == b); }
HARNESS(p_obj) {
    uint32_t d0 = Obj::drops(), x = nd_u32(); uint64_t y = nd_u64();
    { auto e = T::r_obj_fail(false, y); Fail f = std::move(*std::get_if<Fail>(&e)); auto r = T::p_obj(std::make_pair(Obj(x), std::move(f))); CHK(r.first.code() == y); CHK(r.second.v() == x); CHK(Obj::drops() == d0); }
    CHK(Obj::drops() == d0 + 1);
}
HARNESS(p_objnum) { uint32_t d0 = Obj::drops(), x = nd_u32(); { auto r = T::p_objnum(x); CHK(r.first.v() == x); CHK(r.second == ~x); } CHK(Obj::drops() == d0 + 1); }
HARNESS(p_str) { uint32_t k = nd_pick(3); auto r = T::p_str(k); is_text(r.first, k); CHK(r.second == k); }
HARNESS(t_three) { uint32_t k = nd_pick(3); int32_t y = (int32_t)nd_u32(); bool b = nd_bool(); auto r = T::t_three(k, y, b); CHK(std::get<0>(r) == b); CHK(std::get<1>(r) == y); is_text(std::get<2>(r), k); }
HARNESS(t_in) { uint8_t a = nd_u8(); uint32_t b = nd_u32(); int64_t c = (int64_t)nd_u64(); CHK(T::t_in(std::make_tuple(a, b, c)) == (((uint64_t)a << 56) ^ ((uint64_t)b << 20) ^ (uint64_t)c)); }
HARNESS(t_obj) { uint32_t d0 = Obj::drops(), x = nd_u32(); { auto r = T::t_obj(x); CHK(std::get<0>(r).v() == x); CHK(std::get<1>(r).v() == (x ^ 1)); CHK(std::get<2>(r) == (x ^ 2)); } CHK(Obj::drops() == d0 + 2); }
