#include <type_traits>
#include "vh.h"
#include "rust_interface/Num.hpp"
using namespace rust;
#define INTS(X) X(i8, int8_t, nd_u8) X(u8, uint8_t, nd_u8) X(i16, int16_t, nd_u16) X(u16, uint16_t, nd_u16) X(i32, int32_t, nd_u32) X(u32, uint32_t, nd_u32) X(i64, int64_t, nd_u64) X(u64, uint64_t, nd_u64)
#define ONE(n, T, nd) \
    static_assert(std::is_same<decltype(Num::id_##n(T())), T>::value, "return type"); \
    HARNESS(id_##n) { T x = (T)nd(); T r = Num::id_##n(x); CHK(r == x); OBS(r); } \
    HARNESS(sub_##n) { T a = (T)nd(), b = (T)nd(); T r = Num::sub_##n(a, b); CHK(r == (T)((uint64_t)a - (uint64_t)b)); OBS(r); }
INTS(ONE)
HARNESS(id_usize) { uintptr_t x = nd_u64(); CHK(Num::id_usize(x) == x); }
HARNESS(id_isize) { intptr_t x = (intptr_t)nd_u64(); CHK(Num::id_isize(x) == x); CHK((Num::id_isize(x) < 0) == (x < 0)); }
HARNESS(bools) {
    bool x = nd_bool(), y = nd_bool();
    CHK(Num::id_bool(x) == x); CHK(Num::not_bool(x) == !x); CHK(Num::and_not(x, y) == (x && !y));
    // the values that cross are the canonical ones
    bool r = Num::id_bool(x); unsigned char c; __builtin_memcpy(&c, &r, 1); CHK(c == (x ? 1 : 0));
}
HARNESS(id_f32) { uint32_t b = nd_f32(); CHK(vp_b32(Num::id_f32(vp_f32(b))) == b); uint32_t c = nd_f32(); CHK(vp_b32(Num::second_f32(vp_f32(b), vp_f32(c))) == c); }
HARNESS(id_f64) { uint64_t b = nd_f64(); CHK(vp_b64(Num::id_f64(vp_f64(b))) == b); uint64_t c = nd_f64(); CHK(vp_b64(Num::second_f64(vp_f64(b), vp_f64(c))) == c); }
HARNESS(cmp_f) { float a = vp_f32(nd_f32()), b = vp_f32(nd_f32()); CHK(Num::cmp_f32(a, b) == (a < b)); double c = vp_f64(nd_f64()), d = vp_f64(nd_f64()); CHK(Num::cmp_f64(c, d) == (c < d)); }
static inline uint64_t rotl(uint64_t x) { return (x << 7) | (x >> 57); }
HARNESS(mix) {
    int8_t a = (int8_t)nd_u8(); uint16_t b = nd_u16(); bool c = nd_bool(); uint64_t d = nd_u64(); uint64_t e = nd_f64(); int32_t f = (int32_t)nd_u32();
    uint8_t g = nd_u8(); int16_t h = (int16_t)nd_u16(); int64_t i = (int64_t)nd_u64(); uint32_t j = nd_f32(); uint32_t k = nd_u32();
    uint64_t r = 0, v[] = {(uint64_t)(int64_t)a, b, c, d, e, (uint64_t)(int64_t)f, g, (uint64_t)(int64_t)h, (uint64_t)i, j, k};
    for (auto x : v) r = rotl(r) ^ x;
    uint64_t got = Num::mix(a, b, c, d, vp_f64(e), f, g, h, i, vp_f32(j), k);
    CHK(got == r); OBS(got);
}
HARNESS(cints) {
    unsigned a = nd_u32(), b = nd_u32(); CHK(Num::c_uint_sub(a, b) == a - b);
    int c = (int)nd_u32(), d = (int)nd_u32(); CHK(Num::c_int_sub(c, d) == (int)((unsigned)c - (unsigned)d));
    long e = (long)nd_u64(), f = (long)nd_u64(); CHK(Num::c_long_sub(e, f) == (long)((unsigned long)e - (unsigned long)f));
    short g = (short)nd_u16(); CHK(Num::c_short_id(g) == g); unsigned short h = nd_u16(); CHK(Num::c_ushort_id(h) == h);
}
HARNESS(object) {
    int64_t x = (int64_t)nd_u64(), y = (int64_t)nd_u64(), z = (int64_t)nd_u64();
    Num n(x);
    CHK(n.get() == x); CHK(n.is_bigger(z) == (x > z)); CHK(n.low8() == (int8_t)x); CHK(n.low16() == (uint16_t)x);
    CHK(vp_b64(n.bits_f64()) == (uint64_t)x); CHK(vp_b32(n.bits_f32()) == (uint32_t)x);
    n.set(y); CHK(n.get() == y); CHK(n.is_bigger(z) == (y > z));
    n.nothing(); CHK(n.get() == (int64_t)((uint64_t)y + 1)); OBS(n.get());
}
HARNESS(ctor_mixed) {
    uint8_t a = nd_u8(); int32_t b = (int32_t)nd_u32(); bool c = nd_bool();
    Num n(a, b, c);
    CHK(n.get() == (((int64_t)a << 40) ^ ((int64_t)(uint32_t)b << 4) ^ (int64_t)c));
    Num m(n.get()); CHK(m.get() == n.get());
}
#include "rust_interface/Ary.hpp"
HARNESS(arity) {
    uint8_t a = nd_u8(), b = nd_u8(), c = nd_u8(), d = nd_u8(), e = nd_u8(), f = nd_u8(), g = nd_u8(), h = nd_u8(); uint64_t w[9]; w[0] = 0;
    w[1] = w[0] | (uint64_t)a << 0;
    w[2] = w[1] | (uint64_t)b << 8;
    w[3] = w[2] | (uint64_t)c << 16;
    w[4] = w[3] | (uint64_t)d << 24;
    w[5] = w[4] | (uint64_t)e << 32;
    w[6] = w[5] | (uint64_t)f << 40;
    w[7] = w[6] | (uint64_t)g << 48;
    w[8] = w[7] | (uint64_t)h << 56;
    { CHK(Ary::s0() == w[0]); Ary o; CHK(o.m0() == w[0]); CHK(o.m0() == 0); o.v0(); CHK(o.m0() == w[0]); o.v0(); CHK(o.m0() == w[0]); }
    { CHK(Ary::s1(a) == w[1]); Ary o(a); CHK(o.m0() == w[1]); CHK(o.m1(a) == 0); o.v1(a); CHK(o.m0() == w[1]); o.v0(); CHK(o.m1(a) == w[1]); }
    { CHK(Ary::s2(a, b) == w[2]); Ary o(a, b); CHK(o.m0() == w[2]); CHK(o.m2(a, b) == 0); o.v2(a, b); CHK(o.m0() == w[2]); o.v0(); CHK(o.m2(a, b) == w[2]); }
    { CHK(Ary::s3(a, b, c) == w[3]); Ary o(a, b, c); CHK(o.m0() == w[3]); CHK(o.m3(a, b, c) == 0); o.v3(a, b, c); CHK(o.m0() == w[3]); o.v0(); CHK(o.m3(a, b, c) == w[3]); }
    { CHK(Ary::s4(a, b, c, d) == w[4]); Ary o(a, b, c, d); CHK(o.m0() == w[4]); CHK(o.m4(a, b, c, d) == 0); o.v4(a, b, c, d); CHK(o.m0() == w[4]); o.v0(); CHK(o.m4(a, b, c, d) == w[4]); }
    { CHK(Ary::s5(a, b, c, d, e) == w[5]); Ary o(a, b, c, d, e); CHK(o.m0() == w[5]); CHK(o.m5(a, b, c, d, e) == 0); o.v5(a, b, c, d, e); CHK(o.m0() == w[5]); o.v0(); CHK(o.m5(a, b, c, d, e) == w[5]); }
    { CHK(Ary::s6(a, b, c, d, e, f) == w[6]); Ary o(a, b, c, d, e, f); CHK(o.m0() == w[6]); CHK(o.m6(a, b, c, d, e, f) == 0); o.v6(a, b, c, d, e, f); CHK(o.m0() == w[6]); o.v0(); CHK(o.m6(a, b, c, d, e, f) == w[6]); }
    { CHK(Ary::s7(a, b, c, d, e, f, g) == w[7]); Ary o(a, b, c, d, e, f, g); CHK(o.m0() == w[7]); CHK(o.m7(a, b, c, d, e, f, g) == 0); o.v7(a, b, c, d, e, f, g); CHK(o.m0() == w[7]); o.v0(); CHK(o.m7(a, b, c, d, e, f, g) == w[7]); }
    { CHK(Ary::s8(a, b, c, d, e, f, g, h) == w[8]); Ary o(a, b, c, d, e, f, g, h); CHK(o.m0() == w[8]); CHK(o.m8(a, b, c, d, e, f, g, h) == 0); o.v8(a, b, c, d, e, f, g, h); CHK(o.m0() == w[8]); o.v0(); CHK(o.m8(a, b, c, d, e, f, g, h) == w[8]); }
}
