#include "vh.h"
#include <vector>
#include "rust_interface/Buf.hpp"
#include "rust_interface/V.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { MAXN = 5, STEPS = 4 };
#else
enum { MAXN = 3, STEPS = 3 };
#endif
template <class T> struct Arr { T d[MAXN + 1]; uint32_t n; RustSlice<const T> cs() const { return RustSlice<const T>(d, n); } RustSlice<T> ms() { return RustSlice<T>(d, n); } };
static uint64_t nd(uint64_t) { return nd_u64(); }
static uint64_t nd(int64_t) { return nd_u64(); }
static uint32_t nd(uint32_t) { return nd_u32(); }
static uint32_t nd(int32_t) { return nd_u32(); }
static uint16_t nd(uint16_t) { return nd_u16(); }
static uint16_t nd(int16_t) { return nd_u16(); }
static uint8_t nd(uint8_t) { return nd_u8(); }
static float nd(float) { return vp_f32(nd_f32()); }
static double nd(double) { return vp_f64(nd_f64()); }
static uint64_t bits(double x) { return vp_b64(x); }
static uint64_t bits(float x) { return vp_b32(x); }
template <class T> static uint64_t bits(T x) { return (uint64_t)x; }
template <class T> static Arr<T> arr() { Arr<T> a; a.n = nd_pick(MAXN + 1); for (uint32_t i = 0; i < a.n; i++) a.d[i] = (T)nd(T()); return a; }
// everything a const sequence offers agrees with the expected elements
template <class C, class T> static void same(const C &c, const T *e, uint32_t n) {
    CHK(c.size() == n); CHK(c.empty() == (n == 0)); CHK((size_t)(c.end() - c.begin()) == n);
    uint32_t k = 0;
    for (auto &x : c) { CHK(k < n); CHK(bits(x) == bits(e[k])); k++; }
    CHK(k == n);
    for (uint32_t i = 0; i < n; i++) CHK(bits(c[i]) == bits(e[i]));
}
HARNESS(in_u8) { auto a = arr<uint8_t>(); CHK(V::u8_len(a.cs()) == a.n); for (uint32_t i = 0; i < a.n; i++) CHK(V::u8_at(a.cs(), i) == a.d[i]); }
HARNESS(in_i64) { auto a = arr<int64_t>(); for (uint32_t i = 0; i < a.n; i++) CHK(V::i64_at(a.cs(), i) == a.d[i]); v_chk(1, "done"); }
HARNESS(in_f64) { auto a = arr<double>(); for (uint32_t i = 0; i < a.n; i++) CHK(bits(V::f64_at(a.cs(), i)) == bits(a.d[i])); v_chk(1, "done"); }
HARNESS(in_two) { auto a = arr<uint16_t>(), b = arr<uint16_t>(); bool eq = a.n == b.n; if (eq) for (uint32_t i = 0; i < a.n; i++) eq = eq & (a.d[i] == b.d[i]); CHK(V::u16_cmp(a.cs(), b.cs()) == eq); }
HARNESS(in_oob) { auto a = arr<uint8_t>(); v_expect_abort(); v_obs(V::u8_at(a.cs(), a.n)); }
HARNESS(in_null) { CHK(V::u8_len(RustSlice<const uint8_t>(nullptr, 0)) == 0); CHK(V::mut_len(RustSlice<uint8_t>(nullptr, 0)) == 0); CHK(V::u16_cmp(RustSlice<const uint16_t>(nullptr, 0), RustSlice<const uint16_t>(nullptr, 0))); }
HARNESS(mut_neg) { auto a = arr<int16_t>(); auto b = a; V::neg(a.ms()); for (uint32_t i = 0; i < a.n; i++) CHK(a.d[i] == (int16_t)(0 - b.d[i])); v_chk(1, "done"); }
HARNESS(mut_rev) { auto a = arr<uint64_t>(); auto b = a; V::rev(a.ms()); for (uint32_t i = 0; i < a.n; i++) CHK(a.d[i] == b.d[a.n - 1 - i]); v_chk(1, "done"); }
#define VEC(nm, T) HARNESS(nm) { auto a = arr<T>(); uint32_t e = nd_pick(3); auto v = V::nm(a.cs(), e); same(v, a.d, a.n); auto w = std::move(v); same(w, a.d, a.n); same(v, a.d, 0); v = std::move(w); same(v, a.d, a.n); if (nd_bool()) { v.clear(); same(v, a.d, 0); } }
VEC(u8_vec, uint8_t)
VEC(u32_vec, uint32_t)
VEC(i64_vec, int64_t)
VEC(f32_vec, float)
VEC(usize_vec, uintptr_t)
static Pt pt() { Pt p; p.a = nd_u16(); p.b = vp_f64(nd_f64()); p.c = (int8_t)nd_u8(); return p; }
static bool eq(const Pt &x, const Pt &y) { return x.a == y.a && bits(x.b) == bits(y.b) && x.c == y.c; }
HARNESS(pt_vec) {
    Pt d[3]; uint32_t n = nd_pick(3); for (uint32_t i = 0; i < n; i++) d[i] = pt();
    auto v = V::pt_vec(RustSlice<const Pt>(d, n), nd_pick(2)); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) CHK(eq(v[i], d[i]));
    auto w = V::pt_back(std::move(v)); CHK(v.size() == 0); CHK(w.size() == n); for (uint32_t i = 0; i < n; i++) CHK(eq(w[i], d[n - 1 - i]));
}
HARNESS(pt_slice) {
    Pt d[3]; uint32_t n = nd_pick(3); for (uint32_t i = 0; i < n; i++) d[i] = pt();
    Buf b((uintptr_t)0); b.set_pts(RustSlice<const Pt>(d, n)); const auto s = b.pts(); CHK(s.size() == n); for (uint32_t i = 0; i < n; i++) CHK(eq(s[i], d[i]));
    if (n) { uint32_t k = nd_pick(n); Pt q = pt(); { auto m = b.pts_mut(); m[k] = q; } const auto t = b.pts(); for (uint32_t i = 0; i < n; i++) CHK(eq(t[i], i == k ? q : d[i])); }
}
HARNESS(views) {
    auto a = arr<int32_t>(); Buf b(2); CHK(b.len() == 2); CHK(b.fview().size() == 2); { const auto f = b.fview(); CHK(f[0] == 0.5f && f[1] == 0.5f); }
    b.copy_from(a.cs()); CHK(b.len() == a.n);
    { const auto s = b.view(); same(s, a.d, a.n); }
    uint32_t k = nd_pick(a.n + 1); { const auto s = b.tail(k); same(s, a.d + k, a.n - k); }
    if (k < a.n) {
        int32_t x = (int32_t)nd_u32();
        { auto m = b.view_mut(); CHK(m.size() == a.n); if (nd_bool()) m[k] = x; else { auto it = m.begin(); *(it + k) = x; } }
        a.d[k] = x; CHK(b.get(k) == x);
    }
    const auto s = b.view(); same(s, a.d, a.n); for (uint32_t i = 0; i < a.n; i++) CHK(b.get(i) == a.d[i]);
}
HARNESS(slice_move) {
    auto a = arr<int32_t>(); Buf b((uintptr_t)0); b.copy_from(a.cs());
    auto s = b.view(); auto t = std::move(s); same<const RustSlice<const int32_t>>(t, a.d, a.n); CHK(s.size() == 0); CHK(s.empty());
    b.copy_from(std::move(s)); CHK(b.len() == 0);     // the moved-from slice is an empty slice
}
HARNESS(vec_iter) {     // iteration over a vector that is not const, writing through the iterator
    auto a = arr<uint32_t>(); auto v = V::u32_vec(a.cs(), nd_pick(2)); uint32_t k = 0;
    for (auto &x : v) { CHK(k < a.n); CHK(x == a.d[k]); k++; }
    CHK(k == a.n); CHK((size_t)(v.end() - v.begin()) == a.n);
    if (a.n) { uint32_t i = nd_pick(a.n), x = nd_u32(); *(v.begin() + i) = x; a.d[i] = x; same(v, a.d, a.n); }
    auto w = V::echo32(7, std::move(v)); a.d[a.n] = 7; same(w, a.d, a.n + 1);
}
HARNESS(echo32) { auto a = arr<uint32_t>(); uint8_t x = nd_u8(); auto v = V::echo32(x, V::u32_vec(a.cs(), nd_pick(2))); a.d[a.n] = x; same(v, a.d, a.n + 1); }
HARNESS(opt_vec) { bool some = nd_bool(); uint32_t n = nd_pick(4); auto r = V::opt_vec(some, n); CHK(r.has_value() == some); if (r) { CHK(r->size() == n); for (uint32_t i = 0; i < n; i++) CHK((*r)[i] == i); if (nd_bool()) { auto q = std::move(*r); CHK(q.size() == n); } } }
HARNESS(dflt) { RustVecu8 a; CHK(a.size() == 0); CHK(a.empty()); CHK(V::drop_it(std::move(a)) == 0); RustVecu8 b; auto c = V::echo(std::move(b)); CHK(c.size() == 0); RustVecu8 d(std::move(c)); d = RustVecu8(); CHK(d.empty()); d = V::spare(2); CHK(d.size() == 2); d.clear(); d.clear(); CHK(V::drop_it(std::move(d)) == 0); }
// every sequence of operations over two vectors and a Rust holder
HARNESS(history) {
    Buf h((uintptr_t)0); RustVecu8 s[2] = {V::spare(2), RustVecu8()}; uint32_t len[2] = {2, 0}, hl = 0;
    for (int step = 0; step < STEPS; step++) {
        uint32_t i = nd_pick(2), j = 1 - i;
        switch (nd_pick(8)) {
        case 0: s[i] = std::move(s[j]); len[i] = len[j]; len[j] = 0; break;
        case 1: { RustVecu8 t(std::move(s[i])); CHK(s[i].empty()); CHK(t.size() == len[i]); len[i] = 0; if (nd_bool()) { s[j] = std::move(t); len[j] = (uint32_t)s[j].size(); } break; }
        case 2: h.put(std::move(s[i])); hl = len[i]; len[i] = 0; break;
        case 3: s[i] = h.take(); len[i] = hl; hl = 0; break;
        case 4: s[i].clear(); len[i] = 0; break;
        case 5: s[i] = V::spare(i + 1); len[i] = i + 1; break;
        case 6: CHK(V::drop_it(std::move(s[i])) == len[i]); len[i] = 0; break;
        case 7: { auto raw = s[i].release(); s[i] = V::echo(RustVecu8(raw)); break; }
        }
        for (int k = 0; k < 2; k++) { CHK(s[k].size() == len[k]); for (uint32_t q = 0; q < len[k]; q++) CHK(s[k][q] == q + 10); }
        CHK(h.blen() == hl); for (uint32_t q = 0; q < hl; q++) CHK(h.bget(q) == q + 10);
    }
}
// an empty vector that still owns memory
HARNESS(empty_capacity) {
    auto mk = [] { uint8_t x = 1; return V::u8_vec(RustSlice<const uint8_t>(&x, 0), 5); };
    auto v = mk(); CHK(v.empty());
    switch (nd_pick(6)) {
    case 0: v = V::spare(2); CHK(v.size() == 2); break;
    case 1: v = mk(); CHK(v.empty()); break;
    case 2: { RustVecu8 w(std::move(v)); CHK(w.empty()); w = V::spare(1); CHK(w.size() == 1); break; }
    case 3: v.clear(); v.clear(); CHK(v.empty()); break;
    case 4: { RustVecu8 w(v.release()); CHK(w.empty() && v.empty()); break; }
    case 5: CHK(V::drop_it(std::move(v)) == 0); break;
    }
}
// more elements than the other scenarios use; slices assigned over other slices
HARNESS(longer) {
    enum { M = 9 }; uint32_t n = 4 + nd_pick(M - 3), b = nd_u32(); uint32_t d[M]; for (uint32_t i = 0; i < n; i++) d[i] = b + i;
    RustSlice<const uint32_t> s(d, n); same(s, d, n); auto v = V::u32_vec(std::move(s), nd_pick(2)); same(v, d, n);
    auto w = std::move(v); same(w, d, n);
    RustSlice<const uint32_t> a(d, 0), c(d, 2); a = RustSlice<const uint32_t>(d, n); same(a, d, n); c = std::move(a); same(c, d, n); CHK(a.empty());
}
// sizes far beyond the other scenarios: every element, both directions, with and without spare capacity
static uint32_t huge_n() { static const uint32_t N[] = {17, 65, 257, 1030}; return N[nd_pick(4)]; }
HARNESS(huge) {
    uint32_t n = huge_n(), b = nd_u32(); static uint32_t d[1030]; for (uint32_t i = 0; i < n; i++) d[i] = b + i;
    auto v = V::u32_vec(RustSlice<const uint32_t>(d, n), 3); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) CHK(v[i] == d[i]);
    auto w = V::echo32(9, std::move(v)); CHK(v.empty()); CHK(w.size() == n + 1); uint32_t k = 0; for (auto x : w) { CHK(x == (k < n ? d[k] : 9u)); k++; } CHK(k == n + 1);
}
HARNESS(huge_bytes) {
    uint32_t n = huge_n(); uint8_t b = nd_u8(); static uint8_t d[1030]; for (uint32_t i = 0; i < n; i++) d[i] = (uint8_t)(b + i);
    Buf h((uintptr_t)0); h.put(V::u8_vec(RustSlice<const uint8_t>(d, n), 1)); CHK(h.blen() == n); for (uint32_t i = 0; i < n; i += 7) CHK(h.bget(i) == d[i]);
    { const auto s = h.bview(); CHK(s.size() == n); for (uint32_t i = 0; i < n; i++) CHK(s[i] == d[i]); }
    auto t = h.take(); CHK(t.size() == n && h.blen() == 0); for (uint32_t i = 0; i < n; i++) CHK(t[i] == d[i]);
}
HARNESS(huge_mut) {
    uint32_t n = huge_n(); uint64_t b = nd_u64(); static uint64_t d[1030]; for (uint32_t i = 0; i < n; i++) d[i] = b + i;
    V::rev(RustSlice<uint64_t>(d, n)); for (uint32_t i = 0; i < n; i++) CHK(d[i] == b + (n - 1 - i));
}
// lengths that are not enumerated at all
HARNESS(any_length) { static uint8_t d[4096]; uint64_t n = nd_u64(); v_assume(n <= 4096); CHK(V::u8_len(RustSlice<const uint8_t>(d, n)) == n); CHK(V::mut_len(RustSlice<uint8_t>(d, n)) == n); }
