#include "vh.h"
#include "rust_interface/OnlyGen.hpp"
#include <stddef.h>
#include <string.h>
#include "rust_interface/Ty.hpp"
#include "rust_interface/Obj.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { N = 4 };
#else
enum { N = 3 };
#endif
static Mixed mk() { Mixed m; m.a = nd_u8(); m.b = nd_u64(); m.c = nd_u16(); m.d = vp_f32(nd_f32()); m.e = nd_u32(); m.f = nd_u8(); m.g = vp_f64(nd_f64()); return m; }
static bool eq(const Mixed &x, const Mixed &y) { return x.a == y.a && x.b == y.b && x.c == y.c && vp_b32(x.d) == vp_b32(y.d) && x.e == y.e && x.f == y.f && vp_b64(x.g) == vp_b64(y.g); }
static Small sm() { Small s; s.x = nd_u32(); s.y = nd_u16(); s.z = nd_u8(); return s; }
static bool eq(const Small &a, const Small &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
HARNESS(layout) {
    CHK(Ty::size_of_mixed() == (sizeof(Mixed) | (uint64_t)alignof(Mixed) << 16)); uint32_t k = nd_pick(7);
    static const size_t o[7] = {offsetof(Mixed, a), offsetof(Mixed, b), offsetof(Mixed, c), offsetof(Mixed, d), offsetof(Mixed, e), offsetof(Mixed, f), offsetof(Mixed, g)}; CHK(Ty::offs(k) == o[k]);
    static const size_t z[7] = {sizeof(Small), sizeof(Fl), sizeof(Nested), offsetof(Nested, s), offsetof(Nested, p), offsetof(Nested, k), sizeof(IntOrFloat)}; CHK(Ty::sizes(k) == z[k]);
}
HARNESS(fields) { Mixed m = mk(); uint64_t k = nd_u64(); CHK(Ty::sum(m, k) == (m.a + m.b + (uint64_t)(int64_t)m.c + vp_b32(m.d) + ((uint64_t)m.e << 8) + (uint64_t)(int64_t)m.f + vp_b64(m.g)) * k); }
HARNESS(bump) { Mixed m = mk(), e = m; uint8_t k = nd_u8(); e.a += k; e.c = (int16_t)-m.c; CHK(eq(Ty::bump(m, k), e)); }
HARNESS(store) { Mixed m = mk(); Ty t; t.put(m); CHK(eq(t.get(), m)); Mixed n = mk(); t.put(n); CHK(eq(t.get(), n)); CHK(eq(t.get(), n)); }
HARNESS(small) { Small a = sm(), b = sm(), e{a.x - b.x, b.y, (uint8_t)(a.z ^ b.z)}; CHK(eq(Ty::small(a, b), e)); }
HARNESS(floats) { Fl a{vp_f32(nd_f32()), vp_f32(nd_f32())}, b{vp_f32(nd_f32()), vp_f32(nd_f32())}; Fl r = Ty::fl(a, b); CHK(vp_b32(r.x) == vp_b32(b.y)); CHK(vp_b32(r.y) == vp_b32(a.x)); }
HARNESS(nest) { Small a = sm(), b = sm(); Nested n; n.tag = nd_u8(); n.s = a; n.p = &b; n.k = nd_u64(); Nested r = Ty::nest(n); CHK(r.tag == (uint8_t)(n.tag + 1)); CHK(eq(r.s, b)); CHK(r.p == &b); CHK(r.k == n.k); }
HARNESS(uni) { IntOrFloat u; u.i = nd_u64(); CHK(Ty::uni(u) == u.i); uint64_t d = nd_f64(); u.f = vp_f64(d); CHK(Ty::uni(u) == d); }
HARNESS(opt) { Small s = sm(); bool k = nd_bool(); auto o = Ty::osmall(k, s); CHK(o.has_value() == k); if (o) CHK(eq(*o, s)); CHK(Ty::isum(s) == s.x + s.y); CHK(Ty::isum(std::nullopt) == 3); CHK(Ty::isum(o) == (k ? s.x + s.y : 3u)); }
HARNESS(slices) {
    Small a[N]; for (auto &s : a) s = sm(); uint32_t n = nd_pick(N + 1), k = nd_u32(), e = 0; for (uint32_t i = 0; i < n; i++) e = e * 3 + (a[i].x ^ ((uint32_t)a[i].y << 8) ^ a[i].z);
    CHK(Ty::slice(RustSlice<const Small>(a, n)) == e); Small b[N]; memcpy(b, a, sizeof a); Ty::slice_mut(RustSlice<Small>(a, n), k);
    for (uint32_t i = 0; i < N; i++) { if (i < n) b[i].x += k; CHK(eq(a[i], b[i])); }
}
HARNESS(vec) { Small s = sm(); uint32_t n = nd_pick(N + 1); auto v = Ty::vec(n, s); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) { Small e = s; e.x += i; CHK(eq(v[i], e)); } auto w = std::move(v); CHK(w.size() == n); }
HARNESS(ptrs) { Small a = sm(), b = sm(); CHK(Ty::pread(&a) == (a.x ^ a.y)); uint32_t x = nd_u32(); Small e = b; e.x = x; Ty::pwrite(&b, x); CHK(eq(b, e)); bool f = nd_bool(); CHK(Ty::pick(&a, &b, f) == (f ? &a : &b)); CHK(Ty::pick(nullptr, &b, true) == nullptr); }
static uint32_t hits, gx; static uint64_t gy; static void *gc; static Small gs;
static void f1(uint32_t x) { hits++; gx = x; }
static void f1b(uint32_t x) { hits += 10; gx = x; }
static void f2(uint32_t x, void *c) { hits++; gx = x; gc = c; *(uint32_t *)c += x; }
static void f3(Small s, uint64_t x) { hits++; gs = s; gy = x; }
HARNESS(fnptr) {
    hits = 0; uint32_t x = nd_u32(), y = nd_u32(), k = nd_u32(); bool w = nd_bool(); CHK(Ty::cb1(w ? f1 : f1b, x)); CHK(hits == (w ? 1u : 10u) && gx == x); CHK(!Ty::cb1(nullptr, x)); CHK(hits == (w ? 1u : 10u));
    uint32_t ctx[2] = {k, 5}; hits = 0; Ty::cb2(f2, y, &ctx[0]); CHK(hits == 1 && gx == y && gc == &ctx[0]); CHK(ctx[0] == k + y && ctx[1] == 5); Small s = sm(); uint64_t z = nd_u64(); Ty::cbs(f3, s, z); CHK(hits == 2 && eq(gs, s) && gy == z);
}
HARNESS(maps) {
    uint64_t c = nd_u64(); v_assume(c < ~0ull - 10); CHK(Ty::m_in(Cm{c}) == (uint32_t)((c + 7) / 256)); uint32_t k = nd_u32(); CHK(Ty::m_out(k).cm == (uint64_t)k * 256 + 3);
    uint16_t h = nd_u16(); CHK(Ty::o_out(h).cm == (((uint64_t)h << 8) | 1)); CHK(Ty::chain(k).cm == (uint64_t)(uint32_t)(k + 5) * 256 + 3);
}
HARNESS(maps2) {
    uint32_t a = nd_u32(), b = nd_u32(), x = nd_u32(); CHK(Ty::m_two(Cm{(uint64_t)a * 256}, x, Cm{(uint64_t)b * 256}).cm == (uint64_t)(uint32_t)(a - b + x) * 256 + 3);
    int32_t p = nd_u16(), q = nd_u16(); CHK(Ty::i_in(InOnly{p}, InOnly{q}) == ~(p - 3) - ~(q - 3));
    bool k = nd_bool(); auto o = Ty::m_opt(k, x); CHK(o.has_value() == k); if (o) CHK(*o == x);
}
HARNESS(lits) {
    static const char t[] = "a,b,, c)(\xe2\x86\x92\",\"(,"; const uint32_t len = sizeof(t) - 1; uint32_t k = nd_pick(len + 1); int32_t v = (int32_t)nd_u32(); uint64_t w = nd_u64();
    uint32_t e = k == 0 ? len : (unsigned char)t[k % len]; auto a = Ty::lit32(v, k); CHK(std::get<0>(a) == v && std::get<1>(a) == e && std::get<2>(a) == "x,,y\xe2\x86\x92("); auto b = Ty::lit64(w, k); CHK(std::get<0>(b) == w && std::get<1>(b) == e);
}
HARNESS(closures) {
    uint32_t x = nd_u32(); uint64_t y = nd_u64(); bool k = nd_bool(), m = nd_bool(); Sink<uint32_t> s, t; Ty::clos_u32(s, x); CHK(s.n == 1 && *s.v == x && t.n == 0); Ty::clos_not(t, k, x); CHK(t.n == (k ? 1 : 0)); CHK(s.n == 1);
    Sink<Obj> o; Ty::clos_obj(o, x); CHK(o.n == 1 && o.v->a() == x); Sink<std::optional<uint64_t>> p; Ty::clos_opt(p, m, y); CHK(p.n == 1 && p.v->has_value() == m); if (m) CHK(**p.v == y);
    Sink<RustString> r; uint32_t z = nd_pick(2); Ty::clos_str(r, z); CHK(r.n == 1 && r.v->to_string_view() == (z ? "clos" : ""));
}
HARNESS(gens) {
    int32_t v = (int32_t)nd_u32(); uint64_t w = nd_u64(); uint8_t b = (uint8_t)nd_u32(); uint16_t k = nd_u16(), l = nd_u16();
    GenBase<int32_t> x = Ty::gen32(v, k); CHK(x.v == v && x.n == (uint16_t)(k ^ 1)); GenBase<uint64_t> y = Ty::gen64(w, k); CHK(y.v == w && y.n == (uint16_t)(k ^ 1)); GenBase<uint8_t> z = Ty::gen8(b, l); CHK(z.v == b && z.n == (uint16_t)(l ^ 1));
    GenDefault d{v, l}; CHK(Ty::ung32(d) == ((int64_t)v << 16 | (uint16_t)(l + 1)));
    CHK(Ty::ung8(z, GenBase<uint8_t>{7, k}) == ((uint64_t)b << 40 | (uint64_t)(uint16_t)((l ^ 1) + 1) << 24 | 7u << 16 | (uint16_t)(k + 1)));
}
HARNESS(slots) {
    int32_t a = (int32_t)nd_u32(), b = a; uint64_t w = nd_u64(), x = w, y = nd_u64();
    CHK(Ty::slot_r(SlotIn<int32_t>{a & 0xffff}, SlotIn<uint64_t>{w}) == ((uint64_t)((a & 0xffff) + 3) ^ (w + 3)));
    Ty::slot_m(SlotRef<int32_t>{&b}, SlotRef<uint64_t>{&x}, SlotIn<uint64_t>{y}); CHK(b == ~a && x == (w ^ (y + 3)));
}
HARNESS(only_gen) { uint16_t v = nd_u16(), k = nd_u16(); auto g = OnlyGen::one((int16_t)v, k); CHK(g.v == (int16_t)v && g.n == (uint16_t)(k ^ 1)); }
HARNESS(slits) {
    int32_t a = (int32_t)nd_u32(), b = a; uint64_t w = nd_u64(), x = w, y = nd_u64();
    CHK(Ty::slit_r(SlitIn<int32_t>{a & 0xffff}, SlitIn<uint64_t>{w}) == ((uint64_t)((a & 0xffff) + 3) ^ (w + 3)));
    Ty::slit_m(SlitRef<int32_t>{&b}, SlitRef<uint64_t>{&x}, SlitIn<uint64_t>{y}); CHK(b == ~a && x == (w ^ (y + 3)));
}
