#include "vh.h"
#include "rust_interface/Kind.hpp"
#include "rust_interface/Obj.hpp"
#include "rust_interface/Slots.hpp"
#include "rust_interface/Scal.hpp"
#include "rust_interface/Rich.hpp"
#include "rust_interface/Nest.hpp"
#include "rust_interface/SentCb.hpp"
#include "rust_interface/Hub.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { STEPS = 6 };
#else
enum { STEPS = 4 };
#endif
static uint32_t kills[4], calls[8], la, lb, lid;
static void zero() { for (auto &k : kills) k = 0; for (auto &c : calls) c = 0; la = lb = lid = 0; }
struct S : Slots {
    uint32_t id, k, stay; S(uint32_t id, uint32_t k) : id(id), k(k), stay(77) {}
    ~S() noexcept override { kills[id]++; }
    void mark(int i, uint32_t a, uint32_t b) const { calls[i]++; la = a; lb = b; lid = id; }
    uint32_t first(uint32_t a, uint32_t b) const noexcept override { mark(0, a, b); return k + a; }
    uint32_t second(uint32_t b, uint32_t a) const noexcept override { mark(1, b, a); return k - b; }
    uint32_t third(uint32_t r, uint32_t p) noexcept override { mark(2, r, p); k ^= r; return k; }
    uint32_t fourth(uint32_t a, uint32_t b) const noexcept override { mark(3, a, b); return k ^ b; }
    void void_a() const noexcept override { mark(4, 0, 0); }
    void void_b() noexcept override { mark(5, 0, 0); k++; }
    void void_c(uint32_t opaque) const noexcept override { mark(6, opaque, 0); }
};
static uint32_t expect(uint32_t w, uint32_t &k, uint32_t a, uint32_t b) { switch (w) { case 0: return k + a; case 1: return k - a; case 2: k ^= a; return k; case 3: return k ^ b; case 5: k++; return 0; default: return 0; } }
static void ran(uint32_t w, uint32_t id, uint32_t a, uint32_t b) { for (uint32_t i = 0; i < 8; i++) CHK(calls[i] == (i == w ? 1u : 0u)); CHK(lid == id); if (w < 4) { CHK(la == a); CHK(lb == b); } if (w == 6) CHK(la == a); for (auto &c : calls) c = 0; }
HARNESS(slots) {
    zero(); uint32_t k = nd_u32(), a = nd_u32(), b = nd_u32();
    { Hub h; h.set(std::make_unique<S>(1, k)); uint32_t w = nd_pick(7); uint32_t r = h.call(w, a, b); CHK(r == expect(w, k, a, b)); ran(w, 1, a, b);
      uint32_t v = nd_pick(4), c = nd_u32(), d = nd_u32(); CHK(h.call(v, c, d) == expect(v, k, c, d)); ran(v, 1, c, d); CHK(kills[1] == 0); }
    CHK(kills[1] == 1);
}
HARNESS(once) { zero(); uint32_t k = nd_u32(), a = nd_u32(), b = nd_u32(), w = nd_pick(7); auto p = std::make_unique<S>(2, k); CHK(Hub::once(std::move(p), w, a, b) == expect(w, k, a, b)); CHK(!p); ran(w, 2, a, b); CHK(kills[2] == 1); Hub::drop_now(std::make_unique<S>(3, k)); CHK(kills[3] == 1 && kills[2] == 1); for (auto c : calls) CHK(c == 0); }
HARNESS(history) {
    zero(); uint32_t key[4] = {0, nd_u32(), nd_u32(), nd_u32()}; uint32_t nxt = 1, cur = 0, alt = 0; uint32_t dead[4] = {0, 0, 0, 0}; uint32_t x = nd_u32(), y = nd_u32();
    { Hub h; for (int i = 0; i < STEPS; i++) {
        switch (nd_pick(5)) {
        case 0: if (nxt < 4) { if (cur) dead[cur]++; cur = nxt++; h.set(std::make_unique<S>(cur, key[cur])); } break;
        case 1: if (nxt < 3) { if (cur) dead[cur]++; if (alt) dead[alt]++; cur = nxt++; alt = nxt++; CHK(h.set2(x, std::make_unique<S>(cur, key[cur]), y, std::make_unique<S>(alt, key[alt])) == x - y); } break;
        case 2: { h.swap(); uint32_t t = cur; cur = alt; alt = t; break; }
        case 3: if (cur) dead[cur]++; cur = 0; h.clear(); break;
        default: { uint32_t r = h.call(0, x, y); if (cur) { CHK(r == key[cur] + x); ran(0, cur, x, y); } else CHK(r == 0xfffffff0u); } }
        for (int j = 1; j < 4; j++) CHK(kills[j] == dead[j]);
        CHK(h.has() == (cur != 0)); }
      if (cur) { CHK(h.call(2, x, y) == (key[cur] ^ x)); ran(2, cur, x, y); } }
    for (uint32_t j = 1; j < 4; j++) CHK(kills[j] == (j < nxt ? 1u : 0u));
}
HARNESS(borrowed) {
    zero(); uint32_t k = nd_u32(), a = nd_u32(), b = nd_u32(), c = nd_u32();
    { S s(1, k); CHK(Hub::by_ref(Slots::reference_to_c_interface(s), a, b) == k + a); ran(0, 1, a, b); CHK(kills[1] == 0); CHK(s.k == k && s.stay == 77);
      CHK(Hub::by_mut(Slots::reference_to_c_interface(s), a, c) == (k ^ a)); ran(2, 1, a, c); CHK(kills[1] == 0); CHK(s.k == (k ^ a)); }
    CHK(kills[1] == 1);
}
struct N : Nest { uint32_t id; N(uint32_t i) : id(i) {} ~N() noexcept override { kills[id]++; }
    uint32_t g(uint32_t k, const C_Slots &x) const noexcept override { return x.first(k, k + 1, x.opaque) + 1; }
    uint32_t h(C_Slots &x, uint32_t k) const noexcept override { return x.fourth(k, k + 2, x.opaque) + 2; } };
HARNESS(nested) {
    zero(); uint32_t k = nd_u32(), m = nd_u32();
    { S s(1, m); CHK(Hub::nest(std::make_unique<N>(2), Slots::reference_to_c_interface(s), k) == m + k + 1); ran(0, 1, k, k + 1); CHK(kills[2] == 1 && kills[1] == 0);
      CHK(Hub::nest_mut(std::make_unique<N>(3), Slots::reference_to_c_interface(s), k) == (m ^ (k + 2)) + 2); ran(3, 1, k, k + 2); CHK(kills[3] == 1 && kills[1] == 0); }
    CHK(kills[1] == 1);
}
static uint64_t got[8]; static uint32_t scn; static uint64_t rv; static Kind rk; static bool dead1;
struct C : Scal {
    ~C() noexcept override { kills[0]++; }
    void ints(uint8_t a, int8_t b, uint16_t c, int16_t d, uint32_t e, int32_t f, uint64_t g, int64_t h) const noexcept override { scn++; got[0] = a; got[1] = (uint64_t)(int64_t)b; got[2] = c; got[3] = (uint64_t)(int64_t)d; got[4] = e; got[5] = (uint64_t)(int64_t)f; got[6] = g; got[7] = (uint64_t)h; }
    void mixed(bool a, float b, int8_t c, double d, bool e, uint16_t f, uintptr_t g, float h) const noexcept override { scn++; got[0] = a; got[1] = vp_b32(b); got[2] = (uint64_t)(int64_t)c; got[3] = vp_b64(d); got[4] = e; got[5] = f; got[6] = g; got[7] = vp_b32(h); }
    uint8_t ru8() const noexcept override { scn++; return rv; } int8_t ri8() const noexcept override { scn++; return rv; } uint16_t ru16() const noexcept override { scn++; return rv; } int16_t ri16() const noexcept override { scn++; return rv; }
    int32_t ri32() const noexcept override { scn++; return rv; } uint64_t ru64() const noexcept override { scn++; return rv; } int64_t ri64() const noexcept override { scn++; return rv; }
    bool rbool() const noexcept override { scn++; return rv & 1; } float rf32() const noexcept override { scn++; return vp_f32(rv); } double rf64() const noexcept override { scn++; return vp_f64(rv); } uintptr_t rus() const noexcept override { scn++; return rv; }
    Kind kind(Kind k, uint32_t n) const noexcept override { scn++; got[0] = (uint64_t)(int)k; got[1] = n; return rk; }
    bool flip(bool b) noexcept override { scn++; got[0] = b; return !b; }
};
#define SCAL Hub h; zero(); scn = 0; h.set_sc(std::make_unique<C>());
HARNESS(ints) { { SCAL uint8_t a = nd_u8(); int8_t b = nd_u8(); uint16_t c = nd_u16(); int16_t d = nd_u16(); uint32_t e = nd_u32(); int32_t f = nd_u32(); uint64_t g = nd_u64(); int64_t i = nd_u64(); h.ints(a, b, c, d, e, f, g, i);
    CHK(scn == 1); CHK(got[0] == a); CHK(got[1] == (uint64_t)(int64_t)b); CHK(got[2] == c); CHK(got[3] == (uint64_t)(int64_t)d); CHK(got[4] == e); CHK(got[5] == (uint64_t)(int64_t)f); CHK(got[6] == g); CHK(got[7] == (uint64_t)i); } CHK(kills[0] == 1); }
HARNESS(mixed) { SCAL bool a = nd_bool(); uint32_t b = nd_f32(); int8_t c = nd_u8(); uint64_t d = nd_f64(); bool e = nd_bool(); uint16_t f = nd_u16(); uint64_t g = nd_u64(); uint32_t i = nd_f32(); h.mixed(a, vp_f32(b), c, vp_f64(d), e, f, g, vp_f32(i));
    CHK(scn == 1); CHK(got[0] == a); CHK(got[1] == b); CHK(got[2] == (uint64_t)(int64_t)c); CHK(got[3] == d); CHK(got[4] == e); CHK(got[5] == f); CHK(got[6] == g); CHK(got[7] == i); }
HARNESS(rets) { SCAL rv = nd_u64(); uint32_t w = nd_pick(11); uint64_t r = h.ret(w); CHK(scn == 1);
    uint64_t e = 0; switch (w) { case 0: e = (uint8_t)rv; break; case 1: e = (uint64_t)(int64_t)(int8_t)rv; break; case 2: e = (uint16_t)rv; break; case 3: e = (uint64_t)(int64_t)(int16_t)rv; break; case 4: e = (uint64_t)(int64_t)(int32_t)rv; break; case 7: e = rv & 1; break; case 8: e = (uint32_t)rv; break; default: e = rv; }
    CHK(r == e); }
HARNESS(kinds) { SCAL static const Kind ks[3] = {RED, GREEN, BLUE}; uint32_t i = nd_pick(3), j = nd_pick(3), n = nd_u32(); rk = ks[j]; CHK(h.kind(ks[i], n) == (j + 1) * 10); CHK(got[0] == (uint64_t)(int)ks[i] && got[1] == n); CHK(scn == 1); bool b = nd_bool(); CHK(h.flip(b) == (b ? 200u : 100u)); CHK(got[0] == b); }
HARNESS(bad_kind) { SCAL uint32_t x = nd_u32(); v_assume(x > 2); rk = (Kind)x; v_expect_abort(); h.kind(RED, 1); }
static uint64_t rg[6]; static uint32_t rn; static char sbuf[4]; static bool ropt;
struct R : Rich {
    ~R() noexcept override { kills[1]++; }
    std::optional<double> oint(std::optional<uint32_t> x) const noexcept override { rn++; rg[0] = x.has_value(); rg[1] = x.value_or(0); if (ropt) return vp_f64(rg[5]); return std::nullopt; }
    std::string_view s(std::string_view s) const noexcept override { rn++; rg[0] = s.size(); for (size_t i = 0; i < s.size() && i < 4; i++) rg[1 + i] = (uint8_t)s[i]; return std::string_view(sbuf, rg[5]); }
    void string(RustString s, uint32_t n) const noexcept override { rn++; rg[0] = s.size(); for (size_t i = 0; i < s.size() && i < 3; i++) rg[1 + i] = (uint8_t)s.to_string_view()[i]; rg[4] = n; }
    Obj take(Obj o) const noexcept override { rn++; rg[0] = o.a(); rg[1] = o.b(); if (ropt) { o.set_a((uint32_t)rg[5]); return o; } return Obj((uint32_t)rg[4], rg[5]); }
    uint32_t look(ObjRef o, ObjRef p) const noexcept override { rn++; return o.a() * 3 + p.a() + (uint32_t)o.b() * 100 + (uint32_t)p.b() * 1000; }
    uint32_t oobj(std::optional<Obj> o) const noexcept override { rn++; return o ? o->a() ^ (uint32_t)o->b() : 5; }
    uint32_t pair(std::pair<uint32_t, float> p) const noexcept override { rn++; return p.first - vp_b32(p.second); }
    uint32_t slice(RustSlice<const uint32_t> s) const noexcept override { rn++; rg[0] = s.size(); uint32_t t = 0; for (auto x : s) t = t * 3 + x; return t; }
    uint32_t vec(RustVecu32 s) const noexcept override { rn++; rg[0] = s.size(); uint32_t t = 0; for (size_t i = 0; i < s.size(); i++) t = t * 3 + s[i]; return t; }
    uint32_t objs(RustForeignVecObj s) const noexcept override { rn++; rg[0] = s.size(); uint32_t t = 0; for (size_t i = 0; i < s.size(); i++) t = t * 3 + s[i].a() + (uint32_t)s[i].b(); return t; }
    uint32_t res(std::variant<uint32_t, RustString> r) const noexcept override { rn++; rg[0] = r.index(); if (r.index() == 0) return *std::get_if<0>(&r); auto &e = *std::get_if<1>(&r); return e.to_string_view() == "even" ? 1000 : e.to_string_view() == "odd!!" ? 2000 : 3000; }
    uint32_t okind(std::optional<Kind> k) const noexcept override { rn++; return k ? (uint32_t)(int)*k : 9; }
    std::pair<uint32_t, float> rpair(uint32_t x) const noexcept override { rn++; return {x ^ (uint32_t)rg[4], vp_f32((uint32_t)rg[5])}; }
};
#define RICH zero(); rn = 0; for (auto &g : rg) g = 0; ropt = false; Hub h; h.set_ri(std::make_unique<R>());
HARNESS(opt) { RICH bool k = nd_bool(); uint32_t x = nd_u32(); ropt = nd_bool(); rg[5] = nd_f64(); uint64_t r = h.oint(k, x); CHK(rn == 1); CHK(rg[0] == k); CHK(rg[1] == (k ? x : 0)); CHK(r == (ropt ? rg[5] : 7)); }
HARNESS(str) { RICH uint32_t n = nd_pick(3), m = nd_pick(3); char in[2]; for (auto &c : in) { c = nd_u8(); v_assume((uint8_t)c < 128); } for (int i = 0; i < 2; i++) { sbuf[i] = nd_u8(); v_assume((uint8_t)sbuf[i] < 128); }
    rg[5] = m; uint64_t hsh = m; for (uint32_t i = 0; i < m; i++) hsh = hsh * 31 + (uint8_t)sbuf[i]; CHK(h.s(std::string_view(in, n)) == hsh); CHK(rn == 1 && rg[0] == n); for (uint32_t i = 0; i < n; i++) CHK(rg[1 + i] == (uint8_t)in[i]); }
HARNESS(string) { { RICH uint32_t n = nd_pick(3), m = nd_u32(); char in[2]; for (auto &c : in) { c = nd_u8(); v_assume((uint8_t)c < 128); } h.string(std::string_view(in, n), m); CHK(rn == 1 && rg[0] == n && rg[4] == m); for (uint32_t i = 0; i < n; i++) CHK(rg[1 + i] == (uint8_t)in[i]); } CHK(kills[1] == 1); }
HARNESS(take) { RICH uint32_t a = nd_u32(), c = nd_u32(); uint64_t b = nd_u64(), d = nd_u64(); ropt = nd_bool(); rg[4] = c; rg[5] = d; uint64_t r = h.take(a, b); CHK(rn == 1 && rg[0] == a && rg[1] == b); CHK(r == (ropt ? b ^ (uint32_t)d : d ^ c)); }
HARNESS(look) { RICH uint32_t a = nd_u32(), b = nd_u32(); CHK(h.look(a, b) == a * 3 + b + 2100); CHK(rn == 1); }
HARNESS(oobj) { RICH bool k = nd_bool(); uint32_t a = nd_u32(); uint64_t b = nd_u64(); CHK(h.oobj(k, a, b) == (k ? a ^ (uint32_t)b : 5u)); CHK(rn == 1); }
HARNESS(pairs) { RICH uint32_t a = nd_u32(), b = nd_f32(), c = nd_u32(), d = nd_f32(); CHK(h.pair(a, vp_f32(b)) == a - b); rg[4] = c; rg[5] = d; CHK(h.rpair(a) == (((uint64_t)(a ^ c) << 32) | d)); CHK(rn == 2); }
HARNESS(seqs) { RICH uint32_t n = nd_pick(3), a = nd_u32(), b = nd_u32(); uint32_t e = n == 0 ? 0 : n == 1 ? a : a * 3 + b; CHK(h.slice(n, a, b) == e); CHK(rg[0] == n); CHK(h.vec(n, a, b) == e); CHK(rg[0] == n); uint32_t f = n == 0 ? 0 : n == 1 ? a + 1 : (a + 1) * 3 + b + 2; CHK(h.objs(n, a, b) == f); CHK(rg[0] == n); CHK(rn == 3); }
HARNESS(res) { RICH bool ok = nd_bool(); uint32_t x = nd_u32(); uint32_t r = h.res(ok, x); CHK(rn == 1 && rg[0] == !ok); CHK(r == (ok ? x : (x & 1) ? 2000u : 1000u)); uint32_t k = nd_pick(4); CHK(h.okind(k) == (k < 3 ? k : 9)); }
struct T : SentCb { uint32_t k; T(uint32_t k) : k(k) {} ~T() noexcept override { kills[2]++; } uint32_t onGot(uint32_t x) const noexcept override { return x - k; } };
HARNESS(sendable) { zero(); uint32_t k = nd_u32(), x = nd_u32(), m = nd_u32(); { Hub h; h.set_se(std::make_unique<T>(k)); CHK(h.sent(x) == x - k); h.set_se(std::make_unique<T>(m)); CHK(kills[2] == 1); CHK(h.sent(k) == k - m); } CHK(kills[2] == 2); }
#include "rust_interface/Many.hpp"
#include "rust_interface/ManyUser.hpp"
struct Mn : Many { uint64_t *got; int *which; Mn(uint64_t *g, int *w) : got(g), which(w) {}
    uint64_t f0() const noexcept override { *which = 0; return 0; }
    void g0() noexcept override { *which = 100; *got = 0; }
    uint64_t f1(uint8_t a) const noexcept override { *which = 1; return (uint64_t)a << 0; }
    void g1(uint8_t a) noexcept override { *which = 101; *got = (uint64_t)a << 0; }
    uint64_t f2(uint8_t a, uint8_t b) const noexcept override { *which = 2; return (uint64_t)a << 0 | (uint64_t)b << 8; }
    void g2(uint8_t a, uint8_t b) noexcept override { *which = 102; *got = (uint64_t)a << 0 | (uint64_t)b << 8; }
    uint64_t f3(uint8_t a, uint8_t b, uint8_t c) const noexcept override { *which = 3; return (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16; }
    void g3(uint8_t a, uint8_t b, uint8_t c) noexcept override { *which = 103; *got = (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16; }
    uint64_t f4(uint8_t a, uint8_t b, uint8_t c, uint8_t d) const noexcept override { *which = 4; return (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24; }
    void g4(uint8_t a, uint8_t b, uint8_t c, uint8_t d) noexcept override { *which = 104; *got = (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24; }
    uint64_t f5(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e) const noexcept override { *which = 5; return (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32; }
    void g5(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e) noexcept override { *which = 105; *got = (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32; }
    uint64_t f6(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f) const noexcept override { *which = 6; return (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32 | (uint64_t)f << 40; }
    void g6(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f) noexcept override { *which = 106; *got = (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32 | (uint64_t)f << 40; }
    uint64_t f7(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f, uint8_t g) const noexcept override { *which = 7; return (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32 | (uint64_t)f << 40 | (uint64_t)g << 48; }
    void g7(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f, uint8_t g) noexcept override { *which = 107; *got = (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32 | (uint64_t)f << 40 | (uint64_t)g << 48; }
    uint64_t f8(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f, uint8_t g, uint8_t h) const noexcept override { *which = 8; return (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32 | (uint64_t)f << 40 | (uint64_t)g << 48 | (uint64_t)h << 56; }
    void g8(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, uint8_t f, uint8_t g, uint8_t h) noexcept override { *which = 108; *got = (uint64_t)a << 0 | (uint64_t)b << 8 | (uint64_t)c << 16 | (uint64_t)d << 24 | (uint64_t)e << 32 | (uint64_t)f << 40 | (uint64_t)g << 48 | (uint64_t)h << 56; }
};
HARNESS(arity) {
    uint8_t v[8]; for (auto &x : v) x = nd_u8(); int n = (int)nd_pick(9); bool set = nd_bool(); uint64_t got = 0, w = 0; int which = -1; for (int i = 0; i < n; i++) w |= (uint64_t)v[i] << (8 * i);
    ManyUser u(std::make_unique<Mn>(&got, &which)); uint64_t r = u.run((uint8_t)n, set, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    CHK(which == n + (set ? 100 : 0)); CHK((set ? got : r) == w);
}
