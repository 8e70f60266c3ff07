#include "vh.h"
#include "rust_interface/Acc.hpp"
#include "rust_interface/SRr.hpp"
#include "rust_interface/SAm.hpp"
#include "rust_interface/SR.hpp"
#include "rust_interface/SA.hpp"
#include "rust_interface/ShFns.hpp"
#include "rust_interface/Shape.hpp"
#include "rust_interface/World.hpp"
#include "rust_interface/Camel.hpp"
#include "rust_interface/Fact.hpp"
#include "rust_interface/FactB.hpp"
#include "rust_interface/OldStyle.hpp"
#include "rust_interface/FactFns.hpp"
#include "rust_interface/Inl.hpp"
#include "rust_interface/Un.hpp"
#include "rust_interface/Nm.hpp"
#include "rust_interface/WideC.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { STEPS = 4 };
#else
enum { STEPS = 3 };
#endif
HARNESS(ctors) { uint32_t x = nd_u32(), y = nd_u32(); Acc a(x, y), z; CHK(a.a() == x); CHK(a.b() == y); CHK(z.a() == 0 && z.b() == 0); CHK(a.log() == 0); }
HARNESS(statics) { uint32_t x = nd_u32(), y = nd_u32(); CHK(Acc::stat(x, y) == x - y); CHK(Acc::stat2(x, y) == y - x); }
HARNESS(plain) {
    uint32_t x = nd_u32(), y = nd_u32(), p = nd_u32(), q = nd_u32(), k = nd_u32(); Acc a(x, y), b(p, q);
    CHK(a.mix(b) == (((uint64_t)x << 32) | q)); CHK(b.mix(a) == (((uint64_t)p << 32) | y)); CHK(a.mix(a) == (((uint64_t)x << 32) | y));
    CHK(a.inline_sum(k) == (x + y) * k); CHK(a.free_fn(k) == x + k); CHK(b.free_fn(k) == p + k);
    CHK(a.maybe(&b) == p); CHK(a.maybe(nullptr) == x); CHK(b.maybe(&a) == x);
    a.inline_set(k, p); CHK(a.a() == k && a.b() == p); CHK(b.a() == p && b.b() == q);
    b.merge(a); CHK(b.a() == k && b.b() == q); a.give(b, x); CHK(a.a() == k - x); CHK(b.a() == k + x);
    a.absorb(std::move(b)); CHK(a.a() == ((k - x) ^ (k + x))); CHK(a.b() == q);
}
HARNESS(identity) {
    uint32_t x = nd_u32(), p = nd_u32(), k = nd_u32(); Acc a(x, 1), b(p, 2);
    AccRef m = a.me(); CHK((const AccOpaque *)m == (const AccOpaque *)(AccOpaque *)a); a.plusA(k); CHK(m.a() == x + k);
    AccRef w = a.max(b); bool fst = x + k >= p; CHK((const AccOpaque *)w == (const AccOpaque *)(AccOpaque *)(fst ? a : b)); CHK(w.b() == (fst ? 1u : 2u)); CHK(w.as_cref().mix(b) == (((uint64_t)(fst ? x + k : p) << 32) | 2));
}
HARNESS(world) {
    uint32_t x = nd_u32(), y = nd_u32(), p = nd_u32(), q = nd_u32(); World w(x, y);
    AccRef rx = w.x(), ry = w.y(); CHK(rx.a() == x && rx.b() == y); CHK(ry.a() == y && ry.b() == x);
    w.set_x(p); CHK(rx.a() == p); CHK(ry.a() == y); w.set_y(q); CHK(ry.a() == q); CHK(rx.a() == p);
    bool f = nd_bool(); CHK((const AccOpaque *)w.xy(f) == (f ? (const AccOpaque *)rx : (const AccOpaque *)ry)); CHK(w.xy(f).a() == (f ? p : q));
    uint32_t k = nd_pick(3); auto o = w.opt(k); CHK(o.has_value() == (k < 2)); if (o) CHK(o->a() == (k == 0 ? p : q));
    CHK(rx.as_cref().mix(ry.as_cref()) == (((uint64_t)p << 32) | x));
}
template <class S> static void shared(S &s, S &t, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t k, uint32_t m) { CHK(s.a() == a && s.b() == b); CHK(t.a() == c && t.b() == d); CHK(s.view(k, m) == (a + k) * m); CHK(t.view(k, m) == (c + k) * m); }
#define SH(T) HARNESS(T) { uint32_t a = nd_u32(), b = nd_u32(), c = nd_u32(), d = nd_u32(), k = nd_u32(), m = nd_u32(); T s(a, b), t(c, d); shared(s, t, a, b, c, d, k, m); }
#define SHM(T) HARNESS(T) { uint32_t a = nd_u32(), b = nd_u32(), c = nd_u32(), d = nd_u32(), k = nd_u32(), m = nd_u32(); T s(a, b), t(c, d); shared(s, t, a, b, c, d, k, m); CHK(s.add_a(k) == a + k); CHK(t.add_b(m) == d + m); shared(s, t, a + k, b, c, d + m, k, m); CHK(s.add_b(c) == b + c); CHK(t.add_a(b) == c + b); shared(s, t, a + k, b + c, c + b, d + m, m, k); }
SH(SR)
SH(SA)
SHM(SRr)
SHM(SAm)
// every way an argument may name an object kept behind a shared pointer
#define SHFN(T, P) uint32_t a = nd_u32(), b = nd_u32(), c = nd_u32(), d = nd_u32(), k = nd_u32(); T s(a, b), t(c, d); \
    CHK(ShFns::P##_ref(s, k) == a + k); CHK(ShFns::P##_ref(t, a) == c + a); CHK(ShFns::P##_two(s, k, t) == a - d + k); CHK(ShFns::P##_two(t, k, s) == c - b + k); \
    { T u(k, a), v(b, d); CHK(ShFns::P##_rc(std::move(u), k) == k * k + 1); CHK(ShFns::P##_rc(std::move(v), c) == b * c + 1); }
HARNESS(fns_sr) { SHFN(SR, sr) CHK(ShFns::sr_val(k, std::move(t)) == d + k + 1); CHK(s.a() == a && s.b() == b); }
HARNESS(fns_sa) { SHFN(SA, sa) CHK(ShFns::sa_val(k, std::move(t)) == d + k + 1); CHK(s.a() == a && s.b() == b); }
#define SHFNM(T, P) SHFN(T, P) CHK(ShFns::P##_mut(s, k) == a); CHK(s.b() == k && s.a() == a); CHK(t.a() == c && t.b() == d); CHK(ShFns::P##_cell(t, a) == d); CHK(t.a() == a && t.b() == d); CHK(s.b() == k && s.a() == a); \
    CHK(ShFns::P##_val(k, std::move(t)) == d + k + 1); CHK(s.a() == a && s.b() == k);
HARNESS(fns_srr) { SHFNM(SRr, srr) }
HARNESS(fns_sam) { SHFNM(SAm, sam) }
HARNESS(aliases) {
    uint32_t a = nd_u32(), b = nd_u32(), k = nd_u32(), m = nd_u32(); World w(a, b); SRr r = w.rr(), r2 = w.rr(); SAm s = w.am(), s2 = w.am();
    CHK(r.add_a(k) == a + k); CHK(r2.a() == a + k); CHK(w.rr_a() == a + k); CHK(s2.add_a(m) == a + m); CHK(s.a() == a + m); CHK(w.am_a() == a + m); CHK(r.a() == a + k);
    w.poke_rr(r2, m); CHK(r.b() == m); CHK(w.look_rr(r) == m); w.poke_am(s, k); CHK(s2.b() == k); CHK(w.look_am(s2) == k);
    SRr o(m, k); w.put_rr(std::move(r)); w.put_rr(std::move(o)); CHK(w.rr_a() == m); CHK(r2.a() == a + k); SRr q = w.rr(); q.add_a(1); CHK(w.rr_a() == m + 1); CHK(r2.a() == a + k);
    SR x(k, a); SA y(m, b); CHK(w.look_sr(x) == a); CHK(w.look_sa(y) == b);
}
HARNESS(shape) {
    bool sq = nd_bool(); uint32_t x = nd_u32(), y = nd_u32(), k = nd_u32(), g = nd_u32(); Shape s(sq, x, y), t(!sq, y, x);
    auto area = [](bool q, uint32_t x, uint32_t y, uint32_t k) { return q ? x * x + k : x * y + k; };
    auto per = [](bool q, uint32_t x, uint32_t y, uint32_t k) { return q ? x * 4 - k : (x + y) * 2 - k; };
    CHK(s.perim(k) == per(sq, x, y, k)); CHK(t.perim(g) == per(!sq, y, x, g)); CHK(s.area(k) == area(sq, x, y, k));
    s.grow(g); uint32_t sx = sq ? x + g : x, sy = sq ? y : y + g; CHK(s.perim(k) == per(sq, sx, sy, k)); CHK(t.perim(k) == per(!sq, y, x, k));
    uint32_t f = nd_pick(4); t.scale(f); uint32_t tx = !sq ? y * f : y, ty = !sq ? x : x * f; CHK(t.perim(k) == per(!sq, tx, ty, k));
    World w(1, 2); CHK(w.shape_area(k) == 0); w.take_shape(std::move(s)); CHK(w.shape_area(k) == area(sq, sx, sy, k)); w.take_shape(std::move(t)); CHK(w.shape_area(k) == area(!sq, tx, ty, k));
}
// every interleaving of mutating and reading calls on two objects and their aliases
HARNESS(history) {
    struct M { uint32_t a, b; uint64_t log; } m[2]; for (auto &x : m) x.a = nd_u32(), x.b = nd_u32(), x.log = 0;
    Acc o[2] = {Acc(m[0].a, m[0].b), Acc(m[1].a, m[1].b)};
    for (int step = 0; step < STEPS; step++) {
        uint32_t op = nd_pick(7), i = nd_pick(2), j = op >= 5 ? nd_pick(2) : 1 - i, x = nd_u32();
        switch (op) {
        case 0: m[i].a += x; m[i].log = m[i].log * 4 + 1; CHK(o[i].plusA(x) == m[i].a); break;
        case 1: m[i].b += x; m[i].log = m[i].log * 4 + 2; CHK(o[i].plusB(x) == m[i].b); break;
        case 2: { uint32_t t = m[i].a; m[i].a = m[i].b; m[i].b = t; m[i].log = m[i].log * 4 + 3; o[i].swap(); break; }
        case 3: m[i].a = m[j].a; o[i].merge(o[j]); break;
        case 4: m[i].a -= x; m[j].a += x; o[i].give(o[j], x); break;
        case 5: { Acc t(x, m[j].a); o[i].absorb(std::move(t)); m[i].b = m[j].a; m[i].a ^= x; break; }
        case 6: m[i].a = x; m[i].b = m[j].b; o[i].inline_set(x, m[j].b); break;
        }
        for (int k = 0; k < 2; k++) { CHK(o[k].a() == m[k].a); CHK(o[k].b() == m[k].b); CHK(o[k].log() == m[k].log); AccRef r = o[k].me(); CHK(r.a() == m[k].a); }
        CHK(o[0].mix(o[1]) == (((uint64_t)m[0].a << 32) | m[1].b));
    }
}
struct CamelSub : public Camel { using Camel::Camel; uint32_t reach() { return hidden_w(); } };
HARNESS(camel) { uint32_t x = nd_u32(), y = nd_u32(); CamelSub c(x); CHK(c.getVValue() == x); CHK(c.getWValue() == ~x); CHK(c.keep_this() == (((uint64_t)x << 32) | (uint32_t)~x)); c.setV2(y); c.setW(x); CHK(c.getVValue() == y); CHK(c.getWValue() == x); CHK(c.reach() == x); Camel d = Camel::makeIt(y); CHK(d.keep_this() == (((uint64_t)y << 32) | y)); }

// a class whose objects only come from a factory function, with hand-written members in its declaration
struct FactSub : public Fact { explicit FactSub(Fact &&f) noexcept : Fact(std::move(f)) {} uint32_t reach(uint32_t k) noexcept { return base(k); } };
HARNESS(factory) {
    uint32_t v = nd_u32(), a = nd_u32(), b = nd_u32(), k = nd_u32(); FactSub f(FactFns::fact_make(v)); Fact g = FactFns::fact_make(a);
    CHK(f.get() == v); CHK(f.hand(k) == ((~v) ^ k) + 1); CHK(f.hand2(k) == (((~v) ^ k) + 1) * 2); CHK(Fact::hand_base(k) == k * 3 + 2); CHK(f.reach(k) == k * 3); CHK(FactFns::fact_same(f) == v - ~v);
    f.put_twice(a, b); CHK(f.get() == b); CHK(f.hand(k) == (a ^ k) + 1); CHK(FactFns::fact_same(f) == b - a); CHK(g.get() == a); CHK(g.hand(0) == ~a + 1);
    g.put(k); CHK(g.get() == k); CHK(f.get() == b); f = FactSub(std::move(g)); CHK(f.get() == k); CHK(f.hand(v) == (a ^ v) + 1);
}
HARNESS(factory_plain) {
    uint32_t v = nd_u32(), a = nd_u32(), b = nd_u32(); FactB f = FactFns::factb_make(v), g = FactFns::factb_make(a);
    CHK(f.get() == v && f.old() == ~v); f.put(b); CHK(f.get() == b && f.old() == v); CHK(g.get() == a && g.old() == ~a);
    g = std::move(f); CHK(g.get() == b && g.old() == v); CHK(FactFns::factb_end(std::move(g)) == (b ^ v));
}
HARNESS(old_style) { uint32_t v = nd_u32(), w = nd_u32(), k = nd_u32(); OldStyle o(v, w), p(w, k); CHK(o.get() == v); CHK(o.put(k) == w); CHK(o.mix() == (v ^ k)); CHK(OldStyle::minus(w, k) == w - k); CHK(o.both_ways() == (v ^ k) + v - 1); CHK(p.mix() == (w ^ k)); CHK(p.put(v) == k); CHK(p.both_ways() == (w ^ v) + w - 1); }
HARNESS(inline_fns) {
    uint32_t a = nd_u32(), b = nd_u32(), k = nd_u32(), j = nd_u32(); Inl x(a, b), y(k);
    CHK(x.val() == ((a * 3) ^ b)); CHK(y.val() == ((~k * 3) ^ k)); CHK(Inl::sub(a, b) == (b > a ? b - a : (a ^ 5)));
    CHK(x.eat(k, y, j) == (k > j ? b - ~k : k - a)); CHK(x.put(j, k) == b); CHK(x.val() == ((j * 3) ^ k)); CHK(y.val() == ((~k * 3) ^ k));
    x.add_to(y); CHK(y.val() == (((~k ^ j) * 3) ^ (k + k))); CHK(x.val() == ((j * 3) ^ k));
    auto o = x.pick(a); CHK(o.has_value() == (a <= k)); if (a <= k) CHK(*o == (a ^ j));
    Inl d = x.dup(b); CHK(d.val() == ((k * 3) ^ b)); CHK(Inl::end(std::move(d), a) == ((b + k) ^ a));
}
HARNESS(wide) {
    uint8_t a0 = nd_u8(); uint16_t a1 = (uint16_t)nd_u32(); uint32_t a2 = nd_u32(); uint64_t a3 = nd_u64(); int8_t a4 = (int8_t)nd_u8(); int16_t a5 = (int16_t)nd_u32(); int32_t a6 = (int32_t)nd_u32(); int64_t a7 = (int64_t)nd_u64(); uint32_t a8 = nd_u32(); bool a9 = nd_bool(); uint16_t a10 = (uint16_t)nd_u32(); int32_t a11 = (int32_t)nd_u32(); uint8_t a12 = nd_u8(); uint64_t a13 = nd_u64();
    uint64_t r = 7; r = r * 3 + (uint64_t)a0; r = r * 5 + (uint64_t)a1; r = r * 7 + (uint64_t)a2; r = r * 9 + (uint64_t)a3; r = r * 11 + (uint64_t)(int64_t)a4; r = r * 13 + (uint64_t)(int64_t)a5; r = r * 15 + (uint64_t)(int64_t)a6; r = r * 17 + (uint64_t)(int64_t)a7; r = r * 19 + (uint64_t)a8; r = r * 21 + (uint64_t)a9; r = r * 23 + (uint64_t)a10; r = r * 25 + (uint64_t)(int64_t)a11; r = r * 27 + (uint64_t)a12; r = r * 29 + (uint64_t)a13;
    WideC w(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); CHK(w.v() == r);
    CHK(w.a_method_with_a_rather_long_name_and_many_arguments(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) == 0);
    CHK(WideC::a_static_function_with_a_rather_long_name_and_many_arguments(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) == r);
    CHK(WideC::a_static_function_with_a_rather_long_name_and_many_arguments_2(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) == ~r);
}
HARNESS(arg_names) {
    uint32_t a = nd_u32(), b = nd_u32(), k = nd_u32(); bool o = nd_bool(); Nm x(a), y(b);
    CHK(x.mix(y, k).get() == (a ^ b) * 3 + k); CHK(Nm::two(x, k, std::nullopt, "ab").get() == a - k + 11); CHK(Nm::two(x, k, std::optional<uint32_t>(b), "").get() == a - k + b);
    RustString t = Nm::text("q", a, b); CHK(t.size() == 2 && t.to_string_view()[0] == 'q' && t.to_string_view()[1] == (a > b ? '+' : '-'));
    auto m = Nm::maybe(k, o); CHK(m.has_value() == o); if (o) CHK(m->get() == k);
    auto r = Nm::res(b, o); CHK(r.index() == (o ? 0u : 1u)); if (o) CHK(std::get<0>(r).get() == b);
}
HARNESS(unnamed_args) {
    uint32_t a = nd_u32(), b = nd_u32(), c = nd_u32(), d = nd_u32(); Un u(a, b);
    CHK(u.f(a, b, c, d) == ((a - b) ^ (a - b) ^ (c * 3 - d))); uint32_t w = a * 5 - b * 3 - c;
    CHK(Un::g(a, b, c) == w); CHK(Un::g2(a, b, c) == w); CHK(Un::g3(a, b, c) == w); CHK(Un::g4(a, b, c) == w);
}
