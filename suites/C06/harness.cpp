#include "vh.h"
#include "rust_interface/Obj.hpp"
#include "rust_interface/Tiny.hpp"
#include "rust_interface/Big.hpp"
#include "rust_interface/Unit.hpp"
#include "rust_interface/Store.hpp"
#include "rust_interface/F.hpp"
#include "rust_interface/Arcs.hpp"
#include "rust_interface/Shs.hpp"
#include "rust_interface/Sh.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { MAXN = 5, STEPS = 4 };
#else
enum { MAXN = 3, STEPS = 3 };
#endif
struct Seq {            // expected values
    uint32_t v[MAXN * 2 + 4]; uint32_t n = 0;
    void push(uint32_t x) { v[n++] = x; }
    void erase(uint32_t i) { for (uint32_t k = i + 1; k < n; k++) v[k - 1] = v[k]; n--; }
};
static Seq seq(uint32_t n, uint32_t base) { Seq s; for (uint32_t i = 0; i < n; i++) s.push(base + i); return s; }
// access by index and by iteration, forwards and backwards
template <class C> static void same(C &c, const Seq &e) {
    CHK(c.size() == e.n); CHK(c.empty() == (e.n == 0));
    uint32_t k = 0;
    for (auto x : c) { CHK(k < e.n); CHK(x.v() == e.v[k]); CHK(x.ok()); k++; }
    CHK(k == e.n);
    for (auto it = c.end(); it != c.begin();) { --it; k--; CHK((*it).v() == e.v[k]); }
    CHK(k == 0);
    for (uint32_t i = 0; i < e.n; i++) CHK(c[i].v() == e.v[i]);
}
// random access iterator laws at every pair of positions
template <class C, class G> static void laws(C &c, uint32_t n, G value) {
    uint32_t i = nd_pick(n + 1), j = nd_pick(n + 1);
    auto a = c.begin() + (ptrdiff_t)i, b = c.begin() + (ptrdiff_t)j;
    ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
    CHK(b - a == d); CHK(a - b == -d); CHK(a + d == b); CHK(b - d == a); CHK(c.end() - a == (ptrdiff_t)(n - i)); CHK(a - c.begin() == (ptrdiff_t)i); CHK(c.begin() - a == -(ptrdiff_t)i);
    CHK((a == b) == (i == j)); CHK((a != b) == (i != j)); CHK((a < b) == (i < j)); CHK((a > b) == (i > j)); CHK((a <= b) == (i <= j)); CHK((a >= b) == (i >= j));
    auto x = a; x += d; CHK(x == b); x -= d; CHK(x == a); x -= -d; CHK(x == b); x += -d; CHK(x == a);
    if (i < n) { CHK(value(*a) == value(c[i])); auto y = a; auto &z = ++y; CHK(&z == &y); CHK(y - a == 1); CHK(y > a); --y; CHK(y == a); }
    if (i > 0) { auto y = a; --y; CHK(a - y == 1); CHK(value(*y) == value(c[i - 1])); }
    if (j < n) { CHK(value(a[d]) == value(c[j])); CHK(value(*(a + d)) == value(c[j])); }
}
HARNESS(make) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); { auto v = F::make(n, b, nd_pick(2)); auto e = seq(n, b); same(v, e); const auto &c = v; same(c, e); } CHK(Obj::drops() == n); }
HARNESS(iter_vec) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); auto v = F::make(n, b, 0); laws(v, n, [](ObjRef r) { return r.v(); }); }
HARNESS(iter_cvec) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); const auto v = F::make(n, b, 0); laws(v, n, [](ObjRef r) { return r.v(); }); }
HARNESS(iter_tiny) { uint32_t n = nd_pick(MAXN + 1); uint8_t b = nd_u8(); auto v = F::tiny(n, b); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) CHK(v[i].x() == (uint8_t)(b + i)); laws(v, n, [](TinyRef r) { return r.x(); }); }
HARNESS(iter_big) { uint32_t n = nd_pick(MAXN + 1); uint64_t b = nd_u64(); auto v = F::big(n, b); CHK(v.size() == n); uint32_t k = 0; for (auto x : v) { CHK(x.x() == b + k); k++; } CHK(k == n); CHK(F::big_len(v.as_slice()) == n); CHK(F::big_sum(v.as_slice()) == b * n + n * (n - 1) / 2); laws(v, n, [](BigRef r) { return r.x(); }); }
// elements of a zero-sized Rust type
HARNESS(unit) { uint32_t n = nd_pick(MAXN + 1); auto v = F::units(n); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) CHK(v[i].x() == 7); CHK(F::unit_len(v.as_slice()) == n); v.push(Unit()); CHK(v.size() == n + 1); auto u = v.remove(nd_pick(n + 1)); CHK(u.x() == 7); CHK(v.size() == n); }
#ifndef VP_NS   // known findings of C06, not repeated for the variants of C12
HARNESS(unit_iter) { uint32_t n = nd_pick(MAXN + 1); auto v = F::units(n); uint32_t k = 0; for (auto x : v) { CHK(x.x() == 7); k++; } CHK(k == n); }
#endif
HARNESS(iter_slice) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); auto v = F::make(n, b, 1); auto s = v.as_slice(); auto e = seq(n, b); same(s, e); laws(s, n, [](ObjRef r) { return r.v(); }); }
HARNESS(iter_mslice) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); auto v = F::make(n, b, 1); const auto s = v.as_slice_mut(); auto e = seq(n, b); same(s, e); laws(s, n, [](ObjRef r) { return r.v(); }); }
HARNESS(slice_in) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); auto v = F::make(n, b, 1); CHK(F::len(v.as_slice()) == n); for (uint32_t i = 0; i < n; i++) CHK(F::at(v.as_slice(), i) == b + i); }
HARNESS(slice_oob) { uint32_t n = nd_pick(MAXN + 1); auto v = F::make(n, 1, 1); v_expect_abort(); v_obs(F::at(v.as_slice(), n)); }
HARNESS(slice_mut) {
    uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); auto v = F::make(n, b, 1); auto e = seq(n, b);
    if (n) { uint32_t i = nd_pick(n), x = nd_u32(); F::set(v.as_slice_mut(), i, x); e.v[i] = x; same(v, e); }
    F::rev(v.as_slice_mut()); for (uint32_t i = 0; i < n; i++) CHK(v[i].v() == e.v[n - 1 - i]);
}
HARNESS(remove) { uint32_t n = 1 + nd_pick(MAXN), b = nd_u32(), i = nd_pick(n); { auto v = F::make(n, b, nd_pick(2)); auto e = seq(n, b); auto o = v.remove(i); CHK(o.v() == b + i); CHK(o.ok()); e.erase(i); same(v, e); CHK(Obj::drops() == 0); } CHK(Obj::drops() == n); }
HARNESS(remove_oob) { uint32_t n = nd_pick(MAXN + 1); auto v = F::make(n, 1, 1); v_expect_abort(); auto o = v.remove(n); v_obs(o.v()); }
HARNESS(push) { uint32_t n = nd_pick(MAXN + 1), b = nd_u32(), x = nd_u32(), y = nd_u32(); { auto v = F::make(n, b, nd_pick(3)); auto e = seq(n, b); v.push(Obj(x)); e.push(x); same(v, e); Obj o(y); v.push(std::move(o)); e.push(y); same(v, e); CHK(Obj::drops() == 0); v.clear(); CHK(v.size() == 0); CHK(Obj::drops() == n + 2); v.push(Obj(x)); Seq z; z.push(x); same(v, z); } CHK(Obj::drops() == n + 3); }
HARNESS(dflt) {
    RustForeignVecObj a; Seq e; same(a, e); CHK(F::len(a.as_slice()) == 0); F::rev(a.as_slice_mut()); CHK(F::eat(std::move(a)) == 0); CHK(a.empty());
    RustForeignVecObj b = F::echo(std::move(a)); b.push(Obj(7)); e.push(7); same(b, e); a = std::move(b); same(a, e); CHK(b.begin() == b.end()); CHK(F::len(b.as_slice()) == 0); b.push(Obj(7)); same(b, e);
    RustForeignVecBig g; CHK(F::big_len(g.as_slice()) == 0); CHK(F::big_sum(g.as_slice()) == 0); g.push(Big((uint64_t)9)); CHK(F::big_sum(g.as_slice()) == 9);
    RustForeignSliceConst<ObjRef> s; CHK(s.empty()); CHK(s.begin() == s.end()); CHK(F::len(std::move(s)) == 0);
    RustForeignSliceMut<ObjRef> m; CHK(m.size() == 0); F::rev(std::move(m));
}
HARNESS(slice_assign) {   // assignment to a slice that was empty, of another vector, or of another length
    uint32_t n = nd_pick(MAXN + 1), b = nd_u32(); auto v = F::make(n, b, 0), z = F::make(2, 100, 0); auto e = seq(n, b); Seq none;
    RustForeignSliceConst<ObjRef> s; if (nd_bool()) s = z.as_slice(); s = v.as_slice(); same(s, e);
    RustForeignSliceConst<ObjRef> t; t = std::move(s); same(t, e); same(s, none); s = std::move(t); same(s, e);
    RustForeignSliceMut<ObjRef> m; if (nd_bool()) m = z.as_slice_mut(); m = v.as_slice_mut(); CHK(m.size() == n); for (uint32_t i = 0; i < n; i++) CHK(m[i].v() == b + i);
    F::rev(std::move(m)); for (uint32_t i = 0; i < n; i++) CHK(v[i].v() == b + n - 1 - i);
}
HARNESS(store) {
    uint32_t n = nd_pick(MAXN + 1), b = nd_u32(), x = nd_u32();
    { Store s; s.put(F::make(n, b, nd_pick(2))); s.add(Obj(x)); auto e = seq(n, b); e.push(x); CHK(s.len() == n + 1);
      auto w = s.view(); same(w, e); auto w2 = std::move(w); CHK(w.size() == 0); same(w2, e); CHK(F::len(std::move(w)) == 0);
      uint32_t k = nd_pick(n + 2); auto t = s.tail(k); CHK(t.size() == n + 1 - k); for (uint32_t i = k; i <= n; i++) CHK(t[i - k].v() == e.v[i]);
      auto m = s.view_mut(); CHK(m.size() == n + 1); F::set(std::move(m), n, b); e.v[n] = b; CHK(s.at(n) == b); auto q = s.view(); same(q, e);
      uint32_t p = n; for (uint32_t i = n + 1; i-- > 0;) if (e.v[i] == b) p = i;
      CHK(s.find(s.view(), b) == p);
      auto v = s.take(); CHK(s.len() == 0); same(v, e); }
    CHK(Obj::drops() == n + 1);
}
HARNESS(opt) { bool some = nd_bool(); uint32_t n = nd_pick(3); { auto r = F::opt(some, n); CHK(r.has_value() == some); if (r) { auto e = seq(n, 5); same(*r, e); if (nd_bool()) { auto q = std::move(*r); same(q, e); } } } CHK(Obj::drops() == (some ? n : 0)); }
HARNESS(arcs) {
    uint32_t n = nd_pick(MAXN + 1); int32_t x[MAXN]; Arcs a; for (uint32_t i = 0; i < n; i++) { x[i] = (int32_t)nd_u32(); a.push(x[i]); }
    auto s = a.slice(); CHK(s.size() == n); CHK(s.empty() == (n == 0)); for (uint32_t i = 0; i < n; i++) CHK(s[i].val() == x[i]);
    { auto v = a.vec(); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) { CHK(v[i].val() == x[i]); CHK(a.refs(i) == 2); } auto w = std::move(v); CHK(v.size() == 0); CHK(v.empty()); for (uint32_t i = 0; i < n; i++) CHK(w[i].val() == x[i]); if (nd_bool()) { w = a.vec(); CHK(w.size() == n); } if (nd_bool()) v = std::move(w); }
    for (uint32_t i = 0; i < n; i++) CHK(a.refs(i) == 1);
    auto t = std::move(s); CHK(t.size() == n); CHK(s.empty()); s = std::move(t); CHK(s.size() == n); for (uint32_t i = 0; i < n; i++) CHK(s[i].val() == x[i]);
}
// every sequence of operations over two vectors and a Rust holder
HARNESS(history) {
    uint32_t made = 3, dropped = 0;
    {
        Store h; RustForeignVecObj s[2] = {F::make(2, 20, 0), RustForeignVecObj()}; Seq e[2] = {seq(2, 20), Seq()}, he; h.add(Obj(40)); he.push(40);
        for (int step = 0; step < STEPS; step++) {
            uint32_t i = nd_pick(2), j = 1 - i;
            switch (nd_pick(8)) {
            case 0: dropped += e[i].n; s[i] = std::move(s[j]); e[i] = e[j]; e[j].n = 0; break;
            case 1: s[i].push(Obj(60 + step)); made++; e[i].push(60 + step); break;
            case 2: if (!e[i].n) continue; { uint32_t k = nd_pick(e[i].n); auto o = s[i].remove(k); CHK(o.v() == e[i].v[k]); e[i].erase(k); if (nd_bool()) { e[j].push(o.v()); s[j].push(std::move(o)); } else dropped++; } break;
            case 3: dropped += he.n; h.put(std::move(s[i])); he = e[i]; e[i].n = 0; break;
            case 4: dropped += e[i].n; s[i] = h.take(); e[i] = he; he.n = 0; break;
            case 5: dropped += e[i].n; s[i].clear(); e[i].n = 0; break;
            case 6: { RustForeignVecObj t(std::move(s[i])); CHK(s[i].empty()); CHK(t.size() == e[i].n); if (nd_bool()) s[i] = F::echo(std::move(t)); else { dropped += e[i].n; e[i].n = 0; } break; }
            case 7: { auto raw = s[i].release(); CHK(s[i].empty()); s[i] = RustForeignVecObj(raw); break; }
            }
            CHK(Obj::drops() == dropped);
            for (int k = 0; k < 2; k++) { CHK(s[k].size() == e[k].n); for (uint32_t q = 0; q < e[k].n; q++) CHK(s[k][q].v() == e[k].v[q]); }
            CHK(h.len() == he.n); for (uint32_t q = 0; q < he.n; q++) CHK(h.at(q) == he.v[q]);
        }
    }
    CHK(Obj::drops() == made);
}
// an empty vector that still owns memory
HARNESS(empty_capacity) {
    auto mk = [] { auto v = F::make(0, 7, 4); CHK(v.empty()); return v; };
    auto v = mk();
    switch (nd_pick(7)) {
    case 0: v = F::make(2, 5, 0); CHK(v.size() == 2); break;
    case 1: v = mk(); CHK(v.empty()); break;
    case 2: { RustForeignVecObj w(std::move(v)); CHK(w.empty()); w = F::make(1, 3, 1); CHK(w.size() == 1); break; }
    case 3: v.clear(); v.clear(); CHK(v.empty()); break;
    case 4: { RustForeignVecObj w(v.release()); CHK(w.empty() && v.empty()); break; }
    case 5: CHK(F::eat(std::move(v)) == 0); break;
    case 6: v.push(Obj(9)); CHK(v.size() == 1 && v[0].v() == 9); break;
    }
}
HARNESS(longer) {   // more elements than the other scenarios use
    uint32_t n = 4 + nd_pick(6), b = nd_u32(); auto v = F::make(n, b, nd_pick(2)); CHK(v.size() == n); CHK((uint32_t)(v.end() - v.begin()) == n);
    uint32_t k = 0; for (const auto &x : v) { CHK(x.v() == b + k); k++; } CHK(k == n);
    auto s = v.as_slice(); k = 0; for (const auto &x : s) { CHK(x.v() == b + k); k++; } CHK(k == n);
    for (uint32_t i = 0; i < n; i++) CHK(v[i].v() == b + i);
    auto o = v.remove(n / 2); CHK(o.v() == b + n / 2); CHK(v.size() == n - 1); CHK(v[n / 2].v() == b + n / 2 + 1);
}
// a class shared through Rc: whole vectors and removed elements
HARNESS(rc_vec) {
    size_t n = nd_pick(3); uint32_t v = nd_u32(), w = nd_u32(); Shs s(n, v); auto x = s.take(); CHK(x.size() == n); CHK(s.view().size() == 0);
    x.push(Sh(w)); if (nd_bool()) { size_t i = nd_pick((uint32_t)n + 1); auto o = x.remove(i); CHK(o.v() == (i == n ? w : v + (uint32_t)i)); x.push(std::move(o)); }
    uint32_t sum = w; for (size_t i = 0; i < n; i++) sum += v + (uint32_t)i; CHK(Shs::sh_sum(std::move(x)) == sum);
}
// and its elements in place
#ifndef VP_NS   // known findings of C06, not repeated for the variants of C12
HARNESS(rc_elem) { uint32_t v = nd_u32(); Shs s(2, v); auto x = s.take(); CHK(x[1].v() == v + 1); }
#endif
#ifndef VP_NS   // known findings of C06, not repeated for the variants of C12
HARNESS(rc_slice) { uint32_t v = nd_u32(); Shs s(2, v); auto x = s.view(); CHK(x[0].v() == v); }
#endif
// sizes far beyond the other scenarios
HARNESS(huge) {
    static const uint32_t N[] = {17, 65, 257, 600}; uint32_t n = N[nd_pick(4)], b = nd_u32();
    {
        auto v = F::make(n, b, 3); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) { CHK(v[i].v() == b + i); CHK(v[i].ok()); }
        CHK(F::len(v.as_slice()) == n); CHK(F::at(v.as_slice(), n - 1) == b + n - 1);
        uint32_t k = 0; for (auto x : v) { CHK(x.v() == b + k); k++; } CHK(k == n);
        v.push(Obj(b + n)); auto o = v.remove(1); CHK(o.v() == b + 1); CHK(v.size() == n);
        auto w = F::echo(std::move(v)); CHK(v.size() == 0 && w.size() == n); CHK(w[0].v() == b); for (uint32_t i = 1; i < n; i++) CHK(w[i].v() == b + i + 1);
        CHK(Obj::drops() == 0);
        Store s; s.put(std::move(w)); CHK(s.len() == n); { const auto t = s.tail(n - 5); CHK(t.size() == 5); CHK(t[4].v() == b + n); CHK(F::len(s.tail(n - 5)) == 5); }
    }
    CHK(Obj::drops() == n + 1);
}
