#include "vh.h"
#include "rust_interface/Val.hpp"
#include "rust_interface/PVal.hpp"
#include "rust_interface/RR.hpp"
#include "rust_interface/AM.hpp"
#include "rust_interface/A1.hpp"
#include "rust_interface/R1.hpp"
#include "rust_interface/PA.hpp"
#include "rust_interface/Hold.hpp"
#include "rust_interface/G.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { STEPS = 4 };
#else
enum { STEPS = 3 };
#endif
template <class T> static bool has(const T &x) { return static_cast<typename T::CForeignType *>(x) != nullptr; }
HARNESS(val_copy) {
    uint32_t x = nd_u32(), y = nd_u32(), z = nd_u32();
    { Val a(x); Val b(a); CHK(a.v() == x && b.v() == x); CHK(b.s() == std::string_view("val", 3)); b.set(y); CHK(a.v() == x); a.set(z); CHK(b.v() == y); Val c(z); CHK(Hold::drops() == 0); c = b; CHK(Hold::drops() == 1); c.set(x); CHK(b.v() == y); CHK(c.v() == x); Val &r = c; c = r; CHK(c.v() == x); CHK(Hold::drops() == 1); Val d = a.clone(); CHK(d.v() == z); }
    CHK(Hold::drops() == 5);
}
HARNESS(val_empty) { uint32_t x = nd_u32(); { Val a(x); Val b(std::move(a)); CHK(!has(a)); Val c(a); CHK(!has(c)); Val d(x); d = a; CHK(!has(d)); CHK(Hold::drops() == 1); a = b; CHK(a.v() == x); CHK(b.v() == x); Val &r = c; c = r; CHK(!has(c)); } CHK(Hold::drops() == 3); }
HARNESS(val_arg) { uint32_t x = nd_u32(); { Val a(x); CHK(G::val_v(a) == x); CHK(Hold::drops() == 1); CHK(a.v() == x); Val b = G::val_id(a); CHK(b.v() == x); CHK(Hold::drops() == 1); CHK(G::val_v(std::move(a)) == x); CHK(!has(a)); CHK(Hold::drops() == 2); } CHK(Hold::drops() == 3); }
HARNESS(val_opt) { bool some = nd_bool(); uint32_t x = nd_u32(); { auto o = G::val_opt(some, x); CHK(o.has_value() == some); auto p = o; CHK(p.has_value() == some); if (some) { p->set(~x); CHK(o->v() == x); CHK(p->v() == ~x); } } CHK(Hold::drops() == (some ? 2 : 0)); }
HARNESS(pval) { uint32_t x = nd_u32(), y = nd_u32(); { PVal a(x); PVal b = a; b.set(y); CHK(a.v() == x); CHK(b.v() == y); a = b; CHK(a.v() == y); CHK(Hold::drops() == 1); PVal c(std::move(a)); PVal d(a); CHK(!has(d)); d = c; CHK(d.v() == y); } CHK(Hold::drops() == 4); }
// copies share the object
#define SHARED_SET(T) HARNESS(set_##T) { uint32_t x = nd_u32(), y = nd_u32(), z = nd_u32(); { T a(x); { T b(a); CHK(b.v() == x); b.set(y); CHK(a.v() == y); T c = std::move(b); c.set(z); CHK(a.v() == z); T d(y); d = c; CHK(Hold::drops() == 1); d.set(x); CHK(a.v() == x); CHK(c.v() == x); } CHK(Hold::drops() == 1); CHK(a.v() == x); { auto r = a.as_rref(); CHK(r.v() == x); a.set(y); CHK(r.v() == y); } } CHK(Hold::drops() == 2); }
SHARED_SET(RR)
SHARED_SET(AM)
#define HELD(T, t) HARNESS(held_##T) { uint32_t x = nd_u32(); Hold h; { T a(x); h.put_##t(a); CHK(h.cnt_##t() == 2); { T b = h.get_##t(); CHK(h.cnt_##t() == 3); CHK(b.v() == x); T c = b; CHK(h.cnt_##t() == 4); c = a; CHK(h.cnt_##t() == 4); c = std::move(b); CHK(h.cnt_##t() == 3); } CHK(h.cnt_##t() == 2); if (nd_bool()) { h.put_##t(std::move(a)); CHK(!has(a)); CHK(h.cnt_##t() == 1); } else if (nd_bool()) { h.clear(); CHK(a.v() == x); CHK(Hold::drops() == 0); h.put_##t(a); } } CHK(h.cnt_##t() == 1); CHK(Hold::drops() == 0); T z = h.get_##t(); h.clear(); CHK(z.v() == x); CHK(Hold::drops() == 0); }
HELD(RR, rr)
HELD(AM, am)
HELD(A1, a1)
HELD(R1, r1)
HARNESS(held_set) { uint32_t x = nd_u32(), y = nd_u32(), z = nd_u32(); Hold h; RR a(x); AM b(x); h.put_rr(a); h.put_am(b); h.set_rr(y); CHK(a.v() == y); CHK(b.v() == x); h.set_am(z); CHK(b.v() == z); a.set(z); RR c = h.get_rr(); CHK(c.v() == z); AM d = h.get_am(); d.set(x); CHK(b.v() == x); }
HARNESS(plain_pa) { uint32_t x = nd_u32(); { PA a(x); PA b(a); PA c(std::move(a)); CHK(!has(a)); PA d(a); CHK(!has(d)); d = b; CHK(d.v() == x); b = c; CHK(b.v() == x); c = PA(7u); CHK(Hold::drops() == 0); CHK(c.v() == 7); } CHK(Hold::drops() == 2); }
// every history over three wrappers of which some are empty; rc[k]: number of wrappers holding object k
template <class T, bool SHARED> static void history() {
    uint32_t made = 2, dropped = 0;
    {
        T s[3] = {T(0u), T(1u), T(0u)}; made = 3; uint32_t id[3] = {1, 2, 3}, rc[4 + STEPS] = {0, 1, 1, 1}, next = 4;   // id 0: empty
        uint32_t val[4 + STEPS] = {0, 0, 1, 0};
        auto rel = [&](uint32_t k) { if (k && --rc[k] == 0) dropped++; };
        auto copy = [&](uint32_t k) -> uint32_t { if (!k) return 0; if (SHARED) { rc[k]++; return k; } made++; rc[next] = 1; val[next] = val[k]; return next++; };
        for (int step = 0; step < STEPS; step++) {
            uint32_t i = nd_pick(2), j = nd_pick(3);
            switch (nd_pick(4)) {
            case 0: if (i != j) { uint32_t n = copy(id[j]); rel(id[i]); id[i] = n; } s[i] = s[j]; break;
            case 1: if (i == j) continue; rel(id[i]); id[i] = id[j]; id[j] = 0; s[i] = std::move(s[j]); break;
            case 2: { T t(s[j]); uint32_t n = copy(id[j]); CHK(has(t) == (n != 0)); if (n) CHK(t.v() == val[n]); rel(id[i]); s[i] = std::move(t); id[i] = n; break; }
            case 3: { T t(std::move(s[i])); CHK(!has(s[i])); rel(id[i]); id[i] = 0; break; }
            }
            for (int k = 0; k < 3; k++) { CHK(has(s[k]) == (id[k] != 0)); if (id[k]) CHK(s[k].v() == val[id[k]]); }
        }
        CHK(Hold::drops() == dropped);
    }
    CHK(Hold::drops() == made);
}
HARNESS(history_val) { history<Val, false>(); }
HARNESS(history_rr) { history<RR, true>(); }
HARNESS(history_am) { history<AM, true>(); }
HARNESS(history_a1) { history<A1, true>(); }
HARNESS(history_r1) { history<R1, true>(); }
