// type maps given to the generator with merge_type_map, several sources with expand_many
#include "vh.h"
#include "rust_interface/OnlyBool.hpp"
#include "rust_interface/OnlySplit.hpp"
#include "rust_interface/OnlyFrost.hpp"
#include "rust_interface/Um.hpp"
#include "rust_interface/Um2.hpp"
#include "rust_interface/Hold.hpp"
#include "rust_interface/Um4.hpp"
#include "rust_interface/Um5.hpp"
using namespace rust;
static int64_t tin(int64_t raw) { return (int32_t)((raw + 9) >> 4); }
static int64_t tout(int32_t k) { return (int64_t)k * 16 + 2; }
static uint64_t rol(uint64_t x, int n) { return x << n | x >> (64 - n); }
static uint64_t win(const Pack &p) { return rol((uint64_t)p.hi << 32 | p.lo, 16); }
static bool is(const Pack &p, uint64_t k) { uint64_t e = rol(k, 8) ^ 5; return p.lo == (uint32_t)e && p.hi == (uint32_t)(e >> 32); }
static Pack pack() { Pack p; p.lo = nd_u32(); p.hi = nd_u32(); return p; }
static int64_t raw() { int64_t r = nd_u64(); v_assume(r < 0x7fffffffffffff00); return r; }
HARNESS(user_both) { int64_t r = raw(); CHK(Um::t_in(Heat{r}) == (int32_t)tin(r)); int32_t k = nd_u32(); CHK(Um::t_out(k).raw == tout(k)); }
HARNESS(user_later_map_wins) { int64_t r = raw(); int32_t c = nd_u8(); CHK(Um::f_in(Cold{r, c}) == (int32_t)((r + c) ^ 1)); int32_t k = nd_u32(); Cold o = Um::f_out(k); CHK(o.raw == (((int64_t)k * 4) | 1) && o.calls == 2); }
HARNESS(user_statements) { Pack p = pack(); CHK(Um::w_in(p) == win(p)); uint64_t k = nd_u64(); CHK(is(Um::w_out(k), k)); }
HARNESS(user_many) {
    Pack a = pack(), b = pack(); int64_t r = raw(), q = raw(); int32_t c = nd_u8(); uint32_t x = nd_u32();
    uint64_t e = (uint64_t)tin(r) ^ ((uint64_t)(uint32_t)((q + c) ^ 1) << 20) ^ (uint64_t)x << 32;
    CHK(is(Um::mix(a, Heat{r}, b, Cold{q, c}, x), win(a) ^ rol(win(b), 1) ^ e)); CHK(is(Um::mix(a, Heat{r}, a, Cold{q, c}, x), win(a) ^ rol(win(a), 1) ^ e));
}
HARNESS(user_bool) { bool a = nd_bool(), b = nd_bool(); CHK(Um::neg(a, b) == (!a && b)); CHK(Um2::flag(a) == a); }
HARNESS(user_class) {
    int64_t r = raw(), q = raw(); Pack p = pack(), s = pack(); Hold h(Heat{r}, p); CHK(h.t().raw == tout((int32_t)tin(r))); CHK(is(h.w(), win(p))); CHK(h.raw() == win(p) + (uint32_t)tin(r));
    CHK(is(h.set(s, Heat{q}), win(p))); CHK(is(h.w(), win(s))); CHK(h.t().raw == tout((int32_t)tin(q)));
}
HARNESS(user_second_source) { int64_t r = raw(); CHK(Um2::second(Heat{r}).raw == tout((int32_t)((uint32_t)tin(r) * 3))); }
HARNESS(user_later) {
    uint32_t x = nd_u32(); auto l = Um::later_u32(x); CHK(l.calls() == 1); CHK(l.take() == x); bool b = nd_bool(); auto m = Um::later_bool(b); CHK(m.calls() == 1); CHK(m.take() == !b);
    int32_t t = nd_u32(); uint64_t w = nd_u64(); auto h = Um::later_hold(t, w); CHK(h.calls() == 1); Hold o = h.take(); CHK(o.raw() == w + (uint32_t)t); if (nd_bool()) Hold z = h.take();
    uint32_t n = nd_pick(2); auto s = Um::later_text(n); CHK(s.calls() == 1); auto v = s.take(); CHK(v.size() == (n ? 5u : 0u)); if (n) CHK(v.to_string_view()[4] == 'r');
}
HARNESS(user_modules) { bool b = nd_bool(); CHK(OnlyBool::inverse(b) == !b); int64_t r = raw(); int32_t c = nd_u8(); Cold o = OnlyFrost::halve(Cold{r, c}); CHK(o.raw == (((int64_t)((int32_t)((r + c) ^ 1) / 2) * 4) | 1) && o.calls == 2); }
HARNESS(user_two_rules) { Halves h; h.a = nd_u32(); h.b = nd_u32(); Halves o = OnlySplit::turn(h); CHK(o.b == h.a); CHK(o.a == (((h.b ^ 6) & ~1u) | 1)); }
HARNESS(user_later_method) {
    int64_t r = raw(); Pack p = pack(); uint64_t w = nd_u64(); int32_t k = nd_u32(); Hold h(Heat{r}, p); const Hold &c = h;
    auto l = c.later_t(k); CHK(l.calls() == 1); CHK(l.take() == ((int32_t)tin(r) ^ k)); auto m = h.later_set(w); CHK(m.calls() == 1); CHK(m.take() == win(p)); CHK(h.raw() == w + (uint32_t)tin(r)); auto f = c.later_flag(); CHK(f.calls() == 1); CHK(f.take() == ((int32_t)tin(r) < 0));
}
// replaced rules: out gives raw = 2k + kr, extra = kj; in gives (raw + extra * kj) * 4 - kr
static uint32_t ovin(uint32_t raw, uint32_t extra, uint32_t kr, uint32_t kj) { return (raw + extra * kj) * 4 - kr; }
HARNESS(user_over) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um4::over_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 11 && o.extra == 11); CHK((uint64_t)Um4::over_in(OvOver{a, 6}, OvOver{b, 7}) == ((uint64_t)ovin(a, 6, 11, 11) << 32 | ovin(b, 7, 11, 11))); }
HARNESS(user_overin) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um4::overin_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 3 && o.extra == 3); CHK((uint64_t)Um4::overin_in(OvOverIn{a, 6}, OvOverIn{b, 7}) == ((uint64_t)ovin(a, 6, 11, 11) << 32 | ovin(b, 7, 11, 11))); }
HARNESS(user_overout) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um4::overout_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 11 && o.extra == 11); CHK((uint64_t)Um4::overout_in(OvOverOut{a, 6}, OvOverOut{b, 7}) == ((uint64_t)ovin(a, 6, 3, 3) << 32 | ovin(b, 7, 3, 3))); }
HARNESS(user_optboth) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um4::optboth_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 7 && o.extra == 7); CHK((uint64_t)Um4::optboth_in(OvOptBoth{a, 6}, OvOptBoth{b, 7}) == ((uint64_t)ovin(a, 6, 7, 7) << 32 | ovin(b, 7, 7, 7))); }
HARNESS(user_optset) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um4::optset_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 11 && o.extra == 11); CHK((uint64_t)Um4::optset_in(OvOptSet{a, 6}, OvOptSet{b, 7}) == ((uint64_t)ovin(a, 6, 11, 11) << 32 | ovin(b, 7, 11, 11))); }
HARNESS(user_optmap) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um5::optmap_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 9 && o.extra == 9); CHK((uint64_t)Um5::optmap_in(OvOptMap{a, 6}, OvOptMap{b, 7}) == ((uint64_t)ovin(a, 6, 9, 9) << 32 | ovin(b, 7, 9, 9))); }
HARNESS(user_optiface) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um5::optiface_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 9 && o.extra == 9); CHK((uint64_t)Um5::optiface_in(OvOptIface{a, 6}, OvOptIface{b, 7}) == ((uint64_t)ovin(a, 6, 9, 9) << 32 | ovin(b, 7, 9, 9))); }
HARNESS(user_opthalf) { int32_t k = nd_u32(), a = nd_u16(), b = nd_u16(); auto o = Um5::opthalf_out(k); CHK((uint32_t)o.raw == (uint32_t)k * 2 + 5 && o.extra == 5); CHK((uint64_t)Um5::opthalf_in(OvOptHalf{a, 6}, OvOptHalf{b, 7}) == ((uint64_t)ovin(a, 6, 9, 9) << 32 | ovin(b, 7, 9, 9))); }
