#include "vh.h"
#include "rust_interface/Holder.hpp"
#include "rust_interface/Color.hpp"
#include "rust_interface/Other.hpp"
#include "rust_interface/Single.hpp"
#include "rust_interface/Swap.hpp"
#include "rust_interface/Way.hpp"
#include "rust_interface/Paint.hpp"
#include "rust_interface/Bigs.hpp"
#include "rust_interface/Big.hpp"
using namespace rust;
static Color color_of(uint32_t i) { return i == 0 ? Color::RED : i == 1 ? Color::GREEN : i == 2 ? Color::BLUE : Color::ALPHA; }
static uint32_t code_of(Color c) { return c == Color::RED ? 101 : c == Color::GREEN ? 202 : c == Color::BLUE ? 303 : c == Color::ALPHA ? 404 : 999; }
static uint8_t ocode(Other c) { return c == Other::KX ? 11 : c == Other::KY ? 22 : c == Other::KZ ? 33 : 99; }
static Other other_of(uint32_t i) { return i == 0 ? Other::KX : i == 1 ? Other::KY : Other::KZ; }
static uint32_t sym(uint32_t n) { uint32_t i = nd_u32(); v_assume(i < n); return i; }
static bool known(uint32_t raw) { return raw == (uint32_t)Color::RED || raw == (uint32_t)Color::GREEN || raw == (uint32_t)Color::BLUE || raw == (uint32_t)Color::ALPHA; }

HARNESS(distinct) {
    Color c[] = {Color::BLUE, Color::RED, Color::ALPHA, Color::GREEN};
    uint32_t i = sym(4), j = sym(4); v_assume(i != j); CHK(c[i] != c[j]);
}
HARNESS(to_rust) { uint32_t i = sym(4); Color c = color_of(i); CHK(Holder::codeOf(c) == 101 * (i + 1)); OBS(Holder::codeOf(c)); }
HARNESS(from_rust) { uint32_t i = nd_u32(); Color c = Holder::make(i); CHK(c == color_of(i < 3 ? i : 3)); OBS(c); }
HARNESS(any_known) { uint32_t raw = nd_u32(); v_assume(known(raw)); CHK((uint32_t)Holder::id_color((Color)raw) == raw); CHK(Holder::codeOf((Color)raw) == code_of((Color)raw)); }
HARNESS(unknown_aborts) { uint32_t raw = nd_u32(); v_assume(!known(raw)); v_expect_abort(); Holder::codeOf((Color)raw); }
HARNESS(unknown_ctor_aborts) { uint32_t raw = nd_u32(); v_assume(!known(raw)); v_expect_abort(); Holder h((Color)raw, Other::KX); }
HARNESS(unknown_opt_aborts) { uint32_t raw = nd_u32(); v_assume(!known(raw)); v_expect_abort(); Holder::opt_code(std::optional<Color>((Color)raw)); }
HARNESS(unknown_pair_aborts) { uint32_t raw = nd_u32(); v_assume(!known(raw)); v_expect_abort(); Holder::pair_swap(std::make_pair((Color)raw, Other::KX)); }
// foreign names that are other variants' Rust names
HARNESS(implicit) { static const Way M[] = {Way::Up, Way::Down, Way::Right, Way::Left}; uint32_t n = nd_pick(4); CHK(Bigs::way_of(n) == M[n]); CHK(Bigs::way_no(M[n]) == n); }
HARNESS(swap) { static const Swap M[] = {Swap::Bee, Swap::Ant, Swap::Eel, Swap::Dog}; uint32_t n = nd_pick(4); CHK(Bigs::swap_of(n) == M[n]); CHK(Bigs::swap_no(M[n]) == n); }
HARNESS(single) { CHK(Holder::single_id(Single::ONLY) == Single::ONLY); uint32_t raw = nd_u32(); v_assume(raw != (uint32_t)Single::ONLY); v_expect_abort(); Holder::single_id((Single)raw); }
HARNESS(opt_in) { uint32_t i = sym(4); bool some = nd_bool(); std::optional<Color> o; if (some) o = color_of(i); CHK(Holder::opt_code(o) == (some ? 101 * (i + 1) : 7)); }
HARNESS(opt_out) { uint32_t i = nd_u32(); auto r = Holder::opt_make(i); CHK(r.has_value() == (i != 9)); if (r) CHK(*r == color_of(i < 3 ? i : 3)); }
HARNESS(res_out) { uint32_t i = nd_u32(); auto r = Holder::res_make(i); Color *c = std::get_if<Color>(&r); CHK((c != nullptr) == (i != 9)); if (c) CHK(*c == color_of(i < 3 ? i : 3)); }
HARNESS(res_err) { uint32_t i = nd_u32(); auto r = Holder::res_err(i); auto *e = std::get_if<Other>(&r); CHK((e != nullptr) == (i < 3)); if (e) CHK(*e == other_of(i)); else CHK(std::get<uint32_t>(r) == i); }
HARNESS(pair) { uint32_t i = sym(4), j = sym(3); auto r = Holder::pair_swap(std::make_pair(color_of(i), other_of(j))); CHK(r.first == other_of(j)); CHK(r.second == color_of(i)); }
HARNESS(others) { uint32_t j = sym(3); Other o = other_of(j); CHK(Holder::other_code(o) == 11 * (j + 1)); CHK(Holder::other_next(o) == other_of((j + 1) % 3)); uint32_t a = sym(4), b = sym(4); CHK(Holder::two(color_of(a), o, color_of(b)) == 101 * (a + 1) * 1000000 + 101 * (b + 1) * 100 + 11 * (j + 1)); }
HARNESS(object) {
    uint32_t i = sym(4), j = sym(3), k = sym(4);
    Holder h(color_of(i), other_of(j));
    CHK(h.color() == color_of(i)); CHK(h.other() == other_of(j)); CHK(h.is(color_of(k)) == (i == k));
    h.set(color_of(k)); CHK(h.color() == color_of(k)); CHK(h.other() == other_of(j)); CHK(h.is(color_of(i)) == (i == k));
}
struct MyPaint : Paint {
    Color ret; Other oret; int *calls; uint32_t *got; bool *some;
    Color paint(Color c, uint32_t n) const noexcept override { ++*calls; got[0] = code_of(c); got[1] = n; return ret; }
    Other kind(Other o) const noexcept override { ++*calls; got[0] = ocode(o); return oret; }
    void note(std::optional<Color> c) const noexcept override { ++*calls; *some = c.has_value(); got[0] = c ? code_of(*c) : 0; }
};
static std::unique_ptr<MyPaint> mk(int *calls, uint32_t *got, bool *some) { auto p = std::make_unique<MyPaint>(); p->calls = calls; p->got = got; p->some = some; return p; }
HARNESS(cb_paint) {
    int calls = 0; uint32_t got[2] = {0, 0}; bool some = false; uint32_t x = sym(4), n = nd_u32(), r = sym(4);
    auto p = mk(&calls, got, &some); p->ret = color_of(r);
    uint32_t res = Holder::run_paint(std::move(p), x, n);
    CHK(calls == 1); CHK(got[0] == 101 * (x + 1)); CHK(got[1] == n); CHK(res == 101 * (r + 1));
}
HARNESS(cb_kind) {
    int calls = 0; uint32_t got[2] = {0, 0}; bool some = false; uint32_t x = sym(3), r = sym(3);
    auto p = mk(&calls, got, &some); p->oret = other_of(r);
    CHK(Holder::run_kind(std::move(p), (uint8_t)x) == 11 * (r + 1)); CHK(calls == 1); CHK(got[0] == 11 * (x + 1));
}
HARNESS(cb_note) {
    int calls = 0; uint32_t got[2] = {0, 0}; bool some = false; uint32_t x = nd_u32();
    Holder::run_note(mk(&calls, got, &some), x);
    CHK(calls == 1); CHK(some == (x != 9)); if (some) CHK(got[0] == 101 * ((x < 3 ? x : 3) + 1));
}
HARNESS(cb_unknown_aborts) {
    int calls = 0; uint32_t got[2] = {0, 0}; bool some = false; uint32_t raw = nd_u32(); v_assume(!known(raw));
    auto p = mk(&calls, got, &some); p->ret = (Color)raw;
    v_expect_abort(); Holder::run_paint(std::move(p), 0, 0);
}
static const Big bigs[] = { Big::W0, Big::W1, Big::W2, Big::W3, Big::W4, Big::W5, Big::W6, Big::W7, Big::W8, Big::W9, Big::W10, Big::W11, Big::W12, Big::W13, Big::W14, Big::W15, Big::W16, Big::W17, Big::W18, Big::W19, Big::W20, Big::W21, Big::W22, Big::W23, Big::W24, Big::W25, Big::W26, Big::W27, Big::W28, Big::W29, Big::W30, Big::W31, Big::W32, Big::W33, Big::W34, Big::W35, Big::W36, Big::W37, Big::W38, Big::W39, Big::W40, Big::W41, Big::W42, Big::W43, Big::W44, Big::W45, Big::W46, Big::W47, Big::W48, Big::W49, Big::W50, Big::W51, Big::W52, Big::W53, Big::W54, Big::W55, Big::W56, Big::W57, Big::W58, Big::W59, Big::W60, Big::W61, Big::W62, Big::W63, Big::W64, Big::W65, Big::W66, Big::W67, Big::W68, Big::W69, Big::W70, Big::W71, Big::W72, Big::W73, Big::W74, Big::W75, Big::W76, Big::W77, Big::W78, Big::W79, Big::W80, Big::W81, Big::W82, Big::W83, Big::W84, Big::W85, Big::W86, Big::W87, Big::W88, Big::W89, Big::W90, Big::W91, Big::W92, Big::W93, Big::W94, Big::W95, Big::W96, Big::W97, Big::W98, Big::W99, Big::W100, Big::W101, Big::W102, Big::W103, Big::W104, Big::W105, Big::W106, Big::W107, Big::W108, Big::W109, Big::W110, Big::W111, Big::W112, Big::W113, Big::W114, Big::W115, Big::W116, Big::W117, Big::W118, Big::W119, Big::W120, Big::W121, Big::W122, Big::W123, Big::W124, Big::W125, Big::W126, Big::W127, Big::W128, Big::W129, Big::W130, Big::W131, Big::W132, Big::W133, Big::W134, Big::W135, Big::W136, Big::W137, Big::W138, Big::W139, Big::W140, Big::W141, Big::W142, Big::W143, Big::W144, Big::W145, Big::W146, Big::W147, Big::W148, Big::W149, Big::W150, Big::W151, Big::W152, Big::W153, Big::W154, Big::W155, Big::W156, Big::W157, Big::W158, Big::W159, Big::W160, Big::W161, Big::W162, Big::W163, Big::W164, Big::W165, Big::W166, Big::W167, Big::W168, Big::W169, Big::W170, Big::W171, Big::W172, Big::W173, Big::W174, Big::W175, Big::W176, Big::W177, Big::W178, Big::W179, Big::W180, Big::W181, Big::W182, Big::W183, Big::W184, Big::W185, Big::W186, Big::W187, Big::W188, Big::W189, Big::W190, Big::W191, Big::W192, Big::W193, Big::W194, Big::W195, Big::W196, Big::W197, Big::W198, Big::W199, Big::W200, Big::W201, Big::W202, Big::W203, Big::W204, Big::W205, Big::W206, Big::W207, Big::W208, Big::W209, Big::W210, Big::W211, Big::W212, Big::W213, Big::W214, Big::W215, Big::W216, Big::W217, Big::W218, Big::W219, Big::W220, Big::W221, Big::W222, Big::W223, Big::W224, Big::W225, Big::W226, Big::W227, Big::W228, Big::W229, Big::W230, Big::W231, Big::W232, Big::W233, Big::W234, Big::W235, Big::W236, Big::W237, Big::W238, Big::W239, Big::W240, Big::W241, Big::W242, Big::W243, Big::W244, Big::W245, Big::W246, Big::W247, Big::W248, Big::W249, Big::W250, Big::W251, Big::W252, Big::W253, Big::W254, Big::W255, Big::W256, Big::W257, Big::W258, Big::W259, Big::W260, Big::W261, Big::W262, Big::W263, Big::W264, Big::W265, Big::W266, Big::W267, Big::W268, Big::W269, Big::W270, Big::W271, Big::W272, Big::W273, Big::W274, Big::W275, Big::W276, Big::W277, Big::W278, Big::W279, Big::W280, Big::W281, Big::W282, Big::W283, Big::W284, Big::W285, Big::W286, Big::W287, Big::W288, Big::W289, Big::W290, Big::W291, Big::W292, Big::W293, Big::W294, Big::W295, Big::W296, Big::W297, Big::W298, Big::W299 };
HARNESS(big_in) { uint32_t i = nd_pick(300); CHK(Bigs::big_no(bigs[i]) == (i * 7 + 3) % 300); }
HARNESS(big_out) { uint32_t i = nd_pick(300); CHK(Bigs::big_make((i * 7 + 3) % 300) == bigs[i]); }
HARNESS(big_distinct) { uint32_t i = nd_pick(300), j = i + 1 + nd_pick(3); if (j < 300) CHK(bigs[i] != bigs[j]); CHK(Bigs::big_id(bigs[i]) == bigs[i]); }
HARNESS(big_unknown) { uint32_t raw = nd_u32(); for (uint32_t i = 0; i < 300; i++) v_assume(raw != (uint32_t)bigs[i]); v_expect_abort(); Bigs::big_no((Big)raw); }
