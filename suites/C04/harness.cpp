#include "vh.h"
#include "rust_interface/Text.hpp"
#include "rust_interface/S.hpp"
using namespace rust;
#ifdef VP_THOROUGH
enum { MAXLEN = 6, STEPS = 3, NS = 3 };
#else
enum { MAXLEN = 4, STEPS = 3, NS = 2 };
#endif
// a valid UTF-8 text: ASCII bytes (zero included) and optionally one two-byte character at the end
struct In { char b[MAXLEN + 2]; uint32_t n; std::string_view sv() const { return std::string_view(b, n); } };
static In input(uint32_t max = MAXLEN) {
    In r; r.n = nd_pick(max + 1);
    for (uint32_t i = 0; i < r.n; i++) { r.b[i] = (char)nd_u8(); v_assume((unsigned char)r.b[i] < 128); }
    if (r.n >= 2 && nd_bool()) { uint8_t c = nd_u8(); v_assume(c < 64); r.b[r.n - 2] = (char)0xC3; r.b[r.n - 1] = (char)(0x80 | c); }
    return r;
}
static void same(const In &a, std::string_view s) { CHK(s.size() == a.n); for (uint32_t i = 0; i < a.n; i++) CHK(s[i] == a.b[i]); }
static void owned_same(const In &a, const RustString &s) {
    CHK(s.size() == a.n); CHK(s.empty() == (a.n == 0)); same(a, s.to_string_view());
    std::string c = s.to_std_string(); same(a, c);
}
HARNESS(in_view) { In a = input(); CHK(S::len(a.sv()) == a.n); for (uint32_t i = 0; i < a.n; i++) CHK(S::byte(a.sv(), i) == (uint8_t)a.b[i]); CHK(S::path_len(a.sv()) == a.n); }
HARNESS(null_view) { CHK(S::len(std::string_view()) == 0); }
HARNESS(in_opt) { In a = input(2); bool some = nd_bool(); std::optional<std::string_view> o; if (some) o = a.sv(); CHK(S::is_some(o) == some); CHK(S::opt_len(o) == (some ? a.n + 1 : 0)); }
HARNESS(in_three) { In a = input(2), b = input(3), c = input(2); uint32_t n = nd_u32(); CHK(S::three(a.sv(), n, b.sv(), c.sv()) == (((uint64_t)a.n << 48) | ((uint64_t)b.n << 40) | ((uint64_t)c.n << 32) | n)); }
HARNESS(object) {
    In a = input();
    Text t(a.sv()); CHK(t.len() == a.n); same(a, t.view()); owned_same(a, t.owned()); CHK(t.same(a.sv()));
    for (uint32_t i = 0; i < a.n; i++) CHK(t.byte(i) == (uint8_t)a.b[i]);
    auto o = t.opt_view(true); CHK(o.has_value()); same(a, *o); CHK(!t.opt_view(false).has_value());
}
HARNESS(setters) {
    In a = input(2), b = input(3); Text t(a.sv()); same(a, t.view());
    switch (nd_pick(4)) {
    case 0: t.set(b.sv()); break;
    case 1: t.set_owned(b.sv()); break;
    case 2: t.set_path(b.sv()); break;
    default: { Text u = Text::from_owned(b.sv()); t = std::move(u); }
    }
    same(b, t.view()); CHK(t.len() == b.n);
}
HARNESS(tail) { In a; a.n = nd_pick(MAXLEN + 1); for (uint32_t i = 0; i < a.n; i++) { a.b[i] = (char)nd_u8(); v_assume((unsigned char)a.b[i] < 128); } Text t(a.sv()); uint32_t k = nd_pick(a.n + 1); auto s = t.tail(k); CHK(s.size() == a.n - k); for (uint32_t i = k; i < a.n; i++) CHK(s[i - k] == a.b[i]); }
HARNESS(cat) { In a = input(3), b = input(2); auto r = S::cat(a.sv(), b.sv()); CHK(r.size() == a.n + b.n); auto v = r.to_string_view(); for (uint32_t i = 0; i < a.n; i++) CHK(v[i] == a.b[i]); for (uint32_t i = 0; i < b.n; i++) CHK(v[a.n + i] == b.b[i]); }
HARNESS(id) { In a = input(); owned_same(a, S::id(a.sv())); }
HARNESS(stat) { CHK(S::stat(0).size() == 0); CHK(S::stat(1) == std::string_view("x", 1)); CHK(S::stat(2) == std::string_view("longer text", 11)); }
HARNESS(capacity) { uint32_t e = nd_pick(5); uint8_t c = nd_u8(); auto r = S::with_cap(e, c); CHK(r.size() == (c != 0 ? 1u : 0u)); if (c) CHK(r.to_string_view()[0] == (char)(c & 127)); if (nd_bool()) { auto q = r; CHK(q.size() == r.size()); auto z = std::move(r); CHK(r.size() == 0); CHK(z.size() == q.size()); } }
HARNESS(dflt) { RustString a; CHK(a.size() == 0); CHK(a.empty()); CHK(a.to_string_view().size() == 0); RustString b(a); CHK(b.empty()); RustString c(std::move(a)); CHK(c.empty()); b = c; CHK(b.empty()); b = std::move(c); CHK(b.empty()); CHK(b.to_std_string().empty()); }
// every sequence of operations on three string objects
HARNESS(history) {
    RustString s[3] = {RustString(), S::spare(2), S::spare(0)};
    uint32_t len[3] = {0, 2, 0};
    for (int step = 0; step < STEPS; step++) {
        uint32_t i = nd_pick(NS), j = nd_pick(NS);
        switch (nd_pick(5)) {
        case 0: s[i] = s[j]; len[i] = len[j]; break;                       // copy assign (also self)
        case 1: if (i == j) continue; s[i] = std::move(s[j]); len[i] = len[j]; len[j] = 0; break;
        case 2: { RustString c(s[i]); CHK(c.size() == len[i]); if (i != j) { s[j] = std::move(c); len[j] = len[i]; CHK(c.size() == 0); } break; }
        case 3: { RustString c(std::move(s[i])); CHK(c.size() == len[i]); CHK(s[i].empty()); len[i] = 0; if (i != j) { s[j] = c; len[j] = (uint32_t)c.size(); } break; }
        case 4: s[i] = S::spare(j + 1); len[i] = j + 1; break;
        }
        for (int k = 0; k < NS; k++) { CHK(s[k].size() == len[k]); auto v = s[k].to_string_view(); for (uint32_t q = 0; q < len[k]; q++) CHK(v[q] == 'a' + (char)q); }
    }
}
// texts far longer than in the other scenarios, multi-byte characters around every power of two
HARNESS(huge) {
    static const uint32_t N[] = {23, 64, 255, 257, 1030}; uint32_t n = N[nd_pick(5)], at = nd_pick(3); uint8_t c = nd_u8(); v_assume(c < 64); static char b[1100];
    for (uint32_t i = 0; i < n; i++) b[i] = (char)('a' + i % 26);
    at = at == 0 ? 0 : at == 1 ? n / 2 : n - 2; b[at] = (char)0xC3; b[at + 1] = (char)(0x80 | c);
    std::string_view a(b, n);
    CHK(S::len(a) == n); CHK(S::byte(a, at + 1) == (uint8_t)b[at + 1]);
    Text t(a); CHK(t.len() == n); CHK(t.same(a));
    { auto v = t.view(); CHK(v.size() == n); for (uint32_t i = 0; i < n; i++) CHK(v[i] == b[i]); }
    auto o = t.owned(); RustString p(o); o = p; RustString q(std::move(p));
    for (auto r : {&o, &q}) { CHK(r->size() == n); auto s = r->to_std_string(); CHK(s.size() == n); for (uint32_t i = 0; i < n; i++) CHK(s[i] == b[i]); }
    auto id = S::id(a); CHK(id.size() == n && id.to_string_view()[at + 1] == b[at + 1]);
}
HARNESS(any_length) { static char b[4096]; uint64_t n = nd_u64(); v_assume(n <= 4096); CHK(S::len(std::string_view(b, n)) == n); CHK(S::opt_len(std::string_view(b, n)) == n + 1); }
