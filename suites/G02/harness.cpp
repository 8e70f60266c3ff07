#include "vh.h"
#include <string.h>
struct S { const uint8_t *p; size_t n; };
extern "C" size_t k_unique(const S *names, size_t k, bool owned, S stem, uint8_t *out, size_t cap);
extern "C" size_t k_replace(S src, S from, S first, S other, uint8_t *out, size_t cap);
#ifdef VP_THOROUGH
enum { MORE = 1 };
#else
enum { MORE = 0 };
#endif
static S lit(const char *s) { return S{(const uint8_t *)s, strlen(s)}; }
static bool eq(S a, const uint8_t *p, size_t n) { if (a.n != n) return false; uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= a.p[i] ^ p[i]; return d == 0; }
// ------------------------------------------------------------ fresh names
static void unique(const S *names, size_t k, S stem) {
    uint8_t out[40]; memset(out, 0, sizeof out);
    size_t n = k_unique(names, k, nd_bool(), stem, out, sizeof out);
    CHK(n >= stem.n); CHK(eq(stem, out, stem.n));
    bool free_ = true;
    for (size_t i = 0; i < k; i++) { CHK(!eq(names[i], out, n)); if (eq(names[i], stem.p, stem.n)) free_ = false; }
    if (free_) CHK(n == stem.n);
    for (size_t i = stem.n; i < n; i++) CHK((out[i] >= '0' && out[i] <= '9') || (out[i] >= 'a' && out[i] <= 'z') || (out[i] >= 'A' && out[i] <= 'Z') || out[i] == '_');
}
// every subset of a pool of names that the search may run into
HARNESS(subset) {
    static const char *pool[] = {"a", "a0", "a1", "a2", "a00", "b", "a10", ""};
    S set[8]; size_t k = 0; for (int i = 0; i < 7; i++) if (nd_bool()) set[k++] = lit(pool[i]);
    unique(set, k, lit("a"));
}
HARNESS(stems) { static const char *pool[] = {"ret", "ret0", "ret1", "ret00", "ret01"}; S set[5]; size_t k = 0; for (int i = 0; i < 5; i++) if (nd_bool()) set[k++] = lit(pool[i]); unique(set, k, lit(pool[nd_pick(5)])); }
HARNESS(long_names) { static const char *pool[] = {"a_rather_long_argument_name", "a_rather_long_argument_name0", "a_rather_long_argument_name1"}; S set[3]; size_t k = 0; for (int i = 0; i < 3; i++) if (nd_bool()) set[k++] = lit(pool[i]); unique(set, k, lit(pool[nd_pick(2)])); }
// a stem used so often that the counter gets a second and third digit
HARNESS(crowded) {
    static char buf[130][8]; S set[130]; size_t k = 0; uint32_t m = nd_pick(3), n = m == 0 ? 9 : m == 1 ? 12 : (MORE ? 103 : 14);
    for (uint32_t i = 0; i <= n; i++) { char *b = buf[k]; int l = 0; b[l++] = 'x'; if (i) { uint32_t v = i - 1; if (v >= 100) b[l++] = '0' + v / 100; if (v >= 10) b[l++] = '0' + v / 10 % 10; b[l++] = '0' + v % 10; } set[k].p = (uint8_t *)b; set[k].n = l; k++; }
    unique(set, k, lit("x"));
}
// symbolic characters
HARNESS(symbolic) { uint8_t a[2], b[2]; a[0] = nd_u8(); a[1] = nd_u8(); b[0] = nd_u8(); b[1] = nd_u8(); for (int i = 0; i < 2; i++) { v_assume(a[i] >= 'a' && a[i] <= 'b'); v_assume((b[i] >= 'a' && b[i] <= 'b') || b[i] == '0'); }
    S set[2]; size_t k = nd_pick(3); set[0] = S{a, 1 + nd_pick(2)}; set[1] = S{b, 2}; unique(set, k, S{a, 1 + nd_pick(2)}); }
// ------------------------------------------------------------ placeholder substitution
static void replace(const uint8_t *src, size_t n, const uint8_t *from, size_t m, S first, S other) {
    uint8_t out[64], exp[64]; memset(out, 0, sizeof out); size_t e = 0; bool any = false;
    size_t r = k_replace(S{src, n}, S{from, m}, first, other, out, sizeof out);
    for (size_t i = 0; i < n;) {
        uint8_t d = 1; if (i + m <= n) { d = 0; for (size_t j = 0; j < m; j++) d |= src[i + j] ^ from[j]; }
        if (!d) { S w = any ? other : first; for (size_t j = 0; j < w.n; j++) exp[e++] = w.p[j]; any = true; i += m; } else exp[e++] = src[i++];
    }
    CHK(r == e); CHK(eq(S{exp, e}, out, e));
}
static void ascii(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { p[i] = nd_u8(); v_assume(p[i] < 128); } }
HARNESS(replace1) { uint8_t s[5], f[1]; size_t n = nd_pick(5 + MORE); ascii(s, n); ascii(f, 1); replace(s, n, f, 1, lit("<1>"), lit("")); }
HARNESS(replace2) { uint8_t s[6], f[2]; size_t n = nd_pick(5 + MORE); ascii(s, n); ascii(f, 2); replace(s, n, f, 2, lit(""), lit("<other>")); }
HARNESS(replace3) { uint8_t s[7], f[3]; size_t n = nd_pick(5 + MORE); ascii(s, n); ascii(f, 3); replace(s, n, f, 3, lit("F"), lit("oo")); }
// replacements that contain the placeholder are not substituted again
HARNESS(self) { uint8_t s[4]; size_t n = nd_pick(5); ascii(s, n); uint8_t f[1] = {'$'}; replace(s, n, f, 1, lit("$$"), lit("a$b")); }
static void word(uint8_t *s, size_t &n, const char *w) { for (; *w; w++) s[n++] = *w; }
// real templates: placeholders, their prefixes and text of several bytes per character in every order
HARNESS(templates) {
    uint8_t s[64]; size_t n = 0; uint32_t k = nd_pick(4 + MORE);
    for (uint32_t i = 0; i < k; i++) switch (nd_pick(6)) { case 0: word(s, n, "$p"); break; case 1: word(s, n, "$"); break; case 2: word(s, n, "$out"); break; case 3: word(s, n, "\xc3\xa9"); break; case 4: word(s, n, "p"); break; case 5: word(s, n, "{\xf0\x9f\x98\x80}"); break; }
    const char *f = nd_bool() ? "$p" : "$out"; replace(s, n, (const uint8_t *)f, strlen(f), lit("$out.x"), lit("\xe2\x82\xac"));
}
