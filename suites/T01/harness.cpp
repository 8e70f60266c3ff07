#include "vh.h"
#include "rt_kern.h"
extern "C" size_t k_paths(const uint8_t *adj, uint32_t from, uint32_t to, uint8_t *out, size_t cap);
extern "C" uint32_t k_foreign(const uint8_t *adj, bool incoming, const uint8_t *has);
extern "C" size_t k_generic(const uint8_t *rules, const uint8_t *marks, uint32_t q, uint8_t *out, size_t cap);
extern "C" uint32_t k_unify(const uint8_t *pat, const uint8_t *target);
#ifdef VP_THOROUGH
enum { MORE = 1 };
#else
enum { MORE = 0 };
#endif
enum { NONE = 99 };
// ------------------------------------------------------------ oracle: distances in the rule graph
static int dist(const uint8_t *adj, int from, int to) {
    int d[4]; for (int i = 0; i < 4; i++) d[i] = NONE; d[from] = 0;
    for (int r = 0; r < 4; r++) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (adj[i * 4 + j] && d[i] + 1 < d[j]) d[j] = d[i] + 1;
    return d[to];
}
// the generated code is a chain of existing rules from `from` to `to`; returns the number of rules
static int chain(const uint8_t *adj, const uint8_t *out, size_t n, int from, int to) {
    int cur = from, steps = 0;
    static const char pre1[] = "    y x ", pre2[] = "    y y ";
    size_t i = 0;
    while (i < n) {
        const char *p = steps ? pre2 : pre1;
        for (size_t k = 0; p[k]; k++, i++) CHK(i < n && out[i] == (uint8_t)p[k]);
        CHK(i + 4 <= n); int a = out[i] - 'A', b = out[i + 1] - 'A'; CHK(a == cur); CHK(b >= 0 && b < 4); CHK(adj[a * 4 + b]); CHK(out[i + 2] == ';' && out[i + 3] == '\n'); i += 4; cur = b; steps++;
    }
    CHK(cur == to); return steps;
}
static void paths(const uint8_t *adj, int from, int to) {
    v_allow_leak();
    uint8_t out[256]; int d = dist(adj, from, to);
    size_t n = k_paths(adj, from, to, out, sizeof out);
    if (d == NONE) { CHK(n == (size_t)-1); return; }
    CHK(n != (size_t)-1); CHK(chain(adj, out, n, from, to) == d);
}
HARNESS(chain3) { uint8_t adj[16] = {0}; static const int e[] = {1, 6, 11, 2, 7, 3, 9}; for (int i = 0; i < 7; i++) adj[e[i]] = nd_bool(); paths(adj, 0, 3); }
HARNESS(back_edges) { uint8_t adj[16] = {0}; static const int e[] = {1, 6, 11, 4, 9, 14, 8}; for (int i = 0; i < 7; i++) adj[e[i]] = nd_bool(); paths(adj, nd_bool() ? 0 : 1, 3); }
static void foreign(bool in) { v_allow_leak();
    uint8_t adj[16] = {0}, has[4] = {0}; static const int e[] = {1, 6, 11, 2, 3}; for (int i = 0; i < 5; i++) { int a = e[i] / 4, b = e[i] % 4; adj[in ? b * 4 + a : a * 4 + b] = nd_bool(); }
    for (int i = 1; i < 4; i++) has[i] = nd_bool();
    uint32_t f = k_foreign(adj, in, has); CHK(f < 4);
    int best = NONE, arg = 0; for (int i = 1; i < 4; i++) if (has[i]) { int d = in ? dist(adj, i, 0) : dist(adj, 0, i); if (d < best) { best = d; arg = i; } }
    if (best == NONE) CHK(f == 0); else { CHK(f != 0); CHK(has[f]); CHK((in ? dist(adj, f, 0) : dist(adj, 0, f)) == best); CHK(f == (uint32_t)arg); }
}
HARNESS(foreign_out) { foreign(false); }
HARNESS(foreign_in) { foreign(true); }
static bool same(const uint8_t *o, size_t n, const char *s) { size_t i = 0; for (; s[i]; i++) if (i >= n || o[i] != (uint8_t)s[i]) return false; return i == n; }
static void generic(uint32_t q) { v_allow_leak();
    uint8_t rules[4], marks[4] = {0}, out[256]; for (int i = 0; i < 4; i++) rules[i] = nd_bool(); marks[q * 2] = nd_bool(); marks[q * 2 + 1] = nd_bool(); marks[2 - q * 2] = marks[3 - q * 2] = nd_bool();
    size_t n = k_generic(rules, marks, q, out, sizeof out);
    bool direct = rules[0] && q == 0 && rules[3], via = rules[0] && rules[1] && rules[2] && marks[q * 2] && marks[q * 2 + 1];
    if (direct) CHK(same(out, n, "    y x deref;\n    y y direct;\n"));
    else if (via) CHK(same(out, n, "    y x deref;\n    y y hold;\n    y y fin;\n"));
    else CHK(n == (size_t)-1);
}
HARNESS(generic_foo) { generic(0); }
HARNESS(generic_bar) { generic(1); }
extern "C" uint32_t k_build(const uint8_t *has, bool rev, bool cls);
static void build(bool rev) { v_allow_leak();
    uint8_t has[4]; for (int i = 0; i < 4; i++) has[i] = nd_bool(); bool cls = nd_bool();
    if (!(has[2] || has[3] || (cls && (has[0] || has[1])))) return;   // no target in reach: exhaustive search, see generic_*
    uint32_t f = k_build(has, rev, cls), want = 0; int best = NONE;
    for (int k = 0; k < 4; k++) { int i = rev ? 3 - k : k; if (!has[i] || (i < 2 && !cls)) continue; int d = i == 0 ? 2 : 1; if (d < best) { best = d; want = i + 1; } }
    CHK(f == want);
}
HARNESS(build) { build(false); }
HARNESS(build_rev) { build(true); }
// ------------------------------------------------------------ matching a rule's pattern
static bool leaf(uint8_t p, uint8_t t, int *bound) { if (p != 0) return p == t; if (*bound != -1) return *bound == t; *bound = t; return true; }
static void unify(int lo, int n) { v_allow_leak();
    uint8_t p[3], t[3]; p[0] = lo + nd_pick(n); t[0] = nd_pick(11);
    for (int i = 1; i < 3; i++) { p[i] = p[0] < 3 ? 0 : i == 2 && p[0] != 7 && p[0] != 8 ? 0 : nd_pick(3); t[i] = t[0] < 3 ? 0 : i == 2 && t[0] != 7 && t[0] != 8 ? 0 : nd_pick(3); }
    if (p[0] > 2 && t[0] > 2 && p[0] != t[0]) { p[1] = p[2] = 0; t[1] = t[2] = 1; }
    uint32_t r = k_unify(p, t);
    CHK(r != 2);   // a rule that matches is an instance of its pattern
    bool two = p[0] == 7 || p[0] == 8, twice = two && p[1] == 0 && p[2] == 0, inst;
    int b = -1;
    if (p[0] == 0) inst = true; else if (p[0] != t[0]) inst = false; else inst = p[0] < 3 || (leaf(p[1], t[1], &b) && (!two || leaf(p[2], t[2], &b)));
    if (!inst) CHK(r == 0); else if (!twice) CHK(r == 1);
}
HARNESS(unify_leaf) { unify(0, 3); }
HARNESS(unify_ref) { unify(3, 2); }
HARNESS(unify_path) { unify(5, 2); }
HARNESS(unify_tuple) { unify(7, 1); }
HARNESS(unify_pair) { unify(8, 1); }
HARNESS(unify_slice) { unify(9, 2); }
