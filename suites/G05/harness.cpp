// The whole generator on interfaces put together from symbolic choices; the directory is modelled as in G04.
#include "G05/dir.h"
extern "C" { int k_expand(uint8_t lang, bool handlers, const uint8_t *a, size_t na, const uint8_t *b, size_t nb); uint32_t k_calls(); uint32_t k_short(); }
static int go(int lang, bool handlers) { v_allow_leak(); return k_expand((uint8_t)lang, handlers, (const uint8_t *)src[0], len[0], (const uint8_t *)src[1], len[1]); }
static int marks() { int c = 0; for (int i = 0; i < nf; i++) c += count(&files[i], "\n//:"); return c; }
// the marks of an item come after the whole generated text
static void at_end(const File *f, int n) { size_t i = 0; while (i < f->len && !at_(f, i, "\n//:")) i++; int c = 0; while (i < f->len) { CHK(at_(f, i, "\n//:")); i += 4; while (i < f->len && f->data[i] != ';') i++; i++; c++; } CHK(c == n); CHK(i == f->len); }
static void nothing_written() { CHK(file("out.rs") == 0); }
static void derives(const char *const *names, int a, int b) { if (a || b) { put(0, "#[derive("); if (a) put(0, names[a]); if (a && b) put(0, ", "); if (b) put(0, names[b]); put(0, ")]"); } }
static void class_run(int lang) {
    static const char *D[] = {"", "Ka", "Clone", "Kz", "Kb"};
    int a = (int)nd_pick(4), b = (int)nd_pick(5); bool handlers = a == 1 || b == 1 || b == 4 ? true : lang ? false : nd_bool();
    put(0, "foreign_class!("); derives(D, a, b); put(0, "class Kl { fn a::f(); });");
    if (!lang && nd_bool()) { put(1, "foreign_class!(class Other { fn a::g(); });"); }
    int r = go(lang, handlers);
    CHK(k_short() == 0);
    if (a == 3 || b == 3) { CHK(r == 1); nothing_written(); return; }
    CHK(r == 0); File *f = file(lang ? "Kl.java" : "Kl.hpp"); CHK(f != 0);
    int na = (a == 1) + (b == 1), nb = b == 4;
    CHK(count(f, "\n//:Ka:Kl;") == na); CHK(count(f, "\n//:Kb:Kl;") == nb); at_end(f, na + nb);
    CHK((int)k_calls() == na + nb); CHK(marks() == na + nb); CHK(file("out.rs") != 0);
}
HARNESS(cpp_class) { class_run(0); }
HARNESS(java_class) { class_run(1); }
static void method_run(int lang, bool three) {
    static const char *A[] = {"", "#[Ma]", "#[Mb]", "#[Mz]", "#[Ma] #[Mb]"};
    int x = (int)nd_pick(5), y = (int)nd_pick(3), z = three ? (int)nd_pick(3) : 0;
    put(0, "foreign_class!(class Kl { self_type K; constructor new() -> K {}"); put(0, A[x]); put(0, "fn a::f();"); put(0, A[y]); put(0, "fn K::g(&self);");
    if (three) { put(0, A[z]); put(0, "fn a::h(); alias hh;"); } put(0, "});");
    int r = go(lang, true);
    if (x == 3) { CHK(r == 1); nothing_written(); return; }
    CHK(r == 0); File *f = file(lang ? "Kl.java" : "Kl.hpp"); CHK(f != 0); CHK(k_short() == 0);
    CHK(count(f, "\n//:Ma:Kl:f:S;") == (x == 1 || x == 4)); CHK(count(f, "\n//:Mb:Kl:f:S;") == (x == 2 || x == 4));
    CHK(count(f, "\n//:Ma:Kl:g:M;") == (y == 1)); CHK(count(f, "\n//:Mb:Kl:g:M;") == (y == 2));
    CHK(count(f, "\n//:Ma:Kl:hh:S;") == (z == 1)); CHK(count(f, "\n//:Mb:Kl:hh:S;") == (z == 2));
    int n = (x ? 1 : 0) + (x == 4) + (y ? 1 : 0) + (z ? 1 : 0);
    CHK((int)k_calls() == n); CHK(marks() == n); at_end(f, n);
}
HARNESS(cpp_methods) { method_run(0, false); }
HARNESS(java_methods) { method_run(1, false); }
static void enum_run(int lang) {
    static const char *D[] = {"", "Ea", "Ez", "Eb"};
    int a = (int)nd_pick(3), b = (int)nd_pick(4);
    put(0, "foreign_enum!("); derives(D, a, b); put(0, "enum En { A = X::A, B = X::B, });");
    bool more = !lang && nd_bool(); if (more) put(0, "foreign_enum!(#[derive(Eb)] enum E2 { A = Y::A, });");
    int r = go(lang, true);
    CHK(k_short() == 0);
    if (a == 2 || b == 2) { CHK(r == 1); nothing_written(); return; }
    CHK(r == 0); int na = (a == 1) + (b == 1), nb = b == 3, total = 0;
    static const char *F[2][2] = {{"En.hpp", "c_En.h"}, {"En.java", 0}}, *G[2][2] = {{"E2.hpp", "c_E2.h"}, {"E2.java", 0}};
    for (int i = 0; i < 2 && F[lang][i]; i++) { File *f = file(F[lang][i]); CHK(f != 0); CHK(count(f, "\n//:Ea:En;") == na); CHK(count(f, "\n//:Eb:En;") == nb); at_end(f, na + nb); total += na + nb;
        if (more) { File *g = file(G[lang][i]); CHK(g != 0); CHK(count(g, "\n//:Eb:E2;") == 1); at_end(g, 1); total++; } }
    CHK((int)k_calls() == total); CHK(marks() == total);
}
HARNESS(cpp_enum) { enum_run(0); }
HARNESS(java_enum) { enum_run(1); }
// Python has no text to edit: with a callback registered every class or enum is refused
HARNESS(python) { bool e = nd_bool(); put(0, e ? "foreign_enum!(enum En { A = X::A, });" : "foreign_class!(class Kl { fn a::f(); });"); bool h = nd_bool(); int r = go(2, h); CHK(r == (h ? 1 : 0)); CHK(k_calls() == 0); }
// everything that is not flapigen's stays as it is
static bool squeeze_has(const File *f, const char *t) {
    static char a[24000]; size_t n = 0; for (size_t i = 0; i < f->len; i++) if (f->data[i] != ' ' && f->data[i] != '\n') a[n++] = (char)f->data[i];
    static char b[3000]; size_t m = 0; for (size_t i = 0; t[i]; i++) if (t[i] != ' ') b[m++] = t[i];
    if (m == 0) return true; for (size_t i = 0; i + m <= n; i++) if (a[i] == b[0] && memcmp(a + i, b, m) == 0) return true; return false;
}
static void pass_run(int lang, int n0, int n1) {
    static const char *T[] = {"fn %(x: u8) -> u8 { x + 1 }", "use a::%;", "my_macro!(%, 1);", "x::foreign_class!(class % {});", "#[cfg(a)] pub mod % { foreign_class!(class Z {}); }", "impl T for % { const C: &'static str = \"a b\"; }",
        "foreign_class!(class % { fn a::f(); });", "foreign_enum!(enum % { A = X::A, });"};
    static char want[3000]; size_t w = 0; int gen = 0;
    for (int i = 0; i < n0 + n1; i++) { int k = (int)nd_pick(i ? 6 : 8); if (k >= 6) gen++; char t[200]; size_t m = 0; for (const char *p = T[k]; *p; p++) { if (*p == '%') { t[m++] = 'N'; t[m++] = (char)('a' + i); } else t[m++] = *p; } t[m] = 0; put(i < n0 ? 0 : 1, t); if (k < 6) { memcpy(want + w, t, m); w += m; } }
    want[w] = 0;
    CHK(go(lang, false) == 0); File *o = file("out.rs"); CHK(o != 0); CHK(squeeze_has(o, want)); CHK(o->opens_w == 1);
    if (gen) CHK(file(lang ? "Na.java" : "Na.hpp") != 0);
}
HARNESS(cpp_pass) { pass_run(0, 2, 0); }
HARNESS(cpp_pass2) { pass_run(0, 1, 1); }
HARNESS(java_pass) { pass_run(1, 1, 0); }
