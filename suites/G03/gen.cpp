// The whole generator twice on one interface, without and with documentation at a symbolic place.
#include "G05/dir.h"
extern "C" int k_expand(uint8_t lang, const uint8_t *a, size_t na, const uint8_t *b, size_t nb);
#ifdef VP_THOROUGH
enum { MORE = 1 };
#else
enum { MORE = 0 };
#endif
enum { NP = 10, NT = 6 };
// the documented things of the three kinds of items: [first, first + count)
static const int FIRST[3] = {0, 4, 7}, COUNT[3] = {4, 3, 3};
static const char *HEAD[3] = {"foreign_class!(", "foreign_enum!(", "foreign_callback!("};
static const char *P[NP] = {"class Kl { self_type K;", "constructor new() -> K {}", "fn a::f();", "fn K::g(&self); });", "enum En {", "A = X::A,", "B = X::B, });", "callback Cb { self_type T;", "on = T::on(&self);", "off = T::off(&self); });"};
// which name the documentation at place p precedes, and where
static const char *F[2][3] = {{"Kl.hpp", "En.hpp", "Cb.hpp"}, {"Kl.java", "En.java", "Cb.java"}};
static const int FI[NP] = {0, 0, 0, 0, 1, 1, 1, 2, 2, 2};
static const char *OWN[2][NP] = {{"KlWrapper", "KlWrapper", "f", "g", "En", "A", "B", "Cb", "on", "off"}, {"Kl", "Kl", "f", "g", "En", "A", "B", "Cb", "on", "off"}};
static const char *T[NT] = {"/// Word here\n", "/** Word here\n  tail words */", "#[doc = \"Word \\\\\"]", "#[doc = \"Word\\n\\ntail words\"]", "/// Word */ int f(); /*\n/// tail words\n", "/// \\u002a/ Word ? \\u\n"};
static bool idc(uint8_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
struct Line { const uint8_t *p; size_t n; };
// the lines of a file that are neither comments nor blank
struct Lines {
    const File *f; int java; size_t at; bool word, block, tail;
    void start(const File *file, int lang) { f = file; java = lang; at = 0; word = block = tail = false; }
    bool next(Line &o) {
        while (at < f->len) {
            const uint8_t *s = f->data + at, *e = (const uint8_t *)memchr(s, '\n', f->len - at); if (!e) e = f->data + f->len;
            at = (size_t)(e - f->data) + 1;
            while (s < e && *s == ' ') s++;
            size_t n = (size_t)(e - s);
            if (n == 0) continue;
            bool cm = block;
            if (!block && n > 1 && s[0] == '/' && s[1] == '/') cm = true;
            if (!block && n > 1 && s[0] == '/' && s[1] == '*') { cm = block = true; for (size_t k = 2; k + 2 < n; k++) if (s[k] == '*' && s[k + 1] == '/') cm = block = false; }   // code after a comment: /*package*/ T()
            if (!cm) { o.p = s; o.n = n; return true; }
            for (size_t k = 0; k + 4 <= n; k++) if (s[k] == 'W' && memcmp(s + k, "Word", 4) == 0) word = true; else if (s[k] == 't' && memcmp(s + k, "tail", 4) == 0) tail = true;
            if (block) for (size_t k = 0; k + 2 <= n; k++) if (s[k] == '*' && s[k + 1] == '/') { CHK(k + 2 == n); block = false; }
        }
        CHK(!block); return false;
    }
};
static void source(int kind, int place, const char *text, bool others) {
    len[0] = 0; put(0, HEAD[kind]);
    for (int i = FIRST[kind]; i < FIRST[kind] + COUNT[kind]; i++) { if (i == place) put(0, text); else if (others) put(0, "/// other \\\n"); put(0, P[i]); }
}
static File base[NF]; static char keep[NF][40]; static int nbase;
static void run(int lang, int kind, int first, int count) {
    v_allow_leak();
    int place = FIRST[kind] + first + (count > 1 ? (int)nd_pick(count) : 0); int t = MORE ? (int)nd_pick(NT) : ((int)nd_pick(2) * 3 + place) % NT; bool others = MORE ? nd_bool() : t % 2 == place / 2 % 2;
    source(kind, -1, "", false);
    CHK(k_expand((uint8_t)lang, (const uint8_t *)src[0], len[0], 0, 0) == 0);
    nbase = nf;
    for (int i = 0; i < nf; i++) {
        memcpy(keep[i], files[i].name, strlen(files[i].name) + 1); base[i].name = keep[i]; base[i].len = files[i].len; base[i].there = files[i].there; memcpy(base[i].data, files[i].data, files[i].len);
        files[i].name = 0; files[i].there = files[i].was = files[i].dir = files[i].listed = false; files[i].writes = files[i].opens_w = 0; files[i].len = 0;
    }
    nf = 0;
    source(kind, place, T[t], others);
    CHK(k_expand((uint8_t)lang, (const uint8_t *)src[0], len[0], 0, 0) == 0);
    CHK(nf == nbase);
    for (int i = 0; i < nbase; i++) {
        File *f = file(base[i].name); CHK(f != 0); CHK(f->there && base[i].there);
        if (is(f->name, "out.rs")) { CHK(f->len == base[i].len && memcmp(f->data, base[i].data, f->len) == 0); continue; }
        Lines a, b; a.start(&base[i], lang); b.start(f, lang);
        Line x, y; const char *own = 0; bool mine = is(f->name, F[lang][FI[place]]);
        for (;;) {
            bool m = a.next(x), n = b.next(y);
            CHK(m == n); if (!m || !n) break;
            CHK(x.n == y.n && memcmp(x.p, y.p, x.n) == 0);          // only comments differ
            // the words belong to the right item: it is the first of the documented names after them
            for (size_t k = 0; mine && b.word && !own && k < y.n;) {
                if (!idc(y.p[k])) { k++; continue; }
                size_t e = k; while (e < y.n && idc(y.p[e])) e++;
                for (int j = FIRST[kind]; j < FIRST[kind] + COUNT[kind]; j++) if (strlen(OWN[lang][j]) == e - k && memcmp(OWN[lang][j], y.p + k, e - k) == 0) own = OWN[lang][j];
                k = e;
            }
        }
        CHK(!a.word && !a.tail);
        if (mine) { CHK(b.word); CHK(b.tail == (t == 1 || t == 3 || t == 4)); CHK(own && is(own, OWN[lang][place])); }
    }
}
HARNESS(gen_cpp_class1) { run(0, 0, 0, 2); }
HARNESS(gen_cpp_class2) { run(0, 0, 2, 2); }
HARNESS(gen_cpp_enum) { run(0, 1, 0, 3); }
HARNESS(gen_cpp_callback) { run(0, 2, 0, 3); }
HARNESS(gen_java_class1) { run(1, 0, 0, 2); }
HARNESS(gen_java_class2) { run(1, 0, 2, 2); }
HARNESS(gen_java_enum) { run(1, 1, 0, 3); }
HARNESS(gen_java_callback) { run(1, 2, 0, 3); }
