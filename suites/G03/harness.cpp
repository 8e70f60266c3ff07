#include "vh.h"
#include <string.h>
struct S { const uint8_t *p; size_t n; };
extern "C" size_t k_c_doc(const S *t, size_t k, bool cls, uint8_t *out, size_t cap);
extern "C" size_t k_java_doc(const S *t, size_t k, bool cls, uint8_t *out, size_t cap);
#ifdef VP_THOROUGH
enum { MORE = 1 };
#else
enum { MORE = 0 };
#endif
// ------------------------------------------------------------ oracles
// after line splicing (backslash or ??/, then blanks, then the line end) every line is a // comment, and the text that follows the comment stays on its own line
static void c_comment(const uint8_t *o, size_t n) {
    size_t i = 0;
    while (i <= n) {
        while (i < n && o[i] == ' ') i++;
        CHK(i + 2 <= n && o[i] == '/' && o[i + 1] == '/'); i += 2;
        size_t e = i; while (e < n && o[e] != '\n') { CHK(o[e] != '\r'); e++; }
        size_t b = e; while (b > i && (o[b - 1] == ' ' || o[b - 1] == '\t' || o[b - 1] == '\v' || o[b - 1] == '\f' || o[b - 1] == 0)) b--;
        CHK(!(b > i && o[b - 1] == '\\')); CHK(!(b >= i + 3 && o[b - 1] == '/' && o[b - 2] == '?' && o[b - 3] == '?'));
        i = e + 1;
    }
}
static int hex(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// after the translation of \uXXXX the text is exactly one block comment
static void java_comment(const uint8_t *o, size_t n) {
    uint8_t t[256]; size_t m = 0;
    for (size_t i = 0; i < n;) {
        if (o[i] != '\\') { t[m++] = o[i++]; continue; }
        if (i + 1 < n && o[i + 1] == '\\') { t[m++] = '\\'; t[m++] = '\\'; i += 2; continue; }
        if (i + 1 < n && o[i + 1] == 'u') {
            size_t j = i + 1; while (j < n && o[j] == 'u') j++;
            unsigned v = 0; for (int k = 0; k < 4; k++, j++) { int h = j < n ? hex(o[j]) : -1; CHK(h >= 0); if (h < 0) return; v = v * 16 + h; }
            t[m++] = v < 0x80 ? (uint8_t)v : '?'; i = j; continue;
        }
        t[m++] = o[i++];
    }
    size_t i = 0; while (i < m && t[i] == ' ') i++;
    CHK(i + 5 <= m && t[i] == '/' && t[i + 1] == '*' && t[i + 2] == '*'); CHK(t[m - 1] == '/' && t[m - 2] == '*');
    for (size_t j = i + 2; j + 2 < m; j++) CHK(!(t[j] == '*' && t[j + 1] == '/'));
}
static void check(const S *t, size_t k, bool java) {
    uint8_t out[256]; bool cls = nd_bool();
    size_t n = java ? k_java_doc(t, k, cls, out, sizeof out) : k_c_doc(t, k, cls, out, sizeof out);
    if (k == 0) { CHK(n == 0); return; }
    if (java) java_comment(out, n); else c_comment(out, n);
}
enum { L = MORE ? 4 : 3 };
static void symbolic(bool java) { uint8_t a[L]; size_t n = nd_pick(L + 1); for (size_t i = 0; i < n; i++) { a[i] = nd_u8(); v_assume(a[i] < 0x80); } S t = {a, n}; check(&t, 1, java); }
// sequences of the pieces that mean something to one of the languages
static const char *PIECES[] = {"\\", "\n", "*", "/", "u002a", "??", "x", " ", "\xc3\xbc"};
static size_t pieces(uint8_t *b, int k) { size_t n = 0; for (int i = 0; i < k; i++) { const char *p = PIECES[nd_pick(9)]; size_t l = strlen(p); memcpy(b + n, p, l); n += l; } return n; }
static void mixed(bool java) { uint8_t b[32]; size_t n = pieces(b, MORE ? 5 : 4); S t = {b, n}; check(&t, 1, java); }
static void several(bool java) { uint8_t b[3][16]; S t[3]; size_t k = nd_pick(4); for (size_t i = 0; i < k; i++) { t[i].p = b[i]; t[i].n = pieces(b[i], i == 1 ? 1 : 1 + MORE); } check(t, k, java); }
HARNESS(c_text) { symbolic(false); }
HARNESS(java_text) { symbolic(true); }
HARNESS(c_pieces) { mixed(false); }
HARNESS(java_pieces) { mixed(true); }
HARNESS(c_several) { several(false); }
HARNESS(java_several) { several(true); }
// longer fixed texts
static void fixed(bool java) {
    static const char *T[] = {"first line\n second line\\\n third", "path C:\\users\\u\\", "glob /*/ **/ /* *\\u002f \\u002a/", "a\\\r\n b\r c", "x ??/\n y", "\n\n", "\\\\u0041 \\\\\\u0042", "// \\ // \\"};
    const char *p = T[nd_pick(8)], *q = T[nd_pick(8)]; S t[2] = {{(const uint8_t *)p, strlen(p)}, {(const uint8_t *)q, strlen(q)}}; check(t, 1 + nd_pick(2), java); }
HARNESS(c_fixed) { fixed(false); }
HARNESS(java_fixed) { fixed(true); }
