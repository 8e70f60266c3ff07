// Native replay runtime: feeds recorded inputs, reports assertion results, observations and live heap blocks.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <new>
#include "vh.h"
static const char *names[4096]; static void (*fns[4096])(); static int nreg;
VpReg::VpReg(const char *n, void (*f)()) { names[nreg] = n; fns[nreg++] = f; }
static unsigned long long in_[4096]; static int nin, pos;
static unsigned long long next(void) { if (pos >= nin) { printf("INPUT-UNDERRUN\n"); fflush(stdout); _exit(45); } return in_[pos++]; }
struct Blk { void *p; size_t n, a; int kind; };
static Blk blk[1 << 16]; static long live; static int nblk;
static void die(const char *m) { printf("ALLOC-ERR %s\n", m); fflush(stdout); _exit(42); }
static void *get(size_t n, size_t a, int kind) {
    void *p = a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1);
    if (nblk >= (1 << 16)) die("too many blocks");
    int i = 0; for (; i < nblk; i++) if (!blk[i].p) break;
    if (i == nblk) nblk++;
    blk[i] = Blk{p, n, a, kind}; live++; return p; }
static void put(void *p, size_t n, size_t a, int kind, bool sized) {
    for (int i = 0; i < nblk; i++) if (blk[i].p == p) {
        if (blk[i].kind != kind) die("block freed by the wrong allocator");
        if (sized && blk[i].n != n) die("block freed with the wrong size");
        if (sized && kind == 0 && blk[i].a != a) die("block freed with the wrong alignment");
        blk[i].p = 0; live--; free(p); return; }
    die("free of an unknown block (double or invalid free)"); }
extern "C" {
uint8_t nd_u8() { return next(); }
uint16_t nd_u16() { return next(); }
uint32_t nd_u32() { return next(); }
uint64_t nd_u64() { return next(); }
bool nd_bool() { return next() != 0; }
uint32_t nd_pick(uint32_t) { return next(); }
uint32_t nd_f32() { return next(); }
uint64_t nd_f64() { return next(); }
void v_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(46); } }
void v_chk(int c, const char *l) { if (!c) { printf("CHK-FAIL %s\n", l); fflush(stdout); _exit(41); } }
void v_obs(uint64_t x) { printf("OBS %llu\n", (unsigned long long)x); fflush(stdout); }
void v_expect_abort() { printf("EXPECT-ABORT\n"); fflush(stdout); }
void v_allow_leak() { printf("ALLOW-LEAK\n"); }
uint64_t v_live() { return live; }
void *vp_ralloc(size_t n, size_t a) { return get(n, a, 0); }
void vp_rdealloc(void *p, size_t n, size_t a) { put(p, n, a, 0, true); }
}
void *operator new(size_t n) { return get(n, 16, 1); }
void *operator new[](size_t n) { return get(n, 16, 2); }
void operator delete(void *p) noexcept { if (p) put(p, 0, 0, 1, false); }
void operator delete(void *p, size_t n) noexcept { if (p) put(p, n, 0, 1, true); }
void operator delete[](void *p) noexcept { if (p) put(p, 0, 0, 2, false); }
void operator delete[](void *p, size_t) noexcept { if (p) put(p, 0, 0, 2, false); }
int main(int argc, char **argv) {
    for (int i = 2; i < argc; i++) in_[nin++] = strtoull(argv[i], 0, 10);
    for (int i = 0; i < nreg; i++) if (!strcmp(names[i], argv[1])) {
        long base = live;
        fns[i]();
        printf("LIVE %ld\n", live - base); printf("END\n"); fflush(stdout); _exit(0);
    }
    printf("NO-HARNESS\n"); return 44; }
