// The file system under the generator: one file, with every fault the calls may report.
#include "vh.h"
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
extern "C" int k_update(const uint8_t *parts, const size_t *lens, size_t k, uint32_t how);
extern "C" int k_items(const uint8_t *a, size_t n, const uint8_t *b, size_t m);
#ifdef VP_THOROUGH
enum { N = 6, M = 40 };
#else
enum { N = 4, M = 40 };
#endif
struct Fs {
    uint8_t data[256]; size_t len; bool exists;         // the file
    bool faults;                                        // calls may fail or be cut short
    int opens_w, writes, truncs, fds, closes, faulted; bool open_fail, create_fail;
    struct Fd { bool used, w; size_t pos; } fd[4];
} fs;
static bool fault(int kind) { if (!fs.faults || fs.faulted >= 2 || !nd_bool()) return false; fs.faulted++; (void)kind; return true; }
static bool is(const char *p, const char *q) { while (*p && *p == *q) p++, q++; return *p == *q; }
#ifndef VP_NATIVE
static int the_errno;
extern "C" int *__errno_location(void) noexcept { return &the_errno; }
#endif
static long fail(int e) { *__errno_location() = e; return -1; }
static int do_open(const char *path, int flags) {
    CHK(is(path, "d/out.h"));
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    CHK(!(flags & O_EXCL));
    if (!fs.exists && !(flags & O_CREAT)) return (int)fail(ENOENT);
    if (w ? fs.create_fail : fs.open_fail) return (int)fail(EACCES);
    if (w) fs.opens_w++;
    fs.exists = true;
    if (flags & O_TRUNC) { fs.truncs++; fs.len = 0; }
    for (int i = 0; i < 4; i++) if (!fs.fd[i].used) { fs.fd[i].used = true; fs.fd[i].w = w; fs.fd[i].pos = 0; fs.fds++; return 100 + i; }
    return (int)fail(EMFILE);
}
static Fs::Fd *get(int fd) { CHK(fd >= 100 && fd < 104 && fs.fd[fd - 100].used); return &fs.fd[fd - 100]; }
extern "C" {
int open64(const char *path, int flags, ...) { return do_open(path, flags); }
int open(const char *path, int flags, ...) { return do_open(path, flags); }
int close(int fd) { get(fd)->used = false; fs.closes++; return 0; }
ssize_t read(int fd, void *b, size_t n) {
    Fs::Fd *f = get(fd); CHK(!f->w);
    size_t left = fs.len - f->pos; if (n > left) n = left;
    if (fault(0)) { if (nd_bool()) return fail(EINTR); if (nd_bool()) return fail(EIO); if (n > 1) n = 1; }
    memcpy(b, fs.data + f->pos, n); f->pos += n; return (ssize_t)n;
}
ssize_t write(int fd, const void *b, size_t n) {
    Fs::Fd *f = get(fd); CHK(f->w); fs.writes++;
    if (fault(1)) { if (nd_bool()) return fail(EINTR); if (nd_bool()) return fail(ENOSPC); if (n > 1) n = 1; }
    CHK(f->pos + n <= sizeof fs.data);
    memcpy(fs.data + f->pos, b, n); f->pos += n; if (f->pos > fs.len) fs.len = f->pos; return (ssize_t)n;
}
static void fill(struct stat64 *s) { memset((void *)s, 0, sizeof *s); s->st_size = (off64_t)fs.len; s->st_mode = S_IFREG | 0644; s->st_nlink = 1; s->st_blksize = 4096; }
int fstat64(int fd, struct stat64 *s) { get(fd); if (fault(2)) return (int)fail(EIO); fill(s); return 0; }
int stat64(const char *p, struct stat64 *s) { CHK(is(p, "d/out.h")); if (!fs.exists) return (int)fail(ENOENT); fill(s); return 0; }
int lstat64(const char *p, struct stat64 *s) { return stat64(p, s); }
int statx(int fd, const char *p, int flags, unsigned mask, struct statx *s) { (void)fd; (void)p; (void)flags; (void)mask; (void)s; return (int)fail(ENOSYS); }
int fcntl(int fd, int cmd, ...) { CHK(cmd == F_GETFD); get(fd); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned) { memset(b, 0x5a, n); return (ssize_t)n; }
off64_t lseek64(int fd, off64_t o, int wh) { Fs::Fd *f = get(fd); f->pos = (size_t)(wh == SEEK_SET ? o : wh == SEEK_CUR ? (off64_t)f->pos + o : (off64_t)fs.len + o); return (off64_t)f->pos; }
}
static bool same(const uint8_t *a, size_t n, const uint8_t *b, size_t m) { if (n != m) return false; uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
static void run(const uint8_t *neu, size_t n, size_t cut) {
    uint8_t old[256]; size_t oldlen = fs.len; bool existed = fs.exists; memcpy(old, fs.data, oldlen);
    size_t lens[2] = {cut, n - cut};
    int r = k_update(neu, lens, 2, nd_pick(4));
    CHK(fs.fds == fs.closes);
    if (!fs.faults) CHK(r == (((!existed || !same(old, oldlen, neu, n)) && fs.create_fail) || (fs.open_fail && fs.create_fail) ? 1 : 0));
    if (r == 0) { CHK(fs.exists); CHK(same(fs.data, fs.len, neu, n)); }
    // a file with that very content that could be read is not touched
    if (existed && !fs.open_fail && same(old, oldlen, neu, n)) { CHK(fs.opens_w == 0 || fs.faulted); if (!fs.faults) { CHK(r == 0); CHK(fs.opens_w == 0 && fs.writes == 0 && fs.truncs == 0); } }
}
static void sym(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = nd_u8(); }
// every old and new content
HARNESS(contents) { uint8_t neu[N]; size_t n = nd_pick(N + 1), o = nd_pick(N + 1); fs.exists = true; fs.len = o; sym(fs.data, o); sym(neu, n); run(neu, n, n / 2); }
HARNESS(missing) { uint8_t neu[N]; size_t n = nd_pick(N + 1); sym(neu, n); fs.create_fail = nd_bool(); run(neu, n, nd_bool() ? n : 0); }
HARNESS(permissions) { uint8_t neu[3]; size_t n = nd_pick(4), o = nd_pick(4); fs.exists = true; fs.len = o; sym(fs.data, o); sym(neu, n); fs.open_fail = nd_bool(); fs.create_fail = nd_bool(); run(neu, n, 0); }
// long contents that differ in one byte, or one is the other's beginning
HARNESS(long_contents) {
    uint8_t neu[M + 2]; for (int i = 0; i < M + 2; i++) neu[i] = fs.data[i] = (uint8_t)(i * 7);
    uint8_t x = nd_u8(); int at = nd_pick(3); at = at == 0 ? 0 : at == 1 ? M / 2 : M - 1; neu[at] = x; fs.exists = true; fs.len = M; run(neu, M - 1 + nd_pick(3), 1);
}
HARNESS(faults) { uint8_t neu[3]; size_t n = nd_pick(3), o = nd_pick(3); fs.faults = true; fs.exists = nd_bool(); fs.len = fs.exists ? o : 0; sym(fs.data, fs.len); sym(neu, n); run(neu, n, n); }
// a second update with other content, then the same again
HARNESS(twice) {
    uint8_t a[2], b[2]; size_t n = nd_pick(3), m = nd_pick(3); sym(a, n); sym(b, m); run(a, n, 0); int w = fs.opens_w; fs.opens_w = fs.writes = fs.truncs = 0; run(b, m, m);
    if (!same(a, n, b, m)) CHK(fs.opens_w == 1); fs.opens_w = fs.writes = fs.truncs = 0; run(b, m, 0); CHK(fs.opens_w == 0); CHK(w == 1);
}
HARNESS(items) { uint8_t a[2], b[2]; size_t n = nd_pick(3), m = nd_pick(3); for (size_t i = 0; i < n; i++) a[i] = (uint8_t)('a' + nd_pick(2)); for (size_t i = 0; i < m; i++) b[i] = (uint8_t)('a' + nd_pick(2)); CHK(k_items(a, n, b, m) == (same(a, n, b, m) ? 1 : 0)); }
