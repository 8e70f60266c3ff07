// A modelled output directory 'o' (the system calls std::fs makes) and the source texts given to the generator.
#pragma once
#include "vh.h"
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "rt_kern.h"
enum { NF = 16 };
struct File { const char *name; bool there, was, dir, listed; int writes, opens_w; size_t len; uint8_t data[24000]; };
static File files[NF]; static int nf; static bool unlink_fails; static int fails, unlinks, wmode, rmode, wcalls, rcalls; // wmode: 0 fine, 1 one byte at first, 2 interrupted first, 3 disk full, 4 cannot be opened for writing
struct Fd { bool used, w; File *f; size_t pos; }; static Fd fds[4];
static bool is(const char *p, const char *q) { while (*p && *p == *q) p++, q++; return *p == *q; }
#ifndef VP_NATIVE
static int the_errno;
extern "C" int *__errno_location(void) noexcept { return &the_errno; }
extern "C" int __xpg_strerror_r(int, char *b, size_t) { b[0] = 'e'; b[1] = 0; return 0; }
#endif
static long fail(int e) { *__errno_location() = e; return -1; }
static File *find(const char *path) { CHK(path[0] == 'o' && path[1] == '/'); for (int i = 0; i < nf; i++) if (is(path + 2, files[i].name)) return &files[i]; return 0; }
static File *add(const char *name) { File *f = &files[nf++]; f->name = name; return f; }
static char names[NF][40]; static const char *names_copy(const char *p) { size_t n = strlen(p); CHK(n < 40); memcpy(names[nf], p, n + 1); return names[nf]; }
static int do_open(const char *path, int flags) {
    File *f = find(path); if (!f) { if (!(flags & O_CREAT)) return (int)fail(ENOENT); CHK(nf < NF); f = add(names_copy(path + 2)); }
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    if (!f->there && !(flags & O_CREAT)) return (int)fail(ENOENT);
    if (w && wmode == 4) { fails++; return (int)fail(EACCES); }
    if (w) { f->opens_w++; f->there = true; } if (flags & O_TRUNC) f->len = 0;
    for (int i = 0; i < 4; i++) if (!fds[i].used) { fds[i].used = true; fds[i].w = w; fds[i].f = f; fds[i].pos = 0; return 100 + i; }
    return (int)fail(EMFILE);
}
static Fd *get(int fd) { CHK(fd >= 100 && fd < 104 && fds[fd - 100].used); return &fds[fd - 100]; }
static int at; static struct dirent64 ent; static int open_dirs;
extern "C" {
int open64(const char *path, int flags, ...) { return do_open(path, flags); }
int open(const char *path, int flags, ...) { return do_open(path, flags); }
int close(int fd) { get(fd)->used = false; return 0; }
ssize_t read(int fd, void *b, size_t n) { Fd *f = get(fd); int c = rcalls++; if (c == 0 && rmode == 2) return fail(EINTR); size_t left = f->f->len - f->pos; if (c == 0 && rmode == 1 && left > 1) left = 1; if (n > left) n = left; memcpy(b, f->f->data + f->pos, n); f->pos += n; return (ssize_t)n; }
ssize_t write(int fd, const void *b, size_t n) {
#ifdef VP_NATIVE
    if (fd == 2) return syscall(1, fd, b, n);
#endif
    if (fd == 2) return (ssize_t)n;
    Fd *f = get(fd); CHK(f->w); f->f->writes++; int c = wcalls++; if (c == 0 && wmode == 2) return fail(EINTR); if (wmode == 3) { fails++; return fail(ENOSPC); } if (c == 0 && wmode == 1 && n > 1) n = 1; CHK(f->pos + n <= sizeof f->f->data); memcpy(f->f->data + f->pos, b, n); f->pos += n; if (f->pos > f->f->len) f->f->len = f->pos; return (ssize_t)n; }
static void fill(struct stat64 *s, bool dir, size_t len) { memset((void *)s, 0, sizeof *s); s->st_size = (off64_t)len; s->st_mode = (dir ? S_IFDIR : S_IFREG) | 0644; s->st_nlink = 1; s->st_blksize = 4096; }
int fstat64(int fd, struct stat64 *s) { fill(s, false, get(fd)->f->len); return 0; }
int stat64(const char *p, struct stat64 *s) { if (is(p, "o")) { fill(s, true, 0); return 0; } File *f = find(p); if (!f || !f->there) return (int)fail(ENOENT); fill(s, f->dir, f->len); return 0; }
int lstat64(const char *p, struct stat64 *s) { return stat64(p, s); }
int statx(int, const char *, int, unsigned, struct statx *) { return (int)fail(ENOSYS); }
int fcntl(int fd, int cmd, ...) { CHK(cmd == F_GETFD); if (fd != 99) get(fd); return 0; }
off64_t lseek64(int fd, off64_t o, int wh) { Fd *f = get(fd); f->pos = (size_t)(wh == SEEK_SET ? o : wh == SEEK_CUR ? (off64_t)f->pos + o : (off64_t)f->f->len + o); return (off64_t)f->pos; }
DIR *opendir(const char *p) { CHK(is(p, "o")); at = -2; open_dirs++; return (DIR *)&at; }
int closedir(DIR *) { open_dirs--; return 0; }
int dirfd(DIR *) { return 99; }
struct dirent64 *readdir64(DIR *) {
    memset((void *)&ent, 0, sizeof ent);
    const char *n = 0;
    if (at < 0) n = at == -2 ? "." : ".."; else { while (at < nf && !files[at].there) at++; if (at >= nf) return 0; n = files[at].name; }
    size_t l = strlen(n); memcpy(ent.d_name, n, l + 1); ent.d_reclen = (unsigned short)(offsetof(struct dirent64, d_name) + l + 1); ent.d_ino = 5; ent.d_type = at >= 0 && files[at].dir ? DT_DIR : DT_REG; at++;
    return &ent;
}
int unlink(const char *p) { File *f = find(p); CHK(f != 0 && f->there); unlinks++; if (f->dir) { fails++; return (int)fail(EISDIR); } if (unlink_fails) { fails++; return (int)fail(EACCES); } f->there = false; return 0; }
}

static char src[2][1500]; static size_t len[2];
static void put(int k, const char *t) { size_t n = strlen(t); memcpy(src[k] + len[k], t, n); len[k] += n; }
static bool at_(const File *f, size_t i, const char *t) { size_t n = strlen(t); return i + n <= f->len && memcmp(f->data + i, t, n) == 0; }
static int count(const File *f, const char *t) { int c = 0; if (!f) return 0; for (size_t i = 0; i < f->len; i++) if (f->data[i] == (uint8_t)t[0] && at_(f, i, t)) c++; return c; }
static File *file(const char *n) { for (int i = 0; i < nf; i++) if (is(files[i].name, n)) return &files[i]; return 0; }
