/* LD_PRELOAD shim: logs the file-system operations of one process below a scratch root, and can end the process
 * (or fail / shorten the call) at a chosen operation.  Everything it touches stays below that root. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int on, logfd = -1, count, at, mode, nowrite;
static char root[PATH_MAX];
static size_t rootlen;
#define MAXFD 4096
static char *fdpath[MAXFD];
enum { M_NONE, M_BEFORE, M_AFTER, M_TORN, M_FAIL, M_SHORT };

static void say(const char *fmt, ...) {
    char b[PATH_MAX * 2 + 200];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, logfd, b, n);
}
static void die(void) { syscall(SYS_exit_group, 77); }

/* absolute path below root, or NULL */
static const char *rel(int dfd, const char *p, char *buf) {
    char tmp[PATH_MAX];
    if (!on || !p) return NULL;
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else if (dfd == AT_FDCWD) { char c[PATH_MAX]; if (!getcwd(c, sizeof c)) return NULL; if (snprintf(tmp, sizeof tmp, "%s/%s", c, p) < 0) return NULL; }
    else if (dfd >= 0 && dfd < MAXFD && fdpath[dfd]) { if (snprintf(tmp, sizeof tmp, "%s/%s/%s", root, fdpath[dfd], p) < 0) return NULL; }
    else return NULL;
    /* normalise '.', '..' and double slashes */
    char out[PATH_MAX]; size_t o = 0; char *save, *t;
    for (t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { while (o && out[--o] != '/'); continue; }
        size_t l = strlen(t); out[o++] = '/'; memcpy(out + o, t, l); o += l;
    }
    out[o] = 0;
    if (strncmp(out, root, rootlen) || (out[rootlen] && out[rootlen] != '/')) return NULL;
    strcpy(buf, out[rootlen] ? out + rootlen + 1 : ".");
    return buf;
}
/* returns 0: proceed, 1: proceed and die afterwards, -1: fail with errno; torn/short handled by caller */
static int gate(int is_write) {
    int k = ++count;
    if (k != at || mode == M_NONE) return 0;
    if (mode == M_BEFORE) die();
    if (mode == M_AFTER) return 1;
    if (mode == M_TORN) { if (!is_write) die(); return 2; }
    if (mode == M_SHORT) return is_write ? 3 : 0;
    if (mode == M_FAIL) { errno = is_write ? ENOSPC : EIO; return -1; }
    return 0;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)

void vp_start(const char *r, int lf, int k, int m) {
    char b[PATH_MAX]; if (!realpath(r, b)) strcpy(b, r);
    strcpy(root, b); rootlen = strlen(root); logfd = lf; count = 0; at = k; mode = m; on = 1;
}
int vp_stop(void) { on = 0; return count; }

static int note_open(int dfd, const char *p, int flags, int (*doit)(int, const char *, int, mode_t), mode_t md) {
    char b[PATH_MAX]; const char *q = rel(dfd, p, b);
    int modify = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!q) return doit(dfd, p, flags, md);
    int g = 0;
    if (modify) { g = gate(0); if (g < 0) return -1; }
    int fd = doit(dfd, p, flags, md);
    if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(q); }
    if (modify && fd >= 0) say("open\t%s\t%d\t%d\t%d\n", q, fd, (flags & O_TRUNC) != 0, (flags & O_CREAT) != 0);
    if (g == 1) die();
    return fd;
}
static int do_openat(int d, const char *p, int f, mode_t m) { return syscall(SYS_openat, d, p, f, m); }
#define OPENBODY(dfd) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    return note_open(dfd, p, flags, do_openat, m);
int open(const char *p, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *p, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(d) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(d) }
int creat(const char *p, mode_t m) { return note_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, do_openat, m); }

static const char *fdp(int fd) { return on && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }
ssize_t write(int fd, const void *buf, size_t n) {
    const char *q = fdp(fd);
    if (!q) return syscall(SYS_write, fd, buf, n);
    int g = gate(1);
    if (g < 0) return -1;
    size_t m = (g == 2 || g == 3) ? (n + 1) / 2 : n;
    ssize_t r = syscall(SYS_write, fd, buf, m);
    if (r >= 0) say("write\t%s\t%d\t%zd\n", q, fd, r);
    if (g == 1 || g == 2) die();
    return r;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    const char *q = fdp(fd);
    if (!q) return syscall(SYS_pwrite64, fd, buf, n, o);
    int g = gate(1);
    if (g < 0) return -1;
    size_t m = (g == 2 || g == 3) ? (n + 1) / 2 : n;
    ssize_t r = syscall(SYS_pwrite64, fd, buf, m, o);
    if (r >= 0) say("write\t%s\t%d\t%zd\n", q, fd, r);
    if (g == 1 || g == 2) die();
    return r;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *q = fdp(fd);
    if (!q) return syscall(SYS_writev, fd, v, c);
    int g = gate(1);
    if (g < 0) return -1;
    ssize_t r = syscall(SYS_writev, fd, v, (g == 2 || g == 3) ? 1 : c);
    if (r >= 0) say("write\t%s\t%d\t%zd\n", q, fd, r);
    if (g == 1 || g == 2) die();
    return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    const char *q = fdp(o);
    if (!q) return syscall(SYS_sendfile, o, i, off, n);
    int g = gate(1);
    if (g < 0) return -1;
    ssize_t r = syscall(SYS_sendfile, o, i, off, (g == 2 || g == 3) ? (n + 1) / 2 : n);
    if (r > 0) say("write\t%s\t%d\t%zd\n", q, o, r);
    if (g == 1 || g == 2) die();
    return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    const char *q = fdp(o);
    if (!q) return syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
    int g = gate(1);
    if (g < 0) return -1;
    ssize_t r = syscall(SYS_copy_file_range, i, io, o, oo, (g == 2 || g == 3) ? (n + 1) / 2 : n, fl);
    if (r > 0) say("write\t%s\t%d\t%zd\n", q, o, r);
    if (g == 1 || g == 2) die();
    return r;
}
#define FDOP(fn, sys, label) int fn(int fd) { const char *q = fdp(fd); if (!q) return syscall(sys, fd); int g = gate(0); if (g < 0) return -1; \
    int r = syscall(sys, fd); if (!r) say(label "\t%s\t%d\n", q, fd); if (g == 1) die(); return r; }
FDOP(fsync, SYS_fsync, "fsync")
FDOP(fdatasync, SYS_fdatasync, "fsync")
int close(int fd) {
    const char *q = fdp(fd);
    if (!q) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; } return syscall(SYS_close, fd); }
    say("close\t%s\t%d\n", q, fd);
    free(fdpath[fd]); fdpath[fd] = NULL;
    return syscall(SYS_close, fd);
}
int ftruncate64(int fd, off64_t n) {
    const char *q = fdp(fd);
    if (!q) return syscall(SYS_ftruncate, fd, n);
    int g = gate(0); if (g < 0) return -1;
    int r = syscall(SYS_ftruncate, fd, n);
    if (!r) say("trunc\t%s\t%d\n", q, fd);
    if (g == 1) die();
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate(const char *p, off_t n) {
    char b[PATH_MAX]; const char *q = rel(AT_FDCWD, p, b);
    if (!q) return syscall(SYS_truncate, p, n);
    int g = gate(0); if (g < 0) return -1;
    int r = syscall(SYS_truncate, p, n);
    if (!r) say("trunc\t%s\t-1\n", q);
    if (g == 1) die();
    return r;
}
static int two(const char *label, int d1, const char *a, int d2, const char *b, long (*f)(int, const char *, int, const char *, unsigned), unsigned fl) {
    char x[PATH_MAX], y[PATH_MAX]; const char *p = rel(d1, a, x), *q = rel(d2, b, y);
    if (!p && !q) return f(d1, a, d2, b, fl);
    int g = gate(0); if (g < 0) return -1;
    int r = f(d1, a, d2, b, fl);
    if (!r) say("%s\t%s\t%s\n", label, p ? p : "?", q ? q : "?");
    if (g == 1) die();
    return r;
}
static long f_ren(int d1, const char *a, int d2, const char *b, unsigned fl) { return syscall(SYS_renameat2, d1, a, d2, b, fl); }
static long f_lnk(int d1, const char *a, int d2, const char *b, unsigned fl) { return syscall(SYS_linkat, d1, a, d2, b, fl); }
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, f_ren, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two("rename", d1, a, d2, b, f_ren, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return two("rename", d1, a, d2, b, f_ren, fl); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, f_lnk, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return two("link", d1, a, d2, b, f_lnk, fl); }
static int gone(int d, const char *a, int fl) {
    char x[PATH_MAX]; const char *p = rel(d, a, x);
    if (!p) return syscall(SYS_unlinkat, d, a, fl);
    int g = gate(0); if (g < 0) return -1;
    int r = syscall(SYS_unlinkat, d, a, fl);
    if (!r) say("unlink\t%s\n", p);
    if (g == 1) die();
    return r;
}
int unlink(const char *a) { return gone(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int fl) { return gone(d, a, fl); }
