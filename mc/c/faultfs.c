// LD_PRELOAD shim: numbers the file operations a process makes under FG_ROOT and turns one of
// them into a kill, a torn write, a short write or an error.
//   FG_ROOT=dir  FG_LOG=file (append one line per operation)  FG_FAULT=kind:n[,kind:n]
// kinds: kill (die before op n), torn (write half, then die), short (half a write), eio, enospc, eintr, killafter
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

static const char *root;
static size_t rootlen;
static int logfd = -1;
static int opn;
static char fds[4096];
static struct { char kind[16]; int n; } faults[4];
static int nfaults;

__attribute__((constructor)) static void init(void)
{
    root = getenv("FG_ROOT");
    if (!root) return;
    rootlen = strlen(root);
    const char *l = getenv("FG_LOG");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    const char *f = getenv("FG_FAULT");
    while (f && *f && nfaults < 4) {
        const char *c = strchr(f, ':');
        if (!c) break;
        size_t k = c - f;
        if (k > 15) k = 15;
        memcpy(faults[nfaults].kind, f, k);
        faults[nfaults].kind[k] = 0;
        faults[nfaults].n = atoi(c + 1);
        nfaults++;
        f = strchr(c, ',');
        if (f) f++;
    }
}
static int ours(const char *p)
{
    if (!root || !p) return 0;
    return strncmp(p, root, rootlen) == 0;
}
static void note(const char *op, const char *what, long n)
{
    if (logfd >= 0) {
        char b[5000];
        int k = snprintf(b, sizeof b, "%d\t%s\t%s\t%ld\n", opn, op, what ? what : "", n);
        syscall(SYS_write, logfd, b, k);
    }
}
// returns fault kind for this op or NULL
static const char *step(const char *op, const char *what, long n)
{
    ++opn;
    note(op, what, n);
    for (int i = 0; i < nfaults; ++i)
        if (faults[i].n == opn) {
            if (!strcmp(faults[i].kind, "kill")) syscall(SYS_exit_group, 137);
            return faults[i].kind;
        }
    return NULL;
}
static int err_of(const char *k)
{
    if (!strcmp(k, "eio")) return EIO;
    if (!strcmp(k, "enospc")) return ENOSPC;
    if (!strcmp(k, "eacces")) return EACCES;
    return 0;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    const char *k = NULL;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (ours(path)) {
        k = step(w ? "openw" : "openr", path, flags);
        if (k) {
            int e = err_of(k);
            if (e) { note(w ? "FAILED" : "READFAIL", w ? "openw" : "openr", e); errno = e; return -1; }
        }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd < 0) { errno = errno; return fd; }
    if (fd < 4096) fds[fd] = ours(path);
    if (k && !strcmp(k, "killafter")) syscall(SYS_exit_group, 137);
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
ssize_t write(int fd, const void *b, size_t n)
{
    const char *k = NULL;
    if (fd >= 0 && fd < 4096 && fds[fd]) {
        k = step("write", "", n);
        if (k) {
            int e = err_of(k);
            if (e) { note("FAILED", "write", e); errno = e; return -1; }
            if (!strcmp(k, "eintr")) { errno = EINTR; return -1; }
            if (!strcmp(k, "zero")) { note("FAILED", "write", 0); return 0; }
            if (!strcmp(k, "short") && n > 1) return syscall(SYS_write, fd, b, n / 2);
            if (!strcmp(k, "torn")) { syscall(SYS_write, fd, b, n / 2); syscall(SYS_exit_group, 137); }
            if (!strcmp(k, "tornerr")) { syscall(SYS_write, fd, b, n / 2); note("FAILED", "write", EIO); errno = EIO; return -1; }
        }
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (k && !strcmp(k, "killafter")) syscall(SYS_exit_group, 137);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fd >= 0 && fd < 4096 && fds[fd]) {
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : r;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (fd >= 0 && fd < 4096 && fds[fd]) {
        const char *k = step("read", "", n);
        if (k) {
            int e = err_of(k);
            if (e) { note("READFAIL", "read", e); errno = e; return -1; }
            if (!strcmp(k, "eintr")) { errno = EINTR; return -1; }
            if (!strcmp(k, "short") && n > 1) n = n > 64 ? 64 : n / 2;
        }
    }
    return syscall(SYS_read, fd, b, n);
}
int close(int fd)
{
    if (fd >= 0 && fd < 4096 && fds[fd]) {
        step("close", "", fd);
        fds[fd] = 0;
    }
    return syscall(SYS_close, fd);
}
static int path_op(const char *op, const char *p, const char **k)
{
    *k = NULL;
    if (!ours(p)) return 0;
    *k = step(op, p, 0);
    if (*k) {
        int e = err_of(*k);
        if (e) { note("FAILED", op, e); errno = e; return -1; }
    }
    return 0;
}
static void after(const char *k) { if (k && !strcmp(k, "killafter")) syscall(SYS_exit_group, 137); }
int unlink(const char *p)
{
    const char *k;
    if (path_op("unlink", p, &k)) return -1;
    int r = syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    after(k);
    return r;
}
int unlinkat(int d, const char *p, int f)
{
    const char *k;
    if (path_op("unlink", p, &k)) return -1;
    int r = syscall(SYS_unlinkat, d, p, f);
    after(k);
    return r;
}
int rename(const char *a, const char *b)
{
    const char *k;
    if (path_op("rename", b, &k)) return -1;
    int r = syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    after(k);
    return r;
}
int mkdir(const char *p, mode_t m)
{
    const char *k;
    if (path_op("mkdir", p, &k)) return -1;
    return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int ftruncate64(int fd, off_t n)
{
    if (fd >= 0 && fd < 4096 && fds[fd]) {
        const char *k = step("truncate", "", n);
        if (k && err_of(k)) { note("FAILED", "truncate", err_of(k)); errno = err_of(k); return -1; }
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
