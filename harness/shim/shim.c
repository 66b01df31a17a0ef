/* Fault injection at the system-call boundary of the observed tools (LD_PRELOAD).
 * SHIM_PLAN is a comma-separated list:
 *   r:IDX:ACT / w:IDX:ACT   at the IDX-th (from 1) read / write call
 *   r*:PERIOD:ACT, w*:...   at every PERIOD-th call
 * ACT: e<errno> fail this call; E<errno> fail this call and every later one of the same kind;
 *      b<n> interrupt this call and the n-1 after it;
 *      s<n> transfer at most n bytes; z<0> report zero bytes written
 * SHIM_TRACE: file that gets the path of every file opened for writing, created or renamed to.
 * Calls on fd 2 and on files of the runtime are not touched. SHIM_LOG: file that gets the counts. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern char **environ;
static char *plain_getenv(const char *name)
{
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
/* SHIM_ENV: file that gets the names of the environment variables that are asked for */
char *getenv(const char *name)
{
    const char *l = plain_getenv("SHIM_ENV");
    if (l && strncmp(name, "SHIM_", 5)) {
        long fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (fd >= 0) {
            char b[300];
            int n = snprintf(b, sizeof b, "%s\n", name);
            syscall(SYS_write, fd, b, (size_t)(n < (int)sizeof b ? n : (int)sizeof b - 1));
            syscall(SYS_close, fd);
        }
    }
    return plain_getenv(name);
}
char *secure_getenv(const char *name) { return getenv(name); }

struct rule { char op; int every; long idx; char act; long val; };
static struct rule rules[64];
static int nrules = -1;
static long nread, nwrite, injected;
static long sticky[2];

static void load(void)
{
    nrules = 0;
    const char *p = getenv("SHIM_PLAN");
    while (p && *p && nrules < 64) {
        struct rule r = {0};
        r.op = *p++;
        if (*p == '*') { r.every = 1; p++; }
        if (*p++ != ':') break;
        r.idx = strtol(p, (char **)&p, 10);
        if (*p++ != ':') break;
        r.act = *p++;
        r.val = strtol(p, (char **)&p, 10);
        rules[nrules++] = r;
        if (*p == ',') p++;
    }
}

/* returns -1 with errno set, 0 for "report zero", or the number of bytes to transfer */
static ssize_t decide(int w, size_t n, int *zero)
{
    if (nrules < 0) load();
    long k = w ? ++nwrite : ++nread;
    *zero = 0;
    if (sticky[w]) { injected++; errno = (int)sticky[w]; return -1; }
    size_t lim = n;
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if ((r->op == 'w') != w) continue;
        if (r->act == 'b') {
            /* from this call on, or again and again after as many that pass */
            long from = r->idx, n = r->val;
            if (r->every ? (k - 1) % (from + n) >= from : (k >= from && k < from + n)) { injected++; errno = EINTR; return -1; }
            continue;
        }
        if (r->every ? (k % r->idx) : (k != r->idx)) continue;
        switch (r->act) {
        case 'e': injected++; errno = (int)r->val; return -1;
        case 'E': injected++; sticky[w] = r->val; errno = (int)r->val; return -1;
        case 's': if ((size_t)r->val < lim) { injected++; lim = (size_t)r->val; } break;
        case 'z': injected++; *zero = 1; return 0;
        }
    }
    return (ssize_t)lim;
}

ssize_t read(int fd, void *b, size_t n)
{
    if (fd == 2) return syscall(SYS_read, fd, b, n);
    int z;
    ssize_t d = decide(0, n, &z);
    if (d < 0) return -1;
    return syscall(SYS_read, fd, b, (size_t)d);
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (fd == 2 || c == 0) return syscall(SYS_readv, fd, v, c);
    int z;
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    ssize_t d = decide(0, n, &z);
    if (d < 0) return -1;
    if ((size_t)d < n) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return syscall(SYS_read, fd, v[i].iov_base, v[i].iov_len < (size_t)d ? v[i].iov_len : (size_t)d);
    }
    return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (fd == 2) return syscall(SYS_write, fd, b, n);
    int z;
    ssize_t d = decide(1, n, &z);
    if (d < 0) return -1;
    if (z) return 0;
    return syscall(SYS_write, fd, b, (size_t)d);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (fd == 2 || c == 0) return syscall(SYS_writev, fd, v, c);
    int z;
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    ssize_t d = decide(1, n, &z);
    if (d < 0) return -1;
    if (z) return 0;
    if ((size_t)d < n) {
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len < (size_t)d ? v[i].iov_len : (size_t)d);
    }
    return syscall(SYS_writev, fd, v, c);
}

static void trace(const char *path)
{
    const char *l = getenv("SHIM_TRACE");
    if (!l || !path) return;
    long fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd < 0) return;
    char b[4200];
    int n = snprintf(b, sizeof b, "%s\n", path);
    syscall(SYS_write, fd, b, (size_t)(n < (int)sizeof b ? n : (int)sizeof b - 1));
    syscall(SYS_close, fd);
}
static int opened(int dir, const char *path, int flags, int mode)
{
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) trace(path);
    return (int)syscall(SYS_openat, dir, path, flags, mode);
}
#define OPEN(name) \
    int name(const char *path, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return opened(AT_FDCWD, path, flags, m); }
#define OPENAT(name) \
    int name(int dir, const char *path, int flags, ...) { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); return opened(dir, path, flags, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)
int creat(const char *path, mode_t m) { return opened(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int creat64(const char *path, mode_t m) { return opened(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int rename(const char *a, const char *b) { trace(b); return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int link(const char *a, const char *b) { trace(b); return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char *a, const char *b) { trace(b); return (int)syscall(SYS_symlinkat, a, AT_FDCWD, b); }
int mkdir(const char *a, mode_t m) { trace(a); return (int)syscall(SYS_mkdirat, AT_FDCWD, a, m); }
int truncate(const char *a, off_t n) { trace(a); return (int)syscall(SYS_truncate, a, n); }

__attribute__((destructor)) static void done(void)
{
    const char *l = getenv("SHIM_LOG");
    if (!l) return;
    char b[128];
    int n = snprintf(b, sizeof b, "%ld %ld %ld\n", nread, nwrite, injected);
    long fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) return;
    syscall(SYS_write, fd, b, (size_t)n);
    syscall(SYS_close, fd);
}
