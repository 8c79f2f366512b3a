/* File-system seam: interposed libc calls on paths below a scratch prefix report to a
 * callback before (phase 0: may fail or shorten the call) and after (phase 1: log). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, WRITE, FSYNC, RENAME, UNLINK, FTRUNC, CLOSE, READ, LINK, SYMLINK, MKDIR, RMDIR, TRUNC, COPY, MMAP, LOCK };
typedef long (*cb_t)(int phase, int kind, const char *p, const char *p2, int fd, long a, long b, const void *buf, long n);

static cb_t cb;
static char prefix[PATH_MAX];
static size_t plen;
static volatile int enabled;
#define MAXFD 65536
static unsigned char tracked[MAXFD];
static __thread int busy;

#define REAL(name) static __typeof__(&name) real_##name; \
    if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

void fsshim_set(cb_t f, const char *pre, int on) {
    cb = f;
    if (pre) { strncpy(prefix, pre, PATH_MAX - 1); plen = strlen(prefix); }
    if (on && !enabled) memset(tracked, 0, sizeof tracked);
    enabled = on;
}

static const char *absolute(int dirfd, const char *p, char *buf) {
    if (!p) return NULL;
    if (p[0] == '/') return p;
    char d[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (!getcwd(d, sizeof d)) return p;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t k = readlink(l, d, sizeof d - 1);
        if (k < 0) return p;
        d[k] = 0;
    }
    snprintf(buf, PATH_MAX, "%s/%s", d, p);
    return buf;
}
static int mine(const char *p) { return enabled && !busy && cb && p && plen && !strncmp(p, prefix, plen); }
static int minefd(int fd) { return enabled && !busy && cb && fd >= 0 && fd < MAXFD && tracked[fd]; }
static long call(int phase, int kind, const char *p, const char *p2, int fd, long a, long b, const void *buf, long n) {
    int e = errno;
    busy++;
    long r = cb(phase, kind, p, p2, fd, a, b, buf, n);
    busy--;
    errno = e;
    return r;
}
#define PRE(...) do { long r_ = call(0, __VA_ARGS__); if (r_ < 0) { errno = (int)-r_; return -1; } } while (0)

static int opened(const char *p, int flags, int existed, int fd) {
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    call(1, OPEN, p, NULL, fd, flags, existed, NULL, 0);
    return fd;
}
static int exists(const char *p) { struct stat s; busy++; int r = stat(p, &s) == 0; busy--; return r; }

#define OPENBODY(CALL, DIRFD) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    char b[PATH_MAX]; const char *p = enabled ? absolute(DIRFD, path, b) : path; \
    if (!mine(p)) return CALL; \
    int ex = exists(p); \
    PRE(OPEN, p, NULL, -1, flags, ex, NULL, 0); \
    return opened(p, flags, ex, CALL);

int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real_open(path, flags, mode), AT_FDCWD) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real_open64(path, flags, mode), AT_FDCWD) }
int openat(int dfd, const char *path, int flags, ...) { REAL(openat); OPENBODY(real_openat(dfd, path, flags, mode), dfd) }
int openat64(int dfd, const char *path, int flags, ...) { REAL(openat64); OPENBODY(real_openat64(dfd, path, flags, mode), dfd) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open(path, flags); }

static FILE *fo(const char *path, const char *m, FILE *(*f)(const char *, const char *)) {
    char b[PATH_MAX];
    const char *p = enabled ? absolute(AT_FDCWD, path, b) : path;
    if (!mine(p)) return f(path, m);
    int flags = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
    if (m[0] == 'w') flags |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') flags |= O_CREAT | O_APPEND;
    int ex = exists(p);
    long r = call(0, OPEN, p, NULL, -1, flags, ex, NULL, 0);
    if (r < 0) { errno = (int)-r; return NULL; }
    FILE *x = f(path, m);
    opened(p, flags, ex, x ? fileno(x) : -1);
    return x;
}
FILE *fopen(const char *path, const char *m) { REAL(fopen); return fo(path, m, real_fopen); }
FILE *fopen64(const char *path, const char *m) { REAL(fopen64); return fo(path, m, real_fopen64); }

static off_t pos(int fd) { return lseek(fd, 0, SEEK_CUR); }

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (!minefd(fd)) return real_write(fd, buf, n);
    long r = call(0, WRITE, NULL, NULL, fd, (long)n, 0, buf, (long)n);
    if (r < 0) { errno = (int)-r; return -1; }
    if (r > 0 && (size_t)r < n) n = (size_t)r;
    ssize_t k = real_write(fd, buf, n);
    call(1, WRITE, NULL, NULL, fd, k, k > 0 ? (long)(pos(fd) - k) : 0, buf, k > 0 ? k : 0);
    return k;
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(writev);
    if (!minefd(fd)) return real_writev(fd, iov, cnt);
    size_t n = 0;
    for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
    char *t = malloc(n ? n : 1), *q = t;
    for (int i = 0; i < cnt; i++) { memcpy(q, iov[i].iov_base, iov[i].iov_len); q += iov[i].iov_len; }
    ssize_t k = write(fd, t, n);
    int e = errno;
    free(t);
    errno = e;
    return k;
}
static ssize_t pw(int fd, const void *buf, size_t n, off_t o, ssize_t (*f)(int, const void *, size_t, off_t)) {
    if (!minefd(fd)) return f(fd, buf, n, o);
    long r = call(0, WRITE, NULL, NULL, fd, (long)n, 0, buf, (long)n);
    if (r < 0) { errno = (int)-r; return -1; }
    if (r > 0 && (size_t)r < n) n = (size_t)r;
    ssize_t k = f(fd, buf, n, o);
    call(1, WRITE, NULL, NULL, fd, k, (long)o, buf, k > 0 ? k : 0);
    return k;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { REAL(pwrite); return pw(fd, buf, n, o, real_pwrite); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { REAL(pwrite64); return pw(fd, buf, n, o, real_pwrite64); }

ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    if (!minefd(fd)) return real_read(fd, buf, n);
    long r = call(0, READ, NULL, NULL, fd, (long)n, 0, NULL, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if (r > 0 && (size_t)r < n) n = (size_t)r;
    return real_read(fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t m) { (void)m; return read(fd, buf, n); }
ssize_t pread64(int fd, void *buf, size_t n, off_t o) {
    REAL(pread64);
    if (!minefd(fd)) return real_pread64(fd, buf, n, o);
    PRE(READ, NULL, NULL, fd, (long)n, 0, NULL, 0);
    return real_pread64(fd, buf, n, o);
}

static int sy(int fd, int (*f)(int)) {
    if (!minefd(fd)) return f(fd);
    PRE(FSYNC, NULL, NULL, fd, 0, 0, NULL, 0);
    int r = f(fd);
    call(1, FSYNC, NULL, NULL, fd, r, 0, NULL, 0);
    return r;
}
int fsync(int fd) { REAL(fsync); return sy(fd, real_fsync); }
int fdatasync(int fd) { REAL(fdatasync); return sy(fd, real_fdatasync); }

static int ft(int fd, off_t n, int (*f)(int, off_t)) {
    if (!minefd(fd)) return f(fd, n);
    PRE(FTRUNC, NULL, NULL, fd, (long)n, 0, NULL, 0);
    int r = f(fd, n);
    call(1, FTRUNC, NULL, NULL, fd, (long)n, r, NULL, 0);
    return r;
}
int ftruncate(int fd, off_t n) { REAL(ftruncate); return ft(fd, n, real_ftruncate); }
int ftruncate64(int fd, off_t n) { REAL(ftruncate64); return ft(fd, n, real_ftruncate64); }
int truncate(const char *path, off_t n) {
    REAL(truncate);
    char b[PATH_MAX];
    const char *p = enabled ? absolute(AT_FDCWD, path, b) : path;
    if (!mine(p)) return real_truncate(path, n);
    PRE(TRUNC, p, NULL, -1, (long)n, 0, NULL, 0);
    int r = real_truncate(path, n);
    call(1, TRUNC, p, NULL, -1, (long)n, r, NULL, 0);
    return r;
}

int close(int fd) {
    REAL(close);
    if (!minefd(fd)) { if (enabled && fd >= 0 && fd < MAXFD && !busy) tracked[fd] = 0; return real_close(fd); }
    long e = call(0, CLOSE, NULL, NULL, fd, 0, 0, NULL, 0);
    call(1, CLOSE, NULL, NULL, fd, 0, 0, NULL, 0);
    tracked[fd] = 0;
    int r = real_close(fd);
    if (e < 0) { errno = (int)-e; return -1; }
    return r;
}
int fclose(FILE *f) {
    REAL(fclose);
    int fd = f ? fileno(f) : -1;
    if (!minefd(fd)) return real_fclose(f);
    long e = call(0, CLOSE, NULL, NULL, fd, 0, 0, NULL, 0);
    call(1, CLOSE, NULL, NULL, fd, 0, 0, NULL, 0);
    tracked[fd] = 0;
    int r = real_fclose(f);
    if (e < 0) { errno = (int)-e; return EOF; }
    return r;
}

#define TWO(KIND, P1, P2, CALL) \
    char b1[PATH_MAX], b2[PATH_MAX]; \
    const char *x = enabled ? P1 : NULL, *y = enabled ? P2 : NULL; \
    if (!mine(x) && !mine(y)) return CALL; \
    PRE(KIND, x, y, -1, 0, 0, NULL, 0); \
    int r = CALL; \
    call(1, KIND, x, y, -1, r, 0, NULL, 0); \
    return r;
int rename(const char *o, const char *n) {
    REAL(rename); TWO(RENAME, absolute(AT_FDCWD, o, b1), absolute(AT_FDCWD, n, b2), real_rename(o, n)) }
int renameat(int d1, const char *o, int d2, const char *n) {
    REAL(renameat); TWO(RENAME, absolute(d1, o, b1), absolute(d2, n, b2), real_renameat(d1, o, d2, n)) }
int link(const char *o, const char *n) {
    REAL(link); TWO(LINK, absolute(AT_FDCWD, o, b1), absolute(AT_FDCWD, n, b2), real_link(o, n)) }
int linkat(int d1, const char *o, int d2, const char *n, int f) {
    REAL(linkat); TWO(LINK, absolute(d1, o, b1), absolute(d2, n, b2), real_linkat(d1, o, d2, n, f)) }
int symlink(const char *o, const char *n) { REAL(symlink); TWO(SYMLINK, (strncpy(b1, o, PATH_MAX - 1), b1), absolute(AT_FDCWD, n, b2), real_symlink(o, n)) }
int symlinkat(const char *o, int d, const char *n) { REAL(symlinkat); TWO(SYMLINK, (strncpy(b1, o, PATH_MAX - 1), b1), absolute(d, n, b2), real_symlinkat(o, d, n)) }

#define ONE(KIND, P, CALL) \
    char b[PATH_MAX]; \
    const char *x = enabled ? P : NULL; \
    if (!mine(x)) return CALL; \
    PRE(KIND, x, NULL, -1, 0, 0, NULL, 0); \
    int r = CALL; \
    call(1, KIND, x, NULL, -1, r, 0, NULL, 0); \
    return r;
int unlink(const char *p) { REAL(unlink); ONE(UNLINK, absolute(AT_FDCWD, p, b), real_unlink(p)) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); ONE((f & AT_REMOVEDIR) ? RMDIR : UNLINK, absolute(d, p, b), real_unlinkat(d, p, f)) }
int mkdir(const char *p, mode_t m) { REAL(mkdir); ONE(MKDIR, absolute(AT_FDCWD, p, b), real_mkdir(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); ONE(MKDIR, absolute(d, p, b), real_mkdirat(d, p, m)) }
int rmdir(const char *p) { REAL(rmdir); ONE(RMDIR, absolute(AT_FDCWD, p, b), real_rmdir(p)) }

/* kernel-side copies: turned into reads and writes, so that the data is seen */
static ssize_t copy(int out, int in, off_t *off, size_t n) {
    static const size_t max = 1 << 16;
    char *t = malloc(max);
    size_t want = n < max ? n : max;
    ssize_t k = off ? pread64(in, t, want, *off) : read(in, t, want);
    if (k > 0) {
        ssize_t w = write(out, t, (size_t)k);
        if (w >= 0 && w < k && !off) lseek(in, w - k, SEEK_CUR);
        if (w >= 0 && off) *off += w;
        k = w;
    }
    int e = errno;
    free(t);
    errno = e;
    return k;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(sendfile);
    if (!minefd(out)) return real_sendfile(out, in, off, n);
    return copy(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) {
    REAL(sendfile64);
    if (!minefd(out)) return real_sendfile64(out, in, off, n);
    return copy(out, in, off, n);
}
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl) {
    REAL(copy_file_range);
    if (!minefd(out)) return real_copy_file_range(in, io, out, oo, n, fl);
    if (oo) { errno = EXDEV; return -1; }
    return copy(out, in, io, n);
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    REAL(mmap64);
    if (minefd(fd) && (prot & PROT_WRITE) && (fl & MAP_SHARED)) call(1, MMAP, NULL, NULL, fd, 0, 0, NULL, 0);
    return real_mmap64(a, n, prot, fl, fd, o);
}
int flock(int fd, int op) {
    REAL(flock);
    if (!minefd(fd) || (op & (LOCK_NB | LOCK_UN))) return real_flock(fd, op);
    for (;;) {
        if (real_flock(fd, op | LOCK_NB) == 0) return 0;
        if (errno != EWOULDBLOCK) return -1;
        PRE(LOCK, NULL, NULL, fd, 0, 0, NULL, 0);
    }
}
