/* LD_PRELOAD seam for disk I/O: journals every operation on files below one
 * directory and makes chosen operations fail, transfer short, or stop.
 * Inactive (plain pass-through) until vsim_begin() is called in the process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_READ, OP_CLOSE, OP_LINK, OP_CHMOD, OP_LOCK };

#define MAXFD 4096
static char dir[PATH_MAX];
static size_t dirlen = 0;
static int active = 0;
static unsigned char tracked[MAXFD];   /* 1 file, 2 directory */
static long nops = 0;                  /* mutating operations seen */
static long nreads = 0;
static long injected = 0;

/* fault plan: operation number >= at (and < at + count) of a class fails */
static struct { int cls; long at; long count; int err; long shortlen; } plan[16];
static int nplan = 0;
static long seen[16];
static long cls_count[32];

static char *buf = NULL;
static size_t blen = 0, bcap = 0;

static void put(const void *p, size_t n)
{
    if (blen + n > bcap) {
        bcap = (blen + n) * 2 + 65536;
        buf = realloc(buf, bcap);
        if (!buf) abort();
    }
    memcpy(buf + blen, p, n);
    blen += n;
}

struct rec { int op; int err; long long ino; long long off; long long len; long long flags; int p1; int p2; long long data; };

static void record(int op, int err, long long ino, long long off, long long len, long long flags,
                   const char *p1, const char *p2, const void *data, long long n)
{
    struct rec r;
    r.op = op; r.err = err; r.ino = ino; r.off = off; r.len = len; r.flags = flags;
    r.p1 = p1 ? strlen(p1) : 0; r.p2 = p2 ? strlen(p2) : 0; r.data = n;
    put(&r, sizeof r);
    if (r.p1) put(p1, r.p1);
    if (r.p2) put(p2, r.p2);
    if (n) put(data, n);
}

#define REAL(name) static __typeof__(name) *real = NULL; if (!real) real = dlsym(RTLD_NEXT, #name)

void vsim_begin(const char *d)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    blen = 0; nops = 0; nreads = 0; injected = 0; nplan = 0;
    memset(cls_count, 0, sizeof cls_count);
    memset(tracked, 0, sizeof tracked);
    active = 1;
}
void vsim_end(void) { active = 0; nplan = 0; }
void vsim_plan_clear(void) { nplan = 0; }
void vsim_plan(int cls, long at, long count, int err, long shortlen)
{
    if (nplan < 16) {
        plan[nplan].cls = cls; plan[nplan].at = at; plan[nplan].count = count;
        plan[nplan].err = err; plan[nplan].shortlen = shortlen; seen[nplan] = 0; nplan++;
    }
}
long vsim_ops(void) { return nops; }
long vsim_injected(void) { return injected; }
long vsim_class(int c) { return cls_count[c]; }
size_t vsim_len(void) { return blen; }
const char *vsim_buf(void) { return buf; }

/* returns errno to fail with, or 0; *sh gets a short length (-1: none) */
static int fault(int cls, long *sh)
{
    int e = 0, i;
    if (sh) *sh = -1;
    if (cls != OP_READ) nops++; else nreads++;
    cls_count[cls]++;
    for (i = 0; i < nplan; i++) {
        if (plan[i].cls == cls || (plan[i].cls == 0 && cls != OP_READ && cls != OP_CLOSE && cls != OP_LOCK)) {
            long n = seen[i]++;
            if (n >= plan[i].at && n < plan[i].at + plan[i].count) {
                injected++;
                if (plan[i].shortlen >= 0) { if (sh) *sh = plan[i].shortlen; }
                else e = plan[i].err;
            }
        }
    }
    return e;
}

static int below(const char *abs) {
    return active && strncmp(abs, dir, dirlen) == 0 && (abs[dirlen] == '/' || abs[dirlen] == 0);
}

static const char *absolute(int at, const char *p, char *out)
{
    char base[PATH_MAX];
    if (!p) return NULL;
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return out; }
    if (at == AT_FDCWD) { if (!getcwd(base, sizeof base)) return NULL; }
    else {
        char l[64]; ssize_t n;
        snprintf(l, sizeof l, "/proc/self/fd/%d", at);
        n = readlink(l, base, sizeof base - 1);
        if (n < 0) return NULL;
        base[n] = 0;
    }
    if (strlen(base) + strlen(p) + 2 > PATH_MAX) return NULL;
    strcpy(out, base); strcat(out, "/"); strcat(out, p);
    return out;
}

static long long inode(int fd) { struct stat s; return fstat(fd, &s) == 0 ? (long long)s.st_ino : -1; }
static long long inode_of(const char *p) { struct stat s; return lstat(p, &s) == 0 ? (long long)s.st_ino : -1; }
static int isfile(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }

static int do_open(int at, const char *path, int flags, mode_t mode)
{
    REAL(openat);
    char a[PATH_MAX], r[PATH_MAX];
    int fd, e, was;
    struct stat s;
    if (!active || !absolute(at, path, a) || !below(a)) return real(at, path, flags, mode);
    if (realpath(a, r)) strcpy(a, r);
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) {
        e = fault(OP_OPEN, NULL);
        nops--;
        if (e) { errno = e; return -1; }
        fd = real(at, path, flags, mode);
        if (fd >= 0 && fd < MAXFD) tracked[fd] = fstat(fd, &s) == 0 && S_ISDIR(s.st_mode) ? 2 : 1;
        return fd;
    }
    e = fault(OP_OPEN, NULL);
    was = inode_of(a) != -1;
    if (e) { record(OP_OPEN, e, -1, 0, 0, flags, a, NULL, NULL, 0); errno = e; return -1; }
    fd = real(at, path, flags, mode);
    e = errno;
    if (fd >= 0) {
        if (fd < MAXFD) tracked[fd] = 1;
        record(OP_OPEN, 0, inode(fd), was, 0, flags, a, NULL, NULL, 0);
    } else record(OP_OPEN, e, -1, was, 0, flags, a, NULL, NULL, 0);
    errno = e;
    return fd;
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int at, const char *path, int flags, ...) { MODE(flags) return do_open(at, path, flags, mode); }
int openat64(int at, const char *path, int flags, ...) { MODE(flags) return do_open(at, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd)
{
    REAL(close);
    if (isfile(fd)) {
        int e = fault(OP_CLOSE, NULL);
        nops--;
        tracked[fd] = 0;
        if (e) { real(fd); errno = e; return -1; }
    }
    return real(fd);
}

int dup2(int a, int b) { REAL(dup2); int r = real(a, b); if (active && r >= 0 && r < MAXFD && a >= 0 && a < MAXFD) tracked[r] = tracked[a]; return r; }
int dup(int a) { REAL(dup); int r = real(a); if (active && r >= 0 && r < MAXFD && a >= 0 && a < MAXFD) tracked[r] = tracked[a]; return r; }

static ssize_t wr(int fd, const void *p, size_t n, off_t off, int positional)
{
    static ssize_t (*rw)(int, const void *, size_t) = NULL;
    static ssize_t (*rp)(int, const void *, size_t, off_t) = NULL;
    long sh; int e; ssize_t r;
    if (!rw) rw = dlsym(RTLD_NEXT, "write");
    if (!rp) rp = dlsym(RTLD_NEXT, "pwrite64");
    if (!isfile(fd)) return positional ? rp(fd, p, n, off) : rw(fd, p, n);
    e = fault(OP_WRITE, &sh);
    if (!positional) off = (fcntl(fd, F_GETFL) & O_APPEND) ? lseek(fd, 0, SEEK_END) : lseek(fd, 0, SEEK_CUR);
    if (e) { record(OP_WRITE, e, inode(fd), off, n, 0, NULL, NULL, NULL, 0); errno = e; return -1; }
    if (sh >= 0 && n > 1) { size_t m = sh < 1 ? 1 : (size_t)sh; if (m < n) n = m; }
    r = positional ? rp(fd, p, n, off) : rw(fd, p, n);
    e = errno;
    if (r >= 0) record(OP_WRITE, 0, inode(fd), off, r, 0, NULL, NULL, p, r);
    errno = e;
    return r;
}
ssize_t write(int fd, const void *p, size_t n) { return wr(fd, p, n, 0, 0); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t off) { return wr(fd, p, n, off, 1); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t off) { return wr(fd, p, n, off, 1); }
ssize_t writev(int fd, const struct iovec *iov, int c)
{
    REAL(writev);
    ssize_t t = 0; int i;
    if (!isfile(fd)) return real(fd, iov, c);
    for (i = 0; i < c; i++) {
        ssize_t r = wr(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return t;
}

static ssize_t copied(int out, off_t off, ssize_t r)
{
    char *b; static ssize_t (*rr)(int, void *, size_t, off_t) = NULL;
    char l[64]; int fd, e = errno; static int (*ro)(int, const char *, int, ...) = NULL;
    if (!rr) rr = dlsym(RTLD_NEXT, "pread64");
    if (!ro) ro = dlsym(RTLD_NEXT, "openat");
    if (r <= 0) return r;
    b = malloc(r);
    snprintf(l, sizeof l, "/proc/self/fd/%d", out);
    fd = ro(AT_FDCWD, l, O_RDONLY);
    if (rr(fd, b, r, off) == r) record(OP_WRITE, 0, inode(out), off, r, 0, NULL, NULL, b, r);
    { static int (*rc)(int) = NULL; if (!rc) rc = dlsym(RTLD_NEXT, "close"); rc(fd); }
    free(b);
    errno = e;
    return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n)
{
    REAL(sendfile);
    off_t off; int e;
    if (!isfile(out)) return real(out, in, o, n);
    e = fault(OP_WRITE, NULL);
    if (e) { errno = e; return -1; }
    off = lseek(out, 0, SEEK_CUR);
    return copied(out, off, real(out, in, o, n));
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return sendfile(out, in, (off_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    REAL(copy_file_range);
    off_t off; int e;
    if (!isfile(out)) return real(in, oi, out, oo, n, fl);
    e = fault(OP_WRITE, NULL);
    if (e) { errno = e; return -1; }
    off = oo ? *oo : lseek(out, 0, SEEK_CUR);
    return copied(out, off, real(in, oi, out, oo, n, fl));
}

static int trunc_fd(int fd, off_t len)
{
    static int (*real)(int, off_t) = NULL; int e, r;
    if (!real) real = dlsym(RTLD_NEXT, "ftruncate64");
    if (!isfile(fd)) return real(fd, len);
    e = fault(OP_TRUNC, NULL);
    if (e) { record(OP_TRUNC, e, inode(fd), 0, len, 0, NULL, NULL, NULL, 0); errno = e; return -1; }
    r = real(fd, len); e = errno;
    if (r == 0) record(OP_TRUNC, 0, inode(fd), 0, len, 0, NULL, NULL, NULL, 0);
    errno = e;
    return r;
}
int ftruncate(int fd, off_t len) { return trunc_fd(fd, len); }
int ftruncate64(int fd, off64_t len) { return trunc_fd(fd, len); }
static int trunc_path(const char *p, off_t len)
{
    static int (*real)(const char *, off_t) = NULL; char a[PATH_MAX]; int e, r;
    if (!real) real = dlsym(RTLD_NEXT, "truncate64");
    if (!active || !absolute(AT_FDCWD, p, a) || !below(a)) return real(p, len);
    e = fault(OP_TRUNC, NULL);
    if (e) { errno = e; return -1; }
    r = real(p, len); e = errno;
    if (r == 0) { struct stat s; stat(p, &s); record(OP_TRUNC, 0, s.st_ino, 0, len, 0, NULL, NULL, NULL, 0); }
    errno = e;
    return r;
}
int truncate(const char *p, off_t len) { return trunc_path(p, len); }
int truncate64(const char *p, off64_t len) { return trunc_path(p, len); }

static int do_sync(int fd, int (*real)(int))
{
    int e, r;
    if (!isfile(fd)) return real(fd);
    e = fault(OP_FSYNC, NULL);
    if (e) { record(OP_FSYNC, e, inode(fd), 0, 0, tracked[fd], NULL, NULL, NULL, 0); errno = e; return -1; }
    r = 0;      /* the simulated disk decides what a sync means */
    record(OP_FSYNC, 0, inode(fd), 0, 0, tracked[fd], NULL, NULL, NULL, 0);
    return r;
}
int fsync(int fd) { REAL(fsync); return do_sync(fd, real); }
int fdatasync(int fd) { REAL(fdatasync); return do_sync(fd, real); }
void sync(void) { REAL(sync); if (active) { nops++; record(OP_FSYNC, 0, -2, 0, 0, 3, NULL, NULL, NULL, 0); } else real(); }
int syncfs(int fd) { REAL(syncfs); if (active && isfile(fd)) { nops++; record(OP_FSYNC, 0, -2, 0, 0, 3, NULL, NULL, NULL, 0); return 0; } return real(fd); }

static int do_rename(int a1, const char *p, int a2, const char *q, unsigned flags)
{
    static int (*real)(int, const char *, int, const char *, unsigned) = NULL;
    char a[PATH_MAX], b[PATH_MAX]; int e, r; long long ino;
    if (!real) real = dlsym(RTLD_NEXT, "renameat2");
    if (!active || !absolute(a1, p, a) || !absolute(a2, q, b) || (!below(a) && !below(b))) return real(a1, p, a2, q, flags);
    e = fault(OP_RENAME, NULL);
    if (e) { record(OP_RENAME, e, -1, 0, 0, flags, a, b, NULL, 0); errno = e; return -1; }
    ino = inode_of(a);
    r = real(a1, p, a2, q, flags); e = errno;
    if (r == 0) record(OP_RENAME, 0, ino, 0, 0, flags, a, b, NULL, 0);
    errno = e;
    return r;
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return do_rename(a, p, b, q, 0); }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { return do_rename(a, p, b, q, f); }

static int do_unlink(int at, const char *p, int flags)
{
    static int (*real)(int, const char *, int) = NULL; char a[PATH_MAX]; int e, r; long long ino;
    if (!real) real = dlsym(RTLD_NEXT, "unlinkat");
    if (!active || !absolute(at, p, a) || !below(a)) return real(at, p, flags);
    e = fault(OP_UNLINK, NULL);
    if (e) { record(OP_UNLINK, e, -1, 0, 0, 0, a, NULL, NULL, 0); errno = e; return -1; }
    ino = inode_of(a);
    r = real(at, p, flags); e = errno;
    if (r == 0) record(OP_UNLINK, 0, ino, 0, 0, 0, a, NULL, NULL, 0);
    errno = e;
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int at, const char *p, int f) { return do_unlink(at, p, f); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0); }

int linkat(int a1, const char *p, int a2, const char *q, int flags)
{
    REAL(linkat);
    char a[PATH_MAX], b[PATH_MAX]; int e, r;
    if (!active || !absolute(a1, p, a) || !absolute(a2, q, b) || !below(b)) return real(a1, p, a2, q, flags);
    e = fault(OP_LINK, NULL);
    if (e) { errno = e; return -1; }
    r = real(a1, p, a2, q, flags); e = errno;
    if (r == 0) record(OP_LINK, 0, inode_of(b), 0, 0, 0, a, b, NULL, 0);
    errno = e;
    return r;
}
int link(const char *p, const char *q) { return linkat(AT_FDCWD, p, AT_FDCWD, q, 0); }

static ssize_t rd(int fd, void *p, size_t n, off_t off, int positional)
{
    static ssize_t (*rr)(int, void *, size_t) = NULL;
    static ssize_t (*rp)(int, void *, size_t, off_t) = NULL;
    long sh; int e;
    if (!rr) rr = dlsym(RTLD_NEXT, "read");
    if (!rp) rp = dlsym(RTLD_NEXT, "pread64");
    if (isfile(fd)) {
        e = fault(OP_READ, &sh);
        if (e) { errno = e; return -1; }
        if (sh >= 0 && n > 1) { size_t m = sh < 1 ? 1 : (size_t)sh; if (m < n) n = m; }
    }
    return positional ? rp(fd, p, n, off) : rr(fd, p, n);
}
ssize_t read(int fd, void *p, size_t n) { return rd(fd, p, n, 0, 0); }
ssize_t pread(int fd, void *p, size_t n, off_t off) { return rd(fd, p, n, off, 1); }
ssize_t pread64(int fd, void *p, size_t n, off64_t off) { return rd(fd, p, n, off, 1); }
