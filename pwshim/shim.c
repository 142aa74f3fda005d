// System-call seam for ratelmq-passwd: records every file operation inside the scratch directory,
// lets the simulator fail, shorten or cut off any one of them, and makes entropy, clocks and the
// process id functions of the seed. fsync and friends are recorded but not performed: the
// simulator decides what is durable.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
static char tracked[MAXFD];
static char scratch[4096];
static size_t scratch_len;
static int log_fd = -1;
static long counter;
static uint64_t rng;
static long fault_at = -1;
static char fault_kind;
static long fault_arg;
static int ready;
static int ctl = -1;        // where to ask for leave before each operation
static long fake_pid = 4242;
static uint64_t now = 1600000000000000000ull;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *s = getenv("PWSIM_SCRATCH");
    const char *l = getenv("PWSIM_LOG");
    const char *f = getenv("PWSIM_FAULT");
    const char *x = getenv("PWSIM_SEED");
    const char *p = getenv("PWSIM_PID");
    const char *q = getenv("PWSIM_CTL");
    rng = x ? strtoull(x, 0, 10) : 1;
    if (p) fake_pid = atol(p);
    if (q) ctl = atoi(q);
    if (s) {
        strncpy(scratch, s, sizeof scratch - 1);
        scratch_len = strlen(scratch);
    }
    if (l) {
        long fd = raw(SYS_openat, AT_FDCWD, (long)l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600, 0, 0);
        if (fd >= 0) {
            // out of the way of the numbers the tool sees
            long hi = raw(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 1000, 0, 0, 0);
            raw(SYS_close, fd, 0, 0, 0, 0, 0);
            log_fd = (int)hi;
        }
    }
    if (f && *f) {
        char *end;
        fault_at = strtol(f, &end, 10);
        while (*end == ' ') end++;
        fault_kind = *end ? *end++ : 0;
        fault_arg = strtol(end, 0, 10);
    }
}

__attribute__((constructor)) static void start(void) { init(); }

// Waits until the scheduler gives leave for the next operation. 'g': about to do one; 'b': the last one
// found a lock held by another.
static void leave(char why) {
    init();
    if (ctl < 0) return;
    char c = why;
    if (raw(SYS_write, ctl, (long)&c, 1, 0, 0, 0) != 1) _exit(98);
    if (raw(SYS_read, ctl, (long)&c, 1, 0, 0, 0) != 1) _exit(98);
}

static uint64_t next(void) {
    uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void put(const char *s, size_t n) {
    while (n) {
        long r = raw(SYS_write, log_fd, (long)s, n, 0, 0, 0);
        if (r <= 0) _exit(97);
        s += r;
        n -= r;
    }
}

static char line[1 << 16];
static size_t fill;
static void add(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(line + fill, sizeof line - fill, fmt, ap);
    va_end(ap);
    if (n > 0) fill += n;
    if (fill > sizeof line - 1) fill = sizeof line - 1;
}
static void hexout(const void *p, size_t n) {
    const unsigned char *b = p;
    static const char d[] = "0123456789abcdef";
    if (n == 0) add("-");
    for (size_t i = 0; i < n; i++) {
        if (fill + 2 >= sizeof line) {
            put(line, fill);
            fill = 0;
        }
        line[fill++] = d[b[i] >> 4];
        line[fill++] = d[b[i] & 15];
    }
}
static void flush_line(void) {
    if (log_fd >= 0) {
        line[fill++] = '\n';
        put(line, fill);
    }
    fill = 0;
}

static int in_scratch(const char *path) {
    return scratch_len && path && !strncmp(path, scratch, scratch_len) &&
           (path[scratch_len] == '/' || path[scratch_len] == 0);
}
static int fd_tracked(int fd) { return fd >= 0 && fd < MAXFD && tracked[fd]; }
static void absolute(int dirfd, const char *path, char *out, size_t n) {
    if (!path) path = "";
    if (path[0] == '/') {
        snprintf(out, n, "%s", path);
        return;
    }
    char base[4096] = "";
    if (dirfd == AT_FDCWD) {
        long r = raw(SYS_getcwd, (long)base, sizeof base, 0, 0, 0, 0);
        if (r < 0) base[0] = 0;
    } else {
        char proc[64];
        snprintf(proc, sizeof proc, "/proc/self/fd/%d", dirfd);
        long r = raw(SYS_readlink, (long)proc, (long)base, sizeof base - 1, 0, 0, 0);
        if (r < 0) r = 0;
        base[r] = 0;
    }
    snprintf(out, n, "%s/%s", base, path);
}

// Starts the next recorded operation. Returns the errno to fail with, or 0.
static long idx;
static int sticky;
static int begin(const char *op, int writes) {
    leave('g');
    idx = counter++;
    int hit = idx == fault_at;
    if (hit && fault_kind == 'K') {
        raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
    }
    add("%ld %s ", idx, op);
    if (hit && fault_kind == 'E') return (int)fault_arg;
    if (fault_kind == 'F' && idx >= fault_at && fault_at >= 0 && writes) {
        sticky = 1;
        return (int)fault_arg;
    }
    return 0;
}
static long short_of(long n) {
    // S: a short write; T: a torn write, after which the process dies
    if (idx == fault_at && (fault_kind == 'S' || fault_kind == 'T') && fault_arg < n) return fault_arg;
    return n;
}
static void after_write(void) {
    if (idx == fault_at && fault_kind == 'T')
        raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
}
static long done(long r) {
    // r is a raw result
    add(" = %ld", r);
    flush_line();
    return ret(r);
}

// ---------------------------------------------------------------- opening
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    char p[8192];
    absolute(dirfd, path, p, sizeof p);
    if (!in_scratch(p)) return (int)ret(raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    int e = begin("open", 0);
    add("%d %o ", flags, mode);
    hexout(p, strlen(p));
    if (e) return (int)done(-e);
    int existed = raw(SYS_faccessat, AT_FDCWD, (long)p, F_OK, 0, 0, 0) == 0;
    long fd = raw(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    add(" %d", existed);
    return (int)done(fd);
}
#define OPEN_BODY(dirfd)                                       \
    mode_t mode = 0;                                           \
    if (flags & (O_CREAT | O_TMPFILE)) {                       \
        va_list ap;                                            \
        va_start(ap, flags);                                   \
        mode = va_arg(ap, mode_t);                             \
        va_end(ap);                                            \
    }                                                          \
    return do_open(dirfd, path, flags, mode);
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int dirfd, const char *path, int flags, ...) { OPEN_BODY(dirfd) }
int openat64(int dirfd, const char *path, int flags, ...) { OPEN_BODY(dirfd) }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

int close(int fd) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
    int e = begin("close", 0);
    add("%d", fd);
    tracked[fd] = 0;
    long r = raw(SYS_close, fd, 0, 0, 0, 0, 0);
    return (int)done(e ? -e : r);
}

static int dup_of(int fd, long r) {
    if (r >= 0 && r < MAXFD && fd_tracked(fd)) {
        tracked[r] = 1;
        idx = counter++;
        add("%ld dup %d", idx, fd);
        return (int)done(r);
    }
    return (int)ret(r);
}
int dup(int fd) { return dup_of(fd, raw(SYS_dup, fd, 0, 0, 0, 0, 0)); }
int dup2(int fd, int to) { return dup_of(fd, raw(SYS_dup2, fd, to, 0, 0, 0, 0)); }
int dup3(int fd, int to, int fl) { return dup_of(fd, raw(SYS_dup3, fd, to, fl, 0, 0, 0)); }
static int locked(const char *op, int fd, long sys, long cmd, long arg, int wait);
static int do_fcntl(int fd, int cmd, long arg) {
    if (fd_tracked(fd) && (cmd == F_SETLK || cmd == F_OFD_SETLK)) return locked("fcntl", fd, SYS_fcntl, cmd, arg, 0);
    if (fd_tracked(fd) && (cmd == F_SETLKW || cmd == F_OFD_SETLKW))
        return locked("fcntl", fd, SYS_fcntl, ctl < 0 ? cmd : cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg, 1);
    long r = raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_of(fd, r);
    return (int)ret(r);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}

// ---------------------------------------------------------------- looking
// Not recorded, since nothing can be lost by it, but a place where another run may come in between.
static void look(int dirfd, const char *path) {
    init();
    if (ctl < 0) return;
    char p[8192];
    absolute(dirfd, path, p, sizeof p);
    if (in_scratch(p)) leave('g');
}
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict st) {
    const char *volatile q = p; // may be null, whatever the declaration says
    if (q && *q) look(d, q);
    else if (q && fd_tracked(d)) leave('g');
    return (int)ret(raw(SYS_statx, d, (long)q, fl, mask, (long)st, 0));
}
static int stated(int d, const char *p, void *st, int fl) {
    look(d, p);
    return (int)ret(raw(SYS_newfstatat, d, (long)p, (long)st, fl, 0, 0));
}
int stat(const char *restrict p, struct stat *restrict st) { return stated(AT_FDCWD, p, st, 0); }
int lstat(const char *restrict p, struct stat *restrict st) { return stated(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *restrict p, struct stat *restrict st, int fl) { return stated(d, p, st, fl); }
int stat64(const char *restrict p, struct stat64 *restrict st) { return stated(AT_FDCWD, p, st, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { return stated(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict st, int fl) { return stated(d, p, st, fl); }
int faccessat(int d, const char *p, int m, int fl) {
    look(d, p);
    return (int)ret(fl ? raw(SYS_faccessat2, d, (long)p, m, fl, 0, 0) : raw(SYS_faccessat, d, (long)p, m, 0, 0, 0));
}
int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
ssize_t readlinkat(int d, const char *restrict p, char *restrict b, size_t n) {
    look(d, p);
    return ret(raw(SYS_readlinkat, d, (long)p, (long)b, n, 0, 0));
}
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }

// ---------------------------------------------------------------- locks and waiting
static int locked(const char *op, int fd, long sys, long cmd, long arg, int wait) {
    int e = begin(op, 0);
    add("%d %ld", fd, cmd);
    if (e) return (int)done(-e);
    for (;;) {
        long r = raw(sys, fd, cmd, arg, 0, 0, 0);
        if (wait && ctl >= 0 && (r == -EAGAIN || r == -EACCES)) {
            leave('b');
            continue;
        }
        return (int)done(r);
    }
}
int flock(int fd, int op) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_flock, fd, op, 0, 0, 0, 0));
    int wait = ctl >= 0 && !(op & LOCK_NB) && op != LOCK_UN;
    return locked("flock", fd, SYS_flock, wait ? op | LOCK_NB : op, 0, wait);
}
int sched_yield(void) {
    leave('g');
    return 0;
}
static int slept(const struct timespec *t) {
    leave('g');
    now += t->tv_sec * 1000000000ull + t->tv_nsec;
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    (void)rem;
    return slept(t);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *t, struct timespec *rem) {
    (void)id, (void)rem;
    if (!(fl & TIMER_ABSTIME)) return slept(t);
    leave('g');
    uint64_t to = t->tv_sec * 1000000000ull + t->tv_nsec;
    if (to > now) now = to;
    return 0;
}
int usleep(useconds_t us) {
    struct timespec t = {us / 1000000, us % 1000000 * 1000};
    return slept(&t);
}

// ---------------------------------------------------------------- reading
ssize_t read(int fd, void *buf, size_t n) {
    if (!fd_tracked(fd)) return ret(raw(SYS_read, fd, (long)buf, n, 0, 0, 0));
    int e = begin("read", 0);
    add("%d %zu", fd, n);
    if (e) return done(-e);
    if (idx == fault_at && fault_kind == 'S' && fault_arg > 0 && (size_t)fault_arg < n) n = fault_arg;
    return done(raw(SYS_read, fd, (long)buf, n, 0, 0, 0));
}

// ---------------------------------------------------------------- writing
static ssize_t wrote(int fd, const void *buf, long n, long off, int at) {
    int e = begin("write", 1);
    struct stat st;
    memset(&st, 0, sizeof st);
    long pos = off;
    if (!at) {
        int fl = (int)raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0);
        if (fl >= 0 && (fl & O_APPEND)) {
            pos = raw(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
        } else {
            pos = raw(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
        }
    }
    add("%d %ld ", fd, pos);
    if (e) {
        hexout(0, 0);
        return done(-e);
    }
    long m = short_of(n);
    long r = m == 0 && n > 0 ? 0 : (at ? raw(SYS_pwrite64, fd, (long)buf, m, off, 0, 0) : raw(SYS_write, fd, (long)buf, m, 0, 0, 0));
    hexout(buf, r > 0 ? r : 0);
    ssize_t x = done(r);
    after_write();
    return x;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!fd_tracked(fd)) return ret(raw(SYS_write, fd, (long)buf, n, 0, 0, 0));
    return wrote(fd, buf, n, 0, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    if (!fd_tracked(fd)) return ret(raw(SYS_pwrite64, fd, (long)buf, n, off, 0, 0));
    return wrote(fd, buf, n, off, 1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!fd_tracked(fd)) return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
    // a vectored write may stop after any byte: write the first non-empty piece
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return wrote(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}
static ssize_t copied(int in, off_t *inoff, int out, off_t *outoff, size_t n) {
    // as a read and a write: the pieces are what matters
    char buf[8192];
    if (n > sizeof buf) n = sizeof buf;
    long r = inoff ? raw(SYS_pread64, in, (long)buf, n, *inoff, 0, 0) : raw(SYS_read, in, (long)buf, n, 0, 0, 0);
    if (r <= 0) return ret(r);
    ssize_t w = outoff ? wrote(out, buf, r, *outoff, 1) : wrote(out, buf, r, 0, 0);
    long used = w < 0 ? 0 : w;
    if (inoff) *inoff += used;
    else raw(SYS_lseek, in, used - r, SEEK_CUR, 0, 0, 0);
    if (outoff) *outoff += used;
    return w;
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    if (!fd_tracked(out)) return ret(raw(SYS_copy_file_range, in, (long)io, out, (long)oo, n, fl));
    return copied(in, io, out, oo, n);
}
ssize_t sendfile(int out, int in, off_t *io, size_t n) {
    if (!fd_tracked(out)) return ret(raw(SYS_sendfile, out, in, (long)io, n, 0, 0));
    return copied(in, io, out, 0, n);
}
ssize_t sendfile64(int out, int in, off64_t *io, size_t n) { return sendfile(out, in, io, n); }
ssize_t splice(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    if (!fd_tracked(out) && !fd_tracked(in)) return ret(raw(SYS_splice, in, (long)io, out, (long)oo, n, fl));
    errno = EINVAL;
    return -1;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (fd_tracked(fd)) {
        errno = EOPNOTSUPP;
        return -1;
    }
    return (int)ret(raw(SYS_ioctl, fd, req, arg, 0, 0, 0));
}

int ftruncate(int fd, off_t n) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0));
    int e = begin("ftruncate", 0);
    add("%d %ld", fd, (long)n);
    return (int)done(e ? -e : raw(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char *path, off_t n) {
    char p[8192];
    absolute(AT_FDCWD, path, p, sizeof p);
    if (!in_scratch(p)) return (int)ret(raw(SYS_truncate, (long)path, n, 0, 0, 0, 0));
    int e = begin("truncate", 0);
    add("%ld ", (long)n);
    hexout(p, strlen(p));
    return (int)done(e ? -e : raw(SYS_truncate, (long)path, n, 0, 0, 0, 0));
}
int truncate64(const char *path, off_t n) { return truncate(path, n); }
int fallocate(int fd, int mode, off_t a, off_t n) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_fallocate, fd, mode, a, n, 0, 0));
    errno = EOPNOTSUPP;
    return -1;
}
int fallocate64(int fd, int mode, off_t a, off_t n) { return fallocate(fd, mode, a, n); }
int posix_fallocate(int fd, off_t a, off_t n) {
    if (!fd_tracked(fd)) return (int)-raw(SYS_fallocate, fd, 0, a, n, 0, 0);
    return EOPNOTSUPP;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    if (fd_tracked(fd) && (flags & MAP_SHARED) && (prot & PROT_WRITE)) {
        errno = ENODEV; // stores into a mapping cannot be observed
        return MAP_FAILED;
    }
    return (void *)ret(raw(SYS_mmap, (long)a, n, prot, flags, fd, off));
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }

// ---------------------------------------------------------------- durability
static int synced(const char *op, int fd) {
    int e = begin(op, 0);
    add("%d", fd);
    return (int)done(-e);
}
int fsync(int fd) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_fsync, fd, 0, 0, 0, 0, 0));
    return synced("fsync", fd);
}
int fdatasync(int fd) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_fdatasync, fd, 0, 0, 0, 0, 0));
    return synced("fsync", fd);
}
int syncfs(int fd) { return synced("sync", fd); }
void sync(void) { synced("sync", -1); }
int sync_file_range(int fd, off64_t a, off64_t n, unsigned fl) { // promises nothing
    (void)fd, (void)a, (void)n, (void)fl;
    return 0;
}

// ---------------------------------------------------------------- names
static int two(const char *op, int od, const char *o, int nd, const char *n, long sys, unsigned fl) {
    char a[8192], b[8192];
    absolute(od, o, a, sizeof a);
    absolute(nd, n, b, sizeof b);
    int in = in_scratch(b) || (strcmp(op, "symlink") && in_scratch(a));
    if (!in) {
        if (sys == SYS_symlinkat) return (int)ret(raw(sys, (long)o, nd, (long)n, 0, 0, 0));
        return (int)ret(raw(sys, od, (long)o, nd, (long)n, fl, 0));
    }
    int e = begin(op, 0);
    add("%u ", fl);
    if (sys == SYS_symlinkat) hexout(o, strlen(o));
    else hexout(a, strlen(a));
    add(" ");
    hexout(b, strlen(b));
    if (e) return (int)done(-e);
    if (sys == SYS_symlinkat) return (int)done(raw(sys, (long)o, nd, (long)n, 0, 0, 0));
    return (int)done(raw(sys, od, (long)o, nd, (long)n, fl, 0));
}
int rename(const char *o, const char *n) { return two("rename", AT_FDCWD, o, AT_FDCWD, n, SYS_renameat2, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return two("rename", od, o, nd, n, SYS_renameat2, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) {
    return two("rename", od, o, nd, n, SYS_renameat2, fl);
}
int link(const char *o, const char *n) { return two("link", AT_FDCWD, o, AT_FDCWD, n, SYS_linkat, 0); }
int linkat(int od, const char *o, int nd, const char *n, int fl) { return two("link", od, o, nd, n, SYS_linkat, fl); }
int symlink(const char *o, const char *n) { return two("symlink", AT_FDCWD, o, AT_FDCWD, n, SYS_symlinkat, 0); }
int symlinkat(const char *o, int nd, const char *n) { return two("symlink", AT_FDCWD, o, nd, n, SYS_symlinkat, 0); }

static int one(const char *op, int dirfd, const char *path, long sys, long extra) {
    char p[8192];
    absolute(dirfd, path, p, sizeof p);
    if (!in_scratch(p)) return (int)ret(raw(sys, dirfd, (long)path, extra, 0, 0, 0));
    int e = begin(op, 0);
    add("%ld ", extra);
    hexout(p, strlen(p));
    return (int)done(e ? -e : raw(sys, dirfd, (long)path, extra, 0, 0, 0));
}
int unlink(const char *p) { return one("unlink", AT_FDCWD, p, SYS_unlinkat, 0); }
int unlinkat(int d, const char *p, int fl) { return one(fl & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, SYS_unlinkat, fl); }
int rmdir(const char *p) { return one("rmdir", AT_FDCWD, p, SYS_unlinkat, AT_REMOVEDIR); }
int remove(const char *p) { return unlink(p); }
int mkdir(const char *p, mode_t m) { return one("mkdir", AT_FDCWD, p, SYS_mkdirat, m); }
int mkdirat(int d, const char *p, mode_t m) { return one("mkdir", d, p, SYS_mkdirat, m); }
int chmod(const char *p, mode_t m) { return one("chmod", AT_FDCWD, p, SYS_fchmodat, m); }
int fchmodat(int d, const char *p, mode_t m, int fl) {
    (void)fl;
    return one("chmod", d, p, SYS_fchmodat, m);
}
int fchmod(int fd, mode_t m) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_fchmod, fd, m, 0, 0, 0, 0));
    int e = begin("fchmod", 0);
    add("%d %o", fd, m);
    return (int)done(e ? -e : raw(SYS_fchmod, fd, m, 0, 0, 0, 0));
}
int fchown(int fd, uid_t u, gid_t g) {
    if (!fd_tracked(fd)) return (int)ret(raw(SYS_fchown, fd, u, g, 0, 0, 0));
    int e = begin("fchown", 0);
    add("%d %u %u", fd, u, g);
    return (int)done(e ? -e : raw(SYS_fchown, fd, u, g, 0, 0, 0));
}

// ---------------------------------------------------------------- entropy, clocks, identity
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    (void)fl;
    init();
    unsigned char *b = buf;
    for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(next() >> 32);
    return n;
}
int getentropy(void *buf, size_t n) {
    getrandom(buf, n, 0);
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    (void)id;
    now += 1000;
    ts->tv_sec = now / 1000000000ull;
    ts->tv_nsec = now % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    now += 1000;
    tv->tv_sec = now / 1000000000ull;
    tv->tv_usec = now % 1000000000ull / 1000;
    return 0;
}
time_t time(time_t *t) {
    time_t v = now / 1000000000ull;
    if (t) *t = v;
    return v;
}
pid_t getpid(void) {
    init();
    return (pid_t)fake_pid;
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    switch (n) {
    case SYS_getrandom:
        return getrandom((void *)a, b, c);
    case SYS_write:
        return write(a, (void *)b, c);
    case SYS_fsync:
        return fsync(a);
    case SYS_fdatasync:
        return fdatasync(a);
    case SYS_renameat2:
        return renameat2(a, (char *)b, c, (char *)d, e);
    case SYS_copy_file_range:
        return copy_file_range(a, (off64_t *)b, c, (off64_t *)d, e, f);
    case SYS_flock:
        return flock(a, b);
    case SYS_statx:
        return statx(a, (char *)b, c, d, (struct statx *)e);
    case SYS_openat:
        return do_open(a, (char *)b, c, d);
    }
    return ret(raw(n, a, b, c, d, e, f));
}
