// Shows the broker's program a directory of its own in the place of /etc/ratelmq.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char etc[PATH_MAX];

__attribute__((constructor)) static void init(void) {
    const char *e = getenv("SIM_PROGRAM_ETC");
    if (e) snprintf(etc, sizeof etc, "%s", e);
}

static const char *map(const char *p, char *b) {
    static const char at[] = "/etc/ratelmq";
    size_t n = sizeof at - 1;
    if (!p || !etc[0] || strncmp(p, at, n) || (p[n] && p[n] != '/')) return p;
    snprintf(b, PATH_MAX, "%s%s", etc, p + n);
    return b;
}

#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
#define MODE                                             \
    int mode = 0;                                        \
    if (flags & (O_CREAT | __O_TMPFILE)) {               \
        va_list ap;                                      \
        va_start(ap, flags);                             \
        mode = va_arg(ap, int);                          \
        va_end(ap);                                      \
    }                                                    \
    char b[PATH_MAX];

int open(const char *p, int flags, ...) {
    MODE return REAL(open)(map(p, b), flags, mode);
}
int open64(const char *p, int flags, ...) {
    MODE return REAL(open64)(map(p, b), flags, mode);
}
int openat(int d, const char *p, int flags, ...) {
    MODE return REAL(openat)(d, map(p, b), flags, mode);
}
int openat64(int d, const char *p, int flags, ...) {
    MODE return REAL(openat64)(d, map(p, b), flags, mode);
}
int stat(const char *p, struct stat *s) {
    char b[PATH_MAX];
    return REAL(stat)(map(p, b), s);
}
int stat64(const char *p, struct stat64 *s) {
    char b[PATH_MAX];
    return REAL(stat64)(map(p, b), s);
}
int lstat64(const char *p, struct stat64 *s) {
    char b[PATH_MAX];
    return REAL(lstat64)(map(p, b), s);
}
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
    char b[PATH_MAX];
    return REAL(statx)(d, map(p, b), f, m, s);
}
int access(const char *p, int m) {
    char b[PATH_MAX];
    return REAL(access)(map(p, b), m);
}
char *realpath(const char *p, char *r) {
    char b[PATH_MAX];
    return REAL(realpath)(map(p, b), r);
}
