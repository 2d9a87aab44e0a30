/* Preloaded into a child process: between "arm" and "disarm" (two unlinks of fake paths) it ends the
 * process at the CRASH_AT-th file-system call; a write dies half way through.  With CRASH_MODE=err
 * that call fails with ENOSPC instead (a write after half of its bytes). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static volatile int armed, count;

static int hit(void) {
    static int at = -1;
    if (!armed) return 0;
    if (at < 0) at = atoi(getenv("CRASH_AT") ? getenv("CRASH_AT") : "0");
    return __sync_add_and_fetch(&count, 1) == at;
}
static int err(void) {
    const char *m = getenv("CRASH_MODE");
    if (!m || strcmp(m, "err")) _exit(86);
    errno = ENOSPC;
    return -1;
}
#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)

int unlink(const char *p) {
    REAL(int, unlink, const char *);
    if (!strcmp(p, "/nargun-crash-shim-arm")) { armed = 1; count = 0; errno = ENOENT; return -1; }
    if (!strcmp(p, "/nargun-crash-shim-disarm")) { armed = 0; errno = ENOENT; return -1; }
    if (hit()) return err();
    return real(p);
}
int open64(const char *p, int f, ...) {
    REAL(int, open64, const char *, int, ...);
    va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a);
    if (hit()) return err();
    return real(p, f, m);
}
int open(const char *p, int f, ...) {
    REAL(int, open, const char *, int, ...);
    va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a);
    if (hit()) return err();
    return real(p, f, m);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (armed && n > 16) {
        static int full;
        if (full) { errno = ENOSPC; return -1; }
        if (hit()) { real(fd, b, n / 2); full = 1; return err() < 0 ? (ssize_t)(n / 2) : 0; }
        if (hit()) { real(fd, b, n - 1); _exit(86); }
    }
    return real(fd, b, n);
}
int rename(const char *x, const char *y) {
    REAL(int, rename, const char *, const char *);
    if (hit()) return err();
    int r = real(x, y);
    if (hit()) _exit(86);
    return r;
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (hit()) return err();
    return real(p, m);
}
int fsync(int fd) {
    REAL(int, fsync, int);
    if (hit()) return err();
    return real(fd);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    if (hit()) return err();
    return real(fd, n);
}
int close(int fd) {
    REAL(int, close, int);
    if (hit()) return err();
    return real(fd);
}
