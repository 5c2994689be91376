/* LD_PRELOAD shim: counts the file system calls of an armed process and stops it at a chosen one.
   mode 0: stop before the call.  mode 1..: for a write, let only part of the data through, then stop
   (1: one byte, 2: half, 3: all but one byte, 4: all).  mode 8: the call fails with the given errno.
   mode 9: a write is short (half) and the next one fails with the errno. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, count, at = -1, mode, err, again;
static int nlog;
static char logkind[65536];

int crash_count(void) { return count; }
int crash_kind(int i) { return i < nlog ? logkind[i] : 0; }
void crash_arm(int where, int m, int e) { count = 0; nlog = 0; at = where; mode = m; err = e; again = 0; armed = 1; }
void crash_disarm(void) { armed = 0; }

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

static int regular(int fd) { struct stat s; return fstat(fd, &s) == 0 && S_ISREG(s.st_mode); }

/* 0: go on, 1: the call fails (errno set), 2: part of a write */
static int point(char kind) {
    if (!armed) return 0;
    if (again && kind == 'w') { errno = err; return 1; }
    int k = count++;
    if (nlog < (int) sizeof logkind) logkind[nlog++] = kind;
    if (k != at) return 0;
    if (mode == 0) _exit(77);
    if (mode == 8) { armed = 0; errno = err; return 1; }
    if (kind == 'w') return 2;
    return 0;
}

static size_t part(size_t n) {
    switch (mode) {
        case 1: return n ? 1 : 0;
        case 2: return n / 2;
        case 3: return n ? n - 1 : 0;
        case 9: return n / 2;
        default: return n;
    }
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!armed || !regular(fd)) return real(fd, b, n);
    switch (point('w')) {
        case 1: return -1;
        case 2: {
            size_t m = part(n), done = 0;
            while (done < m) { ssize_t r = real(fd, (const char *) b + done, m - done); if (r <= 0) break; done += r; }
            if (mode == 9) { again = 1; if (done == 0) { errno = err; return -1; } return done; }
            _exit(77);
        }
    }
    return real(fd, b, n);
}

ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (point('p') == 1) return -1; return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (point('p') == 1) return -1; return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); if (regular(fd) && point('v') == 1) return -1; return real(fd, v, c); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { REAL(sendfile); if (point('s') == 1) return -1; return real(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(sendfile64); if (point('s') == 1) return -1; return real(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) { REAL(copy_file_range); if (point('s') == 1) return -1; return real(i, a, o, b, n, f); }
int fsync(int fd) { REAL(fsync); if (point('f') == 1) return -1; (void) real; return 0; }
int fdatasync(int fd) { REAL(fdatasync); if (point('f') == 1) return -1; (void) real; return 0; }
int rename(const char *a, const char *b) { REAL(rename); if (point('r') == 1) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); if (point('r') == 1) return -1; return real(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2); if (point('r') == 1) return -1; return real(x, a, y, b, f); }
int link(const char *a, const char *b) { REAL(link); if (point('l') == 1) return -1; return real(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(linkat); if (point('l') == 1) return -1; return real(x, a, y, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink); if (point('l') == 1) return -1; return real(a, b); }
int unlink(const char *a) { REAL(unlink); if (point('u') == 1) return -1; return real(a); }
int unlinkat(int x, const char *a, int f) { REAL(unlinkat); if (point('u') == 1) return -1; return real(x, a, f); }
int truncate(const char *a, off_t n) { REAL(truncate); if (point('t') == 1) return -1; return real(a, n); }
int truncate64(const char *a, off64_t n) { REAL(truncate64); if (point('t') == 1) return -1; return real(a, n); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (point('t') == 1) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (point('t') == 1) return -1; return real(fd, n); }
int close(int fd) { REAL(close); if (armed && regular(fd)) point('c'); return real(fd); }

#define OPEN(name, at_, call) \
    int name at_ { \
        REAL(name); \
        mode_t m = 0; \
        if (f & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, f); m = va_arg(v, mode_t); va_end(v); } \
        if ((f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && point('o') == 1) return -1; \
        return real call; \
    }
OPEN(open, (const char *p, int f, ...), (p, f, m))
OPEN(open64, (const char *p, int f, ...), (p, f, m))
OPEN(openat, (int d, const char *p, int f, ...), (d, p, f, m))
OPEN(openat64, (int d, const char *p, int f, ...), (d, p, f, m))
FILE *fopen(const char *p, const char *m) { REAL(fopen); if (strpbrk(m, "wa+") && point('o') == 1) return NULL; return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); if (strpbrk(m, "wa+") && point('o') == 1) return NULL; return real(p, m); }
