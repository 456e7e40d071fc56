/* Interposes the file system calls of a parse (LD_PRELOAD).
 *
 * While mc_ctl.active, every open, opendir, read and readdir of a file of the
 * scenario (relative path, or path under mc_ctl.prefix) is numbered and logged, and the
 * answer to operation number dev[i].at is the one dev[i] says. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

enum { OPEN, READ, OPENDIR, READDIR };
enum { ERRNO = 1, SHORT = 2 };
#define NLOG 8192
#define NFD 4096
struct ctl {
    int active, ndev, live, overflow;
    long n, cap, sticky;
    struct { long at; int kind, val; } dev[4];
    long nlog;
    char prefix[1024];
    struct { int op, flags, ours, fd; char path[496]; } log[NLOG];
};
struct ctl mc_ctl;
static unsigned char ours[NFD];
static DIR *dirs[64];

static int mine(const char *p) {
    size_t n = strlen(mc_ctl.prefix);
    return p[0] != '/' || !strncmp(p, mc_ctl.prefix, n) || (n && strlen(p) == n - 1 && !strncmp(p, mc_ctl.prefix, n - 1));
}

static void note(int op, const char *p, int flags, int o, int fd) {
    if (mc_ctl.nlog >= NLOG) { mc_ctl.overflow = 1; return; }
    long i = mc_ctl.nlog++;
    mc_ctl.log[i].op = op;
    mc_ctl.log[i].flags = flags;
    mc_ctl.log[i].ours = o;
    mc_ctl.log[i].fd = fd;
    strncpy(mc_ctl.log[i].path, p, sizeof mc_ctl.log[i].path - 1);
    mc_ctl.log[i].path[sizeof mc_ctl.log[i].path - 1] = 0;
}

/* The deviation of the next operation: 0, or its kind with *val set. */
static int next(int *val) {
    long at = mc_ctl.n++;
    for (int i = 0; i < mc_ctl.ndev; i++)
        if (mc_ctl.dev[i].at == at || (mc_ctl.sticky && mc_ctl.dev[i].kind == ERRNO && mc_ctl.dev[i].at <= at)) {
            *val = mc_ctl.dev[i].val;
            return mc_ctl.dev[i].kind;
        }
    return 0;
}

#define REAL(name) ({ static __typeof__(name) *f; if (!f) f = (__typeof__(name) *)dlsym(RTLD_NEXT, #name); f; })

static int opened(const char *p, int flags, int fd) {
    note(OPEN, p, flags, mine(p), fd);
    if (mine(p) && fd >= 0 && fd < NFD) { ours[fd] = 1; mc_ctl.live++; }
    return fd;
}

#define OPEN_BODY(call)                                                                \
    mode_t mode = 0;                                                                   \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    if (!mc_ctl.active) return call;                                                   \
    int val = 0;                                                                       \
    if (mine(p) && next(&val) == ERRNO) { note(OPEN, p, flags, 1, -1); errno = val; return -1; } \
    return opened(p, flags, call);

int open(const char *p, int flags, ...) { OPEN_BODY(REAL(open)(p, flags, mode)) }
int open64(const char *p, int flags, ...) { OPEN_BODY(REAL(open64)(p, flags, mode)) }
int openat(int d, const char *p, int flags, ...) { OPEN_BODY(REAL(openat)(d, p, flags, mode)) }
int openat64(int d, const char *p, int flags, ...) { OPEN_BODY(REAL(openat64)(d, p, flags, mode)) }

int close(int fd) {
    if (fd >= 0 && fd < NFD && ours[fd]) { ours[fd] = 0; mc_ctl.live--; }
    return REAL(close)(fd);
}

ssize_t read(int fd, void *b, size_t n) {
    if (mc_ctl.active && fd >= 0 && fd < NFD && ours[fd]) {
        int val = 0, k = next(&val);
        note(READ, "", 0, 1, fd);
        if (k == ERRNO) { errno = val; return -1; }
        if (k == SHORT && n > (size_t)val) n = val;
        if (mc_ctl.cap && n > (size_t)mc_ctl.cap) n = mc_ctl.cap;
    }
    return REAL(read)(fd, b, n);
}

DIR *opendir(const char *p) {
    if (!mc_ctl.active) return REAL(opendir)(p);
    int val = 0;
    note(OPENDIR, p, 0, mine(p), -1);
    if (mine(p) && next(&val) == ERRNO) { errno = val; return 0; }
    DIR *d = REAL(opendir)(p);
    if (d && mine(p))
        for (int i = 0; i < 64; i++) if (!dirs[i]) { dirs[i] = d; mc_ctl.live++; break; }
    return d;
}

int closedir(DIR *d) {
    for (int i = 0; i < 64; i++) if (d && dirs[i] == d) { dirs[i] = 0; mc_ctl.live--; break; }
    return REAL(closedir)(d);
}

static int dir_fault(DIR *d) {
    if (!mc_ctl.active) return 0;
    for (int i = 0; i < 64; i++)
        if (dirs[i] == d) {
            int val = 0, k = next(&val);
            note(READDIR, "", 0, 1, -1);
            if (k == ERRNO) { errno = val; return 1; }
        }
    return 0;
}

struct dirent *readdir(DIR *d) { return dir_fault(d) ? 0 : REAL(readdir)(d); }
struct dirent64 *readdir64(DIR *d) { return dir_fault(d) ? 0 : REAL(readdir64)(d); }
