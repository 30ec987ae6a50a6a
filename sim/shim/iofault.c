/* Simulated file system faults: LD_PRELOAD shim between the Python process and libc.
 *
 * Only operations on paths below the armed prefix are simulated; everything else passes straight through.
 * Every simulated operation is one numbered event.  The fault table says what happens at which event, so an
 * execution is a pure function of (program, fault table).  Directory listings are always delivered in an order
 * the simulator chooses (sorted, or a seeded permutation), never the order of the real file system.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { A_NONE, A_ERR, A_SHORT, A_EINTR, A_STICKY };
enum { K_OPENDIR = 1, K_READDIR, K_OPEN, K_READ };

static char prefix[4096];
static size_t prefix_len;
static int armed;
static long counter;
static unsigned order_seed;
static int dtype_unknown;
static long readcap;

#define MAXF 64
static struct { long at; int action, err, kind; } faults[MAXF];   /* kind 0: at counts every event */
static long kcount[8];
static int nfaults;
#define MAXLOG 256
static struct { long at; int kind, action, err; } flog[MAXLOG];
static int nlog;
static char sticky_path[4096];
static int sticky_err;

#define MAXFD 4096
static char fdtab[MAXFD];
static char *fdpath[MAXFD];

struct vdir { DIR *real; struct dirent64 **ents; int n, i; char path[4096]; struct vdir *next; };
static struct vdir *vdirs;

void sim_reset(void) {
    armed = 0; counter = 0; nfaults = 0; nlog = 0; order_seed = 0; dtype_unknown = 0; readcap = 0;
    sticky_path[0] = 0; memset(kcount, 0, sizeof kcount);
}
void sim_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); prefix_len = strlen(prefix); }
void sim_arm(int on) { armed = on; if (!on) sticky_path[0] = 0; }
void sim_add(long at, int action, int err, int kind) {
    if (nfaults < MAXF) { faults[nfaults].kind = kind; faults[nfaults].at = at; faults[nfaults].action = action; faults[nfaults++].err = err; }
}
void sim_mode(unsigned seed, int unknown, long cap) { order_seed = seed; dtype_unknown = unknown; readcap = cap; }
long sim_count(int kind) { return kind ? kcount[kind] : counter; }
int sim_nlog(void) { return nlog; }
long sim_log(int i, int f) {
    return f == 0 ? flog[i].at : f == 1 ? flog[i].kind : f == 2 ? flog[i].action : flog[i].err;
}
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fdtab[i] != 0; return n; }
int sim_open_dirs(void) { int n = 0; for (struct vdir *v = vdirs; v; v = v->next) n++; return n; }

static int under(const char *p) {
    if (!armed || !p || !prefix_len) return 0;
    for (const char *q = prefix; *q;) {                     /* ':' separates several prefixes */
        size_t n = strcspn(q, ":");
        if (n && strncmp(p, q, n) == 0 && (p[n] == 0 || p[n] == '/')) return 1;
        q += n + (q[n] == ':');
    }
    return 0;
}
static int event(int kind, const char *path, int *err) {
    counter++; kcount[kind]++;
    int act = A_NONE;
    if (sticky_path[0] && path && strcmp(path, sticky_path) == 0) { act = A_ERR; *err = sticky_err; }
    for (int i = 0; i < nfaults && act == A_NONE; i++)
        if (faults[i].kind ? faults[i].kind == kind && faults[i].at == kcount[kind] : faults[i].at == counter) { act = faults[i].action; *err = faults[i].err; }
    if (act == A_SHORT && kind != K_READ) act = A_NONE;
    if (act == A_EINTR && kind != K_READ && kind != K_OPEN) act = A_NONE;
    if (act == A_STICKY) {
        if (path) strncpy(sticky_path, path, sizeof sticky_path - 1);
        sticky_err = *err; act = A_ERR;
    }
    if (act == A_EINTR) { *err = EINTR; }
    if (act != A_NONE && nlog < MAXLOG) {
        flog[nlog].at = counter; flog[nlog].kind = kind; flog[nlog].action = act; flog[nlog++].err = *err;
    }
    return act;
}
static void track(int fd, const char *path) {
    if (fd >= 0 && fd < MAXFD) { fdtab[fd] = 1; free(fdpath[fd]); fdpath[fd] = strdup(path); }
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int sim_open(const char *path, int flags, mode_t mode, const char *sym) {
    static int (*ro)(const char *, int, ...); if (!ro) ro = dlsym(RTLD_NEXT, "open64");
    (void)sym;
    if (under(path)) {
        int err = 0, a = event(K_OPEN, path, &err);
        if (a == A_ERR || a == A_EINTR) { errno = err; return -1; }
        int fd = ro(path, flags, mode);
        track(fd, path);
        return fd;
    }
    return ro(path, flags, mode);
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return sim_open(path, flags, m, "open");
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return sim_open(path, flags, m, "open64");
}
static int sim_openat(int d, const char *path, int flags, mode_t mode) {
    REAL(int, "openat64", int, const char *, int, ...);
    if (under(path)) {
        int err = 0, a = event(K_OPEN, path, &err);
        if (a == A_ERR || a == A_EINTR) { errno = err; return -1; }
        int fd = real(d, path, flags, mode);
        track(fd, path);
        return fd;
    }
    return real(d, path, flags, mode);
}
int openat(int d, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return sim_openat(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return sim_openat(d, path, flags, m);
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (armed && fd >= 0 && fd < MAXFD && fdtab[fd]) {
        int err = 0, a = event(K_READ, fdpath[fd], &err);
        if (a == A_ERR || a == A_EINTR) { errno = err; return -1; }
        if (a == A_SHORT && n > 1) n = 1 + (size_t)err % (n < 64 ? n : 64);
        if (readcap > 0 && n > (size_t)readcap) n = (size_t)readcap;
    }
    return real(fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    REAL(ssize_t, "pread64", int, void *, size_t, off64_t);
    if (armed && fd >= 0 && fd < MAXFD && fdtab[fd]) {
        int err = 0, a = event(K_READ, fdpath[fd], &err);
        if (a == A_ERR || a == A_EINTR) { errno = err; return -1; }
        if (a == A_SHORT && n > 1) n = 1 + (size_t)err % (n < 64 ? n : 64);
    }
    return real(fd, buf, n, off);
}
int close(int fd) {
    REAL(int, "close", int);
    if (fd >= 0 && fd < MAXFD && fdtab[fd]) { fdtab[fd] = 0; free(fdpath[fd]); fdpath[fd] = 0; }
    return real(fd);
}

static int byname(const void *a, const void *b) {
    return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static DIR *adopt(DIR *d, const char *path) {
    static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
    struct vdir *v = calloc(1, sizeof *v);
    v->real = d; strncpy(v->path, path, sizeof v->path - 1);
    int cap = 64; v->ents = malloc(cap * sizeof *v->ents);
    struct dirent64 *e;
    while ((e = rd(d))) {
        if (v->n == cap) v->ents = realloc(v->ents, (cap *= 2) * sizeof *v->ents);
        struct dirent64 *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
        if (dtype_unknown) c->d_type = DT_UNKNOWN;
        v->ents[v->n++] = c;
    }
    qsort(v->ents, v->n, sizeof *v->ents, byname);
    if (order_seed) {
        unsigned s = order_seed * 2654435761u + 12345u;
        for (int i = v->n - 1; i > 0; i--) {
            s = s * 1103515245u + 12345u; int j = (s >> 16) % (i + 1);
            struct dirent64 *t = v->ents[i]; v->ents[i] = v->ents[j]; v->ents[j] = t;
        }
    }
    v->next = vdirs; vdirs = v;
    return d;
}
DIR *opendir(const char *path) {
    REAL(DIR *, "opendir", const char *);
    if (!under(path)) return real(path);
    int err = 0, a = event(K_OPENDIR, path, &err);
    if (a == A_ERR) { errno = err; return NULL; }
    DIR *d = real(path);
    return d ? adopt(d, path) : NULL;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, "fdopendir", int);
    if (armed && fd >= 0 && fd < MAXFD && fdtab[fd]) {
        int err = 0, a = event(K_OPENDIR, fdpath[fd], &err);
        if (a == A_ERR) { errno = err; return NULL; }
        char p[4096]; strncpy(p, fdpath[fd], sizeof p - 1); p[sizeof p - 1] = 0;
        DIR *d = real(fd);
        if (d) { fdtab[fd] = 0; return adopt(d, p); }
        return NULL;
    }
    return real(fd);
}
static struct dirent64 *sim_readdir(DIR *d) {
    static struct dirent64 *(*rd)(DIR *); if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
    for (struct vdir *v = vdirs; v; v = v->next) if (v->real == d) {
        if (armed) {
            int err = 0, a = event(K_READDIR, v->path, &err);
            if (a == A_ERR) { errno = err; return NULL; }
        }
        return v->i < v->n ? v->ents[v->i++] : NULL;
    }
    return rd(d);
}
struct dirent64 *readdir64(DIR *d) { return sim_readdir(d); }
struct dirent *readdir(DIR *d) { return (struct dirent *)sim_readdir(d); }
void rewinddir(DIR *d) {
    REAL(void, "rewinddir", DIR *);
    for (struct vdir *v = vdirs; v; v = v->next) if (v->real == d) { v->i = 0; return; }
    real(d);
}
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    for (struct vdir **p = &vdirs; *p; p = &(*p)->next) if ((*p)->real == d) {
        struct vdir *v = *p; *p = v->next;
        for (int i = 0; i < v->n; i++) free(v->ents[i]);
        free(v->ents); free(v);
        break;
    }
    return real(d);
}
