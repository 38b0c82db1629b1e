/* libsimdisk: LD_PRELOAD seam between the process under simulation and the
 * file system.  Only paths below one prefix are touched by the simulator.
 *
 * Every mutating operation (create/truncate-open, write, unlink, rename,
 * mkdir, rmdir, ftruncate, link, fsync) below the prefix is an *event* with a
 * sequence number.  The simulator (Python, through ctypes) decides up front
 * what happens at which event:
 *    - fail once with errno E (no effect)                       [FAULT_ERR]
 *    - fail from event k on, with errno E (disk stays broken)   [FAULT_STICKY]
 *    - short write at k (legal partial write, caller retries)   [FAULT_SHORT]
 *    - torn write at k, then fail once with E                   [FAULT_TORN]
 *    - crash at k: the write at k is torn, and from then on nothing reaches
 *      the disk any more (every mutating op fails, file descriptors opened
 *      before the crash are dead for ever)                      [FAULT_CRASH]
 * Read-side: every open for reading, read, directory opening and stat below
 * the prefix is a *read event* with its own sequence number; the k-th can
 * fail.  Reads of a selected path can fail with EIO, reads can be
 * shortened, directory listings are permuted as a pure function of
 * (seed, directory, names).
 * Clock: the modification time of a file closed after writing is set to a
 * seeded instant (skewed and jumping clock).
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 65536
#define LOGCAP (1 << 22)

enum { F_NONE = 0, F_ERR = 1, F_STICKY = 2, F_SHORT = 3, F_TORN = 4, F_CRASH = 5 };

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int armed = 0;
static char prefix[PATH_MAX];
static size_t prefix_len = 0;

typedef struct { int64_t at; int kind; int err; int permille; } fault_t;
#define MAXF 64
static fault_t faults[MAXF];
static int nfaults = 0;

static int64_t events = 0;      /* mutating events so far */
static int dead = 0;            /* crash happened / sticky errno */
static int sticky_errno = 0;
static int64_t fired[16];       /* fired per fault kind; 8=read err 9=short read 10=short write(bg) 11=readdir perm 12=eintr 13=open read err*/
static uint32_t epoch = 1;
static uint64_t readdir_seed = 0;
static uint64_t shortio_seed = 0;
static int shortio_permille = 0;
static char readfail_path[PATH_MAX];
static int readfail_errno = 0;
static int64_t readfail_offset = 0;
static int readfail_open = 0;
static uint64_t io_calls = 0;
static int64_t revents = 0;     /* read events so far */
static int64_t rfault_at = -1;
static int rfault_err = 0;
static uint64_t mtime_seed = 0, mtime_n = 0;

typedef struct { char *path; uint32_t epoch; int dead; uint64_t nrw; int wr; } fdent;
static fdent fds[MAXFD];

static char *logbuf = NULL;
static size_t loglen = 0;

#define REAL(name) static __typeof__(name) *real_##name = NULL; \
    if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name);

static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}
static uint64_t hstr(uint64_t h, const char *s) {
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
    return mix(h, 0x51);
}

static void logf_(const char *op, const char *path, int64_t a, int64_t b) {
    if (!logbuf) { logbuf = malloc(LOGCAP); if (!logbuf) return; }
    if (loglen + 600 > LOGCAP) return;
    const char *rel = path;
    if (rel && prefix_len && !strncmp(rel, prefix, prefix_len)) rel += prefix_len;
    int n = snprintf(logbuf + loglen, 600, "%s %s %lld %lld\n", op, rel ? rel : "?", (long long)a, (long long)b);
    if (n > 0) loglen += (size_t)(n < 600 ? n : 599);
}

static int in_prefix(const char *abs) {
    return armed && prefix_len && !strncmp(abs, prefix, prefix_len) &&
           (abs[prefix_len] == '/' || abs[prefix_len] == 0);
}

/* resolve to an absolute path (no symlink resolution); returns 0 on success */
static int resolve(int dirfd, const char *path, char *out) {
    if (!path) return -1;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return -1;
        strcpy(out, path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) return -1;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return -1;
            base[n] = 0;
        }
        if ((size_t)snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return -1;
    }
    /* collapse "//" and "/./" */
    char *w = out; const char *r = out;
    while (*r) {
        if (r[0] == '/' && r[1] == '/') { r++; continue; }
        if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || r[2] == 0)) { r += 2; continue; }
        *w++ = *r++;
    }
    *w = 0;
    return 0;
}

/* gate for a mutating event without payload. returns 0=go, else errno */
static int gate(const char *op, const char *path, int64_t size, int *torn_permille, int *kind_out) {
    int rc = 0;
    *torn_permille = -1;
    *kind_out = 0;
    pthread_mutex_lock(&mu);
    int64_t n = events++;
    if (dead) {
        rc = sticky_errno ? sticky_errno : EIO;
        logf_("x", path, n, rc);
        pthread_mutex_unlock(&mu);
        return rc;
    }
    for (int i = 0; i < nfaults; i++) {
        if (faults[i].at != n) continue;
        fault_t f = faults[i];
        if (f.kind == F_SHORT) {
            if (size > 1) { *torn_permille = f.permille; *kind_out = F_SHORT; fired[F_SHORT]++; }
        } else if (f.kind == F_TORN) {
            fired[F_TORN]++;
            if (size > 0) *torn_permille = f.permille;
            *kind_out = F_TORN; rc = f.err;
        } else if (f.kind == F_CRASH) {
            fired[F_CRASH]++;
            if (size > 0) *torn_permille = f.permille;
            *kind_out = F_CRASH; dead = 1; sticky_errno = EIO; rc = EIO;
            epoch++;
        } else if (f.kind == F_STICKY) {
            fired[F_STICKY]++;
            dead = 1; sticky_errno = f.err; rc = f.err; *kind_out = F_STICKY;
        } else if (f.kind == F_ERR) {
            fired[F_ERR]++;
            rc = f.err; *kind_out = F_ERR;
        }
        break;
    }
    logf_(op, path, size, rc);
    pthread_mutex_unlock(&mu);
    return rc;
}

/* gate for a read event: 0=go, else errno */
static int rgate(const char *op, const char *path, int slot) {
    int rc = 0;
    pthread_mutex_lock(&mu);
    int64_t n = revents++;
    if (rfault_at >= 0 && n == rfault_at) {
        rc = rfault_err; fired[slot]++; rfault_at = -1;
        logf_(op, path, n, rc);
    }
    pthread_mutex_unlock(&mu);
    return rc;
}

static void track(int fd, const char *abs) {
    if (fd < 0 || fd >= MAXFD) return;
    pthread_mutex_lock(&mu);
    free(fds[fd].path);
    fds[fd].path = strdup(abs);
    fds[fd].epoch = epoch;
    fds[fd].dead = 0;
    fds[fd].nrw = 0;
    fds[fd].wr = 0;
    pthread_mutex_unlock(&mu);
}
static void untrack(int fd) {
    if (fd < 0 || fd >= MAXFD || !fds[fd].path) return;
    pthread_mutex_lock(&mu);
    free(fds[fd].path);
    fds[fd].path = NULL;
    pthread_mutex_unlock(&mu);
}
static int tracked(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].path != NULL; }
/* fd opened before a crash: never reaches the disk again, armed or not */
static int fd_dead(int fd) { return fds[fd].epoch != epoch; }

static int do_open(int (*ro)(int, const char *, int, ...), int dirfd, const char *path, int flags, mode_t mode) {
    char abs[PATH_MAX];
    if (!armed || resolve(dirfd, path, abs) || !in_prefix(abs)) {
        int fd = ro(dirfd, path, flags, mode);
        if (fd >= 0) untrack(fd);
        return fd;
    }
    int acc = flags & O_ACCMODE;
    if (acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
        int tp, k, e = gate("open", abs, 0, &tp, &k);
        if (e) { errno = e; return -1; }
    } else if (readfail_errno && readfail_open && !strcmp(abs, readfail_path)) {
        fired[13]++;
        errno = readfail_errno;
        return -1;
    } else {
        int e = rgate("ropen", abs, 13);
        if (e) { errno = e; return -1; }
    }
    int fd = ro(dirfd, path, flags, mode);
    if (fd >= 0) { track(fd, abs); if (acc != O_RDONLY) fds[fd].wr = 1; }
    return fd;
}

int openat(int dirfd, const char *path, int flags, ...) {
    mode_t mode = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(openat)
    return do_open(real_openat, dirfd, path, flags, mode);
}
int openat64(int dirfd, const char *path, int flags, ...) {
    mode_t mode = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(openat64)
    return do_open(real_openat64, dirfd, path, flags, mode);
}
int open(const char *path, int flags, ...) {
    mode_t mode = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(openat)
    return do_open(real_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    mode_t mode = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(ap, mode_t);
    va_end(ap);
    REAL(openat64)
    return do_open(real_openat64, AT_FDCWD, path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *fopen_common(FILE *(*rf)(const char *, const char *), const char *path, const char *mode) {
    char abs[PATH_MAX];
    if (!armed || resolve(AT_FDCWD, path, abs) || !in_prefix(abs)) return rf(path, mode);
    if (mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+')) {
        int tp, k, e = gate("open", abs, 0, &tp, &k);
        if (e) { errno = e; return NULL; }
    } else {
        int e = rgate("ropen", abs, 13);
        if (e) { errno = e; return NULL; }
    }
    FILE *f = rf(path, mode);
    if (f) track(fileno(f), abs);
    return f;
}
FILE *fopen(const char *path, const char *mode) { REAL(fopen) return fopen_common(real_fopen, path, mode); }
FILE *fopen64(const char *path, const char *mode) { REAL(fopen64) return fopen_common(real_fopen64, path, mode); }

int close(int fd) {
    REAL(close)
    if (armed && mtime_seed && tracked(fd) && fds[fd].wr && !fd_dead(fd) && in_prefix(fds[fd].path)) {
        uint64_t h = mix(mix(mtime_seed, 3), __sync_fetch_and_add(&mtime_n, 1));
        struct timespec ts[2];
        ts[0].tv_sec = ts[1].tv_sec = (time_t)(100000000 + h % 4000000000ULL);
        ts[0].tv_nsec = ts[1].tv_nsec = (long)((h >> 40) % 1000000000ULL);
        int e = errno; futimens(fd, ts); errno = e;
        fired[14]++;
    }
    untrack(fd);
    return real_close(fd);
}

static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off, int use_off) {
    REAL(write) REAL(pwrite64)
    #define RW(len) (use_off ? real_pwrite64(fd, buf, (len), off) : real_write(fd, buf, (len)))
    if (!tracked(fd)) return RW(n);
    if (fd_dead(fd)) { errno = EIO; return -1; }
    if (!armed || !in_prefix(fds[fd].path)) return RW(n);
    int tp, k, e = gate("write", fds[fd].path, (int64_t)n, &tp, &k);
    if (tp >= 0 && n > 0) {
        size_t part = (size_t)((double)n * tp / 1000.0);
        if (k == F_SHORT) { if (part < 1) part = 1; if (part >= n) part = n - 1; if (n == 1) part = 1; return RW(part); }
        if (part > n) part = n;
        if (part > 0) { ssize_t r = RW(part); (void)r; }
        errno = e;
        return -1;
    }
    if (e) { errno = e; return -1; }
    if (shortio_permille && n > 1) {
        uint64_t h = mix(mix(hstr(shortio_seed, fds[fd].path + prefix_len), fds[fd].nrw++), 7);
        if ((int)(h % 1000) < shortio_permille) {
            size_t part = 1 + (size_t)((h >> 20) % (n - 1));
            fired[10]++;
            return RW(part);
        }
    }
    return RW(n);
    #undef RW
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(writev)
    if (!tracked(fd)) return real_writev(fd, iov, cnt);
    size_t tot = 0;
    for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
    char *b = malloc(tot ? tot : 1);
    if (!b) { errno = ENOMEM; return -1; }
    size_t o = 0;
    for (int i = 0; i < cnt; i++) { memcpy(b + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t r = do_write(fd, b, tot, 0, 0);
    int e = errno; free(b); errno = e;
    return r;
}

static int read_gate(int fd, int64_t off, size_t *n) {
    if (!armed || !tracked(fd) || !in_prefix(fds[fd].path)) return 0;
    __sync_fetch_and_add(&io_calls, 1);
    if (readfail_errno && !readfail_open && !strcmp(fds[fd].path, readfail_path) && off + (int64_t)*n > readfail_offset) {
        __sync_fetch_and_add(&fired[8], 1);
        errno = readfail_errno;
        return -1;
    }
    int re = rgate("read", fds[fd].path, 8);
    if (re) { errno = re; return -1; }
    if (shortio_permille && *n > 1) {
        uint64_t h = mix(mix(hstr(shortio_seed, fds[fd].path + prefix_len), (uint64_t)off), *n);
        if ((int)(h % 1000) < shortio_permille) {
            *n = 1 + (size_t)((h >> 20) % (*n - 1));
            __sync_fetch_and_add(&fired[9], 1);
        }
    }
    return 0;
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read)
    if (armed && tracked(fd)) {
        int64_t off = lseek64(fd, 0, SEEK_CUR);
        if (read_gate(fd, off < 0 ? 0 : off, &n)) return -1;
    }
    return real_read(fd, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
    REAL(pread)
    if (read_gate(fd, off, &n)) return -1;
    return real_pread(fd, buf, n, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    REAL(pread64)
    if (read_gate(fd, off, &n)) return -1;
    return real_pread64(fd, buf, n, off);
}

#define SIMPLE_GATE(op, fdexpr, pathexpr) \
    char abs[PATH_MAX]; \
    if (armed && !resolve((fdexpr), (pathexpr), abs) && in_prefix(abs)) { \
        int tp, k, e = gate(op, abs, 0, &tp, &k); \
        if (e) { errno = e; return -1; } \
    }

int unlink(const char *p) { REAL(unlink) SIMPLE_GATE("unlink", AT_FDCWD, p) return real_unlink(p); }
int unlinkat(int d, const char *p, int f) {
    REAL(unlinkat) SIMPLE_GATE((f & AT_REMOVEDIR) ? "rmdir" : "unlink", d, p) return real_unlinkat(d, p, f); }
int remove(const char *p) { REAL(remove) SIMPLE_GATE("unlink", AT_FDCWD, p) return real_remove(p); }
int rmdir(const char *p) { REAL(rmdir) SIMPLE_GATE("rmdir", AT_FDCWD, p) return real_rmdir(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir) SIMPLE_GATE("mkdir", AT_FDCWD, p) return real_mkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat) SIMPLE_GATE("mkdir", d, p) return real_mkdirat(d, p, m); }
int rename(const char *a, const char *b) { REAL(rename) SIMPLE_GATE("rename", AT_FDCWD, b) return real_rename(a, b); }
int renameat(int d, const char *a, int d2, const char *b) {
    REAL(renameat) SIMPLE_GATE("rename", d2, b) return real_renameat(d, a, d2, b); }
int renameat2(int d, const char *a, int d2, const char *b, unsigned f) {
    REAL(renameat2) SIMPLE_GATE("rename", d2, b) return real_renameat2(d, a, d2, b, f); }
int link(const char *a, const char *b) { REAL(link) SIMPLE_GATE("link", AT_FDCWD, b) return real_link(a, b); }
int linkat(int d, const char *a, int d2, const char *b, int f) {
    REAL(linkat) SIMPLE_GATE("link", d2, b) return real_linkat(d, a, d2, b, f); }
int symlink(const char *a, const char *b) { REAL(symlink) SIMPLE_GATE("symlink", AT_FDCWD, b) return real_symlink(a, b); }
int truncate(const char *p, off_t l) { REAL(truncate) SIMPLE_GATE("truncate", AT_FDCWD, p) return real_truncate(p, l); }
int truncate64(const char *p, off64_t l) { REAL(truncate64) SIMPLE_GATE("truncate", AT_FDCWD, p) return real_truncate64(p, l); }
static int fgate(const char *op, int fd) {
    if (!tracked(fd)) return 0;
    if (fd_dead(fd)) return EIO;
    if (!armed || !in_prefix(fds[fd].path)) return 0;
    int tp, k;
    return gate(op, fds[fd].path, 0, &tp, &k);
}
int ftruncate(int fd, off_t l) { REAL(ftruncate) int e = fgate("ftruncate", fd); if (e) { errno = e; return -1; } return real_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64) int e = fgate("ftruncate", fd); if (e) { errno = e; return -1; } return real_ftruncate64(fd, l); }
int fsync(int fd) { REAL(fsync) int e = fgate("fsync", fd); if (e) { errno = e; return -1; } return real_fsync(fd); }
int fdatasync(int fd) { REAL(fdatasync) int e = fgate("fsync", fd); if (e) { errno = e; return -1; } return real_fdatasync(fd); }

/* ---- directory listings: seeded permutation ------------------------- */
typedef struct dperm { DIR *d; struct dirent64 *ents; int n, i; struct dperm *next; } dperm;
static dperm *dperms = NULL;
static uint64_t sort_h;
static int cmp_ent(const void *a, const void *b) {
    const struct dirent64 *x = a, *y = b;
    uint64_t hx = hstr(sort_h, x->d_name), hy = hstr(sort_h, y->d_name);
    if (hx < hy) return -1;
    if (hx > hy) return 1;
    return strcmp(x->d_name, y->d_name);
}
static struct dirent64 *next_ent(DIR *d) {
    REAL(readdir64)
    pthread_mutex_lock(&mu);
    dperm *p = dperms;
    while (p && p->d != d) p = p->next;
    if (!p) {
        int fd = dirfd(d);
        char link[64], base[PATH_MAX];
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(link, base, sizeof base - 1);
        if (n < 0) n = 0;
        base[n] = 0;
        if (!(armed && in_prefix(base) && readdir_seed)) { pthread_mutex_unlock(&mu); return real_readdir64(d); }
        p = calloc(1, sizeof *p);
        int cap = 16;
        p->d = d;
        p->ents = malloc(sizeof(struct dirent64) * cap);
        struct dirent64 *e;
        while ((e = real_readdir64(d))) {
            if (p->n == cap) { cap *= 2; p->ents = realloc(p->ents, sizeof(struct dirent64) * cap); }
            memset(&p->ents[p->n], 0, sizeof(struct dirent64));
            memcpy(&p->ents[p->n], e, e->d_reclen < sizeof(struct dirent64) ? e->d_reclen : sizeof(struct dirent64));
            p->n++;
        }
        sort_h = hstr(readdir_seed, base + prefix_len);
        qsort(p->ents, p->n, sizeof(struct dirent64), cmp_ent);
        p->next = dperms;
        dperms = p;
        fired[11]++;
    }
    struct dirent64 *r = p->i < p->n ? &p->ents[p->i++] : NULL;
    pthread_mutex_unlock(&mu);
    return r;
}
struct dirent64 *readdir64(DIR *d) { return next_ent(d); }
struct dirent *readdir(DIR *d) { return (struct dirent *)next_ent(d); }
static void drop_perm(DIR *d, int free_it) {
    pthread_mutex_lock(&mu);
    dperm **pp = &dperms;
    while (*pp && (*pp)->d != d) pp = &(*pp)->next;
    if (*pp) { dperm *p = *pp; if (free_it) { *pp = p->next; free(p->ents); free(p); } else p->i = 0; }
    pthread_mutex_unlock(&mu);
}
DIR *opendir(const char *p) {
    REAL(opendir)
    char abs[PATH_MAX];
    if (armed && !resolve(AT_FDCWD, p, abs) && in_prefix(abs)) {
        int e = rgate("opendir", abs, 12);
        if (e) { errno = e; return NULL; }
    }
    return real_opendir(p);
}
#define STATGATE(fdexpr, pathexpr) \
    char abs[PATH_MAX]; \
    if (armed && (pathexpr) && *(pathexpr) && !resolve((fdexpr), (pathexpr), abs) && in_prefix(abs)) { \
        int e = rgate("stat", abs, 15); \
        if (e) { errno = e; return -1; } \
    }
int stat(const char *p, struct stat *b) { REAL(stat) STATGATE(AT_FDCWD, p) return real_stat(p, b); }
int stat64(const char *p, struct stat64 *b) { REAL(stat64) STATGATE(AT_FDCWD, p) return real_stat64(p, b); }
int lstat(const char *p, struct stat *b) { REAL(lstat) STATGATE(AT_FDCWD, p) return real_lstat(p, b); }
int lstat64(const char *p, struct stat64 *b) { REAL(lstat64) STATGATE(AT_FDCWD, p) return real_lstat64(p, b); }
int fstatat(int d, const char *p, struct stat *b, int f) { REAL(fstatat) STATGATE(d, p) return real_fstatat(d, p, b, f); }
int fstatat64(int d, const char *p, struct stat64 *b, int f) { REAL(fstatat64) STATGATE(d, p) return real_fstatat64(d, p, b, f); }
int closedir(DIR *d) { REAL(closedir) drop_perm(d, 1); untrack(dirfd(d)); return real_closedir(d); }
void rewinddir(DIR *d) { REAL(rewinddir) drop_perm(d, 1); real_rewinddir(d); }

/* ---- control --------------------------------------------------------- */
int sim_present(void) { return 42; }
void sim_arm(const char *p) {
    pthread_mutex_lock(&mu);
    strncpy(prefix, p, PATH_MAX - 1);
    prefix_len = strlen(prefix);
    nfaults = 0; events = 0; dead = 0; sticky_errno = 0;
    memset(fired, 0, sizeof fired);
    readdir_seed = 0; shortio_seed = 0; shortio_permille = 0; readfail_errno = 0; io_calls = 0;
    revents = 0; rfault_at = -1; mtime_seed = 0; mtime_n = 0;
    loglen = 0;
    armed = 1;
    pthread_mutex_unlock(&mu);
}
/* stop injecting; descriptors opened before a crash stay dead */
void sim_disarm(void) { pthread_mutex_lock(&mu); armed = 0; pthread_mutex_unlock(&mu); }
void sim_rearm(void) { pthread_mutex_lock(&mu); armed = 1; pthread_mutex_unlock(&mu); }
void sim_heal(void) { pthread_mutex_lock(&mu); nfaults = 0; dead = 0; sticky_errno = 0; readfail_errno = 0; rfault_at = -1; pthread_mutex_unlock(&mu); }
void sim_rfault(int64_t at, int err) { pthread_mutex_lock(&mu); rfault_at = at; rfault_err = err; pthread_mutex_unlock(&mu); }
void sim_mtime_seed(uint64_t s) { mtime_seed = s; }
int64_t sim_revents(void) { return revents; }
int sim_add_fault(int64_t at, int kind, int err, int permille) {
    if (nfaults >= MAXF) return -1;
    faults[nfaults].at = at; faults[nfaults].kind = kind; faults[nfaults].err = err; faults[nfaults].permille = permille;
    nfaults++;
    return 0;
}
void sim_readdir_seed(uint64_t s) { readdir_seed = s; }
void sim_shortio(uint64_t s, int permille) { shortio_seed = s; shortio_permille = permille; }
void sim_readfail(const char *p, int err, int64_t offset, int on_open) {
    strncpy(readfail_path, p, PATH_MAX - 1); readfail_errno = err; readfail_offset = offset; readfail_open = on_open;
}
int64_t sim_events(void) { return events; }
int sim_is_dead(void) { return dead; }
int64_t sim_fired(int k) { return fired[k & 15]; }
int64_t sim_log(char *out, int64_t cap) {
    pthread_mutex_lock(&mu);
    int64_t n = (int64_t)loglen < cap ? (int64_t)loglen : cap;
    if (n && logbuf) memcpy(out, logbuf, (size_t)n);
    pthread_mutex_unlock(&mu);
    return n;
}
void sim_note(const char *s) { pthread_mutex_lock(&mu); logf_("#", s, events, 0); pthread_mutex_unlock(&mu); }
