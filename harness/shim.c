/*
 * Instrumentation linked with the real ftwin program (never with its sources):
 *  - the libc calls that look at files are interposed: each is logged (FTV_LOG) when
 *    its path lies under FTV_ROOT, and the n-th one on a path can fail or be
 *    preceded by a change of the file system (FTV_FAULTS);
 *  - seeded delays and spurious wakeups in the synchronisation calls (FTV_JITTER).
 *
 * FTV_FAULTS: '\n'-separated  <call> \t <path> \t <n> \t <action> [\t <arg>]
 *   path: * for any under FTV_ROOT
 *   call: open stat opendir read mmap      n: 0 = every, n > 0 the n-th on that path, n < 0 the |n|-th and later ones
 *   action: fail <errno> | unlink | rmtree | trunc <len> | rename <from> | remove <another path> | move <from>\1<another path> | short <max> | ident <dev>:<ino> (stat only:
 *   the entry is on another file system, where it has that inode number)
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <apr_pools.h>
#include <apr_strings.h>
#include <apr_thread_cond.h>
#include <apr_thread_mutex.h>
#include <apr_thread_proc.h>

/* ---- delays and spurious wakeups ---- */
static long jitter_seed;
static __thread uint64_t jr;
static uint64_t jrand(void)
{
    if (!jr) jr = (uint64_t) jitter_seed * 0x9E3779B97F4A7C15ull ^ (uint64_t) syscall(SYS_gettid) * 0xBF58476D1CE4E5B9ull;
    jr ^= jr << 13; jr ^= jr >> 7; jr ^= jr << 17;
    return jr;
}
static void jit(void) { if (jitter_seed) { uint64_t x = jrand() % 100; if (x < 12) usleep((useconds_t) (jrand() % 300)); else if (x < 40) sched_yield(); } }
apr_status_t __real_apr_thread_mutex_lock(apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_mutex_unlock(apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m);
apr_status_t __wrap_apr_thread_mutex_lock(apr_thread_mutex_t *m) { jit(); return __real_apr_thread_mutex_lock(m); }
apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m) { apr_status_t s = __real_apr_thread_mutex_unlock(m); jit(); return s; }
apr_status_t __wrap_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m)
{
    if (jitter_seed && jrand() % 100 < 15) {      /* a spurious wakeup, as POSIX allows */
        __real_apr_thread_mutex_unlock(m);
        usleep((useconds_t) (jrand() % 100));
        return __real_apr_thread_mutex_lock(m);
    }
    return __real_apr_thread_cond_wait(c, m);
}

/* ---- threads that cannot be created: the n-th of the run (FTV_NOTHREAD), as when a limit is reached ---- */
apr_status_t __real_apr_thread_create(apr_thread_t **t, apr_threadattr_t *a, apr_thread_start_t f, void *d, apr_pool_t *p);
apr_status_t __wrap_apr_thread_create(apr_thread_t **t, apr_threadattr_t *a, apr_thread_start_t f, void *d, apr_pool_t *p)
{
    static int n;
    const char *e = getenv("FTV_NOTHREAD");
    if (e && __atomic_fetch_add(&n, 1, __ATOMIC_RELAXED) == atoi(e)) return APR_EAGAIN;
    return __real_apr_thread_create(t, a, f, d, p);
}

#ifdef FTV_WEAK
/* ---- digests that collide: only low + 100 * high (FTV_HASHBITS) bits of the halves are kept ---- */
typedef struct { uint64_t low64, high64; } h128;
h128 __real_XXH3_128bits(const void *p, size_t n);
h128 __real_XXH3_128bits_digest(const void *st);
static h128 weaken(h128 h)
{
    const char *b = getenv("FTV_HASHBITS");
    if (!b) return h;
    int n = atoi(b) % 100, m = atoi(b) / 100;          /* bits kept of the low and of the high half */
    h.high64 &= m >= 64 ? ~0ull : (1ull << m) - 1;
    h.low64 &= n >= 64 ? ~0ull : (1ull << n) - 1;
    return h;
}
h128 __wrap_XXH3_128bits(const void *p, size_t n) { return weaken(__real_XXH3_128bits(p, n)); }
h128 __wrap_XXH3_128bits_digest(const void *st) { return weaken(__real_XXH3_128bits_digest(st)); }
#endif

#ifdef FTV_NOFILES
__attribute__((constructor)) static void init(void) { const char *j = getenv("FTV_JITTER"); if (j) jitter_seed = atol(j); }
#else
/* ---- file calls ---- */
struct fault { char call[12], action[12]; char path[4200], arg[4200]; long n, seen; };
static struct fault faults[1024];
static int nfault, active, logfd = -1;
static char root[4200];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char fdpath[1024][600];

static void field(char **s, char *out, size_t n)
{
    char *e = *s ? strpbrk(*s, "\t\n") : NULL;
    size_t l = *s ? (e ? (size_t) (e - *s) : strlen(*s)) : 0;
    if (l >= n) l = n - 1;
    if (*s) memcpy(out, *s, l);
    out[l] = 0;
    *s = e && *e == '\t' ? e + 1 : NULL;
}
__attribute__((constructor)) static void init(void)
{
    const char *r = getenv("FTV_ROOT"), *l = getenv("FTV_LOG"), *f = getenv("FTV_FAULTS"), *j = getenv("FTV_JITTER");
    if (j) jitter_seed = atol(j);
    if (r) snprintf(root, sizeof root, "%s", r);
    if (l) logfd = (int) syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    while (f && *f && nfault < 1024) {
        struct fault *x = &faults[nfault++];
        char n[32] = "", *s = (char *) f;
        field(&s, x->call, sizeof x->call); field(&s, x->path, sizeof x->path); field(&s, n, sizeof n); field(&s, x->action, sizeof x->action); field(&s, x->arg, sizeof x->arg);
        x->n = atol(n);
        f = strchr(f, '\n');
        if (f) f++;
    }
    active = r != NULL;
}
static void rmtree(const char *p)
{
    char cmd[4300];
    DIR *(*od)(const char *) = (DIR *(*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    DIR *d = od(p);
    struct dirent *e;
    while (d && (e = readdir(d))) { if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { snprintf(cmd, sizeof cmd, "%s/%s", p, e->d_name); if (syscall(SYS_unlinkat, AT_FDCWD, cmd, 0)) rmtree(cmd); } }
    if (d) closedir(d);
    syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
}
/* log the call; returns an errno to fail with, or 0; *lim is set for short reads */
static int hit(const char *call, const char *path, long flags, size_t *lim)
{
    if (!active || !path || strncmp(path, root, strlen(root))) return 0;
    int err = 0;
    pthread_mutex_lock(&mu);
    if (logfd >= 0) { char b[5000]; int n = snprintf(b, sizeof b, "%s\t%lx\t%s%c", call, flags, path, 0); if (n > 0) (void) !write(logfd, b, (size_t) n); }
    for (int i = 0; i < nfault; i++) {
        struct fault *x = &faults[i];
        if (strcmp(x->call, call) || (strcmp(x->path, path) && strcmp(x->path, "*"))) continue;
        x->seen++;
        if (x->n > 0 && x->seen != x->n) continue;
        if (x->n < 0 && x->seen < -x->n) continue;
        if (logfd >= 0) { char b[5000]; int n = snprintf(b, sizeof b, "FAULT\t%s\t%s%c", x->action, path, 0); if (n > 0) (void) !write(logfd, b, (size_t) n); }
        if (!strcmp(x->action, "fail")) err = atoi(x->arg);
        else if (!strcmp(x->action, "unlink")) syscall(SYS_unlinkat, AT_FDCWD, path, 0);
        else if (!strcmp(x->action, "rmtree")) rmtree(path);
        else if (!strcmp(x->action, "trunc")) syscall(SYS_truncate, path, atol(x->arg));
        else if (!strcmp(x->action, "rename")) syscall(SYS_renameat2, AT_FDCWD, x->arg, AT_FDCWD, path, 0);
        else if (!strcmp(x->action, "remove")) syscall(SYS_unlinkat, AT_FDCWD, x->arg, 0);
        else if (!strcmp(x->action, "move")) { char b[4200], *to; snprintf(b, sizeof b, "%s", x->arg); to = strchr(b, 1); if (to) { *to++ = 0; syscall(SYS_renameat2, AT_FDCWD, b, AT_FDCWD, to, 0); } }
        else if (!strcmp(x->action, "short") && lim) *lim = (size_t) atol(x->arg);
    }
    pthread_mutex_unlock(&mu);
    return err;
}
static int track(int fd, const char *path) { if (active && fd >= 0 && fd < 1024 && !strncmp(path, root, strlen(root))) snprintf(fdpath[fd], sizeof fdpath[0], "%s", path); return fd; }
static int doopen(int dfd, const char *p, int fl, int mode)
{
    int e = hit("open", p, fl, NULL);
    if (e) { errno = e; return -1; }
    return track((int) syscall(SYS_openat, dfd, p, fl, mode), p);
}
#define OPENFN(name) int name(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(AT_FDCWD, p, fl, m); }
OPENFN(open)
#undef open64
OPENFN(open64)
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return doopen(d, p, fl, m); }
int close(int fd) { if (fd >= 0 && fd < 1024) fdpath[fd][0] = 0; return (int) syscall(SYS_close, fd); }
static void ident(const char *p, dev_t *dev, ino_t *ino)
{
    for (int i = 0; active && i < nfault; i++) if (!strcmp(faults[i].action, "ident") && !strcmp(faults[i].path, p)) { unsigned long d, n; if (sscanf(faults[i].arg, "%lu:%lu", &d, &n) == 2) { *dev = (dev_t) d; *ino = (ino_t) n; } }
}
#define STATFN(name, type, fl) int name(const char *p, struct type *b) { int e = hit("stat", p, 0, NULL); if (e) { errno = e; return -1; } int r = (int) syscall(SYS_newfstatat, AT_FDCWD, p, b, fl); if (!r) ident(p, &b->st_dev, &b->st_ino); return r; }
STATFN(stat, stat, 0)
STATFN(lstat, stat, AT_SYMLINK_NOFOLLOW)
STATFN(stat64, stat64, 0)
STATFN(lstat64, stat64, AT_SYMLINK_NOFOLLOW)
DIR *opendir(const char *p)
{
    static DIR *(*real)(const char *);
    int e = hit("opendir", p, 0, NULL);
    if (e) { errno = e; return NULL; }
    if (!real) real = (DIR *(*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    return real(p);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (active && fd >= 0 && fd < 1024 && fdpath[fd][0]) {
        size_t lim = n;
        int e = hit("read", fdpath[fd], (long) n, &lim);
        if (e) { errno = e; return -1; }
        if (lim < n) n = lim;
    }
    return syscall(SYS_read, fd, b, n);
}
static void *domap(void *a, size_t l, int pr, int fl, int fd, off_t o)
{
    if (active && fd >= 0 && fd < 1024 && fdpath[fd][0]) { int e = hit("mmap", fdpath[fd], (long) l, NULL); if (e) { errno = e; return MAP_FAILED; } }
    return (void *) syscall(SYS_mmap, a, l, pr, fl, fd, o);
}
void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) { return domap(a, l, pr, fl, fd, o); }
void *mmap64(void *a, size_t l, int pr, int fl, int fd, off_t o) { return domap(a, l, pr, fl, fd, o); }

/* ---- calls that change the file system: only logged ---- */
static void note(const char *call, const char *path)
{
    if (!active || logfd < 0) return;
    char b[5000];
    int n = snprintf(b, sizeof b, "CHANGE\t%s\t%s%c", call, path ? path : "", 0);
    if (n > 0) (void) !syscall(SYS_write, logfd, b, (size_t) n);
}
int unlink(const char *p) { note("unlink", p); return (int) syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { note("unlinkat", p); return (int) syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { note("rmdir", p); return (int) syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) { note("remove", p); return unlink(p) == 0 ? 0 : rmdir(p); }
int rename(const char *a, const char *b) { note("rename", a); return (int) syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d, const char *a, int e, const char *b) { note("rename", a); return (int) syscall(SYS_renameat2, d, a, e, b, 0); }
int mkdir(const char *p, mode_t m) { note("mkdir", p); return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int chmod(const char *p, mode_t m) { note("chmod", p); return (int) syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int fchmod(int f, mode_t m) { note("fchmod", ""); return (int) syscall(SYS_fchmod, f, m); }
int truncate(const char *p, off_t n) { note("truncate", p); return (int) syscall(SYS_truncate, p, n); }
int truncate64(const char *p, off_t n) { note("truncate", p); return (int) syscall(SYS_truncate, p, n); }
int ftruncate(int f, off_t n) { note("ftruncate", ""); return (int) syscall(SYS_ftruncate, f, n); }
int ftruncate64(int f, off_t n) { note("ftruncate", ""); return (int) syscall(SYS_ftruncate, f, n); }
int symlink(const char *a, const char *b) { note("symlink", b); return (int) syscall(SYS_symlinkat, a, AT_FDCWD, b); }
int link(const char *a, const char *b) { note("link", b); return (int) syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { note("utimensat", p); return (int) syscall(SYS_utimensat, d, p, t, f); }
int futimens(int d, const struct timespec t[2]) { note("futimens", ""); return (int) syscall(SYS_utimensat, d, NULL, t, 0); }
int mkstemp(char *t) { note("mkstemp", t); int (*r)(char *) = (int (*)(char *)) dlsym(RTLD_NEXT, "mkstemp"); return r(t); }
int mkstemp64(char *t) { note("mkstemp", t); int (*r)(char *) = (int (*)(char *)) dlsym(RTLD_NEXT, "mkstemp64"); return r(t); }
#endif
