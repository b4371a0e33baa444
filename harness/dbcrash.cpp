// Crash and I/O-fault monitor of the storage engine.  The libc calls write, fsync, fdatasync,
// ftruncate (as reached through APR) are observed for the database file: the recorded
// operations give, at every moment, the durable image (contents at the last completed sync) and
// the set of writes that may or may not have reached the disk.  Stores made through the memory
// map are found by comparing the file with the tracked contents.
//   --mode crash : build the images a power cut could leave and open each with the real code
//   --mode fault : make the n-th call fail (EIO, ENOSPC, short write) and watch what follows
#include "dbcommon.hpp"
#include <apr_general.h>
#include <apr_pools.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#define MS_SYNC_ANY MS_SYNC
extern "C" {
#include "napr_db.h"
}

struct Ev { char t; off_t off; std::vector<unsigned char> d; };   // W write, T truncate
static dev_t g_dev; static ino_t g_ino; static bool g_track = false, g_armed = false;
static std::vector<unsigned char> g_durable, g_now; static std::vector<Ev> g_pend;
static long g_call, g_failat = -1; static int g_failkind; static char g_failwhat; static off_t g_failoff; static bool g_failed, g_nosync, g_unsynced;
static long n_ev_w, n_ev_s, n_ev_t, n_map;
static std::string g_db;
static void (*g_hook)() = nullptr;        // called after every observed event

static bool g_bypath = false;      // while the database is being opened: its file may not exist yet
static bool mine(int fd)
{
    if (g_bypath) { struct stat a, b; return fd >= 0 && fstat(fd, &a) == 0 && syscall(SYS_newfstatat, AT_FDCWD, g_db.c_str(), &b, 0) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev; }
    if (!g_track) return false; struct stat st; return fstat(fd, &st) == 0 && st.st_ino == g_ino && st.st_dev == g_dev; }
static void apply_ev(std::vector<unsigned char> &img, const Ev &e)
{
    if (e.t == 'T') { img.resize((size_t) e.off); return; }
    size_t end = (size_t) e.off + e.d.size(); if (img.size() < end) img.resize(end);
    memcpy(img.data() + e.off, e.d.data(), e.d.size());
}
static std::vector<unsigned char> rawfile()
{
    std::vector<unsigned char> v; int fd = (int) syscall(SYS_openat, AT_FDCWD, g_db.c_str(), O_RDONLY); if (fd < 0) return v;
    struct stat st; fstat(fd, &st); v.resize((size_t) st.st_size); if (!v.empty()) { ssize_t r = syscall(SYS_pread64, fd, v.data(), v.size(), 0); v.resize(r < 0 ? 0 : (size_t) r); } syscall(SYS_close, fd); return v;
}
static void absorb_map()   // stores made through the mapping since the last look
{
    if (!g_track) return;
    auto f = rawfile();
    if (f.size() > g_now.size()) { Ev e{'T', (off_t) f.size(), {}}; g_pend.push_back(e); g_now.resize(f.size()); }
    for (size_t o = 0; o + 512 <= f.size(); o += 512)
        if (memcmp(f.data() + o, g_now.data() + o, 512)) { Ev e{'W', (off_t) o, std::vector<unsigned char>(f.begin() + (long) o, f.begin() + (long) o + 512)}; g_pend.push_back(e); apply_ev(g_now, e); n_map++; }
}
static bool inject(char what, off_t off)
{
    if (!g_armed) return false;
    long c = g_call++;
    if (c == g_failat) { g_failed = true; g_failwhat = what; g_failoff = off; return true; }
    return false;
}
// What a failing call reports.  Kind 3 is an interrupted call: trying again is as good an answer as giving up.
static int errnos(char what)
{
    static const int w[] = {EIO, ENOSPC, EIO, EINTR, EDQUOT, EFBIG}, y[] = {EIO, ENOSPC, EIO, EINTR, EDQUOT, EROFS}, t[] = {EIO, ENOSPC, ENOSPC, EINTR, EDQUOT, EFBIG}, m[] = {ENOMEM, ENODEV, ENOMEM, EAGAIN, EACCES, ENFILE};
    return (what == 'W' ? w : what == 'S' ? y : what == 'T' ? t : m)[g_failkind];
}
static ssize_t observed_write(int fd, const void *b, size_t n, off_t off)
{
    size_t len = n;
    if (inject('W', off)) {
        if (g_failkind == 2 && n > 1) len = n / 2; else { errno = errnos('W'); return -1; }
    }
    if (g_nosync) g_unsynced = true;
    absorb_map();
    ssize_t r = syscall(SYS_pwrite64, fd, b, len, off);
    if (r > 0) { Ev e{'W', off, std::vector<unsigned char>((const unsigned char *) b, (const unsigned char *) b + r)}; apply_ev(g_now, e); g_pend.push_back(e); n_ev_w++; if (g_hook) g_hook(); }
    return r;
}
static int observed_sync(int fd, long nr)
{
    if (inject('S', -1)) { errno = errnos('S'); g_nosync = true; return -1; }
    int r = (int) syscall(nr, fd);
    if (r == 0) { g_nosync = false; absorb_map(); n_ev_s++; g_durable = g_now; g_pend.clear(); if (g_hook) g_hook(); }
    return r;
}
extern "C" {
ssize_t write(int fd, const void *b, size_t n)
{
    if (!mine(fd)) return syscall(SYS_write, fd, b, n);
    off_t pos = (off_t) syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ssize_t r = observed_write(fd, b, n, pos);
    if (r > 0) syscall(SYS_lseek, fd, pos + r, SEEK_SET);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return mine(fd) ? observed_write(fd, b, n, o) : syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
int fsync(int fd) { return mine(fd) ? observed_sync(fd, SYS_fsync) : (int) syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return mine(fd) ? observed_sync(fd, SYS_fdatasync) : (int) syscall(SYS_fdatasync, fd); }
int msync(void *a, size_t n, int f)
{
    if (!g_track) return (int) syscall(SYS_msync, a, n, f);
    int r = (int) syscall(SYS_msync, a, n, f);
    if (r == 0 && (f & MS_SYNC_ANY)) { absorb_map(); g_durable = g_now; g_pend.clear(); n_ev_s++; if (g_hook) g_hook(); }
    return r;
}
static int trunc_common(int fd, off_t n)
{
    if (mine(fd) && inject('T', n)) { errno = errnos('T'); return -1; }
    int r = (int) syscall(SYS_ftruncate, fd, n);
    if (r == 0 && mine(fd)) { Ev e{'T', n, {}}; apply_ev(g_now, e); g_pend.push_back(e); n_ev_t++; if (g_hook) g_hook(); }
    return r;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    if (fd >= 0 && g_armed && mine(fd) && inject('M', 0)) { errno = errnos('M'); return MAP_FAILED; }
    return (void *) syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t o) { return mmap(a, n, prot, flags, fd, o); }
int ftruncate(int fd, off_t n) { return trunc_common(fd, n); }
int ftruncate64(int fd, off_t n) { return trunc_common(fd, n); }
}

static std::string g_dir, g_log, g_mode = "crash", g_progress; static uint64_t g_hist; static std::vector<std::string> g_ops;
static long n_hist, n_commit, n_img, n_old, n_new, n_torn, n_fail, n_failed_commits, n_after, n_refused, n_lost, n_open_fail, n_open_fail_new, n_open_retry, n_open_map, n_open_sync, n_open_trunc, n_intr; static std::set<uint64_t> g_imgs, g_points;
static void op(const char *fmt, ...) { char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); g_ops.push_back(b); }
[[noreturn]] static void viol(const char *kind, const char *fmt, ...)
{
    char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    g_track = false;
    printf("VIOL %s history=%llu after %zu ops: %s\n", kind, (unsigned long long) g_hist, g_ops.size(), b);
    if (!g_log.empty()) { FILE *f = fopen(g_log.c_str(), "w"); if (f) { fprintf(f, "violation: %s history=%llu: %s\n", kind, (unsigned long long) g_hist, b); for (auto &o : g_ops) fprintf(f, "%s\n", o.c_str()); fclose(f); } }
    fflush(stdout); _exit(3);
}
static napr_db_val_t V(const std::string &s) { napr_db_val_t v; memset(&v, 0, sizeof v); v.data = (void *) s.data(); v.size = s.size(); return v; }

static Model read_all(napr_db_env_t *env, const char *kind)
{
    napr_db_txn_t *t = nullptr; apr_status_t s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t); if (s) viol(kind, "begin -> %d", s);
    napr_db_cursor_t *c = nullptr; napr_db_cursor_open(t, &c); Model m; napr_db_val_t k, d;
    for (s = napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST); s == APR_SUCCESS; s = napr_db_cursor_get(c, &k, &d, NAPR_DB_NEXT)) m[std::string((char *) k.data, k.size)] = std::string((char *) d.data, d.size);
    napr_db_cursor_close(c);
    for (auto &e : m) { napr_db_val_t kk = V(e.first); if (napr_db_get(t, &kk, &d) != APR_SUCCESS || std::string((char *) d.data, d.size) != e.second) viol(kind, "cursor and get disagree on %s", hexs(e.first).c_str()); }
    napr_db_txn_abort(t); return m;
}

static Model g_old, g_new, g_alt; static bool g_hasalt; static bool g_incommit, g_creating; static Rng *g_rng; static size_t g_mapsize = 64 << 20; static int g_budget;
static const char *g_point = "";

static void try_image(const std::vector<unsigned char> &img, const char *how)
{
    uint64_t h = 1469598103934665603ull; for (unsigned char c : img) h = (h ^ c) * 1099511628211ull;
    h ^= g_incommit ? 77 : 0;
    if (!g_imgs.insert(h).second) return;
    if (++n_img % 32 == 0 && !g_progress.empty()) utimensat(AT_FDCWD, g_progress.c_str(), nullptr, 0);     // alive
    bool tr = g_track; g_track = false;
    std::string p = g_dir + "/img.db"; int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    size_t o = 0; while (o < img.size()) { ssize_t r = syscall(SYS_pwrite64, fd, img.data() + o, img.size() - o, o); if (r <= 0) _exit(9); o += (size_t) r; }
    close(fd);
    apr_pool_t *pool; apr_pool_create(&pool, nullptr); napr_db_env_t *env; napr_db_env_create(&env, pool); napr_db_env_set_mapsize(env, g_mapsize);
    apr_status_t s = napr_db_env_open(env, p.c_str(), NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
    if (s) viol("recovery", "after a crash %s (%s) the database cannot be opened: %d (%zu bytes)", g_point, how, s, img.size());
    Audit a;
    { auto f = slurp(p); if (!a.run(f)) viol("recovery", "after a crash %s (%s): %s", g_point, how, a.err.c_str()); }
    Model m = read_all(env, "recovery");
    bool isold = m == g_old || (g_hasalt && m == g_alt), isnew = m == g_new;
    if (!g_incommit && !isnew && !isold) viol("durability", "after a crash %s (%s): a committed transaction is not (completely) there: %zu keys, expected %zu", g_point, how, m.size(), g_new.size());
    if (g_incommit && !isold && !isnew) viol("atomicity", "after a crash %s (%s): neither the state before nor after the commit: %zu keys (before %zu, after %zu)", g_point, how, m.size(), g_old.size(), g_new.size());
    if (isnew) n_new++; else n_old++;
    if (g_rng->pct(25)) {       // life goes on after recovery
        n_after++;
        for (int k = 0; k < 3; k++) {
            napr_db_txn_t *t = nullptr; if ((s = napr_db_txn_begin(env, 0, &t))) viol("recovery", "begin after recovery -> %d", s);
            for (int i = 0; i < 8; i++) { std::string kk = "r" + std::to_string(g_rng->below(500)), vv(30, 'r'); napr_db_val_t kv = V(kk), dv = V(vv); s = napr_db_put(t, &kv, &dv); if (s == APR_SUCCESS) m[kk] = vv; else if (s != APR_EEXIST) viol("recovery", "put after recovery -> %d", s); }
            if ((s = napr_db_txn_commit(t))) viol("recovery", "commit after recovery -> %d", s);
        }
        if (read_all(env, "recovery") != m) viol("recovery", "wrong contents after writing to a recovered database (crash %s, %s)", g_point, how);
        auto f = slurp(p); Audit b; if (!b.run(f)) viol("recovery", "after writing to a recovered database: %s", b.err.c_str());
    }
    napr_db_env_close(env); apr_pool_destroy(pool); unlink(p.c_str());
    g_track = tr;
}
static void crash_here()
{
    if (!g_rng) return;
    absorb_map();
    auto base = g_durable; size_t n = g_pend.size();
    g_points.insert(((uint64_t) n << 40) ^ (uint64_t) g_now.size() ^ (g_incommit ? 1ull << 60 : 0) ^ (g_hist << 20));
    try_image(base, "no unsynced write survived");
    { auto x = base; for (auto &e : g_pend) apply_ev(x, e); try_image(x, "all unsynced writes survived"); }
    if (n == 0) return;
    { auto x = base; for (size_t i = 0; i + 1 < n; i++) { apply_ev(x, g_pend[i]); if (n <= 12 || g_rng->pct(30)) try_image(x, "a prefix of the unsynced writes survived"); } }
    { auto x = base; for (size_t i = 0; i < n; i++) if (i + 1 == n) apply_ev(x, g_pend[i]); try_image(x, "only the last write survived"); }
    for (size_t i = n; i-- > 0;) if (g_pend[i].t == 'W' && g_pend[i].off < 2 * 4096) {          // a header page caught half-way: its first sector is lost
        auto x = base; for (size_t j = 0; j < i; j++) apply_ev(x, g_pend[j]);
        Ev y{'W', g_pend[i].off, std::vector<unsigned char>(512, g_rng->pct(50) ? 0 : 0xA5)}; apply_ev(x, y); n_lost++;
        if (!g_creating) try_image(x, "the first sector of a header page was lost");
        break;
    }
    for (int q = 0; q < g_budget; q++) {
        auto x = base; int p = g_rng->range(10, 90);
        for (auto &e : g_pend) {
            if (!g_rng->pct(p)) continue;
            if (e.t == 'W' && e.d.size() > 512 && g_rng->pct(40)) {        // torn: some 512-byte sectors only
                n_torn++;
                bool lost = g_rng->pct(30);          // the sector under the head when the power went is unreadable or holds garbage
                for (size_t o = 0; o < e.d.size(); o += 512) if (lost && g_rng->pct(25)) { Ev y{'W', e.off + (off_t) o, std::vector<unsigned char>(512, g_rng->pct(50) ? 0 : 0xA5)}; apply_ev(x, y); n_lost++; } else if (g_rng->pct(50)) { Ev y{'W', e.off + (off_t) o, std::vector<unsigned char>(e.d.begin() + (long) o, e.d.begin() + (long) std::min(e.d.size(), o + 512))}; apply_ev(x, y); }
            } else apply_ev(x, e);
        }
        try_image(x, "a subset of the unsynced writes survived");
    }
}

struct Hist {
    Rng r; apr_pool_t *pool; napr_db_env_t *env; Model cur; int style, vmax, space;
    explicit Hist(uint64_t s) : r(s) {}
    std::string key() { char b[48]; switch (style) { case 0: snprintf(b, 48, "k%04d", (int) r.below((uint64_t) space)); return b; case 1: return std::string(r.below(8) * 20 + 1, (char) ('a' + r.below(26))) + std::to_string(r.below((uint64_t) space)); default: snprintf(b, 48, "%08x", (unsigned) (r.below((uint64_t) space) * 2654435761u)); return b; } }
    void fill(napr_db_txn_t *t, Model &view, int nops)
    {
        for (int i = 0; i < nops; i++) {
            std::string k = key(); napr_db_val_t kv = V(k);
            if (r.pct(30)) { apr_status_t s = napr_db_del(t, &kv, nullptr); if ((s == APR_SUCCESS) != (view.count(k) > 0)) viol("map", "del -> %d", s); view.erase(k); }
            else { std::string v(r.below((uint64_t) vmax), (char) ('A' + r.below(26))); napr_db_val_t dv = V(v); apr_status_t s = napr_db_put(t, &kv, &dv); if (s == APR_SUCCESS) view[k] = v; else if (s != APR_EEXIST) viol("map", "put -> %d", s); }
        }
    }
    void openenv() { apr_pool_create(&pool, nullptr); napr_db_env_create(&env, pool); napr_db_env_set_mapsize(env, g_mapsize); apr_status_t s = napr_db_env_open(env, g_db.c_str(), NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK); if (s) viol("open", "open -> %d", s); }
    void closeenv() { napr_db_env_close(env); apr_pool_destroy(pool); }
    void trackfile() { struct stat st; if (stat(g_db.c_str(), &st)) viol("open", "no file"); g_dev = st.st_dev; g_ino = st.st_ino; g_now = rawfile(); g_durable = g_now; g_pend.clear(); g_track = true; }

    void crash()
    {
        static const int sp[] = {20, 200, 1500}; style = r.range(0, 2); vmax = r.pct(50) ? 60 : 900; space = sp[r.below(3)];
        unlink(g_db.c_str()); g_track = false; g_rng = nullptr; g_hasalt = false; g_old.clear(); g_new.clear(); g_incommit = true; g_hook = crash_here;
        // creation: watch from an empty file on
        { int fd = open(g_db.c_str(), O_CREAT | O_RDWR, 0600); close(fd); trackfile(); g_rng = &r; g_point = "while the database is being created"; g_budget = 2; g_creating = true; }
        openenv(); crash_here(); g_creating = false; g_incommit = false; g_point = "after creation"; crash_here();
        int txns = r.range(3, 14), base = r.pct(30) ? 60 : 6; g_budget = 6; napr_db_txn_t *pin = nullptr; Model pinm;
        for (int i = 0; i < txns; i++) {
            napr_db_txn_t *t = nullptr; apr_status_t s = napr_db_txn_begin(env, 0, &t); if (s) viol("api", "begin -> %d", s);
            Model view = cur; fill(t, view, r.range(1, base * 2));
            g_point = "with an uncommitted transaction open"; g_old = g_new = cur; crash_here();
            if (r.pct(12)) { napr_db_txn_abort(t); op("abort"); g_point = "after an abort"; crash_here(); continue; }
            g_old = cur; g_new = view; g_incommit = true; g_point = "inside a commit";
            s = napr_db_txn_commit(t); op("commit %zu keys -> %d", view.size(), s); if (s) viol("api", "commit -> %d", s);
            n_commit++; cur = view; g_incommit = false; g_old = cur; g_point = "after a commit returned"; crash_here();
            if (pin && r.pct(40)) { napr_db_txn_abort(pin); pin = nullptr; } else if (!pin && r.pct(20)) napr_db_txn_begin(env, NAPR_DB_RDONLY, &pin);
            if (!pin && r.pct(10)) { op("reopen"); closeenv(); g_point = "after closing"; crash_here(); openenv(); }
        }
        if (pin) napr_db_txn_abort(pin);
        closeenv(); g_point = "after closing"; crash_here(); g_track = false; g_hook = nullptr; n_hist++;
    }
    void reopen(bool &ambiguous, const Model &alt)
    {
        closeenv(); g_track = false; if (!ambiguous && r.pct(70)) openfaults(false); openenv(); trackfile(); Model m = read_all(env, "fault");
        if (m != cur && !(ambiguous && m == alt)) viol("fault", "after reopening the database shows %zu keys, expected %zu", m.size(), cur.size());
        cur = m; ambiguous = false;
    }
    static int nfds() { int n = 0; for (int fd = 0; fd < 256; fd++) if (syscall(SYS_fcntl, fd, F_GETFD) >= 0) n++; return n; }
    // Opening (also: creating) while calls fail: the failure is reported, a database that was there is not touched, and
    // the next opening shows exactly what was there.
    void openfaults(bool fresh)
    {
        g_track = false;
        for (int n = r.range(1, 3); n--;) {
            if (fresh && r.pct(50)) { unlink(g_db.c_str()); if (r.pct(40)) { int fd = open(g_db.c_str(), O_CREAT | O_RDWR, 0600); close(fd); } }
            auto before = rawfile(); int fds = nfds();
            apr_pool_t *p; apr_pool_create(&p, nullptr); napr_db_env_t *e = nullptr; napr_db_env_create(&e, p); napr_db_env_set_mapsize(e, g_mapsize);
            unsigned fl = NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK; if (!fresh && r.pct(30)) fl = NAPR_DB_RDONLY | NAPR_DB_INTRAPROCESS_LOCK;
            g_failed = false; g_call = 0; g_failat = r.range(0, 3); g_failkind = r.pct(70) ? r.range(0, 1) : r.range(3, 5); g_nosync = g_unsynced = false; g_bypath = g_armed = true;
            apr_status_t s = napr_db_env_open(e, g_db.c_str(), fl);
            g_bypath = g_armed = false;
            op("open with a fault at call %ld (%s) -> %d", g_failat, g_failed ? g_failwhat == 'M' ? "mapping" : g_failwhat == 'S' ? "sync" : g_failwhat == 'T' ? "resize" : "write" : "none", s);
            if (!g_failed && s) viol("fault", "open -> %d without any fault", s);
            if (g_failed && !s && !(g_failkind == 3 && g_failwhat != 'M' && !g_nosync && !g_unsynced)) viol("fault", "open reports success although %s failed", g_failwhat == 'M' ? "the mapping" : g_failwhat == 'S' ? "a sync" : g_failwhat == 'W' ? "a write" : "a resize");
            if (g_failed) { n_fail++; n_open_fail++; if (fresh) n_open_fail_new++; if (g_failwhat == 'M') n_open_map++; else if (g_failwhat == 'S') n_open_sync++; else n_open_trunc++; }
            if (!fresh && rawfile() != before) viol("fault", "opening the database (-> %d) changed its file", s);
            if (s && r.pct(40)) {        // the same handle again: refused or right
                n_open_retry++; s = napr_db_env_open(e, g_db.c_str(), fl); op("open again -> %d", s);
            }
            if (!s && read_all(e, "fault") != cur) viol("fault", "the database opened after a failure shows other keys than the %zu expected", cur.size());
            if (!s || r.pct(70)) napr_db_env_close(e);
            apr_pool_destroy(p);
            if (nfds() != fds) viol("fault", "opening the database (-> %d) and closing it leaves %d open descriptors, %d before", s, nfds(), fds);
        }
    }
    void fault()
    {
        static const int sp[] = {20, 200, 1500}; style = r.range(0, 2); vmax = r.pct(50) ? 60 : 900; space = sp[r.below(3)];
        unlink(g_db.c_str()); g_track = false; g_hook = nullptr; if (r.pct(60)) openfaults(true); openenv(); trackfile();
        int txns = r.range(4, 16); bool ambiguous = false; Model alt;
        for (int i = 0; i < txns; i++) {
            napr_db_txn_t *t = nullptr; apr_status_t s = napr_db_txn_begin(env, 0, &t);
            if (s && ambiguous) {        // a failed commit may make the handle refuse further writes: the database must open again
                n_refused++; op("begin refused after a failed commit -> %d", s); reopen(ambiguous, alt); s = napr_db_txn_begin(env, 0, &t);
            }
            if (s) viol("fault", "begin -> %d", s);
            Model view = cur; fill(t, view, r.range(1, 30));
            g_failed = false; g_armed = r.pct(60); g_call = 0; g_failat = r.range(0, 9); g_failkind = r.range(0, 5); g_nosync = g_unsynced = false;
            bool chk = r.pct(50);
            if (chk) { g_rng = &r; g_budget = 1; g_old = cur; g_new = view; g_incommit = true; g_hasalt = ambiguous; g_alt = alt; g_point = "inside a commit (with an injected fault)"; g_hook = crash_here; }
            s = napr_db_txn_commit(t); g_armed = false;
            if (chk) { crash_here(); g_hook = nullptr; g_incommit = false; }
            op("commit %zu keys, fault %s at call %ld kind %d -> %d", view.size(), g_failed ? "hit" : "none", g_failat, g_failkind, s);
            bool shortw = g_failed && ((g_failwhat == 'W' && g_failkind == 2) || (g_failkind == 3 && !g_nosync && !g_unsynced)); if (g_failed && g_failkind == 3) n_intr++;
            if (!g_failed && s) viol("fault", "commit -> %d without any fault", s);
            if (g_failed) n_fail++;
            if (g_failed && !shortw && s == APR_SUCCESS) viol("fault", "commit reports success although %s failed", g_failwhat == 'S' ? "a sync" : g_failwhat == 'W' ? "a write" : "a resize");
            if (s == APR_SUCCESS) { cur = view; n_commit++; ambiguous = false; }
            else { n_failed_commits++; ambiguous = true; alt = view; }
            if (chk && s == APR_SUCCESS) { g_old = g_new = cur; g_hasalt = false; g_point = "after a commit returned"; crash_here(); }
            Model m = read_all(env, "fault");
            if (m != cur) viol("fault", "after a %s commit the database shows %zu keys, expected %zu", s ? "failed" : "successful", m.size(), cur.size());
            if (r.pct(15)) {
                op("reopen"); reopen(ambiguous, alt);
            }
            if (!ambiguous) { auto f = rawfile(); Audit a; if (!a.run(f)) viol("fault", "page audit: %s", a.err.c_str()); if (a.content != cur) viol("fault", "page audit: wrong contents on disk"); }
        }
        closeenv(); g_track = false; n_hist++;
    }
};

int main(int argc, char **argv)
{
    uint64_t seed = 1, first = 0, count = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char *v = argv[i + 1];
        if (a == "--dir") g_dir = v; else if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--first") first = strtoull(v, 0, 10);
        else if (a == "--count") count = strtoull(v, 0, 10); else if (a == "--mode") g_mode = v; else if (a == "--log") g_log = v; else if (a == "--progress") g_progress = v;
    }
    apr_initialize(); g_db = g_dir + "/c.db";
    for (g_hist = first; g_hist < first + count; g_hist++) {
        if (!g_progress.empty()) { FILE *f = fopen(g_progress.c_str(), "w"); fprintf(f, "%llu\n", (unsigned long long) g_hist); fclose(f); }
        g_ops.clear(); g_imgs.clear(); Hist h(seed * 1000003ull + g_hist * 104729ull + (g_mode == "crash" ? 0 : 5));
        if (g_mode == "crash") h.crash(); else h.fault();
        unlink(g_db.c_str());
    }
    printf("STATS {\"histories\":%ld,\"commits\":%ld,\"writes\":%ld,\"syncs\":%ld,\"truncates\":%ld,\"map_stores\":%ld,\"crash_points\":%zu,\"images\":%ld,\"recovered_old\":%ld,\"recovered_new\":%ld,\"torn_writes\":%ld,\"continued_after_recovery\":%ld,\"faults_injected\":%ld,\"failed_commits\":%ld,\"refused_begins\":%ld,\"lost_sectors\":%ld,\"failed_opens\":%ld,\"failed_creations\":%ld,\"opened_again_after_failure\":%ld,\"failed_maps\":%ld,\"failed_open_syncs\":%ld,\"failed_open_resizes\":%ld,\"interrupted_calls\":%ld}\n",
           n_hist, n_commit, n_ev_w, n_ev_s, n_ev_t, n_map, g_points.size(), n_img, n_old, n_new, n_torn, n_after, n_fail, n_failed_commits, n_refused, n_lost, n_open_fail, n_open_fail_new, n_open_retry, n_open_map, n_open_sync, n_open_trunc, n_intr);
    return 0;
}
