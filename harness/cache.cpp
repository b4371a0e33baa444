// Cache monitor: random histories of open / transactions / lookup / upsert / mark / sweep /
// close against a map model, marks from several threads at once, and exclusivity between
// processes observed with real child processes on the same cache file.
#include "dbcommon.hpp"
#include <apr_general.h>
#include <apr_pools.h>
#include <apr_errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <apr_file_io.h>
#include <signal.h>
#include <thread>
#include <atomic>
extern "C" {
#include "napr_cache.h"
}
static std::string g_dir, g_log, g_mode = "map"; static uint64_t g_hist, g_seed = 1; static std::vector<std::string> g_ops;
static long n_hist, n_up, n_look, n_hit, n_miss, n_mark, n_sweep, n_swept, n_kept, n_reopen, n_commit, n_abort, n_childtry, n_handover, n_killed, n_stable;
static void op(const char *fmt, ...) { char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); g_ops.push_back(b); }
[[noreturn]] static void viol(const char *kind, const char *fmt, ...)
{
    char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("VIOL %s history=%llu after %zu ops: %s\n", kind, (unsigned long long) g_hist, g_ops.size(), b);
    if (!g_log.empty()) { FILE *f = fopen(g_log.c_str(), "w"); if (f) { fprintf(f, "violation: %s history=%llu: %s\n", kind, (unsigned long long) g_hist, b); for (auto &o : g_ops) fprintf(f, "%s\n", o.c_str()); fclose(f); } }
    fflush(stdout); _exit(3);
}
// delays around the file calls of opening and closing, so that processes meet in between
static uint64_t g_jit = 0;
static void jit() { if (!g_jit) return; g_jit ^= g_jit << 13; g_jit ^= g_jit >> 7; g_jit ^= g_jit << 17; uint64_t d = g_jit % 8; if (d < 3) { struct timespec t = {0, (long) ((g_jit >> 8) % (d == 0 ? 2000000 : 200000))}; nanosleep(&t, nullptr); } }
#define WRAP(name, params, args) extern "C" apr_status_t __real_##name params; extern "C" apr_status_t __wrap_##name params { jit(); apr_status_t s = __real_##name args; jit(); return s; }
WRAP(apr_file_open, (apr_file_t **f, const char *n, apr_int32_t fl, apr_fileperms_t p, apr_pool_t *q), (f, n, fl, p, q))
WRAP(apr_file_close, (apr_file_t *f), (f))
WRAP(apr_file_lock, (apr_file_t *f, int t), (f, t))
WRAP(apr_file_unlock, (apr_file_t *f), (f))
WRAP(apr_file_remove, (const char *n, apr_pool_t *q), (n, q))
static long n_failc, n_failok, n_storm, n_stormbusy, n_bulk, n_half, n_spoiled, n_lent, n_goon;
static void limit(rlim_t v) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = v; setrlimit(RLIMIT_FSIZE, &l); }
struct Ent { int64_t m, c, s; uint64_t lo, hi; bool operator==(const Ent &o) const { return m == o.m && c == o.c && s == o.s && lo == o.lo && hi == o.hi; } };
typedef std::map<std::string, Ent> CM;
static Ent mk(Rng &r)
{
    Ent e; e.m = (int64_t) r.next(); e.c = (int64_t) r.next(); e.s = (int64_t) r.below(1ull << 40); e.lo = r.next(); e.hi = r.next();
    switch (r.below(12)) { case 0: e.s = 0; break; case 1: e.m = 0; break; case 2: e.m = -1; break; case 3: e.lo = 0; break; case 4: e.hi = ~0ull; break; case 5: e.s = INT64_MAX; break; default: break; }
    return e;
}
static napr_cache_entry_t conv(const Ent &e) { napr_cache_entry_t x; memset(&x, 0, sizeof x); x.mtime = e.m; x.ctime = e.c; x.size = e.s; x.hash.low64 = e.lo; x.hash.high64 = e.hi; return x; }
static Ent back(const napr_cache_entry_t *x) { napr_cache_entry_t y; memcpy(&y, x, sizeof y); Ent e; e.m = y.mtime; e.c = y.ctime; e.s = y.size; e.lo = y.hash.low64; e.hi = y.hash.high64; return e; }

struct H {
    Rng r; apr_pool_t *pool; napr_cache_t *c = nullptr; CM cur; std::set<std::string> marked; std::string db; std::vector<std::string> names; int universe;
    explicit H(uint64_t s) : r(s) {}
    std::string path()
    {
        if (!names.empty() && r.pct(50)) return names[r.below(names.size())];
        if (r.pct(3)) { static const char *t[] = {"/", "a", "b", "/a", "/a/", "//", ".", "/f1", "f1"}; names.push_back(t[r.below(9)]); return names.back(); }
        std::string p = "/"; int depth = r.range(1, 6);
        for (int i = 0; i < depth; i++) { static const char *d[] = {"home", "data", "a", "photos 2020", "\xc3\xa9t\xc3\xa9", "x\ny", "very-long-directory-name-that-goes-on-and-on", "b"}; p += d[r.below(8)]; p += "/"; }
        p += "f" + std::to_string(r.below((uint64_t) universe)); if (r.pct(10)) p += std::string(r.below(r.pct(30) ? 950 : 500), 'n'); if (r.pct(5)) p += "/"; if (p.size() > 950) p.resize(950);
        names.push_back(p); if (names.size() > (size_t) universe) names.erase(names.begin());
        return p;
    }
    void openc() { apr_pool_create(&pool, nullptr); apr_status_t s = napr_cache_open(&c, db.c_str(), pool); if (s) viol("cache", "open -> %d", s); }
    void closec() { apr_status_t s = napr_cache_close(c); if (s) viol("cache", "close -> %d", s); apr_pool_destroy(pool); c = nullptr; }
    void look(const CM &m, const std::string &p, const char *when)
    {
        const napr_cache_entry_t *e = nullptr; std::string copy = p; apr_status_t s = napr_cache_lookup_in_txn(c, copy.c_str(), &e); n_look++; auto it = m.find(p);
        if (it == m.end()) { n_miss++; if (s != APR_NOTFOUND) viol("cache", "%s: lookup(%s) -> %d, not stored", when, hexs(p, 60).c_str(), s); return; }
        n_hit++; if (s || !e) viol("cache", "%s: lookup(%s) -> %d, stored", when, hexs(p, 60).c_str(), s);
        if (!(back(e) == it->second)) viol("cache", "%s: lookup(%s) returns another entry", when, hexs(p, 60).c_str());
    }
    void all(const CM &m, const char *when) { for (auto &e : m) look(m, e.first, when); for (auto &n : names) look(m, n, when); }
    void verify(const char *when) { apr_status_t s = napr_cache_begin_read(c, pool); if (s) viol("cache", "begin_read -> %d", s); all(cur, when); if ((s = napr_cache_end_read(c))) viol("cache", "end_read -> %d", s); }
    void wtxn()
    {
        apr_status_t s = napr_cache_begin_write(c, pool); if (s) viol("cache", "begin_write -> %d", s); CM v = cur; int n = r.pct(20) ? r.range(50, 400) : r.range(0, 20);
        for (int i = 0; i < n; i++) {
            std::string p = path();
            if (r.pct(70)) { Ent e = mk(r); auto had = v.find(p);
                if (had != v.end() && r.pct(50)) { Ent o = had->second; switch (r.below(7)) { case 0: o.m = e.m; break; case 1: o.c = e.c; break; case 2: o.s = e.s; break; case 3: o.lo = e.lo; break; case 4: o.hi = e.hi; break; case 5: o.lo = e.lo; o.hi = e.hi; break; default: o.m++; break; } e = o; } napr_cache_entry_t x = conv(e); std::string copy = p; s = napr_cache_upsert_in_txn(c, copy.c_str(), &x); n_up++; if (s) viol("cache", "upsert(%s) -> %d", hexs(p, 60).c_str(), s); v[p] = e; memset(&x, 0xAA, sizeof x); if (r.pct(30)) look(v, p, "after an upsert"); }
            else if (r.pct(40) && !v.empty()) {          // the entry of another path, as the cache hands it out in this transaction, stored under this one
                auto it = v.lower_bound(p); int st = r.range(0, 3); for (; st > 0 && it != v.end(); st--) ++it; if (it == v.end()) --it; Ent o = it->second; const napr_cache_entry_t *e = nullptr; std::string f = it->first;
                look(v, f, "inside a write transaction"); if ((s = napr_cache_lookup_in_txn(c, f.c_str(), &e))) viol("cache", "lookup -> %d", s); if ((s = napr_cache_upsert_in_txn(c, p.c_str(), e))) viol("cache", "upsert of an entry looked up -> %d", s); n_up++; n_lent++; v[p] = o; look(v, p, "after storing an entry looked up"); look(v, f, "after storing it elsewhere too");
            }
            else look(v, p, "inside a write transaction");
        }
        bool ab = r.pct(15); s = ab ? napr_cache_abort_write(c) : napr_cache_commit_write(c); if (s) viol("cache", "%s -> %d", ab ? "abort" : "commit", s);
        op("write txn %d ops %s", n, ab ? "aborted" : "committed"); if (!ab) { cur = v; n_commit++; } else n_abort++;
    }
    // No byte can be written: the transaction or sweep fails and leaves nothing, or succeeds and is there.
    void starved()
    {
        signal(SIGXFSZ, SIG_IGN); apr_status_t s; CM v = cur;
        if (r.pct(25)) { for (auto &e : cur) if (r.pct(50)) { napr_cache_mark_visited(c, e.first.c_str()); marked.insert(e.first); } limit(0); s = napr_cache_sweep(c); limit(RLIM_INFINITY); for (auto it = v.begin(); it != v.end();) if (!marked.count(it->first)) it = v.erase(it); else ++it; }
        else {
            if ((s = napr_cache_begin_write(c, pool))) viol("cache", "begin_write -> %d", s);
            for (int i = r.range(1, 20); i > 0; i--) { std::string p = path(); Ent e = mk(r); napr_cache_entry_t x = conv(e); if ((s = napr_cache_upsert_in_txn(c, p.c_str(), &x))) viol("cache", "upsert -> %d", s); v[p] = e; }
            limit(0); s = napr_cache_commit_write(c); limit(RLIM_INFINITY);
        }
        op("starved: %d", s); if (s) n_failc++; else { n_failok++; cur = v; }
        if (s && r.pct(60)) {            // the session goes on: what was stored is there, the marks still count
            n_goon++; verify("in the session of a write that failed"); if (r.pct(50)) marks(); bool can = napr_cache_begin_write(c, pool) == APR_SUCCESS;
            if (can) { napr_cache_abort_write(c); sweep(); verify("after a sweep that follows a failed write"); if (r.pct(70)) return; }
        }
        napr_cache_close(c); apr_pool_destroy(pool); c = nullptr; marked.clear(); openc(); verify(s ? "after a write that failed" : "after a write that succeeded without space");
    }
    // Tens of thousands of entries: stored, found again, most of them marked or most of them not, swept.
    void bulk()
    {
        n_bulk++; std::vector<std::string> ks; int n = r.pct(35) ? r.range(66000, 72000) : r.range(9000, 30000), per = r.pct(50) ? n : 1 + n / r.range(2, 5); bool asc = r.pct(50);
        for (int i = 0; i < n; i++) { char b[64]; snprintf(b, sizeof b, "/bulk/%02x/%08x.dat", (unsigned) (asc ? i >> 8 : i & 255), (unsigned) i); ks.push_back(b); }
        for (int i = 0; i < n;) {
            apr_status_t s = napr_cache_begin_write(c, pool); if (s) viol("cache", "begin_write -> %d", s); int end = std::min(n, i + per);
            for (; i < end; i++) { Ent e = mk(r); napr_cache_entry_t x = conv(e); if ((s = napr_cache_upsert_in_txn(c, ks[(size_t) i].c_str(), &x))) viol("cache", "upsert -> %d", s); cur[ks[(size_t) i]] = e; n_up++; }
            if ((s = napr_cache_commit_write(c))) viol("cache", "commit -> %d", s); n_commit++;
        }
        op("bulk of %d", n); verify("after storing a bulk of entries");
        int pc = r.pct(40) ? 100 : r.pct(50) ? 0 : r.range(1, 99); for (auto &e : cur) if (r.pct(pc)) { if (napr_cache_mark_visited(c, e.first.c_str())) viol("sweep", "mark_visited failed"); marked.insert(e.first); n_mark++; }
        sweep(); if (r.pct(50)) { closec(); marked.clear(); openc(); n_reopen++; verify("after reopening"); }
    }
    void rtxn()
    {
        napr_cache_begin_read(c, pool); std::vector<std::pair<std::string, const napr_cache_entry_t *>> held;
        for (int i = r.range(1, 30); i > 0; i--) { std::string p = path(); look(cur, p, "read transaction"); const napr_cache_entry_t *e = nullptr; if (cur.count(p) && !napr_cache_lookup_in_txn(c, p.c_str(), &e)) held.push_back({p, e}); }
        for (auto &h : held) { n_stable++; if (!(back(h.second) == cur[h.first])) viol("cache", "the entry returned for %s changed before the transaction ended", hexs(h.first, 60).c_str()); }
        napr_cache_end_read(c);
    }
    void marks()
    {
        std::vector<std::string> list; int pc = r.range(0, 100); for (auto &e : cur) if (r.pct(pc)) list.push_back(e.first); for (int i = r.range(0, 10); i > 0; i--) list.push_back(path());
        for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[r.below(i)]);
        int T = r.range(1, 4); std::vector<std::thread> th; std::atomic<int> bad{0};
        for (int t = 0; t < T; t++) th.emplace_back([&, t] { for (size_t i = (size_t) t; i < list.size() + (size_t) T; i += (size_t) T) { if (list.empty()) break; char *tmp = strdup(list[i % list.size()].c_str()); if (napr_cache_mark_visited(c, tmp)) bad = 1; memset(tmp, 'Z', strlen(tmp)); free(tmp); } });
        for (auto &t : th) t.join(); if (bad) viol("sweep", "mark_visited failed");
        n_mark += (long) list.size(); marked.insert(list.begin(), list.end()); op("mark %zu paths from %d threads", list.size(), T);
    }
    void sweep()
    {
        apr_status_t s = napr_cache_sweep(c); n_sweep++; if (s) viol("sweep", "sweep -> %d", s);
        CM v; for (auto &e : cur) if (marked.count(e.first)) { v.insert(e); n_kept++; } else n_swept++;
        op("sweep: %zu of %zu stay", v.size(), cur.size()); CM old = cur; cur = v; marked.clear();
        napr_cache_begin_read(c, pool);
        for (auto &e : old) { const napr_cache_entry_t *x = nullptr; s = napr_cache_lookup_in_txn(c, e.first.c_str(), &x); bool stay = v.count(e.first); if (stay && (s || !(back(x) == e.second))) viol("sweep", "a visited entry is gone or altered after the sweep: %s (status %d)", hexs(e.first, 60).c_str(), s); if (!stay && s != APR_NOTFOUND) viol("sweep", "an entry not visited survived the sweep: %s (status %d)", hexs(e.first, 60).c_str(), s); }
        napr_cache_end_read(c);
        auto f = slurp(db); Audit a; if (!a.run(f)) viol("sweep", "page audit after the sweep: %s", a.err.c_str()); if (a.content.size() != cur.size()) viol("sweep", "the file holds %zu entries after the sweep, expected %zu", a.content.size(), cur.size());
    }
    void map()
    {
        bool sw = g_mode == "sweep"; static const int u[] = {8, 100, 900, 3000}; universe = u[r.below(sw && r.pct(40) ? 4 : 3)]; db = g_dir + "/cache.db"; unlink(db.c_str()); unlink((db + ".lock").c_str()); openc();
        int steps = r.range(8, 40); if (r.below(sw ? 24 : 150) == 0) { bulk(); steps = 6; }
        for (int i = 0; i < steps; i++) { int w = r.range(0, 99); if (w < (sw ? 40 : 50)) wtxn(); else if (w < (sw ? 45 : 70)) rtxn(); else if (w < (sw ? 70 : 82)) marks(); else if (w < (sw ? 93 : 88)) sweep(); else if (w < (sw ? 95 : 92)) starved(); else { op("reopen"); closec(); marked.clear(); openc(); n_reopen++; verify("after reopening"); } }
        verify("at the end"); closec(); n_hist++;
    }
    // --- exclusivity: real processes ---
    void excl()
    {
        universe = 50; db = g_dir + "/cache.db"; unlink(db.c_str()); unlink((db + ".lock").c_str()); int rounds = r.range(3, 8);
        for (int k = 0; k < rounds; k++) {
            int kids = r.range(1, 3); int up[2], ctl[2]; if (pipe(up) || pipe(ctl)) _exit(9);
            int holder_mode = r.range(0, 2);            // 0 close, 1 exit without closing, 2 killed
            bool again = r.pct(30), intxn = r.pct(40), half = !intxn && holder_mode && r.pct(60); std::vector<std::pair<std::string, Ent>> lost; if (half) { n_half++; for (int i = r.range(1, 30); i > 0; i--) lost.push_back({path(), mk(r)}); } CM nx = cur; std::vector<std::pair<std::string, Ent>> ups; for (int i = r.range(1, 30); i > 0; i--) { std::string p = path(); Ent e = mk(r); ups.push_back({p, e}); nx[p] = e; }
            pid_t h = fork();
            if (!h) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                openc(); verify("in the next process"); napr_cache_begin_write(c, pool); for (auto &u : ups) { napr_cache_entry_t x = conv(u.second); if (napr_cache_upsert_in_txn(c, u.first.c_str(), &x)) viol("cache", "upsert"); } if (napr_cache_commit_write(c)) viol("cache", "commit");
                if (again) { napr_cache_t *c2 = nullptr; for (int i = 0; i < 2; i++) if (napr_cache_open(&c2, db.c_str(), pool) == APR_SUCCESS) viol("excl", "the owner could open its cache a second time"); }
                if (intxn) napr_cache_begin_read(c, pool);
                if (half) { napr_cache_begin_write(c, pool); for (auto &u : lost) { napr_cache_entry_t x = conv(u.second); if (napr_cache_upsert_in_txn(c, u.first.c_str(), &x)) viol("cache", "upsert"); } }      // never committed
                char b = 'r'; if (write(up[1], &b, 1) != 1) _exit(9); if (read(ctl[0], &b, 1) != 1) _exit(9);
                if (intxn) napr_cache_end_read(c);
                if (holder_mode == 0) closec(); if (holder_mode == 2) { if (write(up[1], &b, 1) != 1) _exit(9); pause(); } _exit(0);
            }
            char b; if (read(up[0], &b, 1) != 1) { int st; waitpid(h, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); viol("excl", "the process holding the cache died: status %x", st); }
            for (int j = 0; j < kids; j++) {            // while held: nobody else gets in, twice in a row
                pid_t q = fork(); if (!q) { prctl(PR_SET_PDEATHSIG, SIGKILL); apr_pool_create(&pool, nullptr); for (int z = 0; z < 2; z++) { napr_cache_t *cc = nullptr; if (napr_cache_open(&cc, z ? (g_dir + "/./cache.db").c_str() : db.c_str(), pool) == APR_SUCCESS) _exit(7); } _exit(0); }
                int st; waitpid(q, &st, 0); n_childtry++;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 7) viol("excl", "a second process opened the cache while another had it open (round %d, attempt %d)", k, j);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) viol("excl", "opening a held cache ended with status %x", st);
            }
            b = 'g'; if (write(ctl[1], &b, 1) != 1) _exit(9);
            if (holder_mode == 2) { if (read(up[0], &b, 1) != 1) _exit(9); kill(h, SIGKILL); n_killed++; }
            int st; waitpid(h, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); if (holder_mode != 2 && (!WIFEXITED(st) || WEXITSTATUS(st))) viol("excl", "holder ended with status %x", st);
            close(up[0]); close(up[1]); close(ctl[0]); close(ctl[1]); cur = nx; n_handover++; op("round %d: holder mode %d, %d contenders", k, holder_mode, kids);
        }
        openc(); verify("after all processes left"); closec(); if (r.pct(25)) spoiled(); if (r.pct(35)) storm(); n_hist++;
    }
    // A process that could not open the cache does not own it: once the file can be used again, others get in while it lives, and so does it.
    void spoiled()
    {
        n_spoiled++; int up[2], ctl[2]; if (pipe(up) || pipe(ctl)) _exit(9); int how = r.range(0, 2), tries = r.range(1, 3); bool keep = r.pct(50); std::string good = db + ".good";
        if (rename(db.c_str(), good.c_str())) _exit(9);
        if (how == 0) { if (mkdir(db.c_str(), 0700)) _exit(9); }
        else { FILE *f = fopen(db.c_str(), "w"); for (int i = how == 1 ? 12288 : 100; i > 0; i--) fputc('g', f); fclose(f); }
        pid_t h = fork();
        if (!h) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); apr_pool_create(&pool, nullptr); char b = 'r';
            for (int i = 0; i < tries; i++) { napr_cache_t *cc = nullptr; if (napr_cache_open(&cc, db.c_str(), pool) == APR_SUCCESS) { napr_cache_close(cc); b = 'o'; } }
            if (!keep) { apr_pool_destroy(pool); }
            if (write(up[1], &b, 1) != 1) _exit(9); if (read(ctl[0], &b, 1) != 1) _exit(9);
            openc(); verify("in a process whose first attempt to open failed"); closec(); _exit(0);
        }
        char b; if (read(up[0], &b, 1) != 1) { int st; waitpid(h, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); viol("excl", "a process opening a file that is no cache died: status %x", st); }
        if (how == 0) rmdir(db.c_str()); else unlink(db.c_str());
        if (rename(good.c_str(), db.c_str())) _exit(9);
        pid_t q = fork(); if (!q) { prctl(PR_SET_PDEATHSIG, SIGKILL); openc(); verify("while a process lives that could not open the cache"); closec(); _exit(0); }
        int st; waitpid(q, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); if (!WIFEXITED(st) || WEXITSTATUS(st)) viol("excl", "opening after another process failed to ended with status %x", st);
        b = 'g'; if (write(ctl[1], &b, 1) != 1) _exit(9); waitpid(h, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); if (!WIFEXITED(st) || WEXITSTATUS(st)) viol("excl", "opening again ended with status %x", st);
        close(up[0]); close(up[1]); close(ctl[0]); close(ctl[1]); openc(); verify("after failed attempts to open"); closec(); op("spoiled %d", how);
    }
    // Several processes open and close as fast as they can; an owner counts in the cache and in shared memory.
    void storm()
    {
        struct Sh { std::atomic<int> owners; std::atomic<long> turns, busy; std::atomic<int> bad; }; Sh *sh = (Sh *) mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Sh();
        int kids = r.range(2, 5), want = r.range(4, 12); std::vector<pid_t> ps; const char *key = "/storm"; cur.erase(key); long base = 0;
        for (int k = 0; k < kids; k++) {
            uint64_t seed = r.next() | 1; pid_t q = fork(); if (q) { ps.push_back(q); continue; }
            g_jit = seed; prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(60);
            for (int got = 0; got < want && !sh->bad;) {
                apr_pool_create(&pool, nullptr); apr_status_t s = napr_cache_open(&c, db.c_str(), pool);
                if (s) { apr_pool_destroy(pool); sh->busy++; jit(); continue; }
                if (sh->owners.fetch_add(1)) sh->bad = 1;
                napr_cache_begin_write(c, pool); const napr_cache_entry_t *e = nullptr; Ent n = {0, 0, 0, 0, 0}; s = napr_cache_lookup_in_txn(c, key, &e); if (!s) n = back(e); else if (s != APR_NOTFOUND) sh->bad = 2;
                n.m++; napr_cache_entry_t x = conv(n); if (napr_cache_upsert_in_txn(c, key, &x) || napr_cache_commit_write(c)) sh->bad = 3;
                jit(); got++; sh->turns++; if (r.pct(20)) { sh->owners--; _exit(got < want ? 5 : 0); }
                sh->owners--; napr_cache_close(c); apr_pool_destroy(pool);
            }
            _exit(0);
        }
        for (pid_t q : ps) { int st; waitpid(q, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 5)) viol("excl", "a process that opens and closes the cache ended with status %x", st); }
        if (sh->bad) viol("excl", sh->bad == 1 ? "two processes had the cache open at once" : "an owner could not use the cache (%d)", (int) sh->bad);
        openc(); napr_cache_begin_read(c, pool); const napr_cache_entry_t *e = nullptr; apr_status_t s = napr_cache_lookup_in_txn(c, key, &e);
        if (s || back(e).m != base + sh->turns) viol("excl", "%ld owners counted up and the cache holds %lld (status %d)", (long) sh->turns, s ? -1ll : (long long) back(e).m, s);
        napr_cache_end_read(c); closec(); n_storm += sh->turns; n_stormbusy += sh->busy; munmap(sh, sizeof(Sh)); op("storm");
    }
};
int main(int argc, char **argv)
{
    uint64_t first = 0, count = 1; std::string prog;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char *v = argv[i + 1]; if (a == "--dir") g_dir = v; else if (a == "--seed") g_seed = strtoull(v, 0, 10); else if (a == "--first") first = strtoull(v, 0, 10); else if (a == "--count") count = strtoull(v, 0, 10); else if (a == "--log") g_log = v; else if (a == "--progress") prog = v; else if (a == "--mode") g_mode = v; }
    apr_initialize();
    for (g_hist = first; g_hist < first + count; g_hist++) { if (!prog.empty()) { FILE *f = fopen(prog.c_str(), "w"); fprintf(f, "%llu\n", (unsigned long long) g_hist); fclose(f); } g_ops.clear(); H h(g_seed * 999983ull + g_hist * 31ull + (g_mode == "map" ? 0 : g_mode == "sweep" ? 5 : 17)); if (g_mode != "excl") h.map(); else h.excl(); }
    printf("STATS {\"histories\":%ld,\"upserts\":%ld,\"lookups\":%ld,\"hits\":%ld,\"misses\":%ld,\"commits\":%ld,\"aborts\":%ld,\"marks\":%ld,\"sweeps\":%ld,\"entries_swept\":%ld,\"entries_kept\":%ld,\"reopens\":%ld,\"held_entries_rechecked\":%ld,\"refused_opens\":%ld,\"handovers\":%ld,\"killed_holders\":%ld,\"failed_commits\":%ld,\"contended_turns\":%ld,\"contended_refusals\":%ld,\"bulk_sessions\":%ld,\"lost_half_transactions\":%ld,\"failed_opens\":%ld,\"borrowed_entries\":%ld,\"sessions_going_on_after_a_failure\":%ld}\n", n_hist, n_up, n_look, n_hit, n_miss, n_commit, n_abort, n_mark, n_sweep, n_swept, n_kept, n_reopen, n_stable, n_childtry, n_handover, n_killed, n_failc, n_storm, n_stormbusy, n_bulk, n_half, n_spoiled, n_lent, n_goon);
    return 0;
}
