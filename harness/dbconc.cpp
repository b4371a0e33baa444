// Concurrency monitor of the storage engine, built with ThreadSanitizer (or plain).
// Every committed version v of the database has contents that are a pure function of v, so a
// reader that finds version v knows exactly what its whole snapshot must be.  Observed at the
// API boundary: exact snapshot contents, stability on re-reading, real-time bounds of the
// version (at least every commit that returned before the read began, at most every commit
// that was called before the read's first look), one write transaction at a time, no lost
// update, reader slots returned.  Delays are injected around the locks and the disk writes.
#include "dbcommon.hpp"
#include <apr_general.h>
#include <apr_pools.h>
#include <apr_thread_mutex.h>
#include <apr_proc_mutex.h>
#include <apr_file_io.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <unordered_set>
#include <sched.h>
#include <sys/stat.h>
#include <fcntl.h>
extern "C" {
#include "napr_db.h"
}
static std::string g_dir, g_log; static uint64_t g_round; static uint64_t g_seed = 1;
static std::string g_prog; static int g_slowpct = 0;
static std::atomic<long> n_commit, n_abort, n_read, n_reread, n_xthread, n_delay, n_full, n_conc, n_keys; static std::atomic<int> max_conc;
static std::mutex g_out;
static thread_local Rng *t_rng = nullptr;
static std::atomic<int> g_delay{0}, g_slow{0};          // g_slow: now and then a reader is held up for milliseconds while the writers run on
static thread_local bool t_reader = false;

static void delay()
{
    int d = g_delay.load(std::memory_order_relaxed); if (!t_rng || !d) return;
    uint64_t x = t_rng->below(100);
    if (g_slow.load(std::memory_order_relaxed)) { if (t_reader && x < 12) { n_delay.fetch_add(1, std::memory_order_relaxed); usleep((useconds_t) t_rng->range(200, 6000)); } return; }
    if (x < 50) return;
    n_delay.fetch_add(1, std::memory_order_relaxed);
    if (x < 80) sched_yield(); else usleep((useconds_t) t_rng->below((uint64_t) d));
}
extern "C" {
#define WRAP1(fn, T) apr_status_t __real_##fn(T *x); apr_status_t __wrap_##fn(T *x) { delay(); apr_status_t s = __real_##fn(x); delay(); return s; }
WRAP1(apr_thread_mutex_lock, apr_thread_mutex_t)
WRAP1(apr_thread_mutex_unlock, apr_thread_mutex_t)
WRAP1(apr_proc_mutex_lock, apr_proc_mutex_t)
WRAP1(apr_proc_mutex_unlock, apr_proc_mutex_t)
apr_status_t __real_apr_file_sync(apr_file_t *f); apr_status_t __wrap_apr_file_sync(apr_file_t *) { delay(); return APR_SUCCESS; }   // durability is not the subject here
apr_status_t __real_apr_file_write_full(apr_file_t *f, const void *b, apr_size_t n, apr_size_t *w);
apr_status_t __wrap_apr_file_write_full(apr_file_t *f, const void *b, apr_size_t n, apr_size_t *w) { delay(); return __real_apr_file_write_full(f, b, n, w); }
apr_status_t __real_apr_pool_create_ex(apr_pool_t **p, apr_pool_t *par, apr_abortfunc_t a, apr_allocator_t *al);
}
[[noreturn]] static void viol(const char *kind, const char *fmt, ...)
{
    char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    g_out.lock();
    printf("VIOL %s history=%llu: %s\n", kind, (unsigned long long) g_round, b);
    if (!g_log.empty()) { FILE *f = fopen(g_log.c_str(), "w"); if (f) { fprintf(f, "violation: %s round=%llu seed=%llu: %s\n", kind, (unsigned long long) g_round, (unsigned long long) g_seed, b); fclose(f); } }
    fflush(stdout); _exit(3);
}
static napr_db_val_t V(const std::string &s) { napr_db_val_t v; memset(&v, 0, sizeof v); v.data = (void *) s.data(); v.size = s.size(); return v; }

struct Round {
    apr_pool_t *pool; napr_db_env_t *env; int nkeys, vmax, writers, readers; int txns; uint64_t salt;
    std::mutex m; std::vector<Model> states;             // states[v]: contents at version v (v is stored under key "ver")
    std::atomic<int> committed{0}, started{0}, inwrite{0}, live_readers{0}, stop{0};
    std::vector<std::pair<napr_db_txn_t *, int>> parked; std::mutex pm;

    Model next(const Model &s, int v)
    {
        Rng r(salt + (uint64_t) v * 7919); Model m = s; m["ver"] = std::to_string(v);
        int n = r.range(1, nkeys / 3 + 2);
        for (int i = 0; i < n; i++) {
            char k[40]; snprintf(k, 40, "k%05d", (int) r.below((uint64_t) nkeys)); std::string key = k; if (r.pct(20)) key += std::string(r.below(40), 'x');
            if (r.pct(30)) m.erase(key); else { char b[40]; snprintf(b, 40, "%d:%s:", v, k); m[key] = std::string(b) + std::string(r.below((uint64_t) vmax), (char) ('a' + v % 26)); }
        }
        return m;
    }
    Model expect(int v) { std::lock_guard<std::mutex> l(m); if (v >= (int) states.size()) viol("snapshot", "version %d seen although only %zu were ever made", v, states.size() - 1); return states[(size_t) v]; }
    Model contents(napr_db_txn_t *t)
    {
        Model o; napr_db_cursor_t *c = nullptr; if (napr_db_cursor_open(t, &c)) viol("api", "cursor open"); napr_db_val_t k, d; apr_status_t s;
        long n = 0;
        for (s = napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST); s == APR_SUCCESS; s = napr_db_cursor_get(c, &k, &d, NAPR_DB_NEXT)) { o[std::string((char *) k.data, k.size)] = std::string((char *) d.data, d.size); if (++n > 100000) viol("snapshot", "cursor does not end"); if (n % 16 == 0) delay(); }
        if (s != APR_NOTFOUND) viol("snapshot", "iteration of a snapshot ended with status %d", s);
        napr_db_cursor_close(c); n_keys += n; return o;
    }
    int version(napr_db_txn_t *t) { std::string k = "ver"; napr_db_val_t kv = V(k), d; apr_status_t s = napr_db_get(t, &kv, &d); if (s == APR_NOTFOUND) return 0; if (s) viol("snapshot", "get(ver) -> %d", s); return atoi(std::string((char *) d.data, d.size).c_str()); }
    void check(napr_db_txn_t *t, int v, const char *when)
    {
        Model want = expect(v), got = contents(t);
        if (got != want) {
            std::string diff; for (auto &e : want) if (!got.count(e.first)) { diff = "missing " + hexs(e.first); break; } else if (got[e.first] != e.second) { diff = "wrong value of " + hexs(e.first) + ": " + hexs(got[e.first]); break; }
            if (diff.empty()) for (auto &e : got) if (!want.count(e.first)) { diff = "extra " + hexs(e.first); break; }
            viol("snapshot", "%s: snapshot of version %d holds %zu keys, expected %zu (%s); %d committed meanwhile", when, v, got.size(), want.size(), diff.c_str(), committed.load());
        }
        Rng *r = t_rng;
        for (int i = 0; i < 8; i++) {
            char k[40]; snprintf(k, 40, "k%05d", (int) r->below((uint64_t) nkeys)); std::string key = k; napr_db_val_t kv = V(key), d; apr_status_t s = napr_db_get(t, &kv, &d); auto it = want.find(key);
            if ((s == APR_SUCCESS) != (it != want.end()) || (s && s != APR_NOTFOUND)) viol("snapshot", "%s: get(%s) -> %d in a snapshot of version %d", when, k, s, v);
            if (s == APR_SUCCESS && std::string((char *) d.data, d.size) != it->second) viol("snapshot", "%s: wrong value of %s in a snapshot of version %d", when, k, v);
        }
    }
    void writer(int id)
    {
        Rng r(salt * 31 + (uint64_t) id); t_rng = &r;
        for (int i = 0; i < txns; i++) {
            napr_db_txn_t *t = nullptr; int before = committed.load(); apr_status_t s = napr_db_txn_begin(env, 0, &t); if (s) viol("api", "write begin -> %d", s);
            if (inwrite.fetch_add(1) != 0) viol("serial", "two write transactions are open at the same time");
            int sub = started.load(), v = version(t);       // whoever submitted a version holds the lock until it is committed
            if (v != sub) viol("serial", "a write transaction started from version %d although version %d was already submitted (%d committed before it began)", v, sub, before);
            Model cur = expect(v), nx = next(cur, v + 1); delay();
            bool ab = r.pct(15);
            for (auto &e : cur) if (!nx.count(e.first)) { napr_db_val_t kv = V(e.first); if ((s = napr_db_del(t, &kv, nullptr))) viol("map", "del(%s) -> %d", hexs(e.first).c_str(), s); }
            for (auto &e : nx) { auto it = cur.find(e.first); if (it != cur.end() && it->second == e.second) continue; napr_db_val_t kv = V(e.first), dv = V(e.second); if ((s = napr_db_put(t, &kv, &dv))) viol("map", "put(%s) -> %d", hexs(e.first).c_str(), s); if (r.pct(10)) delay(); }
            if (ab) { inwrite.fetch_sub(1); napr_db_txn_abort(t); n_abort++; continue; }
            { std::lock_guard<std::mutex> l(m); if ((int) states.size() == v + 1) states.push_back(nx); }
            started.store(v + 1);
            inwrite.fetch_sub(1);
            s = napr_db_txn_commit(t); if (s) viol("api", "commit -> %d", s);
            int c = committed.load(); while (c < v + 1 && !committed.compare_exchange_weak(c, v + 1)) { }
            if (n_commit++ % 8 == 0 && !g_prog.empty()) utimensat(AT_FDCWD, g_prog.c_str(), nullptr, 0);     // alive
        }
        t_rng = nullptr;
    }
    void reader(int id)
    {
        Rng r(salt * 57 + (uint64_t) id + 1000); t_rng = &r; t_reader = true;
        while (!stop.load()) {
            if (r.pct(12)) {           // finish a transaction begun by another thread
                napr_db_txn_t *t = nullptr; int v = 0;
                { std::lock_guard<std::mutex> l(pm); if (!parked.empty()) { size_t i = r.below(parked.size()); t = parked[i].first; v = parked[i].second; parked.erase(parked.begin() + (long) i); } }
                if (t) { check(t, v, "later, on another thread"); n_xthread++; n_reread++; if (r.pct(50)) napr_db_txn_abort(t); else napr_db_txn_commit(t); live_readers--; }
                continue;
            }
            int lo = committed.load(); napr_db_txn_t *t = nullptr; apr_status_t s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t);
            if (s) { if (live_readers.load() < 40) viol("slots", "read begin -> %d with about %d readers open: reader slots are lost", s, live_readers.load()); n_full++; continue; }
            int lr = ++live_readers; int mc = max_conc.load(); while (lr > mc && !max_conc.compare_exchange_weak(mc, lr)) { }
            int hi = started.load(), v = version(t);
            if (v < lo) viol("monotonic", "a read transaction begun after version %d was committed sees version %d", lo, v);
            if (v > hi) viol("monotonic", "a read transaction sees version %d although at most %d had been submitted", v, hi);
            check(t, v, "first read"); n_read++;
            if (r.pct(40)) { for (int k = r.range(1, 4); k > 0; k--) { delay(); check(t, v, "re-read"); n_reread++; } }
            if (r.pct(15)) { std::lock_guard<std::mutex> l(pm); if (parked.size() < 20) { parked.push_back({t, v}); continue; } }
            if (r.pct(50)) napr_db_txn_abort(t); else napr_db_txn_commit(t); live_readers--;
        }
        t_rng = nullptr;
    }
    void run(uint64_t seed)
    {
        Rng r(seed); salt = r.next() >> 8; t_rng = &r;
        static const int ks[] = {6, 60, 500}; nkeys = ks[r.below(3)]; vmax = r.pct(60) ? 40 : 700; writers = r.range(1, 4); readers = r.range(1, 5); txns = r.range(8, 40); g_delay = r.pct(30) ? 0 : r.pct(50) ? 50 : 600; g_slow = g_slowpct && r.pct(g_slowpct); if (g_slow) { g_delay = 1; readers = r.range(3, 8); txns *= 8; if (nkeys > 60) nkeys = 60; }
        std::string p = g_dir + "/conc.db"; unlink(p.c_str()); apr_pool_create(&pool, nullptr); napr_db_env_create(&env, pool); napr_db_env_set_mapsize(env, 64 << 20);
        apr_status_t s = napr_db_env_open(env, p.c_str(), NAPR_DB_CREATE | (r.pct(70) ? NAPR_DB_INTRAPROCESS_LOCK : 0)); if (s) viol("api", "open -> %d", s);
        if (r.pct(20)) {            // the file as it is after very many commits: transaction numbers about to pass 8, 16 or 32 bits
            static const int bits[] = {8, 16, 32}; napr_db_env_close(env); apr_pool_clear(pool); int fd = ::open(p.c_str(), O_RDWR); unsigned char m[2][48]; if (fd < 0 || pread(fd, m[0], 48, 0) != 48 || pread(fd, m[1], 48, 4096) != 48) _exit(9);
            uint64_t a = rd(m[0] + 8, 8), b = rd(m[1] + 8, 8), add = ((1ull << bits[r.below(3)]) - 10) & ~1ull; a += add; b += add; if (pwrite(fd, &a, 8, 8) != 8 || pwrite(fd, &b, 8, 4096 + 8) != 8) _exit(9); close(fd);
            napr_db_env_create(&env, pool); napr_db_env_set_mapsize(env, 64 << 20); if ((s = napr_db_env_open(env, p.c_str(), NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK))) viol("api", "reopen -> %d", s);
        }
        states.assign(1, Model());
        std::vector<std::thread> w, rdt; for (int i = 0; i < readers; i++) rdt.emplace_back([this, i] { reader(i); }); for (int i = 0; i < writers; i++) w.emplace_back([this, i] { writer(i); });
        for (auto &t : w) t.join(); stop = 1; for (auto &t : rdt) t.join(); if (writers + readers > 2) n_conc++;
        t_rng = &r; g_delay = 0;
        for (auto &x : parked) { check(x.first, x.second, "at the end"); napr_db_txn_abort(x.first); live_readers--; }
        // every slot must have come back: 100 readers at once fit the documented table of 126
        std::vector<napr_db_txn_t *> many; for (int i = 0; i < 100; i++) { napr_db_txn_t *t = nullptr; if ((s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t))) viol("slots", "with no other reader open, read transaction %d cannot begin: %d", i + 1, s); many.push_back(t); } for (auto t : many) napr_db_txn_abort(t);
        napr_db_txn_t *t = nullptr; napr_db_txn_begin(env, NAPR_DB_RDONLY, &t); int v = version(t); if (v != committed.load()) viol("serial", "final version %d, %d committed", v, committed.load()); check(t, v, "final"); napr_db_txn_abort(t);
        auto f = slurp(p); Audit a; if (!a.run(f)) viol("pages", "page audit at the end: %s", a.err.c_str()); if (a.content != states[(size_t) v]) viol("serial", "contents on disk differ");
        napr_db_env_close(env); apr_pool_destroy(pool); unlink(p.c_str()); t_rng = nullptr;
    }
};
int main(int argc, char **argv)
{
    uint64_t first = 0, count = 1; std::string &prog = g_prog;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char *v = argv[i + 1]; if (a == "--dir") g_dir = v; else if (a == "--seed") g_seed = strtoull(v, 0, 10); else if (a == "--first") first = strtoull(v, 0, 10); else if (a == "--count") count = strtoull(v, 0, 10); else if (a == "--slow") g_slowpct = atoi(v); else if (a == "--log") g_log = v; else if (a == "--progress") prog = v; }
    apr_initialize(); std::set<uint64_t> confs;
    for (g_round = first; g_round < first + count; g_round++) { if (!prog.empty()) { FILE *f = fopen(prog.c_str(), "w"); fprintf(f, "%llu\n", (unsigned long long) g_round); fclose(f); } Round *rd = new Round; rd->run(g_seed * 7777777ull + g_round); confs.insert((uint64_t) rd->nkeys << 20 ^ (uint64_t) rd->writers << 8 ^ (uint64_t) rd->readers ^ (uint64_t) rd->vmax << 40); delete rd; }
    printf("STATS {\"histories\":%llu,\"configurations\":%zu,\"commits\":%ld,\"aborts\":%ld,\"snapshots_checked\":%ld,\"rereads\":%ld,\"ended_on_other_thread\":%ld,\"keys_compared\":%ld,\"delays_injected\":%ld,\"max_concurrent_readers\":%d}\n", (unsigned long long) count, confs.size(), n_commit.load(), n_abort.load(), n_read.load(), n_reread.load(), n_xthread.load(), n_keys.load(), n_delay.load(), max_conc.load());
    return 0;
}
