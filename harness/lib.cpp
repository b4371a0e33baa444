// Monitors of ftwin's building blocks, driven through their public headers:
//   pool    worker pool: exactly once, complete at wait, reusable, nothing after shutdown
//   hash    hash table against a map        heap    priority heap against a multiset
//   size    human sizes against integer arithmetic
//   digest  file digests and comparison against the bytes, under every reading strategy
#include "dbcommon.hpp"
#include <apr_general.h>
#include <apr_pools.h>
#include <apr_thread_mutex.h>
#include <apr_thread_cond.h>
#include <apr_thread_proc.h>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <algorithm>
#include <mutex>
#include <thread>
#include <sched.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" {
#include "napr_threadpool.h"
#include "napr_hash.h"
#include "napr_heap.h"
#include "human_size.h"
#include "ft_file.h"
#include "xxhash.h"
}
static std::string g_dir, g_log, g_mode, g_trace; static uint64_t g_hist, g_seed = 1;
static std::map<std::string, long> S; static std::set<size_t> D;      // counters; distinct cases
[[noreturn]] static void viol(const char *kind, const char *fmt, ...)
{
    char b[900]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("VIOL %s history=%llu: %s\n", kind, (unsigned long long) g_hist, b);
    if (!g_log.empty()) { FILE *f = fopen(g_log.c_str(), "w"); if (f) { fprintf(f, "%s history=%llu seed=%llu: %s\n%s", kind, (unsigned long long) g_hist, (unsigned long long) g_seed, b, g_trace.c_str()); fclose(f); } }
    fflush(stdout); _exit(3);
}

// ---------------------------------------------------------------- worker pool
static std::atomic<int> g_jit{0};
static thread_local uint64_t t_r = 0;
static uint64_t tr() { if (!t_r) t_r = (g_seed * 0x9E3779B97F4A7C15ull) ^ (uint64_t) syscall(SYS_gettid) * 0xBF58476D1CE4E5B9ull ^ (g_hist << 20) ^ 1; t_r ^= t_r << 13; t_r ^= t_r >> 7; t_r ^= t_r << 17; return t_r; }
static std::atomic<long> n_spur, n_delay;
static void jit() { int j = g_jit.load(std::memory_order_relaxed); if (!j) return; uint64_t x = tr() % 100; if (x < (uint64_t) j) { n_delay.fetch_add(1, std::memory_order_relaxed); usleep((useconds_t) (tr() % 200)); } else if (x < 40) sched_yield(); }
extern "C" {
apr_status_t __real_apr_thread_mutex_lock(apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_mutex_unlock(apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_cond_signal(apr_thread_cond_t *c);
apr_status_t __real_apr_thread_cond_broadcast(apr_thread_cond_t *c);
apr_status_t __wrap_apr_thread_mutex_lock(apr_thread_mutex_t *m) { jit(); return __real_apr_thread_mutex_lock(m); }
apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m) { apr_status_t s = __real_apr_thread_mutex_unlock(m); jit(); return s; }
}
// Condition variables that choose which of the blocked threads a signal unblocks (any is allowed): mostly the last that came.
struct Blocked { bool woken = false; std::condition_variable cv; };
static std::mutex g_cm; static std::map<apr_thread_cond_t *, std::vector<Blocked *>> g_blocked; static std::atomic<int> g_choose{0}; static std::atomic<long> n_chosen;
extern "C" {
apr_status_t __wrap_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m)
{
    if (g_jit.load(std::memory_order_relaxed) && tr() % 100 < 15) { n_spur.fetch_add(1, std::memory_order_relaxed); __real_apr_thread_mutex_unlock(m); usleep((useconds_t) (tr() % 60)); return __real_apr_thread_mutex_lock(m); }
    if (!g_choose) return __real_apr_thread_cond_wait(c, m);
    {
        Blocked b; std::unique_lock<std::mutex> l(g_cm); auto &v = g_blocked[c]; v.push_back(&b); __real_apr_thread_mutex_unlock(m);
        b.cv.wait(l, [&] { return b.woken; }); auto &w = g_blocked[c]; w.erase(std::find(w.begin(), w.end(), &b));
    }
    return __real_apr_thread_mutex_lock(m);
}
apr_status_t __wrap_apr_thread_cond_signal(apr_thread_cond_t *c)
{
    jit();
    if (g_choose) {
        std::lock_guard<std::mutex> l(g_cm); std::vector<Blocked *> v; for (Blocked *b : g_blocked[c]) if (!b->woken) v.push_back(b);
        if (v.size()) { Blocked *b = g_choose == 1 ? v.back() : g_choose == 2 ? v.front() : v[tr() % v.size()]; b->woken = true; b->cv.notify_all(); if (v.size() > 1) n_chosen.fetch_add(1, std::memory_order_relaxed); }
    }
    return __real_apr_thread_cond_signal(c);
}
apr_status_t __wrap_apr_thread_cond_broadcast(apr_thread_cond_t *c)
{
    if (g_choose) { std::lock_guard<std::mutex> l(g_cm); for (Blocked *b : g_blocked[c]) { b->woken = true; b->cv.notify_all(); } }
    return __real_apr_thread_cond_broadcast(c);
}
}
// threads: the n-th creation can fail, as it does when a limit is reached; those running are counted
static std::atomic<int> g_threads{0}; static int g_nocreate = -1;
struct Start { apr_thread_start_t f; void *d; };
static void *APR_THREAD_FUNC counted(apr_thread_t *t, void *v) { Start *s = (Start *) v; apr_thread_start_t f = s->f; void *d = s->d; delete s; g_threads++; void *r = f(t, d); g_threads--; return r; }
extern "C" {
apr_status_t __real_apr_thread_create(apr_thread_t **t, apr_threadattr_t *a, apr_thread_start_t f, void *d, apr_pool_t *p);
apr_status_t __wrap_apr_thread_create(apr_thread_t **t, apr_threadattr_t *a, apr_thread_start_t f, void *d, apr_pool_t *p)
{
    if (g_nocreate >= 0 && g_nocreate-- == 0) return APR_EAGAIN;
    return __real_apr_thread_create(t, a, counted, new Start{f, d}, p);
}
}
struct Task { std::atomic<int> runs{0}; long result = 0, in = 0; int spawn = 0; int pause = 0; std::vector<Task *> kids; };
struct PoolCtx { uint64_t magic = 0xC0FFEE; std::atomic<int> active{0}, maxactive{0}, closed{0}; napr_threadpool_t *tp = nullptr; int workers = 0; };
static apr_status_t work(void *cv, void *dv)
{
    PoolCtx *c = (PoolCtx *) cv; Task *t = (Task *) dv;
    if (c->magic != 0xC0FFEE) viol("pool", "the callback received another context");
    if (c->closed.load()) viol("pool-late", "a callback runs after the pool was shut down");
    int a = ++c->active, m = c->maxactive.load(); while (a > m && !c->maxactive.compare_exchange_weak(m, a)) { }
    if (a > c->workers) viol("pool", "%d callbacks run at once in a pool of %d", a, c->workers);
    if (t->runs.fetch_add(1) != 0) viol("pool-twice", "a task was processed more than once");
    if (t->pause) { if (t->pause < 50) sched_yield(); else usleep((useconds_t) t->pause); }
    for (Task *k : t->kids) if (napr_threadpool_add(c->tp, k)) viol("pool", "add from a callback failed");
    t->result = t->in * 3 + 1;               // plain memory: ThreadSanitizer tells when the waiter reads it too early
    --c->active;
    return t->in % 7 == 0 ? APR_EGENERAL : APR_SUCCESS;
}
static void pool_history(Rng &r)
{
    apr_pool_t *p; apr_pool_create(&p, nullptr); PoolCtx *c = new PoolCtx; std::vector<Task *> all;
    static const int ws[] = {1, 1, 2, 3, 4, 8, 16}; c->workers = r.pct(3) ? r.range(60, 140) : ws[r.below(7)]; g_jit = r.pct(30) ? 0 : r.pct(50) ? 5 : 20; g_choose = r.pct(60) ? r.range(1, 3) : 0; { std::lock_guard<std::mutex> l(g_cm); g_blocked.clear(); }
    char b[200]; snprintf(b, 200, "pool of %d workers, delays %d, choice %d\n", c->workers, g_jit.load(), g_choose.load()); g_trace = b;
    alarm(60);
    bool lack = r.pct(12); if (lack) { g_nocreate = r.range(0, c->workers - 1); S["pools_without_all_threads"]++; g_trace += "a thread cannot be created\n"; alarm(20); }
    apr_status_t is = napr_threadpool_init(&c->tp, c, (unsigned long) c->workers, work, p); bool hit = lack && g_nocreate < 0; g_nocreate = -1;
    if (is && !hit) viol("pool", "init failed");
    if (is) {           // refused: nothing of it may stay behind
        apr_pool_destroy(p); for (int w = 0; g_threads.load() && w < 2000; w++) usleep(1000);
        if (g_threads.load()) viol("pool-late", "%d workers of a pool that could not be made still run", g_threads.load());
        alarm(0); delete c; return;
    }
    int rounds = r.range(1, 8);
    if (r.pct(30)) {    // several users of one pool, each adding tasks and waiting for them
        int users = r.range(2, 4); S["pools_of_several_users"]++; snprintf(b, 200, "%d users\n", users); g_trace += b; alarm(20);
        std::vector<std::thread> th; std::vector<std::vector<Task *>> made((size_t) users); uint64_t base = r.next(); std::atomic<long> waits{0};
        bool waitonly = r.pct(40);      // the first of them only waits
        for (int u = 0; u < users; u++) th.emplace_back([&, u] {
            Rng q(base + (uint64_t) u);
            for (int k = q.range(1, 6); k > 0; k--) {
                std::vector<Task *> mine; int n = u == 0 && waitonly ? 0 : q.pct(50) ? 1 : q.range(0, 12);
                for (int j = 0; j < n; j++) { Task *t = new Task; t->in = (long) q.below(1000); t->pause = q.pct(50) ? 0 : (int) q.below(120); mine.push_back(t); if (q.pct(15)) { Task *kid = new Task; t->kids.push_back(kid); mine.push_back(kid); } }
                size_t all_n = mine.size(); made[(size_t) u].insert(made[(size_t) u].end(), mine.begin(), mine.end());
                std::set<Task *> kids; for (Task *t : mine) kids.insert(t->kids.begin(), t->kids.end());
                for (Task *t : mine) if (!kids.count(t)) if (napr_threadpool_add(c->tp, t)) viol("pool", "add failed");
                if (q.pct(30)) usleep((useconds_t) q.below(200));
                if (napr_threadpool_wait(c->tp)) viol("pool", "wait failed");
                waits++;
                for (Task *t : mine) { int x = t->runs.load(); if (x != 1) viol(x ? "pool-twice" : "pool-lost", "after its wait, a task of user %d was processed %d times (%zu tasks, %d users, %d workers)", u, x, all_n, users, c->workers); if (t->result != t->in * 3 + 1) viol("pool-early", "the effect of a task is not visible after wait"); }
            }
        });
        for (auto &t : th) t.join();
        for (auto &v : made) { S["tasks"] += (long) v.size(); all.insert(all.end(), v.begin(), v.end()); }
        S["waits_of_several_users"] += waits; alarm(60);
    }
    for (int i = 0; i < rounds; i++) {
        static const int ns[] = {0, 1, 2, 3, 10, 50, 200}; int n = ns[r.below(7)], adders = r.pct(25) ? r.range(2, 4) : 1; bool nest = r.pct(25); int pause = r.pct(40) ? 0 : r.pct(50) ? 20 : 150;
        std::vector<Task *> mine, top;
        for (int k = 0; k < n; k++) { Task *t = new Task; t->in = (long) r.below(1000); t->pause = pause ? (int) r.below((uint64_t) pause) : 0; mine.push_back(t); top.push_back(t); if (nest && r.pct(30)) for (int q = r.range(1, 3); q > 0; q--) { Task *kid = new Task; kid->in = (long) r.below(1000); t->kids.push_back(kid); mine.push_back(kid); if (r.pct(20)) { Task *g = new Task; kid->kids.push_back(g); mine.push_back(g); } } }
        snprintf(b, 200, "round %d: %d tasks (%zu with nested), %d adders, pause %d\n", i, n, mine.size(), adders, pause); g_trace += b;
        all.insert(all.end(), mine.begin(), mine.end());
        if (adders == 1) for (Task *t : top) { if (napr_threadpool_add(c->tp, t)) viol("pool", "add failed"); if (r.pct(10)) jit(); }
        else { std::vector<std::thread> th; for (int a = 0; a < adders; a++) th.emplace_back([&, a] { for (size_t k = (size_t) a; k < top.size(); k += (size_t) adders) if (napr_threadpool_add(c->tp, top[k])) viol("pool", "add failed"); }); for (auto &t : th) t.join(); }
        if (i == rounds - 1 && r.pct(20)) { S["shutdowns_without_wait"]++; break; }      // tasks left behind run at most once
        for (int w = r.pct(20) ? 2 : 1; w > 0; w--) if (napr_threadpool_wait(c->tp)) viol("pool", "wait failed");
        int act = c->active.load(); if (act) viol("pool-early", "wait returned while %d callbacks were running (round %d)", act, i);
        for (Task *t : mine) { int q = t->runs.load(); if (q != 1) viol(q ? "pool-twice" : "pool-lost", "after wait, a task was processed %d times (round %d, %zu tasks, %d workers)", q, i, mine.size(), c->workers); if (t->result != t->in * 3 + 1) viol("pool-early", "the effect of a task is not visible after wait"); }
        S["tasks"] += (long) mine.size(); S["waits"]++; if (mine.size() > top.size()) S["nested_rounds"]++; if (adders > 1) S["rounds_with_several_adders"]++; if (!n) S["empty_rounds"]++;
        if (r.pct(15)) usleep((useconds_t) r.below(500));
    }
    if (napr_threadpool_shutdown(c->tp)) viol("pool", "shutdown failed");
    c->closed = 1; if (c->active.load()) viol("pool-late", "shutdown returned while a callback was running");
    if (r.pct(20)) usleep(300);
    for (Task *t : all) if (t->runs.load() > 1) viol("pool-twice", "processed twice");
    alarm(0); S["max_parallel_callbacks"] = std::max(S["max_parallel_callbacks"], (long) c->maxactive.load()); if (c->maxactive > 1) S["parallel_histories"]++;
    apr_pool_destroy(p); for (Task *t : all) delete t; delete c;
    S["injected_delays"] = n_delay; S["spurious_wakeups"] = n_spur; S["signals_with_a_choice"] = n_chosen;
}

// ---------------------------------------------------------------- hash table
struct Item { std::string key; int id; };
static const void *it_key(const void *d) { return ((const Item *) d)->key.data(); }
static apr_size_t it_len(const void *d) { return ((const Item *) d)->key.size(); }
static int it_cmp(const void *a, const void *b, apr_size_t n) { return memcmp(a, b, n); }
static uint32_t hmask = 0xffffffffu; static int hmode;
static apr_uint32_t it_hash(register const void *k, register apr_size_t n)
{
    uint32_t h = 2166136261u; for (apr_size_t i = 0; i < n; i++) { h ^= ((const unsigned char *) k)[i]; h *= 16777619u; }
    h ^= h >> 15; h *= 0x2c1b3c6du; h ^= h >> 12;
    return hmode == 1 ? h << 5 : hmode == 2 ? (h & 0xffffff00u) | (h >> 8 & 3) : hmode == 3 ? h % 3 * 0x01010101u : hmode == 4 ? h << 28 | 0x1234567 : h;     // poor low bits, few values: long chains
}
static void hash_history(Rng &r)
{
    apr_pool_t *p, *ip; apr_pool_create(&p, nullptr); apr_pool_create(&ip, nullptr); g_trace.clear();
    static const int nels[] = {1, 2, 3, 7, 8, 16, 100, 4096}, ffs[] = {2, 3, 4, 8, 20}, ks[] = {3, 20, 200, 3000};
    hmode = (int) r.below(5); int nel = nels[r.below(8)], ff = ffs[r.below(5)], nk = ks[r.below(4)]; bool str = r.pct(25); if (r.pct(10)) ff = 1; if (hmode >= 2) nk = std::min(nk, 200); if (hmode == 3 && r.pct(20)) { nk = 2500; nel = r.pct(50) ? 4096 : nel; S["tables_of_long_chains"]++; } if (hmode >= 3) S["tables_of_colliding_keys"]++; if (ff >= 8 && hmode == 0 && r.pct(4)) { nk = 150000; S["huge_tables"]++; }
    char b[200]; snprintf(b, 200, "table for %d, filling %d, %d keys, hash %d, strings %d, draw %llx\n", nel, ff, nk, hmode, str, (unsigned long long) r.s); g_trace = b;
    napr_hash_t *h;
    if (str) h = napr_hash_str_make(p, (apr_size_t) nel, (apr_size_t) ff); else { napr_hash_create_args_t a = {p, (apr_size_t) nel, (apr_size_t) ff, it_key, it_len, it_cmp, it_hash}; h = napr_hash_make_ex(&a); }
    if (!h) viol("hash", "cannot be made"); if (napr_hash_pool_get(h) != p) viol("hash", "pool accessor");
    std::map<std::string, void *> m; std::vector<std::string> keys; std::vector<Item *> items; std::vector<char *> strs;
    std::string head = r.pct(25) ? std::string((size_t) r.range(10, 400), 'p') : "";
    for (int i = 0; i < nk; i++) { std::string k = head; int len = r.pct(10) ? 0 : (int) r.below(r.pct(20) ? 60 : 6); for (int j = 0; j < len; j++) k += (char) (str ? 'a' + (int) r.below(26) : (int) r.below(256)); k += std::to_string(i % 97); if (r.pct(20) && !keys.empty()) k = keys[r.below(keys.size())] + (char) ('a' + r.below(3)); 
        keys.push_back(k); }
    int ops = r.range(nk, nk * 4 + 30);
    for (int i = 0; i < ops; i++) {
        const std::string &k = keys[r.below(keys.size())]; auto it = m.find(k); apr_uint32_t hv = 0;
        std::string probe = k; void *d = napr_hash_search(h, probe.data(), probe.size(), r.pct(90) ? &hv : nullptr); S["lookups"]++;
        if (d != (it == m.end() ? nullptr : it->second)) viol("hash", "search of %s gives %p, expected %p (operation %d)", hexs(k).c_str(), d, it == m.end() ? nullptr : it->second, i);
        napr_hash_search(h, probe.data(), probe.size(), &hv);
        if (!d && r.pct(75)) {
            void *n; if (str) { char *s = strdup(k.c_str()); strs.push_back(s); n = s; } else { Item *x = new Item{k, i}; items.push_back(x); n = x; }
            if (napr_hash_set(h, n, hv)) viol("hash", "set failed"); m[k] = n; S["inserts"]++;
        } else if (d && r.pct(40)) { napr_hash_remove(h, d, hv); m.erase(k); S["removals"]++; if (napr_hash_search(h, probe.data(), probe.size(), nullptr)) viol("hash", "%s is still found after its removal", hexs(k).c_str()); }
        if ((nk > 10000 ? r.below(40000) == 0 : r.pct(nk > 500 ? 1 : 5)) || i == ops - 1) {
            std::map<std::string, void *> seen; size_t n = 0;
            for (napr_hash_index_t *x = napr_hash_first(ip, h); x; x = napr_hash_next(x)) { const void *kk; apr_size_t kl; void *v; napr_hash_this(x, &kk, &kl, &v); if (++n > m.size()) viol("hash", "iteration yields more than the %zu entries", m.size()); seen[std::string((const char *) kk, kl)] = v; }
            if (seen != m) viol("hash", "iteration yields %zu distinct entries of %zu", seen.size(), m.size());
            S["iterations"]++; S["entries_iterated"] += (long) n; apr_pool_clear(ip);
        }
    }
    for (auto &e : m) { void *d = napr_hash_search(h, e.first.data(), e.first.size(), nullptr); if (d != e.second) viol("hash", "final search of %s", hexs(e.first).c_str()); }
    S["max_entries"] = std::max(S["max_entries"], (long) m.size());
    apr_pool_destroy(p); apr_pool_destroy(ip); for (auto x : items) delete x; for (auto s : strs) free(s);
}

// ---------------------------------------------------------------- heap
struct El { long pri; long id; };
static int el_cmp(const void *a, const void *b) { long x = ((const El *) a)->pri, y = ((const El *) b)->pri; return x < y ? -1 : x > y; }
static void heap_history(Rng &r)
{
    apr_pool_t *p; apr_pool_create(&p, nullptr); g_trace.clear(); bool safe = r.pct(40); napr_heap_t *h = safe ? napr_heap_make_r(p, el_cmp) : napr_heap_make(p, el_cmp); if (!h) viol("heap", "cannot be made");
    static const int ns[] = {1, 10, 255, 256, 257, 600, 5000}; int n = ns[r.below(7)]; bool huge = r.below(60) == 0; if (huge) n = r.range(66000, 140000); long prange = r.pct(30) ? 3 : r.pct(50) ? 50 : 1000000; int shape = (int) r.below(4);
    char tb[120]; snprintf(tb, 120, "heap: %d elements, priorities %ld shape %d, thread-safe %d, draw %llx\n", n, prange, shape, safe, (unsigned long long) r.s); g_trace = tb; std::multiset<long> pri; std::set<El *> in; std::vector<El *> all; long seq = 0;
    auto mk = [&] { El *e = new El; e->id = seq; e->pri = shape == 1 ? seq : shape == 2 ? -seq : (long) r.below((uint64_t) prange); seq++; all.push_back(e); return e; };
    if (safe && r.pct(60)) {
        int th = r.range(2, 6); std::vector<std::vector<El *>> part((size_t) th); for (int i = 0; i < n; i++) { El *e = mk(); part[(size_t) (i % th)].push_back(e); in.insert(e); pri.insert(e->pri); }
        alarm(60); std::vector<std::thread> t; for (auto &v : part) t.emplace_back([&v, h] { for (El *e : v) if (napr_heap_insert_r(h, e)) viol("heap", "insert_r failed"); }); for (auto &x : t) x.join(); alarm(0); S["concurrent_inserts"] += n;
    }
    int ops = n * 2 + 20; if (huge) S["huge_heaps"]++;
    for (int i = 0; i < ops; i++) {
        if (r.pct(i < ops / 2 ? (huge ? 90 : 65) : 35)) { El *e = mk(); if (safe ? napr_heap_insert_r(h, e) : napr_heap_insert(h, e)) viol("heap", "insert failed"); in.insert(e); pri.insert(e->pri); S["inserts"]++; }
        else {
            El *e = (El *) napr_heap_extract(h);
            if (!e) { if (!in.empty()) viol("heap", "empty although %zu elements were not extracted", in.size()); S["empty_extracts"]++; continue; }
            if (!in.erase(e)) viol("heap", "an element that is not in the heap was extracted"); long top = *pri.rbegin();
            if (e->pri != top) viol("heap", "extracted priority %ld, the greatest is %ld (%zu elements)", e->pri, top, in.size() + 1); pri.erase(pri.find(e->pri)); S["extracts"]++;
        }
        if (napr_heap_size(h) != in.size()) viol("heap", "size %u, expected %zu", napr_heap_size(h), in.size());
        if (i % (huge ? 60001 : 97) == 0) { std::set<El *> got; for (unsigned k = 0; k < napr_heap_size(h); k++) got.insert((El *) napr_heap_get_nth(h, k)); if (got != in) viol("heap", "the indexed view holds %zu distinct elements of %zu", got.size(), in.size()); if (napr_heap_get_nth(h, napr_heap_size(h))) viol("heap", "an element beyond the end"); S["views"]++; }
    }
    long last = 0; bool first = true; while (El *e = (El *) napr_heap_extract(h)) { if (!in.erase(e)) viol("heap", "drain: a stranger"); if (!first && e->pri > last) viol("heap", "drain: out of order"); last = e->pri; first = false; S["extracts"]++; }
    if (!in.empty()) viol("heap", "%zu elements were lost", in.size());
    S["max_elements"] = std::max(S["max_elements"], (long) all.size()); apr_pool_destroy(p); for (El *e : all) delete e;
}

// ---------------------------------------------------------------- sizes
static void size_history(Rng &r)
{
    apr_pool_t *p; apr_pool_create(&p, nullptr); g_trace.clear();
    static const char *un[] = {"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"};
    for (int q = 0; q < 200; q++) {
        // formatting
        int64_t v; switch (r.below(5)) { case 0: v = (int64_t) r.below(3000); break; case 1: v = (int64_t) (1ull << r.below(63)) + (int64_t) r.below(3) - 1; break; case 2: v = (int64_t) (r.next() >> (1 + r.below(62))); break; case 3: { int sh = 10 * (int) r.range(1, 5); v = (int64_t) r.range(1, 1023) * (1ll << sh) + (r.pct(50) ? (int64_t) r.below(1ull << sh) : 0); break; } default: v = INT64_MAX - (int64_t) r.below(4); }
        if (v < 0) v = 0;
        std::string s = format_human_size((apr_off_t) v, p); S["formatted"]++;
        double num; char u[8] = ""; int used = 0; if (sscanf(s.c_str(), "%lf %7s%n", &num, u, &used) != 2 || (size_t) used != s.size()) viol("size-format", "%lld is shown as '%s'", (long long) v, s.c_str());
        int ui = -1; for (int i = 0; i < 7; i++) if (!strcmp(un[i], u)) ui = i; if (ui < 0) viol("size-format", "%lld is shown as '%s'", (long long) v, s.c_str());
        if (ui == 0 ? s != std::to_string(v) + " B" : false) viol("size-format", "%lld is shown as '%s'", (long long) v, s.c_str());
        if ((v < 1024) != (ui == 0)) viol("size-format", "%lld is shown as '%s'", (long long) v, s.c_str());
        if (ui > 0) {
            long double unit = ldexpl(1, 10 * ui), x = (long double) v / unit; if (fabsl(x - (long double) num) > 0.0500001L + 1e-6L) viol("size-format", "%lld is shown as '%s'", (long long) v, s.c_str());
            if (num > 1024.0 + 1e-9 || x < 0.99999L) viol("size-format", "unit not the most appropriate: %lld is shown as '%s'", (long long) v, s.c_str());
            size_t dot = s.find('.'); if (dot == std::string::npos || s.find(' ') != dot + 2) viol("size-format", "%lld is shown as '%s'", (long long) v, s.c_str());
        }
        // parsing
        static const char *suf[] = {"", "B", "K", "M", "G", "T", "b", "k", "m", "g", "t", " K", "  M", "KB", "MiB", "\tG"}; static const int sh[] = {0, 0, 10, 20, 30, 40, 0, 10, 20, 30, 40, 10, 20, 10, 20, 30};
        int si = (int) r.below(16); std::string in; __int128 want;
        switch (r.below(4)) {
            case 0: { uint64_t n = r.next() >> (1 + r.below(63)); in = std::to_string(n); want = (__int128) n << sh[si]; break; }
            case 1: { uint64_t n = r.below(5000); static const int den[] = {2, 4, 8}; static const char *fr[] = {".5", ".25", ".125"}; int f = (int) r.below(3); in = std::to_string(n) + fr[f]; want = ((__int128) n << sh[si]) + (((__int128) 1 << sh[si]) / den[f]); break; }
            case 2: { uint64_t n = r.below(4) ? r.below(20000000) : r.below(1ull << 53); in = std::to_string(n); want = (__int128) n << sh[si]; break; }
            default: { uint64_t n = r.below(1000); in = std::string(r.below(4), '0') + std::to_string(n) + (r.pct(30) ? "." : r.pct(30) ? ".0" : ""); want = (__int128) n << sh[si]; }
        }
        in += suf[si]; D.insert(std::hash<std::string>()(in)); D.insert((size_t) v); apr_off_t got = parse_human_size(in.c_str()); S["parsed"]++;
        if (want > (__int128) INT64_MAX) { S["too_large"]++; if (got != -1) viol("size-parse", "'%s' does not fit, yet gives %lld", in.c_str(), (long long) got); }
        else if ((__int128) got != want) viol("size-parse", "'%s' gives %lld, expected %lld", in.c_str(), (long long) got, (long long) want);
        // refusals
        static const char *bad[] = {"", " ", "abc", "K", "-1", "-5K", "-0.5", "1X", "12Q", "5 Z", "nan", "inf", "-inf", "1e30", "1e19", "9223372036854775808", "8388608T", "9007199254740992K", "--3", "+", ".", "1/2", "7#", "12,5", "\xff", "1\xff", "nanK", "infinityT", "5Kfoo", "5KK", "1BB", "5K5", "2MiBi", "10 K K", "1Bi", "3T1", "7G,", "1 2", "4K-"};
        std::string bs = bad[r.below(sizeof bad / sizeof *bad)]; apr_off_t g = parse_human_size(bs.c_str()); S["refused"]++; if (g != -1) viol("size-parse", "'%s' is accepted as %lld", bs.c_str(), (long long) g);
    }
    apr_pool_destroy(p);
}

// ---------------------------------------------------------------- digests and comparison
static void put(const std::string &f, const std::string &b) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t o = 0; while (o < b.size()) { ssize_t w = write(fd, b.data() + o, b.size() - o); if (w <= 0) { printf("cannot write\n"); _exit(4); } o += (size_t) w; } close(fd); }
// reads and mappings: from the n-th on, one, some or all fail or are short
static std::atomic<long> g_rdat{-1}; static int g_rdkind = 0; static std::atomic<long> g_rdhit{0};
#if defined(__SANITIZE_ADDRESS__)
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" ssize_t read(int fd, void *b, size_t n)
{
    if (g_rdat.load() >= 0) {
        long k = g_rdat.fetch_sub(1); if (k < 0) g_rdat = -1;
        if (k == 0) { g_rdhit++; if (g_rdkind & 4) g_rdat = 0; else g_rdat = -1; if (g_rdkind & 1) { if (n > 1) n = n > 4096 ? 4096 - 7 : 1; } else { errno = g_rdkind & 8 ? EAGAIN : EIO; return -1; } }
    }
    return syscall(SYS_read, fd, b, n);
}
extern "C" void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    if (g_rdat.load() >= 0 && fd >= 0 && (g_rdkind & 2)) { g_rdhit++; errno = ENOMEM; return MAP_FAILED; }
    return (void *) syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
#endif
static void digest_history(Rng &r)
{
    apr_pool_t *p; apr_pool_create(&p, nullptr); g_trace.clear();
    static const long base[] = {0, 1, 2, 16, 128, 240, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20, 3 << 20};
    long n = base[r.below(r.pct(15) ? 17 : 15)] + (r.pct(60) ? (long) r.below(3) - 1 : (long) r.below(3000)); if (n < 0) n = 0;
    std::string a((size_t) n, 0); uint64_t x = r.next() | 1; for (auto &c : a) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char) (r.s & 1 ? x : (x & 1)); }
    std::string f1 = g_dir + "/a", f2 = g_dir + "/b"; put(f1, a);
    XXH128_hash_t want = XXH3_128bits(a.data(), a.size());
    char t[100]; snprintf(t, 100, "file of %ld bytes, digest %llx\n", n, (unsigned long long) want.low64); g_trace = t;
    long ex[] = {0, 1, n - 1, n, n + 1, 50l << 20};
    for (long e : ex) {
        if (e < 0) continue; ft_hash_t h; memset(&h, 0x5a, sizeof h); apr_status_t s = checksum_file(f1.c_str(), n, e, &h, p); S["digests"]++;
        if (s) viol("digest", "status %d for a readable file of %ld bytes (threshold %ld)", s, n, e);
        if (memcmp(&h, &want, sizeof want)) viol("digest", "digest of a file of %ld bytes differs from that of its bytes (threshold %ld)", n, e);
        apr_pool_clear(p);
    }
    for (int k = 0; k < 4; k++) {
        std::string b = a; int kind = n ? (int) r.below(4) : r.pct(50) ? 2 : 0; long at = 0;
        if (kind == 1) { static const int spots[] = {0, 1, -1, -2}; at = r.pct(50) ? (long) r.below((uint64_t) n) : spots[r.below(4)]; at = ((at % n) + n) % n; if (r.pct(40) && n > 4096) { at = ((long) r.below((uint64_t) n / 4096) + 1) * 4096 - (long) r.below(2); if (at >= n) at = n - 1; } b[(size_t) at] = (char) (b[(size_t) at] ^ (1 << r.below(8))); }
        else if (kind == 2) b += 'x'; else if (kind == 3) b.pop_back();
        put(f2, b); bool same = a == b;
        for (long e : ex) {
            if (e < 0) continue; int res = 12345; apr_status_t s = filecmp(p, f1.c_str(), f2.c_str(), n, e, &res); S["comparisons"]++;
            if (s == APR_SUCCESS && (res == 0) != same) viol("compare", "files of %ld bytes, variant %d (byte %ld): result %d, %s (threshold %ld)", n, kind, at, res, same ? "identical" : "different", e);
            if (s && (kind == 0 || kind == 1)) viol("compare", "status %d for readable files of %ld bytes (threshold %ld)", s, n, e);
            s = filecmp(p, f2.c_str(), f1.c_str(), n, e, &res);
            if (s == APR_SUCCESS && (res == 0) != same) viol("compare", "swapped: files of %ld bytes, variant %d (byte %ld): result %d (threshold %ld)", n, kind, at, res, e);
            apr_pool_clear(p);
        }
        S[same ? "identical_pairs" : "different_pairs"]++;
    }
    for (int k = 0; k < 6 && n; k++) {      // whatever succeeds although a read or a mapping failed must still be right
        static const int kinds[] = {0, 0, 4, 1, 5, 2, 3, 6}; g_rdkind = kinds[r.below(8)]; long e = ex[r.below(6)]; if (e < 0) e = 0;
        bool same = r.pct(50); std::string b = a; if (!same) { size_t at = r.pct(50) ? b.size() - 1 : (size_t) r.below(b.size()); b[at] = (char) (b[at] ^ 1); } put(f2, b);
        snprintf(t, 100, "reading fault %d, threshold %ld\n", g_rdkind, e); g_trace += t; ft_hash_t h; memset(&h, 0x5a, sizeof h); int res = 12345; bool cmp = r.pct(50);
        g_rdhit = 0; g_rdat = (long) r.below((uint64_t) n / 65536 + 3); apr_status_t s = cmp ? filecmp(p, f1.c_str(), f2.c_str(), n, e, &res) : checksum_file(f1.c_str(), n, e, &h, p); g_rdat = -1;
        if (g_rdhit.load()) S["faults_of_reads_and_mappings"]++;
        if (!s && !cmp && memcmp(&h, &want, sizeof want)) viol("digest", "a file of %ld bytes got a wrong digest after a fault of kind %d (threshold %ld)", n, g_rdkind, e);
        if (!s && cmp && (res == 0) != same) viol("compare", "files of %ld bytes, %s, after a fault of kind %d: result %d (threshold %ld)", n, same ? "identical" : "different", g_rdkind, res, e);
        if (s && (g_rdkind & 3) == 1) viol("digest", "short reads made reading a file of %ld bytes fail with status %d (threshold %ld)", n, s, e);
        apr_pool_clear(p);
    }
    unlink(f2.c_str()); int res = 0; ft_hash_t h; for (long e : {0l, 50l << 20}) { if (checksum_file(f2.c_str(), n, e, &h, p) == APR_SUCCESS) viol("digest", "a missing file has a digest"); res = 0; if (filecmp(p, f1.c_str(), f2.c_str(), n, e, &res) == APR_SUCCESS && res == 0) viol("compare", "a missing file is identical to another of %ld bytes", n); S["missing_files"]++; }
    // something else than a file by now: a pipe nobody writes to, a directory
    bool dir = r.pct(30); if (dir ? mkdir(f2.c_str(), 0755) : mkfifo(f2.c_str(), 0644)) _exit(9); signal(SIGALRM, [](int) { viol("hang", "a pipe in place of a file blocks"); }); alarm(40);
    for (long e : {0l, 50l << 20}) {
        if (checksum_file(f2.c_str(), n, e, &h, p) == APR_SUCCESS) viol("digest", "a %s has a digest", dir ? "directory" : "pipe");
        for (int sw = 0; sw < 2; sw++) { res = 0; if (filecmp(p, (sw ? f2 : f1).c_str(), (sw ? f1 : f2).c_str(), n, e, &res) == APR_SUCCESS && res == 0) viol("compare", "a %s is identical to a file of %ld bytes", dir ? "directory" : "pipe", n); }
        S["no_files_any_more"]++;
    }
    alarm(0); if (dir) rmdir(f2.c_str()); else unlink(f2.c_str());
    unlink(f1.c_str()); apr_pool_destroy(p);
}
static void on_alarm(int) { static const char m[] = "VIOL hang history=0: the operation did not finish within 60 s\n"; (void) !write(1, m, sizeof m - 1); _exit(3); }
int main(int argc, char **argv)
{
    uint64_t first = 0, count = 1; std::string prog;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char *v = argv[i + 1]; if (a == "--dir") g_dir = v; else if (a == "--seed") g_seed = strtoull(v, 0, 10); else if (a == "--first") first = strtoull(v, 0, 10); else if (a == "--count") count = strtoull(v, 0, 10); else if (a == "--log") g_log = v; else if (a == "--progress") prog = v; else if (a == "--mode") g_mode = v; }
    apr_initialize(); signal(SIGALRM, on_alarm); std::string sample;
    for (g_hist = first; g_hist < first + count; g_hist++) {
        if (!prog.empty()) { FILE *f = fopen(prog.c_str(), "w"); fprintf(f, "%llu\n", (unsigned long long) g_hist); fclose(f); }
        Rng r(g_seed * 1000003ull + g_hist * 7919 + g_mode.size() * 31);
        if (g_mode == "pool") pool_history(r); else if (g_mode == "hash") hash_history(r); else if (g_mode == "heap") heap_history(r); else if (g_mode == "size") size_history(r); else digest_history(r);
        S["histories"]++; D.insert(std::hash<std::string>()(g_trace)); if (sample.empty()) sample = g_trace;
    }
    for (auto &c : sample) if (c == '\n') c = ';';
    if (!sample.empty()) printf("SAMPLE %s\n", sample.c_str());
    S["distinct_cases"] = (long) D.size(); printf("STATS {"); bool f = true; for (auto &e : S) { printf("%s\"%s\":%ld", f ? "" : ",", e.first.c_str(), e.second); f = false; } printf("}\n");
    return 0;
}
