// Model-based monitor of the storage engine: random histories of transactions against a
// std::map, with pinned snapshot readers, cursors, aborts, failing calls, reopens and a
// page audit read directly from the file.
#include "dbcommon.hpp"
#include <apr_general.h>
#include <apr_pools.h>
#include <sys/mman.h>
extern "C" {
#include "napr_db.h"
}

static std::string g_dir, g_log, g_focus = "all", g_progress;
static std::vector<std::string> g_ops;
static uint64_t g_hist;
static long n_hist, n_commit, n_abort, n_put, n_upd, n_del, n_get, n_scan, n_entries, n_range, n_reader, n_readercheck, n_reopen, n_refused, n_audit, n_full, n_pages, n_reused, n_maxdepth, n_emptyleaf, n_dup, n_zombie, n_bigkey, n_aged, n_crowd, n_crowdreaders, n_steady, n_rdonly, n_foreign, n_ancient, n_deepfree, n_maxfdepth, n_lent, n_huge, n_nullout, n_steadybig, n_nospace;
static std::set<uint64_t> g_states;

static void op(const char *fmt, ...)
{
    char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    g_ops.push_back(b);
}
[[noreturn]] static void viol(const char *kind, const char *fmt, ...)
{
    char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("VIOL %s history=%llu after %zu ops: %s\n", kind, (unsigned long long) g_hist, g_ops.size(), b);
    if (!g_log.empty()) {
        FILE *f = fopen(g_log.c_str(), "w");
        if (f) {
            fprintf(f, "violation: %s history=%llu: %s\n", kind, (unsigned long long) g_hist, b);
            for (auto &o : g_ops) fprintf(f, "%s\n", o.c_str());
            fclose(f);
        }
    }
    fflush(stdout);
    _exit(3);
}

static napr_db_val_t V(const std::string &s) { napr_db_val_t v; memset(&v, 0, sizeof v); v.data = (void *) s.data(); v.size = s.size(); return v; }
static std::string S(const napr_db_val_t &v) { return std::string((const char *) v.data, v.size); }

// Exact-size heap copies, so that the address sanitizer sees reads past the caller's buffers.
struct Buf { char *p; size_t n; explicit Buf(const std::string &s) : p((char *) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    ~Buf() { free(p); } napr_db_val_t v() { napr_db_val_t x; memset(&x, 0, sizeof x); x.data = p; x.size = n; return x; } };

struct Reader { napr_db_txn_t *t; Model snap; int ttl; };

struct Hist {
    Rng r; apr_pool_t *pool = nullptr; napr_db_env_t *env = nullptr; std::string path; size_t mapsize;
    Model committed; std::vector<Reader> readers; int kstyle, vstyle, nkeys, counter = 0; bool tight = false;
    explicit Hist(uint64_t seed) : r(seed) {}

    std::string key()
    {
        char b[64]; std::string k;
        switch (kstyle) {
        case 0: snprintf(b, 64, "k%05d", r.range(0, nkeys - 1)); return b;
        case 1: { int n = r.range(0, 9); static const char al[] = {0, 1, 'a', 'b', (char) 0x7f, (char) 0x80, (char) 0xff}; for (int i = 0; i < n; i++) k += al[r.below(7)]; return k; }
        case 2: { Rng q(r.below((uint64_t) nkeys) + 77); k = "/srv/data"; int n = q.range(1, 6); for (int i = 0; i < n; i++) { k += "/d"; k += std::string((size_t) q.range(1, 40), (char) ('a' + q.below(26))); } k += std::to_string(q.below(1000)); return k; }
        case 3: { Rng q(r.below((uint64_t) nkeys) + 5); k = std::string((size_t) q.range(300, 980), (char) ('a' + q.below(3))); k += std::to_string(q.below(100000)); return k.substr(0, 1000); }
        case 4: if (r.pct(70)) snprintf(b, 64, "a%08d", counter++); else snprintf(b, 64, "a%08d", (int) r.below((uint64_t) counter + 1)); return b;
        case 5: if (r.pct(70)) snprintf(b, 64, "z%08d", 90000000 - counter++); else snprintf(b, 64, "z%08d", 90000000 - (int) r.below((uint64_t) counter + 1)); return b;
        case 6: { Rng q(r.below((uint64_t) nkeys) + 9); return r.pct(50) ? std::string((size_t) q.range(1, 4), (char) ('a' + q.below(26))) : std::string((size_t) q.range(600, 1000), (char) ('a' + q.below(26))); }
        case 8: { uint64_t x = r.below((uint64_t) nkeys) * 40503u & 0xffff; k += (char) (x >> 8); k += (char) x; if (x % 3 == 0) k += (char) (x >> 4); return k; }     // hundreds of entries per page
        default: { uint64_t x = r.below((uint64_t) nkeys) * 2654435761u; return std::string((const char *) &x, 8); }
        }
    }
    std::string val(size_t klen)
    {
        size_t n;
        switch (vstyle) {
        case 0: n = 32; break;
        case 1: n = r.below(60); break;
        case 2: n = r.below(900); break;
        case 5: n = r.below(3); break;
        case 3: n = r.pct(70) ? r.below(80) : r.below(4072 - klen + 1); break;
        default: n = r.pct(25) ? 4072 - klen : r.below(2200); break;
        }
        if (n + klen > 4072) n = 4072 - klen;
        std::string v(n, 0); uint64_t x = r.next(); for (size_t i = 0; i < n; i++) v[i] = (char) (x >> (8 * (i % 8)));
        return v;
    }
    void open()
    {
        apr_status_t s = napr_db_env_create(&env, pool);
        if (s) viol("api", "env_create -> %d", s);
        napr_db_env_set_mapsize(env, mapsize);
        s = napr_db_env_open(env, path.c_str(), NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
        if (s) viol("reopen", "env_open -> %d", s);
    }
    napr_db_txn_t *begin(unsigned f)
    {
        napr_db_txn_t *t = nullptr; apr_status_t s = napr_db_txn_begin(env, f, &t);
        if (s) viol("api", "txn_begin(%u) -> %d", f, s);
        return t;
    }
    void expect_get(napr_db_txn_t *t, const Model &m, const std::string &k, const char *kind)
    {
        Buf b(k); napr_db_val_t kv = b.v(), d; memset(&d, 0, sizeof d);
        apr_status_t s = napr_db_get(t, &kv, &d); n_get++;
        auto it = m.find(k);
        if (it == m.end()) { if (s != APR_NOTFOUND) viol(kind, "get(%s) -> %d, key should be absent", hexs(k).c_str(), s); }
        else {
            if (s) viol(kind, "get(%s) -> %d, key should be present", hexs(k).c_str(), s);
            if (S(d) != it->second) viol(kind, "get(%s) gives %s, expected %s", hexs(k).c_str(), hexs(S(d)).c_str(), hexs(it->second).c_str());
        }
    }
    void scan(napr_db_txn_t *t, const Model &m, const char *kind)
    {
        napr_db_cursor_t *c = nullptr; napr_db_val_t k, d; apr_status_t s;
        if ((s = napr_db_cursor_open(t, &c))) viol(kind, "cursor_open -> %d", s);
        n_scan++;
        // either output may be left out; what was not asked for is fetched from the current position
        auto step = [&](napr_db_cursor_op_t o) {
            int q = r.range(0, 29); if (q > 2) return napr_db_cursor_get(c, &k, &d, o);
            n_nullout++; apr_status_t x = napr_db_cursor_get(c, q == 1 ? &k : nullptr, q == 0 ? &d : nullptr, o);
            if (x == APR_SUCCESS) { apr_status_t y = napr_db_cursor_get(c, q == 1 ? nullptr : &k, q == 0 ? nullptr : &d, NAPR_DB_GET_CURRENT); if (y) viol(kind, "get_current after a successful step -> %d", y); }
            return x;
        };
        int what = r.range(0, 3);
        if (what == 0 || what == 3) {
            auto it = m.begin();
            for (s = step(NAPR_DB_FIRST); s == APR_SUCCESS; s = step(NAPR_DB_NEXT)) {
                if (it == m.end()) viol(kind, "forward scan yields %s past the last key", hexs(S(k)).c_str());
                if (S(k) != it->first || S(d) != it->second) viol(kind, "forward scan yields %s, expected %s", hexs(S(k)).c_str(), hexs(it->first).c_str());
                ++it; n_entries++;
            }
            if (s != APR_NOTFOUND) viol(kind, "scan ends with %d", s);
            if (it != m.end()) viol(kind, "forward scan stops before %s (%zu of %zu keys seen)", hexs(it->first).c_str(), (size_t) std::distance(m.begin(), it), m.size());
        }
        if (what == 1 || what == 3) {
            auto it = m.rbegin();
            for (s = step(NAPR_DB_LAST); s == APR_SUCCESS; s = step(NAPR_DB_PREV)) {
                if (it == m.rend()) viol(kind, "backward scan yields %s past the first key", hexs(S(k)).c_str());
                if (S(k) != it->first || S(d) != it->second) viol(kind, "backward scan yields %s, expected %s", hexs(S(k)).c_str(), hexs(it->first).c_str());
                ++it; n_entries++;
            }
            if (s != APR_NOTFOUND) viol(kind, "scan ends with %d", s);
            if (it != m.rend()) viol(kind, "backward scan stops before %s", hexs(it->first).c_str());
        }
        if (what >= 2) {
            for (int q = 0; q < 12; q++) {
                std::string kk = key();
                if (r.pct(40) && !m.empty()) { auto it = m.lower_bound(kk); if (it == m.end()) --it; kk = it->first; if (r.pct(50)) kk += '\0'; else if (r.pct(50) && !kk.empty()) kk.back()--; }
                n_range++;
                Buf b(kk); k = b.v(); memset(&d, 0, sizeof d);
                bool exact = r.pct(30);
                s = napr_db_cursor_get(c, &k, &d, exact ? NAPR_DB_SET : NAPR_DB_SET_RANGE);
                auto it = exact ? m.find(kk) : m.lower_bound(kk);
                if (it == m.end()) { if (s != APR_NOTFOUND) viol(kind, "%s(%s) -> %d, nothing there", exact ? "set" : "set_range", hexs(kk).c_str(), s); continue; }
                if (s) viol(kind, "%s(%s) -> %d, expected %s", exact ? "set" : "set_range", hexs(kk).c_str(), s, hexs(it->first).c_str());
                int steps = r.range(0, 25);
                for (int i = 0;; i++) {
                    if (S(k) != it->first || S(d) != it->second) viol(kind, "cursor at %s, expected %s (seek %s, step %d)", hexs(S(k)).c_str(), hexs(it->first).c_str(), hexs(kk).c_str(), i);
                    if (i == steps) break;
                    if (r.pct(15)) { s = step(NAPR_DB_GET_CURRENT); if (s) viol(kind, "get_current -> %d", s); continue; }
                    bool fwd = r.pct(65);
                    if (!fwd && it == m.begin()) { s = step(NAPR_DB_PREV); if (s != APR_NOTFOUND) viol(kind, "prev before the first key -> %d", s); break; }
                    if (fwd) ++it; else --it;
                    s = step(fwd ? NAPR_DB_NEXT : NAPR_DB_PREV);
                    if (it == m.end()) { if (s != APR_NOTFOUND) viol(kind, "next after the last key -> %d", s); break; }
                    if (s) viol(kind, "cursor %s -> %d, expected %s", fwd ? "next" : "prev", s, hexs(it->first).c_str());
                    n_entries++;
                }
            }
        }
        napr_db_cursor_close(c);
    }
    void full(napr_db_txn_t *t, const Model &m, const char *kind)
    {
        n_full++;
        for (auto &e : m) expect_get(t, m, e.first, kind);
        for (int i = 0; i < 10; i++) expect_get(t, m, key(), kind);
    }
    uint64_t hashm() { uint64_t h = 1469598103934665603ull; for (auto &e : committed) for (unsigned char c : e.first + "=" + e.second) h = (h ^ c) * 1099511628211ull; return h; }
    size_t prev_last = 0, last_fdepth = 0;
    void audit(const char *kind)
    {
        if (++n_audit % 4 == 0 && !g_progress.empty()) utimensat(AT_FDCWD, g_progress.c_str(), nullptr, 0);     // alive
        auto f = slurp(path); Audit a;
        if (!a.run(f)) viol(kind, "page audit: %s", a.err.c_str());
        if (a.content != committed) viol(kind, "page audit: tree on disk holds %zu keys, %zu expected (or different values)", a.content.size(), committed.size());
        if (a.unaccounted) viol(kind, "page audit: %zu of %zu pages are neither in use nor on the free list", a.unaccounted, (size_t) a.last - 1);
        if (f.size() > mapsize) viol(kind, "file (%zu) outgrew the map size (%zu)", f.size(), mapsize);
        n_pages += (long) (a.main_pages + a.free_tree_pages + a.listed);
        if (a.last == prev_last) n_reused++;
        last_fdepth = a.fdepth; prev_last = a.last; if ((long) a.depth > n_maxdepth) n_maxdepth = (long) a.depth; n_emptyleaf += (long) a.empty_leaves;
    }
    void check_readers()
    {
        for (auto &rd : readers) { n_readercheck++; if (r.pct(50)) full(rd.t, rd.snap, "snapshot"); else scan(rd.t, rd.snap, "snapshot"); }
    }
    // The key as a cursor of the same transaction hands it out, instead of the caller's copy.
    void lend(napr_db_txn_t *t, napr_db_val_t &kv)
    {
        napr_db_cursor_t *c = nullptr; napr_db_val_t d; memset(&d, 0, sizeof d); std::string k = S(kv); if (napr_db_cursor_open(t, &c)) viol("map", "cursor_open failed");
        apr_status_t s = napr_db_cursor_get(c, &kv, &d, NAPR_DB_SET); if (s || S(kv) != k) viol("map", "cursor set(%s) -> %d", hexs(k).c_str(), s); napr_db_cursor_close(c); n_lent++; op("lent key");
    }
    // one write transaction
    void wtxn(int nops, int pdel, int pabort, int pcursor)
    {
        napr_db_txn_t *t = begin(0);
        Model view = committed; std::set<std::string> fresh; bool broken = false; Model viewAtBreak;
        op("begin write (%d ops)", nops);
        if (r.pct(pabort) && r.pct(20)) nops = 0;
        for (int i = 0; i < nops && !broken; i++) {
            std::string k = key();
            if (r.pct(30) && !view.empty()) { auto it = view.lower_bound(k); if (it == view.end()) --it; k = it->first; }
            int w = r.range(0, 99);
            if (w < pdel) {
                Buf b(k); napr_db_val_t kv = b.v(); napr_db_val_t *cond = nullptr;
                if (r.pct(15)) {          // conditional deletes: a value that differs must leave the pair alone
                    std::string wrong = view.count(k) ? view[k] : std::string("x"); bool match = false;
                    switch (r.range(0, 3)) { case 0: wrong += "z"; break; case 1: if (!wrong.empty()) wrong.pop_back(); else wrong = "q"; break; case 2: if (!wrong.empty()) wrong.back() = (char) (wrong.back() ^ 1); else wrong = "q"; break; default: match = true; }
                    Buf bw(wrong); napr_db_val_t dv = bw.v(); cond = &dv; apr_status_t s = napr_db_del(t, &kv, cond); n_del++;
                    op("del %s if value matches (%d) -> %d", hexs(k).c_str(), match, s);
                    if (!match || !view.count(k)) { if (s != APR_NOTFOUND) viol("map", "conditional del(%s) with another value -> %d", hexs(k).c_str(), s); expect_get(t, view, k, "map"); }
                    else if (s) { if (!tight) viol("map", "conditional del(%s) with the stored value -> %d", hexs(k).c_str(), s); broken = true; break; }
                    else { view.erase(k); fresh.erase(k); expect_get(t, view, k, "map"); }
                    continue;
                }
                if (view.count(k) && r.pct(15)) lend(t, kv);
                apr_status_t s = napr_db_del(t, &kv, nullptr); n_del++;
                op("del %s -> %d", hexs(k).c_str(), s);
                if (view.count(k)) { if (s) { if (!tight) viol("map", "del(%s) -> %d, key is present", hexs(k).c_str(), s); broken = true; break; } view.erase(k); fresh.erase(k); if (r.pct(40)) expect_get(t, view, k, "map"); }
                else if (s != APR_NOTFOUND) viol("map", "del(%s) -> %d, key is absent", hexs(k).c_str(), s);
            } else if (w < 92) {
                std::string v = val(k.size());
                bool had = view.count(k), inSnap = committed.count(k); std::string from; bool lent = false;
                if (r.pct(20) && !view.empty()) {         // the value of a neighbour, as the database itself hands it out in this transaction
                    auto it = view.lower_bound(k); int st = r.range(-3, 3); for (; st > 0 && it != view.end(); st--) ++it; for (; st < 0 && it != view.begin(); st++) --it; if (it == view.end()) --it;
                    if (it->second.size() + k.size() <= 4072) { lent = true; from = it->first; v = it->second; }
                }
                Buf b(k), b2(v), bf(from); napr_db_val_t kv = b.v(), dv = b2.v(), fv = bf.v();
                if (lent) { n_lent++; op("value of %s", hexs(from).c_str()); apr_status_t g = napr_db_get(t, &fv, &dv); if (g || S(dv) != v) viol("map", "get(%s) -> %d or another value", hexs(from).c_str(), g); }
                if (had && r.pct(15)) lend(t, kv);
                apr_status_t s = napr_db_put(t, &kv, &dv);
                op("put %s len %zu -> %d", hexs(k).c_str(), v.size(), s);
                if (s == APR_SUCCESS && had && !inSnap && g_focus == "abort") viol("refuse", "put(%s) of a key this transaction inserted is accepted", hexs(k).c_str());
                if (s == APR_SUCCESS) { if (had) n_upd++; else { n_put++; if (!inSnap) fresh.insert(k); } view[k] = v; }
                else if (s == APR_EEXIST && had && !inSnap) n_dup++;           // documented refusal: inserted by this very transaction
                else if (tight) { broken = true; n_nospace++; viewAtBreak = view; break; }
                else viol("map", "put(%s, %zu bytes) -> %d (%s)", hexs(k).c_str(), v.size(), s, had ? "update" : "insert");
                if (r.pct(30)) expect_get(t, view, k, "map");
            } else if (w < 94) {
                // calls that must be refused without any effect
                std::string big; apr_status_t s; n_refused++;
                int kind = r.range(0, 5);
                if (kind == 5) {          // a key longer than branch pages may like: stored exactly or refused without effect
                    std::string lk((size_t) r.range(980, 4072), (char) ('a' + r.below(26))); lk += std::to_string(r.below(9)); if (lk.size() > 4072) lk.resize(4072);
                    std::string lv(r.below(4072 - lk.size() + 1), 'L'); Buf b(lk), b2(lv); napr_db_val_t kv = b.v(), dv = b2.v(); bool had = view.count(lk);
                    s = napr_db_put(t, &kv, &dv); op("put of a %zu-byte key -> %d", lk.size(), s); n_bigkey++;
                    if (s == APR_SUCCESS) { if (!had && !committed.count(lk)) fresh.insert(lk); view[lk] = lv; } else if (tight) { broken = true; break; }
                    expect_get(t, view, lk, "refuse"); if (r.pct(50)) full(t, view, "refuse"); continue;
                }
                std::string bk = kind == 0 ? std::string((size_t) r.range(4100, 9000), 'x') : kind == 1 ? std::string(65536 + (size_t) r.range(0, 40), 'y') : k;
                std::string bv = kind == 2 ? std::string((size_t) r.range(4100, 9000), 'v') : kind == 3 ? std::string(65536 + (size_t) r.range(0, 3000), 'w') : kind == 4 ? std::string(70000 * 3, 'q') : std::string("v");
                Buf b(bk), b2(bv); napr_db_val_t kv = b.v(), dv = b2.v();
                s = napr_db_put(t, &kv, &dv);
                op("oversized put key %zu value %zu -> %d", bk.size(), bv.size(), s);
                if (s == APR_SUCCESS) viol("refuse", "put of key %zu value %zu bytes reports success", bk.size(), bv.size());
                if (kind != 2 && kind != 3 && kind != 4) { napr_db_val_t d2; s = napr_db_get(t, &kv, &d2); if (s == APR_SUCCESS) viol("refuse", "oversized key is found"); }
                if (r.pct(50)) full(t, view, "refuse");
            } else expect_get(t, view, k, "map");
            if (r.pct(pcursor)) scan(t, view, "cursor");
            if (!readers.empty() && r.pct(2)) check_readers();
        }
        if (!broken && r.pct(50)) full(t, view, "map");
        if (r.pct(broken ? pabort / 3 : pabort)) {
            op("abort"); n_abort++;
            apr_status_t s = napr_db_txn_abort(t); if (s) viol("abort", "abort -> %d", s);
        } else {
            apr_status_t s = napr_db_txn_commit(t);
            op("commit -> %d", s);
            if (s) { if (!tight) viol("map", "commit -> %d", s); n_refused++; }
            else if (broken) { if (view != committed || true) { n_zombie++; committed = view; } n_commit++; }
            else { committed = view; n_commit++; }
        }
        g_states.insert(hashm());
    }
    // As many readers as the table takes, begun at different commits, all alive at once.
    void crowd()
    {
        std::vector<Reader> c; apr_status_t s = APR_SUCCESS; n_crowd++; op("crowd of readers");
        while (c.size() < 400) {
            napr_db_txn_t *t = nullptr; if ((s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t))) break;
            c.push_back({t, committed, 0});
            if (r.pct(8)) { wtxn(r.range(1, 6), 30, 0, 0); if (r.pct(30)) audit("pages"); }
        }
        if (c.size() + readers.size() < 100) viol("snapshot", "only %zu read transactions can be open at the same time: %d", c.size() + readers.size(), s);
        for (int k = r.range(4, 10); k > 0; k--) { wtxn(r.range(1, 12), 30, 10, 0); audit("pages"); }
        if (s) { napr_db_txn_t *t = nullptr; if (napr_db_txn_begin(env, NAPR_DB_RDONLY, &t) == APR_SUCCESS) c.push_back({t, committed, 0}); }
        n_crowdreaders += (long) c.size();
        if (r.pct(60)) {                // one reader survives, in any place of the table: what it sees must stay
            size_t keep = r.pct(50) ? c.size() - 1 : r.below(c.size()); Reader one = c[keep];
            for (size_t i = 0; i < c.size(); i++) if (i != keep) napr_db_txn_abort(c[i].t);
            for (auto &q : readers) napr_db_txn_abort(q.t); readers.clear();
            c.clear(); c.push_back(one);
            for (int k = 0; k < 14; k++) { wtxn(r.range(4, 20), 30, 0, 0); n_readercheck++; full(one.t, one.snap, "snapshot"); }
        }
        // the last and the first comers first: a reader that is not registered loses its pages early
        while (!c.empty()) {
            for (int k = 0; k < 3; k++) { auto &q = c[k == 0 ? c.size() - 1 : k == 1 ? 0 : r.below(c.size())]; n_readercheck++; full(q.t, q.snap, "snapshot"); }
            int n = r.range(1, 12); bool front = r.pct(60);
            while (n-- > 0 && !c.empty()) { size_t i = front ? 0 : r.below(c.size()); n_readercheck++; full(c[i].t, c[i].snap, "snapshot"); if (r.pct(50)) napr_db_txn_abort(c[i].t); else napr_db_txn_commit(c[i].t); c.erase(c.begin() + (long) i); }
            if (r.pct(60)) wtxn(r.range(1, 12), 30, 0, 0);
        }
        audit("pages");
    }
    // A steady workload over a fixed set of keys must stop growing the file once it is warmed up.
    size_t lastpg() { auto f = slurp(path); Audit a; if (!a.run(f)) viol("pages", "page audit: %s", a.err.c_str()); return (size_t) a.last; }
    void steady()
    {
        n_steady++; int K = r.range(3, 300), per = r.range(1, 12); size_t vl = r.below(300); bool mix = r.pct(50); op("steady workload: %d keys, %d per commit, values of %zu", K, per, vl);
        auto one = [&](int n) {
            napr_db_txn_t *t = begin(0); std::set<int> seen;
            for (int i = 0; i < n; i++) {
                int x = (int) r.below((uint64_t) K); if (!seen.insert(x).second) continue;
                char b[32]; snprintf(b, 32, "s%06d", x); std::string k = b, v(vl, (char) ('a' + r.below(26))); Buf bk(k), bv(v); napr_db_val_t kv = bk.v(), dv = bv.v(); apr_status_t s;
                if (mix && committed.count(k) && r.pct(30)) { if ((s = napr_db_del(t, &kv, nullptr))) viol("map", "del -> %d", s); committed.erase(k); n_del++; }
                else { if ((s = napr_db_put(t, &kv, &dv))) viol("map", "put -> %d", s); committed[k] = v; n_upd++; }
            }
            apr_status_t s = napr_db_txn_commit(t); if (s) viol("map", "commit -> %d", s); n_commit++;
        };
        one(3 * K); for (int i = 0; i < 80; i++) one(per);
        size_t a = lastpg(); for (int i = 0; i < 160; i++) one(per);
        size_t b = lastpg(); if (b > a + a / 4 + 12) viol("pages", "a steady workload lets the file grow: %zu pages after 80 commits, %zu after 240 (%d keys, %d per commit)", a, b, K, per);
        napr_db_txn_t *t = begin(NAPR_DB_RDONLY); Model snap = committed; for (int i = 0; i < 40; i++) one(per);
        full(t, snap, "snapshot"); napr_db_txn_abort(t); for (int i = 0; i < 40; i++) one(per);
        size_t c = lastpg(); for (int i = 0; i < 120; i++) one(per);
        size_t d = lastpg(); if (d > c + c / 4 + 12) viol("pages", "after a reader left, a steady workload lets the file grow: %zu pages, %zu after 120 more commits", c, d);
        audit("pages"); t = begin(NAPR_DB_RDONLY); full(t, committed, "map"); napr_db_txn_abort(t);
    }
    // Transactions that each replace hundreds of pages, over the same keys: what one frees the ones after it use.
    void steadybig()
    {
        int N = r.range(150, 700); size_t vl = (size_t) r.range(2100, 4060); op("steady large transactions over %d pages", N); apr_status_t s;
        auto one = [&](int round) {
            napr_db_txn_t *t = begin(0);
            for (int i = 0; i < N; i++) { char b[32]; snprintf(b, 32, "b%06d", i); std::string k = b, w(vl, (char) ('a' + (i + round) % 26)); Buf bk(k), bv(w); napr_db_val_t kv = bk.v(), dv = bv.v(); if ((s = napr_db_put(t, &kv, &dv))) viol("map", "put -> %d", s); committed[k] = w; n_upd++; }
            if ((s = napr_db_txn_commit(t))) viol("map", "commit -> %d", s); n_commit++; n_steadybig++;
        };
        int warm = r.range(5, 8), more = r.range(5, 9); for (int i = 0; i < warm; i++) one(i);
        size_t a = lastpg(); for (int i = 0; i < more; i++) one(warm + i);
        size_t b = lastpg(); audit("pages"); if (b > a + (size_t) N + 60) viol("pages", "a steady workload of large transactions lets the file grow: %zu pages after %d commits, %zu after %d (%d pages replaced by each)", a, warm, b, warm + more, N);
        napr_db_txn_t *t = begin(NAPR_DB_RDONLY); full(t, committed, "map"); napr_db_txn_abort(t);
    }
    // A reader that stays open over hundreds of commits: what they free piles up in a free list of several levels, and is used up afterwards.
    void ancient()
    {
        n_ancient++; bool tiny = r.pct(60), gone = r.pct(50); int K = tiny ? r.range(20, 120) : r.range(300, 900), per = tiny ? r.range(1, 2) : r.range(6, 14), every = tiny ? 500 : 100, most = tiny ? 13000 : 2000; size_t kl = (size_t) r.range(tiny ? 5 : 60, tiny ? 60 : 400), vl = r.below(tiny ? 60 : 900);
        auto kname = [&](int x) { char b[32]; snprintf(b, 32, "%07d", (int) ((unsigned) x * 7919u % 1000003u)); return std::string(b) + std::string(kl, 'k'); };
        auto one = [&](int n) {
            napr_db_txn_t *t = begin(0); std::set<int> seen; Model v = committed; apr_status_t s;
            for (int i = 0; i < n; i++) {
                int x = (int) r.below((uint64_t) K); if (!seen.insert(x).second) continue;
                std::string k = kname(x), w(vl, (char) ('a' + r.below(26))); Buf bk(k), bv(w); napr_db_val_t kv = bk.v(), dv = bv.v();
                if (v.count(k) && r.pct(15)) { if ((s = napr_db_del(t, &kv, nullptr))) viol("map", "del -> %d", s); v.erase(k); n_del++; }
                else { if ((s = napr_db_put(t, &kv, &dv))) viol("map", "put -> %d", s); v[k] = w; n_upd++; }
            }
            if (r.pct(3)) { napr_db_txn_abort(t); n_abort++; return; }
            if ((s = napr_db_txn_commit(t))) viol("map", "commit -> %d", s); n_commit++; committed.swap(v);
        };
        for (int i = 0; i < 12; i++) one(K / 6); audit("pages"); op("reader over many commits: %d keys of %zu, values of %zu, %d per commit", K, kl, vl, per);
        napr_db_txn_t *t = begin(NAPR_DB_RDONLY); Model snap = committed; n_reader++; int n = 0; size_t fdepth = 0; unsigned extra = (unsigned) r.range(20, 120);
        for (; n < most; n++) {
            one(per);
            if (n % every == every - 1) { audit("pages"); fdepth = std::max(fdepth, last_fdepth); if (fdepth >= 3) { if (extra < 100) break; extra -= 100; } if (prev_last > 70000) break; full(t, snap, "snapshot"); n_readercheck++; }
        }
        for (unsigned i = 0; i < extra % 100; i++) one(per);
        n_deepfree += fdepth >= 3; if ((long) fdepth > n_maxfdepth) n_maxfdepth = (long) fdepth;
        full(t, snap, "snapshot"); scan(t, snap, "snapshot"); n_readercheck++; napr_db_txn_t *young = nullptr; Model ysnap = committed; if (gone) young = begin(NAPR_DB_RDONLY); napr_db_txn_abort(t);
        audit("pages"); size_t a = lastpg(); for (int i = 0; i < 150; i++) { one(per); if (i % 50 == 49) audit("pages"); }
        size_t b = lastpg(); if (b > a + 40) viol("pages", "after a reader of %d commits left, the file grows from %zu to %zu pages in 150 commits although the pages freed meanwhile are needed by nobody", n, a, b);
        if (young) { full(young, ysnap, "snapshot"); napr_db_txn_abort(young); n_readercheck++; }
        napr_db_env_close(env); apr_pool_clear(pool); open(); n_reopen++; t = begin(NAPR_DB_RDONLY); full(t, committed, "reopen"); scan(t, committed, "cursor"); napr_db_txn_abort(t); for (int i = 0; i < 20; i++) one(per); audit("pages");
    }
    // Transactions that replace thousands of pages at once: what they free takes many entries of the free list.
    void huge()
    {
        n_huge++; int N = r.range(900, 2600); size_t vl = (size_t) r.range(2100, 4060); op("transactions over %d pages", N); napr_db_txn_t *rt = nullptr; Model snap;
        for (int round = 0; round < 5; round++) {
            napr_db_txn_t *t = begin(0); Model v = committed; int pc = round < 2 ? 100 : r.range(30, 100);
            for (int i = 0; i < N; i++) if (r.pct(pc)) {
                std::string k; k += (char) (i >> 8); k += (char) i; if (i % 5 == 0) k += 'x'; std::string w(vl, (char) ('a' + (i + round) % 26)); Buf bk(k), bv(w); napr_db_val_t kv = bk.v(), dv = bv.v(); apr_status_t s;
                if (round > 2 && v.count(k) && r.pct(20)) { if ((s = napr_db_del(t, &kv, nullptr))) viol("map", "del -> %d", s); v.erase(k); n_del++; }
                else { if ((s = napr_db_put(t, &kv, &dv))) viol("map", "put -> %d", s); v[k] = w; n_upd++; }
            }
            apr_status_t s = napr_db_txn_commit(t); if (s) viol("map", "commit -> %d", s); n_commit++; committed.swap(v); audit("pages");
            if (rt) { full(rt, snap, "snapshot"); n_readercheck++; if (r.pct(50)) { napr_db_txn_abort(rt); rt = nullptr; } } else if (r.pct(60)) { rt = begin(NAPR_DB_RDONLY); snap = committed; n_reader++; }
        }
        if (rt) { full(rt, snap, "snapshot"); napr_db_txn_abort(rt); }
        napr_db_env_close(env); apr_pool_clear(pool); open(); n_reopen++; napr_db_txn_t *t = begin(NAPR_DB_RDONLY); full(t, committed, "reopen"); scan(t, committed, "reopen"); napr_db_txn_abort(t);
    }
    // The file as it is after very many further commits: both transaction numbers moved forward alike.
    void age()
    {
        static const int bits[] = {8, 15, 16, 24, 31, 32, 33, 40, 48, 62}; n_aged++;
        int fd = ::open(path.c_str(), O_RDWR); unsigned char m[2][48]; if (fd < 0 || pread(fd, m[0], 48, 0) != 48 || pread(fd, m[1], 48, 4096) != 48) _exit(9);
        uint64_t a = rd(m[0] + 8, 8), b = rd(m[1] + 8, 8), top = std::max(a, b), target = (1ull << bits[r.below(10)]) - (uint64_t) r.range(0, 12);
        if (target > top) { uint64_t add = (target - top) & ~1ull; a += add; b += add; if (pwrite(fd, &a, 8, 8) != 8 || pwrite(fd, &b, 8, 4096 + 8) != 8) _exit(9); op("transaction numbers moved forward by %llu", (unsigned long long) add); }
        close(fd);
    }
    // Opened for reading only: everything is there, nothing can be changed.
    void readonly()
    {
        n_rdonly++; op("open read-only"); auto before = slurp(path); struct stat s1, s2; stat(path.c_str(), &s1);
        apr_status_t s = napr_db_env_create(&env, pool); napr_db_env_set_mapsize(env, mapsize); s = napr_db_env_open(env, path.c_str(), NAPR_DB_RDONLY | NAPR_DB_INTRAPROCESS_LOCK); if (s) viol("refuse", "opening read-only -> %d", s);
        napr_db_txn_t *t = begin(NAPR_DB_RDONLY); full(t, committed, "reopen"); scan(t, committed, "reopen"); napr_db_txn_commit(t);
        if (r.pct(50)) {
            t = nullptr; s = napr_db_txn_begin(env, 0, &t);
            if (s == APR_SUCCESS) { Buf b("read-only"), v("x"); napr_db_val_t kv = b.v(), dv = v.v(); apr_status_t p = napr_db_put(t, &kv, &dv); apr_status_t c = r.pct(70) ? napr_db_txn_commit(t) : (napr_db_txn_abort(t), APR_EGENERAL); if (p == APR_SUCCESS && c == APR_SUCCESS) viol("refuse", "a change was committed to a database opened read-only"); }
            t = begin(NAPR_DB_RDONLY); full(t, committed, "refuse"); napr_db_txn_abort(t);
        }
        napr_db_env_close(env); apr_pool_clear(pool); stat(path.c_str(), &s2);
        if (slurp(path) != before || s1.st_mtim.tv_nsec != s2.st_mtim.tv_nsec || s1.st_mtim.tv_sec != s2.st_mtim.tv_sec) viol("refuse", "a database opened read-only was changed");
    }
    // A file that is not a database is refused and left alone, byte for byte.
    void foreign()
    {
        n_foreign++; std::string p = g_dir + "/foreign"; std::vector<unsigned char> f; int kind = r.range(0, 6); n_refused++;
        if (kind == 0) { f.resize((size_t) r.range(1, 8191)); for (auto &c : f) c = (unsigned char) r.next(); }
        else if (kind == 1) { f.resize((size_t) r.range(8192, 40000)); for (auto &c : f) c = (unsigned char) r.next(); }
        else if (kind == 2) { f = slurp(path); for (int m = 0; m < 2; m++) f[(size_t) m * 4096 + r.below(4)] ^= (unsigned char) (1 << r.below(8)); }              // magic number
        else if (kind == 3) { f = slurp(path); for (int m = 0; m < 2; m++) f[(size_t) m * 4096 + 4 + r.below(4)] ^= (unsigned char) (1 << r.below(8)); }          // version
        else if (kind == 4) { f = slurp(path); f.resize((size_t) r.range(1, 8191)); }                                                                              // cut off
        else if (kind == 6) f.assign(8192, 0);         // blank, opened for reading only
        else { std::string s; while (s.size() < 20000) s += "a line of somebody's text\n"; f.assign(s.begin(), s.end()); }
        int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); size_t o = 0; while (o < f.size()) { ssize_t w = ::write(fd, f.data() + o, f.size() - o); if (w <= 0) _exit(9); o += (size_t) w; } close(fd);
        napr_db_env_t *e = nullptr; napr_db_env_create(&e, pool); napr_db_env_set_mapsize(e, mapsize);
        unsigned fl[] = {NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK, NAPR_DB_INTRAPROCESS_LOCK, NAPR_DB_RDONLY | NAPR_DB_INTRAPROCESS_LOCK};
        apr_status_t s = napr_db_env_open(e, p.c_str(), kind == 6 ? fl[2] | (r.pct(50) ? NAPR_DB_CREATE : 0) : fl[r.below(3)]); op("foreign file kind %d -> %d", kind, s);
        if (s == APR_SUCCESS) viol("refuse", "a file that is not a database (kind %d, %zu bytes) was opened", kind, f.size());
        napr_db_env_close(e); apr_pool_clear(pool);
        if (slurp(p) != f) viol("refuse", "a file that is not a database was changed (kind %d, %zu bytes)", kind, f.size());
        unlink(p.c_str());
    }
    void run()
    {
        apr_pool_create(&pool, nullptr);
        path = g_dir + "/h.db"; unlink(path.c_str());
        static const int nk[] = {8, 60, 400, 3000};
        kstyle = r.range(0, 8); vstyle = r.range(0, kstyle == 8 ? 7 : 5); if (vstyle > 5) vstyle = 5; nkeys = nk[kstyle == 8 ? r.range(2, 3) : r.below(4)];
        tight = (g_focus == "abort" || g_focus == "pages" || g_focus == "all") && r.pct(g_focus == "abort" ? 40 : 25);
        mapsize = tight ? (size_t) r.range(12, 90) * 4096 : (size_t) 256 << 20; if (!tight && r.pct(12)) mapsize = ((size_t) 4 << 30) + (size_t) r.range(0, 40) * 4096;      // the file stays small, the map does not
        int txns = r.range(4, 26), pdel0 = r.pct(30) ? 60 : 25, pabort = g_focus == "abort" ? 45 : 12, pread = g_focus == "snap" ? 60 : 20, pcur = g_focus == "cursor" ? 6 : 1;
        bool fill = tight && r.pct(50); if (fill) { mapsize = (size_t) r.range(4, 40) * 4096; if (r.pct(60)) { kstyle = r.pct(70) ? 3 : 6; nkeys = 3000; } }
        static const int no[] = {1, 3, 20, 120, 500};
        int base = no[r.below(5)]; if (base == 500) txns = std::min(txns, 8);
        if (base == 1) txns = 40 + r.range(0, 120);
        op("config keys=%d values=%d space=%d tight=%d map=%zu", kstyle, vstyle, nkeys, tight, mapsize);
        prev_last = 0; if (g_focus == "ancient") { mapsize = (size_t) 1 << 30; kstyle = 2; vstyle = 0; txns = 3; tight = false; open(); ancient(); } else open();
        int crowdat = !tight && r.pct(g_focus == "snap" ? 12 : 2) ? (int) r.below((uint64_t) txns) : -1;
        if (!tight && r.pct(g_focus == "pages" ? 15 : 1)) { kstyle = 0; nkeys = 60; vstyle = 0; if (r.pct(g_focus == "pages" ? 30 : 5)) steadybig(); else steady(); txns = std::min(txns, 6); crowdat = -1; }
        else if (!tight && r.below(g_focus == "pages" ? 40 : 250) == 0) { kstyle = 8; vstyle = 5; huge(); txns = std::min(txns, 4); crowdat = -1; }
        for (int i = 0; i < txns; i++) {
            int phase = r.range(0, 9); int pd = phase < 2 ? 85 : phase < 4 ? 5 : pdel0;
            if (phase == 0 && r.pct(30) && !committed.empty() && !tight) {     // empty a whole range of keys (leaves left without keys)
                napr_db_txn_t *t = begin(0); auto it = committed.lower_bound(key()); std::vector<std::string> ks; int n = r.range(1, 600);
                for (; it != committed.end() && n-- > 0; ++it) ks.push_back(it->first);
                op("range delete of %zu keys", ks.size());
                for (auto &k : ks) { Buf b(k); napr_db_val_t kv = b.v(); apr_status_t s = napr_db_del(t, &kv, nullptr); n_del++; if (s) viol("map", "del(%s) -> %d in a range delete", hexs(k).c_str(), s); }
                apr_status_t s = napr_db_txn_commit(t); if (s) viol("map", "commit -> %d", s);
                n_commit++; for (auto &k : ks) committed.erase(k);
            }
            if (i == 0 && fill) wtxn(r.range(200, 900), 5, pabort / 2, pcur);         // the first transaction already fills the map
            else wtxn(r.range(1, base * 2), pd, pabort, pcur);
            audit("pages");
            {
                napr_db_txn_t *t = begin(NAPR_DB_RDONLY);
                if (r.pct(base == 1 ? 20 : 70)) full(t, committed, "map");
                if (r.pct(40)) scan(t, committed, "cursor");
                Buf b(key()); napr_db_val_t kv = b.v(), dv = b.v();
                if (r.pct(10)) { n_refused++; if (napr_db_put(t, &kv, &dv) == APR_SUCCESS) viol("refuse", "put accepted in a read-only transaction"); if (napr_db_del(t, &kv, nullptr) == APR_SUCCESS) viol("refuse", "del accepted in a read-only transaction"); }
                if (r.pct(pread) && readers.size() < 8) { readers.push_back({t, committed, r.range(1, 12)}); n_reader++; op("pin reader"); }
                else if (r.pct(50)) napr_db_txn_abort(t); else napr_db_txn_commit(t);
            }
            check_readers();
            if (i == crowdat) crowd();
            for (size_t q = 0; q < readers.size();) { if (--readers[q].ttl <= 0) { if (r.pct(50)) napr_db_txn_abort(readers[q].t); else napr_db_txn_commit(readers[q].t); readers.erase(readers.begin() + (long) q); op("release reader"); } else q++; }
            if (readers.empty() && r.pct(12)) {
                op("reopen"); n_reopen++;
                napr_db_env_close(env); apr_pool_clear(pool);
                if (r.pct(15)) age();
                if (r.pct(g_focus == "abort" ? 40 : 10)) readonly();
                if (r.pct(g_focus == "abort" ? 40 : 5)) foreign();
                open();
                napr_db_txn_t *t = begin(NAPR_DB_RDONLY); full(t, committed, "reopen"); scan(t, committed, "reopen"); napr_db_txn_abort(t);
            }
        }
        for (auto &rd : readers) napr_db_txn_abort(rd.t);
        readers.clear();
        napr_db_env_close(env); apr_pool_destroy(pool); unlink(path.c_str());
        n_hist++;
    }
};

int main(int argc, char **argv)
{
    uint64_t seed = 1, first = 0, count = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char *v = argv[i + 1];
        if (a == "--dir") g_dir = v; else if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--first") first = strtoull(v, 0, 10);
        else if (a == "--count") count = strtoull(v, 0, 10); else if (a == "--focus") g_focus = v; else if (a == "--log") g_log = v; else if (a == "--progress") g_progress = v;
    }
    apr_initialize();
    int pfd = g_progress.empty() ? -1 : open(g_progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    for (g_hist = first; g_hist < first + count; g_hist++) {
        if (pfd >= 0) { char b[32]; int n = snprintf(b, 32, "%-20llu", (unsigned long long) g_hist); if (pwrite(pfd, b, (size_t) n, 0) < 0) return 9; }
        g_ops.clear();
        Hist h(seed * 1000003ull + g_hist * 7919ull + std::hash<std::string>()(g_focus) % 1000);
        h.run();
    }
    printf("STATS {\"histories\":%ld,\"commits\":%ld,\"aborts\":%ld,\"inserts\":%ld,\"updates\":%ld,\"deletes\":%ld,\"gets\":%ld,\"scans\":%ld,\"cursor_entries\":%ld,\"seeks\":%ld,\"pinned_readers\":%ld,\"pinned_reader_checks\":%ld,\"reopens\":%ld,\"refused_calls\":%ld,\"page_audits\":%ld,\"pages_audited\":%ld,\"commits_without_growth\":%ld,\"max_depth\":%ld,\"empty_leaves_seen\":%ld,\"same_txn_duplicates\":%ld,\"committed_after_failure\":%ld,\"long_key_puts\":%ld,\"aged_files\":%ld,\"reader_crowds\":%ld,\"readers_in_crowds\":%ld,\"steady_workloads\":%ld,\"read_only_sessions\":%ld,\"foreign_files\":%ld,\"long_readers\":%ld,\"free_lists_of_three_levels\":%ld,\"max_depth_of_free_list\":%ld,\"borrowed_keys_and_values\":%ld,\"transactions_over_thousands_of_pages\":%ld,\"puts_refused_for_space\":%ld,\"steps_without_an_output\":%ld,\"steady_large_transactions\":%ld,\"distinct_states\":%zu}\n",
           n_hist, n_commit, n_abort, n_put, n_upd, n_del, n_get, n_scan, n_entries, n_range, n_reader, n_readercheck, n_reopen, n_refused, n_audit, n_pages, n_reused, n_maxdepth, n_emptyleaf, n_dup, n_zombie, n_bigkey, n_aged, n_crowd, n_crowdreaders, n_steady, n_rdonly, n_foreign, n_ancient, n_deepfree, n_maxfdepth, n_lent, n_huge * 5, n_nospace, n_nullout, n_steadybig, g_states.size());
    return 0;
}
