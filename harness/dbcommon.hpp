// Shared helpers of the database harnesses: seeded PRNG, an independent reader of the
// on-disk format (page audit) and small conveniences.  Nothing here uses the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); }
    bool pct(int p) { return (int) below(100) < p; }
};

typedef std::map<std::string, std::string> Model;

static inline uint64_t rd(const unsigned char *p, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | p[i]; return v; }

static inline std::string hexs(const std::string &s, size_t max = 24)
{
    std::string o; char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = (unsigned char) s[i];
        if (c >= 33 && c < 127) o += (char) c; else { snprintf(b, 4, "\\%02x", c); o += b; }
    }
    if (s.size() > max) o += "..(" + std::to_string(s.size()) + ")";
    return o;
}

static inline std::vector<unsigned char> slurp(const std::string &path)
{
    std::vector<unsigned char> v; int fd = open(path.c_str(), O_RDONLY); if (fd < 0) return v;
    struct stat st; fstat(fd, &st); v.resize((size_t) st.st_size); size_t o = 0;
    while (o < v.size()) { ssize_t r = pread(fd, v.data() + o, v.size() - o, (off_t) o); if (r <= 0) break; o += (size_t) r; }
    close(fd); v.resize(o); return v;
}

// ---- page audit: reads the documented little-endian format straight from the file ----
struct Audit {
    std::string err;                        // structural error, if any
    uint64_t txnid = 0, last = 0, root = 0, froot = 0;
    size_t main_pages = 0, free_tree_pages = 0, listed = 0, unaccounted = 0, depth = 0, fdepth = 0, empty_leaves = 0;
    Model content;                          // key -> value of the main tree
    std::map<std::string, std::vector<uint64_t>> freelist;
    std::set<uint64_t> live;
    const std::vector<unsigned char> *f = nullptr;
    static const int PG = 4096;

    bool fail(const char *fmt, ...) { if (err.empty()) { char b[400]; va_list a; va_start(a, fmt); vsnprintf(b, 400, fmt, a); va_end(a); err = b; } return false; }
    bool walk(uint64_t pg, size_t level, const std::string *lo, const std::string *hi, Model &out, size_t &pages, size_t &leafdepth)
    {
        if (level > 40) return fail("tree deeper than 40 levels (cycle?)");
        if (pg < 2 || pg > last) return fail("page %llu referenced but out of range (last %llu)", (unsigned long long) pg, (unsigned long long) last);
        if ((pg + 1) * PG > f->size()) return fail("page %llu lies beyond the end of the file", (unsigned long long) pg);
        if (!live.insert(pg).second) return fail("page %llu is referenced twice", (unsigned long long) pg);
        pages++;
        const unsigned char *p = f->data() + pg * PG;
        uint64_t self = rd(p, 8); unsigned flags = (unsigned) rd(p + 8, 2), n = (unsigned) rd(p + 10, 2), lower = (unsigned) rd(p + 12, 2), upper = (unsigned) rd(p + 14, 2);
        if (self != pg) return fail("page %llu carries page number %llu", (unsigned long long) pg, (unsigned long long) self);
        bool leaf = flags & 2, branch = flags & 1;
        if (leaf == branch) return fail("page %llu has flags %x", (unsigned long long) pg, flags);
        if (lower != 18 + 2 * n || lower > upper || upper > PG) return fail("page %llu: lower %u upper %u keys %u", (unsigned long long) pg, lower, upper, n);
        std::vector<std::pair<unsigned, unsigned>> ext; std::vector<std::string> keys; std::vector<uint64_t> kids;
        for (unsigned i = 0; i < n; i++) {
            unsigned off = (unsigned) rd(p + 18 + 2 * i, 2);
            unsigned hdr = leaf ? 4 : 10;
            if (off < upper || off + hdr > PG) return fail("page %llu slot %u offset %u outside data area", (unsigned long long) pg, i, off);
            unsigned ks = (unsigned) rd(p + off + (leaf ? 0 : 8), 2), ds = leaf ? (unsigned) rd(p + off + 2, 2) : 0;
            if (off + hdr + ks + ds > PG) return fail("page %llu slot %u entry runs past the page", (unsigned long long) pg, i);
            ext.push_back({off, off + hdr + ks + ds});
            std::string k((const char *) p + off + hdr, ks);
            if (i > 0 && !(keys.back() < k)) return fail("page %llu keys %u,%u out of order", (unsigned long long) pg, i - 1, i);
            if (leaf) {
                if (lo && k < *lo) return fail("page %llu key below the branch key leading to it", (unsigned long long) pg);
                if (hi && !(k < *hi)) return fail("page %llu key not below the next branch key", (unsigned long long) pg);
                out[k] = std::string((const char *) p + off + hdr + ks, ds);
            } else kids.push_back(rd(p + off, 8));
            keys.push_back(k);
        }
        std::sort(ext.begin(), ext.end());
        for (size_t i = 1; i < ext.size(); i++) if (ext[i - 1].second > ext[i].first) return fail("page %llu entries overlap", (unsigned long long) pg);
        if (leaf) {
            if (!n) empty_leaves++;
            if (leafdepth == 0) leafdepth = level + 1; else if (leafdepth != level + 1) return fail("leaves at different depths");
            return true;
        }
        if (!n) return fail("branch page %llu has no child", (unsigned long long) pg);
        for (unsigned i = 0; i < n; i++) {
            const std::string *l = i ? &keys[i] : lo, *h = i + 1 < n ? &keys[i + 1] : hi;   // the first child takes everything below too
            if (!walk(kids[i], level + 1, l, h, out, pages, leafdepth)) return false;
        }
        return true;
    }
    bool run(const std::vector<unsigned char> &file)
    {
        f = &file; if (file.size() < 2 * PG) return fail("file shorter than two pages");
        const unsigned char *best = nullptr;
        for (int m = 0; m < 2; m++) {
            const unsigned char *p = file.data() + m * PG;
            if (rd(p, 4) != 0xDECAFBADu || rd(p + 4, 4) != 1) continue;
            if (!best || rd(p + 8, 8) > rd(best + 8, 8)) best = p;
        }
        if (!best) return fail("no valid meta page");
        txnid = rd(best + 8, 8); root = rd(best + 16, 8); last = rd(best + 24, 8); froot = rd(best + 32, 8);
        if (root && !walk(root, 0, nullptr, nullptr, content, main_pages, depth)) return false;
        Model fm; size_t &fd = fdepth;
        if (froot && !walk(froot, 0, nullptr, nullptr, fm, free_tree_pages, fd)) return false;
        std::set<uint64_t> seen;
        for (auto &e : fm) {
            if (e.first.size() < 8 || e.second.size() % 8) return fail("malformed free-list entry");
            uint64_t t = rd((const unsigned char *) e.first.data(), 8);
            if (t > txnid) return fail("free-list entry of future transaction %llu", (unsigned long long) t);
            for (size_t i = 0; i < e.second.size(); i += 8) {
                uint64_t pg = rd((const unsigned char *) e.second.data() + i, 8);
                if (pg < 2 || pg > last) return fail("free list names page %llu (last %llu)", (unsigned long long) pg, (unsigned long long) last);
                if (live.count(pg)) return fail("page %llu is both in use and on the free list", (unsigned long long) pg);
                if (!seen.insert(pg).second) return fail("page %llu is on the free list twice", (unsigned long long) pg);
                freelist[e.first].push_back(pg);
            }
        }
        listed = seen.size();
        size_t total = last >= 1 ? last - 1 : 0;
        unaccounted = total - std::min(total, live.size() + listed);
        return true;
    }
};
