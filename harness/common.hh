// Shared by all replayers: scripts produced by TLC, concretizations of the
// abstract value domain (spec/AtomSets.tla), evaluation of the answer terms.
#pragma once
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;

struct Rng {  // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned percent) { return below(100) < percent; }
    template <class V>
    const typename V::value_type &pick(const V &v) { return v[below(v.size())]; }
    uint64_t oneof(std::initializer_list<uint64_t> l) { return *(l.begin() + below(l.size())); }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x2545F4914F6CDD1Dull + b);
    r.next();
    return r.next();
}

// ---------------------------------------------------------------- scripts --
struct RegObs { uint32_t mask; int lz, ro; };
struct Ev {
    char kind;  // 'E' call, 'B' new behaviour, 'P' pre-state
    int step = 0;
    std::string op;
    int d = 0, a = 0, b = 0, p = 0, q = 0, k = 0;
    int t = 0;   // thread
    uint32_t m = 0;
    std::vector<int> l;
    std::string rk;
    std::vector<uint32_t> rv;
    std::vector<RegObs> post;
};
struct Script {
    int S = 0, C = 0, N = 0;
    std::vector<std::vector<Ev>> beh;
};
inline Script load_script(const char *path) {
    Script sc;
    FILE *f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot open script %s\n", path); exit(2); }
    char tag[8], w[64];
    while (fscanf(f, "%7s", tag) == 1) {
        if (tag[0] == 'H') {
            if (fscanf(f, "%d %d %d", &sc.S, &sc.C, &sc.N) != 3) exit(2);
        } else if (tag[0] == 'G') {   // handing over between threads (Threads.tla)
            Ev e;
            e.kind = 'G';
            if (fscanf(f, "%d %d %d %d %d %d", &e.step, &e.k, &e.t, &e.d, &e.b, &e.a) != 6) exit(2);
            sc.beh.back().push_back(e);
        } else if (tag[0] == 'B') {
            sc.beh.emplace_back();
        } else {
            Ev e;
            e.kind = tag[0];
            int n;
            if (tag[0] == 'T') {   // a call of thread t
                if (fscanf(f, "%d", &e.t) != 1) exit(2);
                tag[0] = 'E';
            }
            if (tag[0] == 'E') {
                if (fscanf(f, "%d %63s %d %d %d %d %d %d %u %d", &e.step, w, &e.d, &e.a, &e.b, &e.p, &e.q, &e.k, &e.m, &n) != 10) exit(2);
                e.op = w;
                for (int i = 0, x; i < n; i++) { if (fscanf(f, "%d", &x) != 1) exit(2); e.l.push_back(x); }
                if (fscanf(f, "%63s %d", w, &n) != 2) exit(2);
                e.rk = w;
                for (int i = 0; i < n; i++) { unsigned x; if (fscanf(f, "%u", &x) != 1) exit(2); e.rv.push_back(x); }
            }
            for (int i = 0; i < sc.N; i++) {
                RegObs o;
                if (fscanf(f, "%u %d %d", &o.mask, &o.lz, &o.ro) != 3) exit(2);
                e.post.push_back(o);
            }
            sc.beh.back().push_back(e);
        }
    }
    fclose(f);
    return sc;
}

// -------------------------------------------------------- concretizations --
template <class T>
struct Segm {
    std::vector<T> v;        // all values of the segment that belong to an atom, sorted
    std::vector<uint8_t> c;  // their colours
    T lo, hi;                // first and last value
    bool dense;              // v == [lo, hi]
};

template <class T>
struct Closed { T lo, hi; };

struct ConcOpts {
    bool sparse = true;     // segments with unassigned gaps allowed
    size_t cap = 200000;    // max number of values
    u128 universe = 0;      // exclusive upper bound of values (0: whole T)
    bool small = false;     // tiny sets only
    bool exact = false;     // one container; unions of atoms that hit the container thresholds exactly
};

template <class T>
struct Conc {
    int S, C;
    u128 U;
    std::vector<Segm<T>> seg;
    std::vector<T> vals;
    std::vector<uint8_t> atom;
    bool strided = false;   // the values are an arithmetic progression and their colours go round
    u128 stride = 1;        // its step
    std::string desc;
    std::unordered_map<uint32_t, std::vector<T>> cache;
    size_t cached = 0;

    const std::vector<T> &expand(uint32_t mask) {
        auto it = cache.find(mask);
        if (it != cache.end()) return it->second;
        if (cached > 12000000) { cache.clear(); cached = 0; }
        std::vector<T> &r = cache[mask];
        for (size_t i = 0; i < vals.size(); i++)
            if (mask >> atom[i] & 1) r.push_back(vals[i]);
        r.shrink_to_fit();
        cached += r.size();
        return r;
    }
    // copies: the cache may be flushed by the next expand()
    uint64_t cnt(uint32_t mask) { return mask ? expand(mask).size() : 0; }

    // boundary p as an exclusive/inclusive position; u128 because it may be 2^64
    u128 start(int p) const { return p < S ? (u128)seg[p].lo : (u128)seg[S - 1].hi + 1; }
    // any value that separates segment p-1 from segment p just as well
    u128 jitter(int p, Rng &r) const {
        u128 hi = start(p), lo = p == 0 ? 0 : (u128)seg[p - 1].hi + 1;
        if (p == S) { hi = U; }
        if (hi <= lo) return start(p);
        switch (r.below(5)) {
            case 0: return lo;
            case 1: return hi;
            case 2: return start(p);
            case 3: {  // next to a round number, if there is one in the gap
                unsigned sh = sizeof(T) == 8 && r.chance(60) ? (r.chance(70) ? 32 : 48) : 16;
                u128 x = ((lo >> sh) + 1) << sh;
                x += r.below(3);
                x -= 1;
                if (x >= lo && x <= hi) return x;
                return lo;
            }
            default: {
                u128 w = hi - lo;
                uint64_t x = r.next();
                if (r.chance(50)) x &= 0x3ffff;
                return lo + (w >> 64 ? (u128)x : (u128)x % w);
            }
        }
    }
    // exact closed ranges of values covering segments [p, q)
    std::vector<Closed<T>> ranges(int p, int q) const {
        std::vector<Closed<T>> out;
        for (int s = p; s < q; s++) {
            const Segm<T> &g = seg[s];
            if (g.dense) push(out, g.lo, g.hi);
            else {
                for (size_t i = 0; i < g.v.size();) {
                    size_t j = i;
                    while (j + 1 < g.v.size() && g.v[j + 1] == g.v[j] + 1) j++;
                    push(out, g.v[i], g.v[j]);
                    i = j + 1;
                }
            }
        }
        return out;
    }
    static void push(std::vector<Closed<T>> &out, T lo, T hi) {
        if (!out.empty() && out.back().hi + 1 == lo && out.back().hi + 1 != 0) out.back().hi = hi;
        else out.push_back({lo, hi});
    }
};

// colours for n values in a dense or listed segment
inline void paint(Rng &r, std::vector<uint8_t> &c, size_t n, int C, const std::vector<uint32_t> *keyOf) {
    c.assign(n, 0);
    int style = (int)r.below(keyOf ? 8 : 7);
    switch (style) {
        case 0: {
            uint64_t w = r.oneof({1, 1, 1, 2, 3, 7, 16, 63, 64, 65, 100, 1000, 4096});
            for (size_t i = 0; i < n; i++) c[i] = (uint8_t)((i / w) % C);
            break;
        }
        case 1: case 2: {
            std::vector<uint64_t> w(C);
            uint64_t tot = 0;
            for (auto &x : w) tot += (x = r.oneof({1, 1, 5, 50, 300, 2000}));
            for (size_t i = 0; i < n; i++) {
                uint64_t x = r.below(tot);
                int k = 0;
                while (x >= w[k]) x -= w[k++];
                c[i] = (uint8_t)k;
            }
            break;
        }
        case 3: {
            uint64_t mean = r.oneof({2, 3, 5, 8, 30, 200, 2000});
            size_t i = 0;
            while (i < n) {
                size_t len = 1 + r.below(2 * mean);
                uint8_t k = (uint8_t)r.below(C);
                while (len-- && i < n) c[i++] = k;
            }
            break;
        }
        case 4: {
            int main = (int)r.below(C);
            for (auto &x : c) x = (uint8_t)main;
            for (int k = 0; k < C; k++) {
                if (k == main) continue;
                int times = 1 + (int)r.below(3);
                while (times--) {
                    size_t pos = 0;
                    switch (r.below(4)) {
                        case 0: pos = 0; break;
                        case 1: pos = n - 1; break;
                        case 2: pos = r.below(n); break;
                        default: pos = (r.below(n) / 64) * 64; if (r.chance(50) && pos) pos--; break;
                    }
                    c[pos] = (uint8_t)k;
                }
            }
            break;
        }
        case 5: {  // exact numbers of elements around the container thresholds
            std::vector<size_t> idx(n);
            for (size_t i = 0; i < n; i++) idx[i] = i;
            for (size_t i = n; i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
            size_t at = 0;
            for (int k = 1; k < C; k++) {
                size_t want = r.oneof({4096, 4095, 4097, 2048, 2047, 4096, 1024, 64, 65, 1, 4032});
                for (size_t j = 0; j < want && at < n; j++) c[idx[at++]] = (uint8_t)k;
            }
            break;
        }
        case 6: {  // exact numbers of runs
            size_t i = 0;
            for (int k = 1; k < C; k++) {
                size_t runs = r.oneof({1, 2, 3, 31, 2046, 2047, 2048, 2049, 500});
                size_t len = r.oneof({1, 2, 3, 4, 10});
                size_t gap = r.oneof({1, 1, 2, 5});
                for (size_t j = 0; j < runs && i + len + gap <= n; j++) {
                    for (size_t t = 0; t < len; t++) c[i++] = (uint8_t)k;
                    i += gap;
                }
            }
            break;
        }
        default: {  // whole keys of one colour, some mixed
            unsigned mixp = (unsigned)r.oneof({0, 10, 50});
            std::map<uint32_t, int> colour;
            for (size_t i = 0; i < n; i++) {
                auto it = colour.find((*keyOf)[i]);
                if (it == colour.end()) it = colour.emplace((*keyOf)[i], r.chance(mixp) ? -1 : (int)r.below(C)).first;
                c[i] = (uint8_t)(it->second < 0 ? r.below(C) : it->second);
            }
        }
    }
    // every atom must be non-empty
    std::vector<size_t> have(C, 0);
    for (auto x : c) have[x]++;
    for (int k = 0; k < C; k++) {
        if (have[k]) continue;
        for (size_t t = 0; ; t++) {
            size_t i = t < 64 ? r.below(n) : t % n;
            if (have[c[i]] > 1) { have[c[i]]--; c[i] = (uint8_t)k; have[k]++; break; }
        }
    }
}

// One container: in each segment one atom has nearly everything - a block, a thinned block or scattered values - and
// the others a value or a few, at the ends of the segment, next to word boundaries, or anywhere. Two large sets then
// meet, or differ, in a single value.
template <class T>
Conc<T> make_needle(int S, int C, uint64_t seed, const ConcOpts &o) {
    Rng r(seed);
    Conc<T> z;
    z.S = S; z.C = C;
    z.U = o.universe ? o.universe : (u128)1 << (sizeof(T) * 8);
    u128 base = (u128)r.oneof({0, 1, 2, 0x7fff, 0xffff}) << 16;
    if (sizeof(T) == 8 && r.chance(60)) base = ((u128)r.oneof({1, 0x10000, 0xffffffff}) << 32) + ((u128)r.oneof({0, 0xffff, 5}) << 16);
    z.desc = "needles";
    char buf[120];
    size_t at = r.chance(40) ? 0 : r.below(300);
    for (int s = 0; s < S; s++) {
        size_t most = 65536 - at - (size_t)(S - 1 - s) * 100;     // leave room for the others
        size_t kind = r.below(o.sparse ? 4 : 1);                  // 0, 1: a block; 2: every so many; 3: scattered
        size_t step = kind < 2 ? 1 : 2 + r.below(4);
        size_t want = r.oneof({(uint64_t)C + 1 + r.below(60), 64 + r.below(500), 64 + r.below(500), 4000 + r.below(200), 4097 + r.below(6000), 60000});
        size_t w = std::min(want * step, s == S - 1 && r.chance(20) ? most : most * 9 / 10);
        w = std::max(w, (size_t)C * step);
        if (w > most) w = most;
        Segm<T> g;
        for (size_t i = 0; i < w; i++)
            if (kind < 2 || (kind == 2 ? i % step == 0 : r.below(step) == 0)) g.v.push_back((T)(base + at + i));
        for (size_t i = 0; g.v.size() < (size_t)C; i++) { g.v.push_back((T)(base + at + i)); std::sort(g.v.begin(), g.v.end()); g.v.erase(std::unique(g.v.begin(), g.v.end()), g.v.end()); }
        size_t n = g.v.size();
        int main = (int)r.below(C);
        g.c.assign(n, (uint8_t)main);
        for (int k = 0; k < C; k++) {
            if (k == main) continue;
            for (size_t j = r.oneof({1, 1, 1, 2, 3}); j--;) {
                size_t i;
                switch (r.below(5)) {
                    case 0: i = r.below(std::min<size_t>(n, 130)); break;
                    case 1: case 2: i = n - 1 - r.below(std::min<size_t>(n, 130)); break;
                    case 3: i = (r.below(n) | 63) - r.below(3); break;
                    default: i = r.below(n);
                }
                if (i < n) g.c[i] = (uint8_t)k;
            }
        }
        for (int k = 0; k < C; k++)     // none may be empty
            for (size_t t = 0; std::find(g.c.begin(), g.c.end(), (uint8_t)k) == g.c.end(); t++) {
                size_t i = t < 64 ? r.below(n) : t % n;
                if (std::count(g.c.begin(), g.c.end(), g.c[i]) > 1) g.c[i] = (uint8_t)k;
            }
        g.lo = g.v.front(); g.hi = g.v.back();
        g.dense = (u128)(g.hi - g.lo) + 1 == n;
        for (size_t i = 0; i < n; i++) { z.vals.push_back(g.v[i]); z.atom.push_back((uint8_t)(s * C + g.c[i])); }
        g.c.clear();
        snprintf(buf, sizeof buf, " [%llx,%llx]#%zu by %zu", (unsigned long long)g.lo, (unsigned long long)g.hi, n, step);
        z.desc += buf;
        at = (size_t)((u128)g.hi - base) + 1 + (o.sparse && r.chance(50) ? r.below(100) : 0);
        if (at + (size_t)(S - 1 - s) * 100 > 65536) at = (size_t)((u128)g.hi - base) + 1;
        z.seg.push_back(std::move(g));
    }
    return z;
}

// Runs of all lengths in one container (or two): pieces whose lengths are spread over orders of magnitude, so that a
// run of tens of thousands of values stands next to dozens of short ones.
template <class T>
Conc<T> make_lengths(int S, int C, uint64_t seed, const ConcOpts &o) {
    Rng r(seed);
    Conc<T> z;
    z.S = S; z.C = C;
    z.U = o.universe ? o.universe : (u128)1 << (sizeof(T) * 8);
    u128 base = (u128)r.oneof({0, 1, 2, 0x7fff, 0xfffe}) << 16;
    if (sizeof(T) == 8 && r.chance(60)) base = ((u128)r.oneof({1, 0x10000, 0xfffffffe}) << 32) + ((u128)r.oneof({0, 0xffff, 5}) << 16);
    z.desc = "lengths";
    char buf[120];
    const size_t total = r.chance(75) ? 65536 : 131072;
    const unsigned longest = (unsigned)r.oneof({6, 12, 15, 16});        // most pieces are short, a few are not
    const unsigned often = (unsigned)r.oneof({0, 4, 10, 30});
    const int giant = r.chance(50) ? (int)r.below(S) : -1;              // more than half of a container in one run
    size_t at = r.chance(50) ? 0 : r.below(500);
    for (int s = 0; s < S; s++) {
        size_t rest = (size_t)(S - 1 - s) * 200;                        // the later segments have room
        size_t most = total - at - rest;
        size_t end = at + (s == S - 1 ? most : giant == s ? most : giant > s ? 200 + r.below(2000) : std::max<size_t>(most / (S - s), r.below(most)));
        const size_t when = C + r.below(40);
        if (end > total - rest) end = total - rest;
        Segm<T> g;
        int last = -1;
        for (size_t i = at, n = 0; i < end; n++) {
            size_t len = n < (size_t)C ? 1 + r.below(8)
                       : giant == s && n == when ? 32760 + r.below(2000) + (r.chance(20) ? r.below(25000) : 0)
                       : giant == s && r.chance(90) ? 1 + r.below((size_t)1 << r.below(5))
                       : r.chance(often) ? ((size_t)1 << longest) - r.below((size_t)1 << (longest - 1)) : 1 + r.below((size_t)1 << r.below(5));
            if (i + len > end) len = end - i;
            int c = n < (size_t)C ? (int)n : (int)r.below(C);
            if (n >= (size_t)C && c == last && !o.sparse) c = (c + 1) % C;
            for (size_t j = 0; j < len; j++) { g.v.push_back((T)(base + i + j)); g.c.push_back((uint8_t)c); }
            i += len; last = c;
            if (o.sparse && r.chance(80)) i += 1 + r.below((size_t)1 << r.below(6));
            if (n > 300 && r.chance(2)) break;
        }
        g.lo = g.v.front(); g.hi = g.v.back();
        size_t n = g.v.size();
        g.dense = (u128)(g.hi - g.lo) + 1 == n;
        for (size_t i = 0; i < n; i++) { z.vals.push_back(g.v[i]); z.atom.push_back((uint8_t)(s * C + g.c[i])); }
        g.c.clear();
        snprintf(buf, sizeof buf, " [%llx,%llx]#%zu", (unsigned long long)g.lo, (unsigned long long)g.hi, n);
        z.desc += buf;
        at = (size_t)((u128)g.hi - base) + 1;
        z.seg.push_back(std::move(g));
    }
    return z;
}

// All atoms in one container (sometimes spilling into the next), sized so that many unions of atoms have exactly
// (or one off) the numbers of values, or of runs, at which the representation of a container changes.
template <class T>
Conc<T> make_exact(int S, int C, uint64_t seed, const ConcOpts &o) {
    if (C > 1 && mix(seed, 81) % 100 < 35) return make_needle<T>(S, C, mix(seed, 82), o);
    if (mix(seed, 83) % 100 < 25) return make_lengths<T>(S, C, mix(seed, 84), o);
    Rng r(seed);
    Conc<T> z;
    z.S = S; z.C = C;
    z.U = o.universe ? o.universe : (u128)1 << (sizeof(T) * 8);
    const int n = S * C;
    u128 base = (u128)r.oneof({0, 1, 2, 0x7fff, 0xffff}) << 16;
    if (sizeof(T) == 8 && r.chance(60)) base = ((u128)r.oneof({1, 0x10000, 0xffffffff}) << 32) + ((u128)r.oneof({0, 0xffff, 5}) << 16);
    std::vector<size_t> size(n);
    size_t room = 65536, x = r.oneof({1, 1, 2, 31, 64, 500, 904, 2000, 2047, 2048, 4000, 4095});
    for (int i = 0; i < n; i++) {
        switch (r.below(8)) {
            case 0: case 1: size[i] = 4096 - x; break;
            case 2: case 3: size[i] = x; break;
            case 4: size[i] = r.oneof({4096, 4096, 4095, 4097}); break;
            case 5: size[i] = r.oneof({1, 2, 64, 1000, 5000}); break;
            case 6: size[i] = 2048; break;
            default: size[i] = r.oneof({1, 1 + r.below(3000), 8192, 10000, 12288});
        }
        if (r.chance(12)) size[i] += r.chance(50) ? 1 : size[i] > 1 ? -1 : 0;
        size_t keep = (size_t)(n - i - 1) * 4200;
        if (size[i] + keep > room) size[i] = room > keep + 1 ? std::min<size_t>(size[i], room - keep) : 1;
        room -= size[i];
    }
    bool fill = r.chance(20);   // the whole container belongs to some atom
    if (fill) { size[r.below(n)] += room; room = 0; }
    unsigned style = fill ? 0 : (unsigned)r.below(o.sparse ? 4 : 2);
    u128 cur = base;
    z.desc = "exact";
    char buf[120];
    for (int s = 0; s < S; s++) {
        size_t need = 0;
        for (int c = 0; c < C; c++) need += size[s * C + c];
        size_t left = 0;
        for (int t = s + 1; t < S; t++) for (int c = 0; c < C; c++) left += size[t * C + c];
        size_t end = 65536 - left, at = (size_t)(cur - base);    // window [at, end)
        size_t w = !o.sparse ? need : s == S - 1 ? end - at : std::min<size_t>(end - at, need + r.below(end - at - need + 1));
        Segm<T> g;
        std::vector<uint8_t> lab(w, 255);
        if (style == 0) {          // adjacent blocks, each atom one run (or a few)
            size_t i = 0;
            std::vector<int> order;
            for (int c = 0; c < C; c++) order.push_back(c);
            for (int c = C; c > 1; c--) std::swap(order[c - 1], order[r.below(c)]);
            for (int c : order) for (size_t j = 0; j < size[s * C + c]; j++) lab[i++] = (uint8_t)c;
        } else if (style == 1) {   // random places
            std::vector<uint32_t> idx(w);
            for (size_t i = 0; i < w; i++) idx[i] = (uint32_t)i;
            for (size_t i = w; i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
            size_t i = 0;
            for (int c = 0; c < C; c++) for (size_t j = 0; j < size[s * C + c]; j++) lab[idx[i++]] = (uint8_t)c;
        } else {                   // runs of a fixed length, round robin, spread as far as they fit
            size_t len = style == 2 ? r.oneof({1, 2, 2, 3}) : r.oneof({4, 16, 63, 64, 65, 1000});
            std::vector<size_t> todo(size.begin() + s * C, size.begin() + (s + 1) * C);
            size_t runs = 0;
            for (size_t t : todo) runs += (t + len - 1) / len;
            size_t gap = runs > 1 ? (w - need) / runs : 0, i = 0;
            if (gap > 3 && r.chance(60)) gap = 1 + r.below(3);
            for (int c = 0; need; c = (c + 1) % C) {
                size_t k = std::min(len, todo[c]);
                for (size_t j = 0; j < k; j++) lab[i++] = (uint8_t)c;
                todo[c] -= k; need -= k;
                if (k) i += gap;
            }
        }
        for (size_t i = 0; i < w; i++) if (lab[i] != 255) { g.v.push_back((T)(cur + i)); g.c.push_back(lab[i]); }
        g.lo = g.v.front(); g.hi = g.v.back();
        g.dense = (u128)(g.hi - g.lo) + 1 == g.v.size();
        cur = (u128)g.hi + 1;
        for (size_t i = 0; i < g.v.size(); i++) { z.vals.push_back(g.v[i]); z.atom.push_back((uint8_t)(s * C + g.c[i])); }
        snprintf(buf, sizeof buf, " [%llx,%llx]#%zu", (unsigned long long)g.lo, (unsigned long long)g.hi, g.v.size());
        z.desc += buf;
        g.c.clear();
        z.seg.push_back(std::move(g));
    }
    snprintf(buf, sizeof buf, " style %u atoms", style);
    z.desc += buf;
    for (int i = 0; i < n; i++) z.desc += " " + std::to_string(size[i]);
    return z;
}

// 48-bit keys that share prefixes in a random tree with chosen fan-outs
inline void grow_keys(Rng &r, std::vector<uint64_t> &out, uint64_t prefix, int level, size_t want) {
    if (level == 6 || want == 0) { if (level == 6) out.push_back(prefix); else { grow_keys(r, out, (prefix << 8) | r.below(256), level + 1, 1); } return; }
    size_t kids;
    if (want == 1) kids = 1;
    else kids = (size_t)r.oneof({1, 1, 2, 2, 3, 4, 5, 6, 15, 16, 17, 18, 40, 47, 48, 49, 50, 100, 255, 256});
    if (level == 5) kids = std::max(kids, std::min<size_t>(want, 256));
    if (kids > want) kids = want;
    if (kids > 256) kids = 256;
    std::vector<int> chunk(256);
    for (int i = 0; i < 256; i++) chunk[i] = i;
    if (!r.chance(30)) for (int i = 256; i > 1; i--) std::swap(chunk[i - 1], chunk[r.below(i)]);
    else if (r.chance(50)) std::reverse(chunk.begin(), chunk.end());
    if (kids < 256 && r.chance(30)) { int at = (int)r.below(kids); for (int i = 0; i < 256; i++) if (chunk[i] == 0 || chunk[i] == 255) std::swap(chunk[i], chunk[at]); }
    for (size_t i = 0; i < kids; i++) {
        size_t share = want / kids + (i < want % kids);
        if (r.chance(20) && share > 1) share = 1;
        grow_keys(r, out, (prefix << 8) | (uint64_t)chunk[i], level + 1, share);
    }
}

// 64-bit values whose containers' keys form an index of that kind, a few values to a key
template <class T>
Conc<T> make_tree(int S, int C, uint64_t seed, const ConcOpts &o) {
    Rng r(seed);
    Conc<T> z;
    z.S = S; z.C = C;
    z.U = (u128)1 << 64;
    size_t n = (size_t)S * C;
    size_t want = o.small ? r.oneof({n, n + 2, 20, 40}) : r.oneof({n + 2, 20, 40, 60, 100, 260, 300, 600});
    std::vector<uint64_t> k;
    int groups = 1 + (int)r.below(3);
    for (int i = 0; i < groups; i++) grow_keys(r, k, 0, 0, std::max<size_t>(want / groups, 1));
    std::sort(k.begin(), k.end());
    k.erase(std::unique(k.begin(), k.end()), k.end());
    std::vector<T> v;
    std::vector<uint32_t> ko;
    unsigned kind = (unsigned)r.below(3);
    while (v.size() < n) {
        v.clear(); ko.clear();
        for (size_t i = 0; i < k.size(); i++) {
            size_t nv = kind == 0 ? 1 : kind == 1 ? 1 + r.below(4) : r.chance(5) ? r.oneof({200, 4096, 5000}) : 1 + r.below(30);
            if (k.size() < n) nv = std::max<size_t>(nv, 2 * n);
            std::vector<uint32_t> low;
            if (r.chance(30)) { uint32_t at = (uint32_t)r.below(65536 - nv); for (size_t j = 0; j < nv; j++) low.push_back(at + (uint32_t)j); }
            else for (size_t j = 0; j < nv; j++) low.push_back((uint32_t)r.oneof({0, 65535, r.below(65536), r.below(65536), r.below(65536)}));
            std::sort(low.begin(), low.end());
            low.erase(std::unique(low.begin(), low.end()), low.end());
            for (uint32_t x : low) { v.push_back((T)(k[i] << 16 | x)); ko.push_back((uint32_t)i); }
        }
    }
    size_t at = 0;
    for (int s = 0; s < S; s++) {
        size_t lo = at + C, hi = v.size() - (size_t)(S - 1 - s) * C;
        size_t end = s == S - 1 ? v.size() : lo + (hi > lo ? r.below(r.chance(40) ? std::min<size_t>(hi - lo, 6) + 1 : hi - lo + 1) : 0);
        Segm<T> g;
        g.v.assign(v.begin() + at, v.begin() + end);
        std::vector<uint32_t> own(ko.begin() + at, ko.begin() + end);
        paint(r, g.c, g.v.size(), C, &own);
        g.lo = g.v.front(); g.hi = g.v.back();
        g.dense = (u128)(g.hi - g.lo) + 1 == g.v.size();
        for (size_t i = 0; i < g.v.size(); i++) { z.vals.push_back(g.v[i]); z.atom.push_back((uint8_t)(s * C + g.c[i])); }
        g.c.clear();
        at = end;
        z.seg.push_back(std::move(g));
    }
    z.desc = "index of " + std::to_string(k.size()) + " keys, " + std::to_string(v.size()) + " values";
    return z;
}

// an arithmetic progression: segments are stretches of it, colours go round
template <class T>
Conc<T> make_steps(int S, int C, uint64_t seed, const ConcOpts &o) {
    Rng r(seed);
    Conc<T> z;
    z.S = S; z.C = C;
    const bool is64 = sizeof(T) == 8;
    z.U = (u128)1 << (sizeof(T) * 8);
    u128 w = r.chance(40) ? 2 + r.below(40) : r.chance(50) ? 2 + r.below(3000) : r.chance(50) ? r.oneof({16, 21845, 21846, 32767, 32768, 65535, 65536, 65537}) : 1 + r.below(200000);
    if (is64 && r.chance(25)) w = (u128)1 << r.oneof({17, 24, 31, 32, 33, 40, 48, 54}) | r.oneof({0, 0, 1, 65536});
    size_t n = (size_t)S * C, m = o.small ? n + r.below(60) : n + r.below(w < 100 ? 40000 : w < 3000 ? 8000 : 300);
    if ((u128)w * (m + 1) >= z.U) m = std::max<size_t>(n, (size_t)(z.U / w) - 2);
    if ((u128)w * (m + 1) >= z.U) w = z.U / (m + 2);
    u128 room = z.U - w * (m - 1);   // the first value is below this
    u128 base = r.chance(30) ? room - 1 - r.below((uint64_t)std::min<u128>(w + 2, room)) : r.chance(30) ? r.below(65536) : r.chance(50) ? r.below(1u << 26) : (u128)r.next() >> r.below(64);
    if (is64 && r.chance(25)) base = ((u128)r.oneof({1, 2, 255, 256}) << 32) - r.below(1u << 20);
    if (base >= room) base = base % room;
    size_t at = 0;
    for (int s = 0; s < S; s++) {
        size_t lo = at + C, hi = m - (size_t)(S - 1 - s) * C;
        size_t end = s == S - 1 ? m : lo + (hi > lo ? r.below(hi - lo + 1) : 0);
        Segm<T> g;
        for (; at < end; at++) { g.v.push_back((T)(base + w * at)); z.vals.push_back(g.v.back()); z.atom.push_back((uint8_t)(s * C + at % C)); }
        g.lo = g.v.front(); g.hi = g.v.back();
        g.dense = (u128)(g.hi - g.lo) + 1 == g.v.size();
        z.seg.push_back(std::move(g));
    }
    z.strided = true;
    z.stride = w;
    char buf[120];
    snprintf(buf, sizeof buf, "steps of %llx from %llx, %zu values", (unsigned long long)w, (unsigned long long)base, m);
    z.desc = buf;
    return z;
}

template <class T>
Conc<T> make_conc(int S, int C, uint64_t seed, const ConcOpts &o) {
    if (o.exact && S * C <= 8) return make_exact<T>(S, C, seed, o);
    if (sizeof(T) == 8 && !o.universe && o.sparse && mix(seed, 77) % 100 < 18) return make_tree<T>(S, C, mix(seed, 78), o);
    if (!o.universe && o.sparse && mix(seed, 79) % 100 < 8) return make_steps<T>(S, C, mix(seed, 80), o);
    Rng r(seed);
    Conc<T> z;
    z.S = S; z.C = C;
    const bool is64 = sizeof(T) == 8;
    const u128 top = (u128)1 << (sizeof(T) * 8);
    z.U = o.universe ? o.universe : top;
    const u128 U = z.U;
    // total budget: skewed to small, sometimes big
    size_t budget = o.small ? 50 + r.below(400)
                  : r.chance(25) ? 100 + r.below(5000)
                  : r.chance(75) ? 5000 + r.below(o.cap / 3) : o.cap;
    bool contiguous = !o.sparse || r.chance(o.small ? 75 : 55);
    bool stride = contiguous && r.chance(15);
    bool touchTop = r.chance(25);
    // pass 1: shapes relative to a cursor; the cursor starts at `base`
    u128 base;
    switch (r.below(is64 ? 8 : 5)) {
        case 0: base = 0; break;
        case 1: base = r.below(200); break;
        case 2: base = (u128)r.below(40) * 65536 + r.oneof({0, 1, 63, 64, 65535, 65534, 65472, 1000}); break;
        case 3: base = (u128)r.oneof({0x7fff, 0x8000, 0xfff, 0x100}) * 65536 + r.below(65536); break;
        case 4: base = is64 ? (u128)r.next() >> r.below(64) : (u128)(r.next() & 0x7fffffff); break;
        case 5: base = ((u128)r.oneof({1, 2, 3, 255, 256}) << 32) - r.below(r.oneof({30, 1000, 70000, 300000})) - 1; break;
        case 6: base = ((u128)r.oneof({1, 2, 255}) << r.oneof({40, 48, 56})) - r.below(r.oneof({30, 1000, 70000, 200000})) - 1; break;
        default: base = ((u128)1 << 63) - r.below(100000); break;
    }
    if (o.small && r.chance(80)) {  // around a container or a 2^32 boundary
        u128 edge = is64 && r.chance(60) ? (u128)r.oneof({1, 2, 3, 0x100, 0xffffffff}) << 32
                                         : (u128)r.oneof({1, 2, 255, 0x7fff, 0xffff}) << 16;
        base = edge - 1 - r.below(r.oneof({1, 3, 30, 200}));
    }
    if (U < ((u128)1 << 22) && base > U / 2) base = r.below((uint64_t)(U / 2));
    u128 cur = base;
    if (touchTop) {  // leave room: start near the top of the universe; trimmed segments end there
        u128 room = (u128)budget + (contiguous ? 0 : (u128)65536 * 600);
        if (room < U) cur = U - room;
        else touchTop = false;
    }
    size_t left = budget;
    u128 hardTop = U;
    char buf[160];
    snprintf(buf, sizeof buf, "base=%llx%016llx budget=%zu contig=%d stride=%d top=%d;", (unsigned long long)(cur >> 64),
             (unsigned long long)cur, budget, contiguous, stride, touchTop);
    z.desc = buf;
    for (int s = 0; s < S; s++) {
        Segm<T> g;
        int segsLeft = S - s;
        // always keep room for the remaining segments
        u128 reserve = (u128)segsLeft * (C + 2);
        if (cur + reserve > hardTop) {  // cannot happen with the reservations below, but stay safe
            fprintf(stderr, "concretization overflow\n"); exit(2);
        }
        u128 avail = hardTop - cur - (u128)(segsLeft - 1) * (C + 2);
        bool dense = contiguous || r.chance(45);
        if (!contiguous && s > 0) {  // a gap before this segment
            u128 gap = 0;
            switch (r.below(6)) {
                case 0: gap = 0; break;
                case 1: gap = 1 + r.below(100); break;
                case 2: gap = 65536 - (uint64_t)(cur & 0xffff); break;                  // next container
                case 3: gap = 65536 * (1 + r.below(5)) + r.below(65536); break;
                case 4: gap = is64 ? (u128)1 << r.oneof({17, 24, 32, 33, 40, 48, 56}) : 65536 * r.below(100); break;
                default: gap = is64 ? (u128)(r.next() >> (8 + r.below(40))) : (u128)r.below(1 << 22); break;
            }
            if (gap + 70000 * (u128)segsLeft < avail) { cur += gap; avail -= gap; }
        }
        if (dense) {
            size_t len;
            size_t share = std::max<size_t>(left / segsLeft, (size_t)C + 1);
            u128 toEdge = 65536 - (uint64_t)(cur & 0xffff);
            bool atEdge = false;
            if (is64) {
                u128 far = ((u128)1 << 32) - (uint64_t)(cur & 0xffffffff);
                if (far <= (u128)share * 2) { toEdge = far; atEdge = r.chance(60); }
            }
            switch (atEdge ? 2 + r.below(3) : r.below(9)) {
                case 0: len = C + r.below(3); break;
                case 1: len = C + r.below(200); break;
                case 2: len = (size_t)toEdge; break;
                case 3: len = (size_t)toEdge + 1; break;
                case 4: len = toEdge > 1 ? (size_t)toEdge - 1 : 1; break;
                case 5: len = (size_t)toEdge + 65536 * r.below(3) + r.below(100); break;
                case 6: len = 64 * (1 + r.below(100)); break;
                default: len = C + r.below(2 * share); break;
            }
            if (len > 2 * share + 64 && !(s == S - 1 && touchTop)) len = C + r.below(2 * share);
            if (s == S - 1 && touchTop && contiguous) len = (size_t)std::min<u128>(avail, 4 * (u128)o.cap);
            if (len < (size_t)C) len = C;
            if ((u128)len > avail) len = (size_t)avail;
            if (o.small && len > 2000) len = 2000;
            left = left > len ? left - len : 0;
            g.v.resize(len);
            for (size_t i = 0; i < len; i++) g.v[i] = (T)(cur + i);
            if (stride) { g.c.resize(len); for (size_t i = 0; i < len; i++) g.c[i] = 0; }
            else paint(r, g.c, len, C, nullptr);
            g.dense = true;
            cur += len;
        } else {
            size_t nk = r.oneof({1, 2, 3, 4, 5, 9, 16, 17, 30, 48, 49, 60, 130, 256, 300});
            size_t share = std::max<size_t>(left / segsLeft, 64);
            if (nk > share / 2 + 1) nk = share / 2 + 1;
            u128 key0 = cur >> 16;
            if (r.chance(50) && (cur & 0xffff)) key0++;
            std::vector<u128> keys;
            unsigned bits = is64 ? (unsigned)r.oneof({3, 8, 9, 12, 16, 24, 32, 40}) : (unsigned)r.oneof({2, 6, 9, 10});
            u128 keyTop = (hardTop - (u128)(segsLeft - 1) * (C + 2)) >> 16;  // exclusive
            if (keyTop > key0) {
                u128 span = keyTop - key0;
                if (is64 && r.chance(25)) {  // fan-out at one byte level
                    unsigned lvl = (unsigned)r.below(5);
                    unsigned step = (unsigned)r.oneof({1, 1, 2, 5});
                    for (size_t i = 0; i < nk && i * step < 256; i++) {
                        u128 k = key0 + ((u128)(i * step) << (8 * lvl));
                        if (k < keyTop) keys.push_back(k);
                        if (r.chance(20) && k + 1 < keyTop) keys.push_back(k + 1);
                    }
                } else {
                    u128 w = (u128)1 << bits;
                    if (w < nk) w = nk * 2;
                    if (w > span / (unsigned)segsLeft) w = span / (unsigned)segsLeft;
                    if (w == 0) w = 1;
                    for (size_t i = 0; i < nk; i++) keys.push_back(key0 + (u128)(r.next() % (uint64_t)w));
                }
                std::sort(keys.begin(), keys.end());
                keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
                // leave room for the following segments
                while (keys.size() > 1 && (keys.back() << 16) + 65536 + (u128)segsLeft * 140000 > hardTop) keys.pop_back();
            }
            std::vector<uint32_t> ko;
            unsigned kind = (unsigned)r.below(4);
            for (size_t i = 0; i < keys.size(); i++) {
                size_t nv = kind == 0 ? 1 : kind == 1 ? 1 + r.below(4) : kind == 2 ? 1 + r.below(60)
                          : r.oneof({1, 2, 10, 200, 3000, 5000});
                if (g.v.size() + nv > share * 2) nv = 1;
                std::vector<T> x;
                bool runs = r.chance(30);
                T kb = (T)(keys[i] << 16);
                if (runs) {
                    uint32_t at = (uint32_t)r.below(65536 - std::min<size_t>(nv * 2, 65000));
                    for (size_t j = 0; j < nv && at < 65536; j++) { x.push_back((T)(kb + at)); at += r.chance(10) ? 2 : 1; }
                } else
                    for (size_t j = 0; j < nv; j++) x.push_back((T)(kb + r.below(65536)));
                if (r.chance(20)) x.push_back(kb);
                if (r.chance(20)) x.push_back((T)(kb + 65535));
                std::sort(x.begin(), x.end());
                x.erase(std::unique(x.begin(), x.end()), x.end());
                for (T v : x)
                    if ((u128)v >= cur) { g.v.push_back(v); ko.push_back((uint32_t)i); }
            }
            if (g.v.size() < (size_t)C) {  // fall back to a short contiguous list with holes
                g.v.clear(); ko.clear();
                for (int i = 0; i < C; i++) { g.v.push_back((T)(cur + i)); ko.push_back((uint32_t)i); }
            }
            paint(r, g.c, g.v.size(), C, &ko);
            left = left > g.v.size() ? left - g.v.size() : 0;
            g.dense = (u128)(g.v.back() - g.v.front()) + 1 == g.v.size();
            cur = (u128)g.v.back() + 1;
        }
        g.lo = g.v.front();
        g.hi = g.v.back();
        snprintf(buf, sizeof buf, " %c[%llx,%llx]#%zu", g.dense ? 'D' : 'S', (unsigned long long)g.lo, (unsigned long long)g.hi, g.v.size());
        z.desc += buf;
        z.seg.push_back(std::move(g));
    }
    if (stride) {
        z.strided = true;
        for (int s = 0; s < S && z.strided; s++)
            for (size_t i = 0; i < z.seg[s].v.size(); i++)
                z.seg[s].c[i] = (uint8_t)((z.seg[s].v[i] - z.seg[0].lo) % C);
    }
    for (int s = 0; s < S; s++) {
        for (size_t i = 0; i < z.seg[s].v.size(); i++) {
            z.vals.push_back(z.seg[s].v[i]);
            z.atom.push_back((uint8_t)(s * C + z.seg[s].c[i]));
        }
        z.seg[s].c.clear();
        z.seg[s].c.shrink_to_fit();
    }
    return z;
}

// ------------------------------------------------------------- reporting --
struct Where { int beh = -1, conc = -1, step = -1; std::string op; };
#if SCHED
extern thread_local Where g_where;
#else
extern Where g_where;
#endif
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK(cond, ...) do { if (!(cond)) fail(__VA_ARGS__); } while (0)

template <class T>
void check_list(const std::vector<T> &want, const T *got, size_t n, const char *what) {
    if (n != want.size()) fail("%s: %zu values, expected %zu", what, n, want.size());
    if (n && memcmp(want.data(), got, n * sizeof(T)) != 0)
        for (size_t i = 0; i < n; i++)
            if (want[i] != got[i]) fail("%s: value #%zu is %llx, expected %llx (of %zu)", what, i, (unsigned long long)got[i], (unsigned long long)want[i], n);
}

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char *b = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}

// allocation accounting through the library's own hook (memory.cc)
extern "C" {
void mem_install(void);
long mem_outstanding(void);
long mem_requests(void);
void mem_refuse(long nth, bool all);   // refuse the nth request from now (and all that follow); 0: grant everything
long mem_refused(void);
void mem_spare_realloc(bool on);             // only other requests are refused (and counted)
uint64_t mem_digest(void);                   // of the set of live blocks
void mem_trace(void *file);                  // write the calls of the hook to this FILE
long mem_traced(void);
}
