// Binding of spec/SetMachine.tla with very large atoms: unions of few long intervals, up to the whole 32-bit universe and to several
// 2^32 blocks of the 64-bit one. Sets are lists of intervals, so that every expected answer is computed without enumerating values.
// -DAPI=32, 64: the C bitmaps; 132, 164: the C++ classes.
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#if API > 100
#include "roaring64map.hh"
#endif
#include "driver.hh"
#include "format.hh"

#define B64 (API == 64 || API == 164)
#define CPP (API > 100)
typedef unsigned long long ull;
#if B64
typedef uint64_t T;
#else
typedef uint32_t T;
#endif
static const u128 TOP = (u128)1 << (8 * sizeof(T));

// ------------------------------------------------------------------ sets as intervals
struct Iv { T lo, hi; };
typedef std::vector<Iv> Ivs;
static uint64_t len(const Iv &i) { return (uint64_t)(i.hi - i.lo) + 1; }
static void push(Ivs &o, T lo, T hi) {
    if (!o.empty() && o.back().hi != (T)~(T)0 && o.back().hi + 1 == lo) o.back().hi = hi;
    else o.push_back({lo, hi});
}
static uint64_t count(const Ivs &v) { uint64_t n = 0; for (auto &i : v) n += len(i); return n; }
static bool member(const Ivs &v, T x) {
    auto it = std::upper_bound(v.begin(), v.end(), x, [](T a, const Iv &b) { return a < b.lo; });
    return it != v.begin() && (--it)->hi >= x;
}
static uint64_t below(const Ivs &v, u128 x) {   // values smaller than x
    uint64_t n = 0;
    for (auto &i : v) { if ((u128)i.hi < x) n += len(i); else { if ((u128)i.lo < x) n += (uint64_t)(x - i.lo); break; } }
    return n;
}
static bool kth(const Ivs &v, uint64_t n, T *x) {
    for (auto &i : v) { if (n < len(i)) { *x = (T)(i.lo + n); return true; } n -= len(i); }
    return false;
}
static Ivs clip(const Ivs &v, u128 lo, u128 hi) {   // values in [lo, hi)
    Ivs o;
    for (auto &i : v) {
        if (hi <= lo || (u128)i.hi < lo || (u128)i.lo >= hi) continue;
        o.push_back({(u128)i.lo < lo ? (T)lo : i.lo, (u128)i.hi >= hi ? (T)(hi - 1) : i.hi});
    }
    return o;
}
static size_t keys(const Ivs &v) {
    size_t n = 0;
    T last = 0;
    bool any = false;
    for (auto &i : v) { n += (size_t)((i.hi >> 16) - (i.lo >> 16)) + 1; if (any && i.lo >> 16 == last) n--; last = i.hi >> 16; any = true; }
    return n;
}

struct Wide {
    int S, C;
    u128 U = TOP;
    struct Sg { T lo, hi; };
    std::vector<Sg> seg;
    std::vector<Ivs> atom;
    std::string desc;
    std::unordered_map<uint32_t, Ivs> cache;
    const Ivs &expand(uint32_t m) {
        auto it = cache.find(m);
        if (it != cache.end()) return it->second;
        if (cache.size() > 3000) cache.clear();
        Ivs &r = cache[m], all;
        for (int a = 0; a < S * C; a++) if (m >> a & 1) all.insert(all.end(), atom[a].begin(), atom[a].end());
        std::sort(all.begin(), all.end(), [](const Iv &a, const Iv &b) { return a.lo < b.lo; });
        for (auto &i : all) push(r, i.lo, i.hi);
        return r;
    }
    uint64_t cnt(uint32_t m) { return count(expand(m)); }
    u128 start(int p) const { return p < S ? (u128)seg[p].lo : (u128)seg[S - 1].hi + 1; }
    u128 jitter(int p, Rng &r) const {
        u128 hi = p == S ? U : start(p), lo = p == 0 ? 0 : (u128)seg[p - 1].hi + 1;
        if (hi <= lo) return start(p);
        switch (r.below(4)) {
            case 0: return lo;
            case 1: return hi;
            case 2: return start(p);
            default: { u128 w = hi - lo; uint64_t x = r.next(); return lo + (w >> 64 ? (u128)x : (u128)x % w); }
        }
    }
    Ivs ranges(int p, int q) const { Ivs o; for (int s = p; s < q; s++) push(o, seg[s].lo, seg[s].hi); return o; }
};
static bool holds(const Ivs &v, T lo, T hi) {   // all of [lo, hi]?
    auto it = std::upper_bound(v.begin(), v.end(), lo, [](T a, const Iv &b) { return a < b.lo; });
    return it != v.begin() && (--it)->hi >= hi;
}
static Wide make_wide(int S, int C, uint64_t seed) {
    Rng r(seed);
    Wide z;
    z.S = S; z.C = C;
    z.atom.resize(S * C);
    u128 base, total;
    auto snap = [&](u128 x) -> u128 {   // next to a round number
        unsigned sh = B64 && r.chance(40) ? 32 : r.chance(70) ? 16 : r.chance(50) ? 24 : 6;
        switch (r.below(4)) {
            case 0: return x;
            case 1: return x >> sh << sh;
            case 2: return (x >> sh << sh) + r.below(3);
            default: { u128 y = x >> sh << sh; return y ? y - 1 - (y > 2 ? r.below(2) : 0) : 0; }
        }
    };
#if B64
    switch (r.below(8)) {
        case 0: case 1: total = (u128)1 << 32; break;
        case 2: total = ((u128)2 << 32) + r.below(1u << 20); break;
        case 3: total = (u128)r.below(1ull << 33) + 1000000; break;
        default: total = (u128)(1 + r.below(64)) << (16 + r.below(8)); break;
    }
    switch (r.below(6)) {
        case 0: base = 0; break;
        case 1: base = (u128)r.oneof({1, 2, 255, 0xffff, 0xfffffff0}) << 32; break;
        case 2: base = ((u128)r.oneof({1, 2, 256, 0x10000}) << 32) - r.oneof({1, 65536, 65537, 70000, 1u << 30, 3}); break;
        case 3: base = ((u128)1 << 48) - (total / 2); break;
        case 4: base = TOP - total; break;
        default: base = (u128)(r.next() >> r.below(30)); break;
    }
    if (base + total > TOP) base = TOP - total;
#else
    switch (r.below(6)) {
        case 0: case 1: base = 0; total = TOP; break;
        case 2: base = snap((u128)r.below(1ull << 31)); total = TOP - base; break;
        case 3: base = 0; total = snap((u128)(1ull << 31) + r.below(1ull << 31)); break;
        default: base = snap((u128)r.below(1ull << 32)); total = (u128)(1 + r.below(64)) << (16 + r.below(6)); break;
    }
    if (base + total > TOP) total = TOP - base;
    if (total < 1000000) { base = 0; total = 1 << 24; }
#endif
    // cut into segments
    std::vector<u128> cut = {base, base + total};
    while ((int)cut.size() < S + 1) {
        u128 x = base + (r.chance(30) ? (u128)r.below(1 << 20) : r.chance(30) ? total - 1 - r.below(1 << 20) : ((u128)r.next() * (total >> 16) >> 48));
        x = snap(x);
        bool near = x <= base || x >= base + total;
        for (u128 c : cut) if ((x > c ? x - c : c - x) < (u128)(C + 1)) near = true;
        if (near) { x = base + (u128)r.next() % total; near = x <= base || x >= base + total; for (u128 c : cut) if ((x > c ? x - c : c - x) < (u128)(C + 1)) near = true; }
        if (!near) cut.push_back(x);
    }
    std::sort(cut.begin(), cut.end());
    bool contig = r.chance(70);
    std::vector<u128> hole(S + 1, 0);   // before segment s
#if B64
    if (r.chance(35)) {   // holes of about multiples of 2^32 between blocks of 2^16
        u128 shift = 0;
        cut[0] = cut[0] >> 16 << 16;
        for (int s = 1; s <= S; s++) {
            u128 x = cut[s] >> 16 << 16, prev = cut[s - 1] - shift;   // where it was
            if (s < S && r.chance(70) && x > prev && x - prev > (u128)C) {
                u128 gap = ((u128)r.oneof({1, 1, 2, 256, 0x10000}) << 32) - (u128)r.oneof({0, 0, 65536, 65536});
                if (cut[S] + shift + gap <= TOP) { cut[s] = x; hole[s] = gap; shift += gap; }
            }
            cut[s] += shift;
        }
    }
#endif
    char buf[120];
    for (int s = 0; s < S; s++) {
        u128 lo = cut[s], hi = cut[s + 1] - hole[s + 1];   // [lo, hi)
        if (!contig && r.chance(50) && hi - lo > 200000) { if (r.chance(50)) hi -= snap(r.below((uint64_t)std::min<u128>((hi - lo) / 2, 1ull << 40))); else lo = hi - 1 - r.below(100000) - C; }
        z.seg.push_back({(T)lo, (T)(hi - 1)});
        std::vector<std::pair<u128, int>> piece;   // (start, colour)
        int style = (int)r.below(5);
        u128 w = hi - lo;
        std::vector<u128> st = {lo};
        size_t n = (size_t)r.oneof({1, 2, 3, 10, 40, 200});
        if (style == 0) { for (size_t i = 0; i < n; i++) st.push_back(snap(lo + (u128)r.next() % w)); }
        else if (style == 1) {   // stripes of whole containers
            u128 step = (u128)65536 * r.oneof({1, 1, 2, 3, 16, 1024, 65536});
            while (w / step > 500) step *= 2;
            for (u128 x = (lo / step + 1) * step; x < hi; x += step) st.push_back(x);
        } else if (style == 2) {   // fine structure inside a few containers
            for (int i = 0; i < 3; i++) {
                u128 c = (lo + (u128)r.next() % w) >> 16 << 16;
                u128 x = c + r.below(65536);
                unsigned g = (unsigned)r.oneof({1, 2, 5, 64, 500});
                for (size_t j = 0; j < n; j++) { st.push_back(x); x += 1 + r.below(g); }
            }
        } else if (style == 3) {   // single values taken out
            for (size_t i = 0; i < n; i++) { u128 x = r.chance(50) ? (r.chance(50) ? lo + r.below(3) : hi - 1 - r.below(3)) : snap(lo + (u128)r.next() % w); st.push_back(x); st.push_back(x + 1); }
        } else for (int i = 0; i < C - 1; i++) st.push_back(lo + (w * (i + 1)) / C);
        // at least C pieces
        for (int i = 0; i < C; i++) st.push_back(r.chance(50) ? lo + i : hi - 1 - i);
        std::vector<u128> ok;
        for (u128 x : st) if (x >= lo && x < hi) ok.push_back(x);
        for (int again = 0; again < 2; again++) {
            std::sort(ok.begin(), ok.end());
            ok.erase(std::unique(ok.begin(), ok.end()), ok.end());
            if (ok.size() < (size_t)C) for (int i = 0; i < C; i++) ok.push_back(lo + i);
        }
        int main = (int)r.below(C);
        std::vector<int> col(ok.size());
        bool rr = r.chance(50);
        for (size_t i = 0; i < ok.size(); i++) col[i] = style == 3 ? (i % 2 ? (int)r.below(C) : main) : rr ? (int)(i % C) : (int)r.below(C);
        for (int c = 0; c < C; c++) {   // every atom has a value
            if (std::find(col.begin(), col.end(), c) != col.end()) continue;
            for (;;) { size_t i = r.below(col.size()); if (std::count(col.begin(), col.end(), col[i]) > 1) { col[i] = c; break; } }
        }
        for (size_t i = 0; i < ok.size(); i++) push(z.atom[s * C + col[i]], (T)ok[i], (T)((i + 1 < ok.size() ? ok[i + 1] : hi) - 1));
        snprintf(buf, sizeof buf, " [%llx,%llx]x%zu", (ull)lo, (ull)(hi - 1), ok.size());
        z.desc += buf;
    }
    return z;
}

// ------------------------------------------------------------------ the calls
// the exclusive end of a range whose last value is hi: where that is the last of all 32-bit values, ends beyond mean the same
static uint64_t beyond(T hi) {
#if B64
    return hi + 1;
#else
    static Rng r(5);
    uint64_t e = (uint64_t)hi + 1;
    return e == 1ull << 32 && r.chance(50) ? r.oneof({e + 1, e + 5, e + 65536, e * 2, e * 3 + 7, UINT64_MAX}) : e;
#endif
}
#if !CPP
#if B64
#define FN(x) roaring64_bitmap_##x
typedef roaring64_bitmap_t BM;
#else
#define FN(x) roaring_bitmap_##x
typedef roaring_bitmap_t BM;
#endif
static BM *mk() { return FN(create)(); }
static void del(BM *r) { FN(free)(r); }
static BM *dup(const BM *r) { return FN(copy)(r); }
static bool half(T hi, int k) { return k % 2 == 0 && (u128)hi + 1 <= (B64 ? (u128)UINT64_MAX : (u128)1 << 32); }
static void addc(BM *r, T lo, T hi, int k) { if (half(hi, k)) FN(add_range)(r, lo, beyond(hi)); else FN(add_range_closed)(r, lo, hi); }
static void remc(BM *r, T lo, T hi, int k) { if (half(hi, k)) FN(remove_range)(r, lo, beyond(hi)); else FN(remove_range_closed)(r, lo, hi); }
static void flipc(BM *r, T lo, T hi, int k) {
    if (half(hi, k)) FN(flip_inplace)(r, lo, beyond(hi));
#if B64
    else roaring64_bitmap_flip_closed_inplace(r, lo, hi);
#else
    else roaring_bitmap_flip_inplace_closed(r, lo, hi);
#endif
}
static BM *flipn(const BM *r, T lo, T hi, int k) { return half(hi, k) ? FN(flip)(r, lo, beyond(hi)) : FN(flip_closed)(r, lo, hi); }
static BM *fromr(T lo, T hi) {
    if (half(hi, 0)) return FN(from_range)(lo, (uint64_t)hi + 1, 1);
    BM *r = mk(); FN(add_range_closed)(r, lo, hi); return r;
}
static bool hasr(const BM *r, T lo, T hi, int k) {
#if B64
    (void)k;
    if (!half(hi, 0)) return FN(contains)(r, hi) && (lo == hi || FN(contains_range)(r, lo, hi));
    return FN(contains_range)(r, lo, beyond(hi));
#else
    return k % 2 ? FN(contains_range_closed)(r, lo, hi) : FN(contains_range)(r, lo, beyond(hi));
#endif
}
static uint64_t cardr(const BM *r, T lo, T hi, int k) {
    if (half(hi, k)) return FN(range_cardinality)(r, lo, beyond(hi));
#if B64
    return roaring64_bitmap_range_closed_cardinality(r, lo, hi);
#else
    return roaring_bitmap_range_cardinality_closed(r, lo, hi);
#endif
}
static bool isectr(const BM *r, T lo, T hi) { return half(hi, 0) ? FN(intersect_with_range)(r, lo, beyond(hi)) : FN(intersect_with_range)(r, lo, hi) || FN(contains)(r, hi); }
static uint64_t card(const BM *r) { return FN(get_cardinality)(r); }
static bool has(const BM *r, T x) { return FN(contains)(r, x); }
static uint64_t rank(const BM *r, T x) { return FN(rank)(r, x); }
static bool sel(const BM *r, uint64_t n, T *x) { if (!B64 && n > UINT32_MAX) return false; return FN(select)(r, n, x); }
static int64_t index_of(const BM *r, T x) {
#if B64
    uint64_t n; return roaring64_bitmap_get_index(r, x, &n) ? (int64_t)n : -1;
#else
    return roaring_bitmap_get_index(r, x);
#endif
}
static T mini(const BM *r) { return FN(minimum)(r); }
static T maxi(const BM *r) { return FN(maximum)(r); }
static bool none(const BM *r) { return FN(is_empty)(r); }
static const char *invalid(const BM *r) { const char *w = nullptr; return FN(internal_validate)(r, &w) ? nullptr : w ? w : "?"; }
static void array(const BM *r, T *o) {
#if B64
    roaring64_bitmap_to_uint64_array(r, o);
#else
    roaring_bitmap_to_uint32_array(r, o);
#endif
}
static void addm(BM *r, const std::vector<T> &v) { FN(add_many)(r, v.size(), v.data()); }
static void remm(BM *r, const std::vector<T> &v) { FN(remove_many)(r, v.size(), v.data()); }
static void add1(BM *r, T x) { FN(add)(r, x); }
static bool iterate_all(const BM *r, bool (*f)(T, void *), void *p) {
#if B64
    return roaring64_bitmap_iterate(r, f, p);
#else
    return roaring_iterate(r, f, p);
#endif
}
#if B64
struct It {
    roaring64_iterator_t *i;
    It(const BM *r, bool last = false) : i(last ? roaring64_iterator_create_last(r) : roaring64_iterator_create(r)) {}
    ~It() { roaring64_iterator_free(i); }
    bool has() { return roaring64_iterator_has_value(i); }
    T val() { return roaring64_iterator_value(i); }
    void next() { roaring64_iterator_advance(i); }
    void prev() { roaring64_iterator_previous(i); }
    bool seek(T x) { return roaring64_iterator_move_equalorlarger(i, x); }
    uint64_t read(T *b, uint64_t n) { return roaring64_iterator_read(i, b, n); }
};
#else
struct It {
    roaring_uint32_iterator_t i;
    It(const BM *r, bool last = false) { if (last) roaring_iterator_init_last(r, &i); else roaring_iterator_init(r, &i); }
    bool has() { return i.has_value; }
    T val() { return i.current_value; }
    void next() { roaring_uint32_iterator_advance(&i); }
    void prev() { roaring_uint32_iterator_previous(&i); }
    bool seek(T x) { return roaring_uint32_iterator_move_equalorlarger(&i, x); }
    uint64_t read(T *b, uint64_t n) { return roaring_uint32_iterator_read(&i, b, (uint32_t)n); }
};
#endif
static BM *b_and(const BM *a, const BM *b) { return FN(and)(a, b); }
static BM *b_or(const BM *a, const BM *b) { return FN(or)(a, b); }
static BM *b_xor(const BM *a, const BM *b) { return FN(xor)(a, b); }
static BM *b_andnot(const BM *a, const BM *b) { return FN(andnot)(a, b); }
static void i_and(BM *a, const BM *b) { FN(and_inplace)(a, b); }
static void i_or(BM *a, const BM *b) { FN(or_inplace)(a, b); }
static void i_xor(BM *a, const BM *b) { FN(xor_inplace)(a, b); }
static void i_andnot(BM *a, const BM *b) { FN(andnot_inplace)(a, b); }
static bool eq(const BM *a, const BM *b) { return FN(equals)(a, b); }
static bool sub(const BM *a, const BM *b) { return FN(is_subset)(a, b); }
static bool ssub(const BM *a, const BM *b) { return FN(is_strict_subset)(a, b); }
static void opt(BM *r) { FN(run_optimize)(r); }
static void shrink(BM *r) { FN(shrink_to_fit)(r); }
static void clear(BM *r) { FN(clear)(r); }
#else
#if B64
typedef roaring::Roaring64Map BM;
#else
typedef roaring::Roaring BM;
#endif
static BM *mk() { return new BM(); }
static void del(BM *r) { delete r; }
static BM *dup(const BM *r) { return new BM(*r); }
static bool half(T hi, int k) { return k % 2 == 0 && (u128)hi + 1 <= (B64 ? (u128)UINT64_MAX : (u128)1 << 32); }
static void addc(BM *r, T lo, T hi, int k) { if (half(hi, k)) r->addRange(lo, beyond(hi)); else r->addRangeClosed(lo, hi); }
static void remc(BM *r, T lo, T hi, int k) { if (half(hi, k)) r->removeRange(lo, beyond(hi)); else r->removeRangeClosed(lo, hi); }
static void flipc(BM *r, T lo, T hi, int k) { if (half(hi, k)) r->flip(lo, beyond(hi)); else r->flipClosed(lo, hi); }
static BM *flipn(const BM *r, T lo, T hi, int k) { BM *x = dup(r); flipc(x, lo, hi, k); return x; }
static BM *fromr(T lo, T hi) { BM *r = mk(); r->addRangeClosed(lo, hi); return r; }
static uint64_t rank(const BM *r, T x) { return r->rank(x); }
static uint64_t cardr(const BM *r, T lo, T hi, int) { return rank(r, hi) - (lo ? rank(r, lo - 1) : 0); }
static bool hasr(const BM *r, T lo, T hi, int k) {
#if B64
    return cardr(r, lo, hi, k) - 1 == (uint64_t)(hi - lo);
#else
    return k % 2 ? r->containsRangeClosed(lo, hi) : r->containsRange(lo, beyond(hi));
#endif
}
static bool isectr(const BM *r, T lo, T hi) { return cardr(r, lo, hi, 0) != 0; }
static uint64_t card(const BM *r) { return r->cardinality(); }
static bool has(const BM *r, T x) { return r->contains(x); }
static bool sel(const BM *r, uint64_t n, T *x) { if (!B64 && n > UINT32_MAX) return false; return r->select((T)n, x); }
static int64_t index_of(const BM *r, T x) { return r->getIndex(x); }
static T mini(const BM *r) { return r->minimum(); }
static T maxi(const BM *r) { return r->maximum(); }
static bool none(const BM *r) { return r->isEmpty(); }
static const char *invalid(const BM *r) {
#if !B64
    const char *w = nullptr; return roaring_bitmap_internal_validate(&r->roaring, &w) ? nullptr : w ? w : "?";
#else
    (void)r; return nullptr;
#endif
}
static void array(const BM *r, T *o) {
#if B64
    r->toUint64Array(o);
#else
    r->toUint32Array(o);
#endif
}
static void addm(BM *r, const std::vector<T> &v) { r->addMany(v.size(), v.data()); }
static void remm(BM *r, const std::vector<T> &v) { for (T x : v) r->remove(x); }
static void add1(BM *r, T x) { r->add(x); }
static bool iterate_all(const BM *r, bool (*f)(T, void *), void *p) { r->iterate(f, p); return true; }
struct It {
    const BM *r;
    decltype(((const BM *)0)->begin()) i;
    It(const BM *r_, bool last = false) : r(r_), i(last ? r_->end() : r_->begin()) { if (last && !r->isEmpty()) --i; }
    bool has() { return i != r->end(); }
    T val() { return *i; }
    void next() { ++i; }
    void prev() { --i; }
    bool seek(T x) { return i.move_equalorlarger(x); }
    uint64_t read(T *b, uint64_t n) { uint64_t k = 0; for (; k < n && i != r->end(); ++i) b[k++] = *i; return k; }
};
static BM *b_and(const BM *a, const BM *b) { return new BM(*a & *b); }
static BM *b_or(const BM *a, const BM *b) { return new BM(*a | *b); }
static BM *b_xor(const BM *a, const BM *b) { return new BM(*a ^ *b); }
static BM *b_andnot(const BM *a, const BM *b) { return new BM(*a - *b); }
static void i_and(BM *a, const BM *b) { *a &= *b; }
static void i_or(BM *a, const BM *b) { *a |= *b; }
static void i_xor(BM *a, const BM *b) { *a ^= *b; }
static void i_andnot(BM *a, const BM *b) { *a -= *b; }
static bool eq(const BM *a, const BM *b) { return *a == *b; }
static bool sub(const BM *a, const BM *b) { return a->isSubset(*b); }
static bool ssub(const BM *a, const BM *b) { return a->isStrictSubset(*b); }
static void opt(BM *r) { r->runOptimize(); }
static void shrink(BM *r) { r->shrinkToFit(); }
static void clear(BM *r) { r->clear(); }
#endif

struct Wback {
    Wide &z;
    Rng rng;
    struct Reg { BM *r = nullptr; char *buf = nullptr; };
    std::vector<Reg> reg;
    std::vector<uint32_t> was;   // the sets held before the call
    bool cow = false;
    Wback(Wide &z_, uint64_t seed, int N) : z(z_), rng(seed), reg(N), was(N, 0) {
        for (auto &x : reg) x.r = mk();
#if !(API == 64)
        if (g_cow || rng.chance(25)) cow = true;
#endif
        for (auto &x : reg) share(x.r);
    }
    ~Wback() { for (auto &x : reg) drop(x); }
    // ranges from anywhere to anywhere: all, some or how many of their values are there?
    void anywhere(int a, const Ivs &v) {
        for (int n = 0; n < 8 && !v.empty(); n++) {
            size_t i = rng.below(v.size()), j = rng.chance(30) ? v.size() - 1 : std::min(v.size() - 1, i + rng.below(3));
            T lo = rng.chance(50) ? v[i].lo : (T)(v[i].lo + rng.below(len(v[i]))), hi = rng.chance(50) ? v[j].hi : (T)(v[j].lo + rng.below(len(v[j])));
            if (lo && rng.chance(15)) lo--;
            if (hi != (T)~(T)0 && rng.chance(15)) hi++;
            if (lo > hi) continue;
            uint64_t have = below(v, (u128)hi + 1) - below(v, lo);
            bool all = holds(v, lo, hi);
            if (hasr(R(a), lo, hi, n) != all) fail("are all values in [%llx,%llx] there? answered %d", (ull)lo, (ull)hi, !all);
            want_num(have, cardr(R(a), lo, hi, n), "range cardinality");
            if (isectr(R(a), lo, hi) != (have > 0)) fail("are any values in [%llx,%llx] there? answered %d", (ull)lo, (ull)hi, !have);
        }
    }
    void share(BM *r) {
        (void)r;
#if API == 32
        if (cow) roaring_bitmap_set_copy_on_write(r, true);
#elif CPP
        if (cow) r->setCopyOnWrite(true);
#endif
    }
    static void drop(Reg &x) { if (x.r) del(x.r); free(x.buf); x.r = nullptr; x.buf = nullptr; }
    void put(int d, BM *r, char *buf = nullptr) {
        if (!r) fail("call returned NULL");
        if (!buf) share(r);
        drop(reg[d]);
        reg[d].r = r; reg[d].buf = buf;
    }
    BM *R(int i) { return reg[i].r; }
    bool big(uint32_t m) { return keys(z.expand(m)) > 3000; }

    BM *make(uint32_t mask) {
        Ivs v = z.expand(mask);
        BM *r = mk();
        switch (rng.below(6)) {
            case 0: for (auto &i : v) addc(r, i.lo, i.hi, (int)rng.below(2)); break;
            case 1: {   // carved out of the segments
                for (auto &i : z.ranges(0, z.S)) addc(r, i.lo, i.hi, (int)rng.below(2));
                for (auto &i : z.expand(((1u << (z.S * z.C)) - 1) & ~mask)) remc(r, i.lo, i.hi, (int)rng.below(2));
                break;
            }
            case 2: {
                for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]);
                for (auto &i : v) flipc(r, i.lo, i.hi, (int)rng.below(2));
                break;
            }
            case 3: {
                for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]);
                for (auto &i : v) {
                    if (len(i) < 50) { if (len(i) == 1) add1(r, i.lo); else { std::vector<T> x; for (uint64_t j = 0; j < len(i); j++) x.push_back((T)(i.lo + j)); addm(r, x); } }
                    else addc(r, i.lo, i.hi, (int)rng.below(2));
                }
                opt(r);
                break;
            }
            case 4: {   // the complement of the complement, in the whole universe
                if (B64 || rng.chance(50)) { for (auto &i : v) addc(r, i.lo, i.hi, 0); break; }
                addc(r, 0, (T)~(T)0, 0);
                u128 at = 0;
                for (auto &i : v) { if ((u128)i.lo > at) remc(r, (T)at, i.lo - 1, (int)rng.below(2)); at = (u128)i.hi + 1; }
                if (at < TOP) remc(r, (T)at, (T)~(T)0, (int)rng.below(2));
                break;
            }
            default: {   // one by one
                bool first = true;
                for (auto &i : v) {
                    if (first) { del(r); r = fromr(i.lo, i.hi); first = false; }
                    else { BM *t = fromr(i.lo, i.hi); if (rng.chance(50)) i_or(r, t); else i_xor(r, t); del(t); if (v.size() > 60 && rng.chance(80)) { /* keep it short */ } }
                    if (&i - v.data() > 40) break;
                }
                if (v.size() > 42) for (size_t i = 42; i < v.size(); i++) addc(r, v[i].lo, v[i].hi, 0);
            }
        }
        return r;
    }

    void verify(int i, uint32_t mask, bool deep) { check(R(i), z.expand(mask), deep, ("register " + std::to_string(i)).c_str()); }
    void check(const BM *r, const Ivs &w, bool deep, const char *name) {
        uint64_t n = count(w);
        if (card(r) != n) fail("%s holds %llu values, expected %llu", name, (ull)card(r), (ull)n);
        if (none(r) != (n == 0)) fail("%s: is_empty answered %d", name, none(r));
#if CPP
        if (r->isFull() != (!B64 && n == (uint64_t)1 << 32)) fail("%s: isFull answered %d for %llu values", name, r->isFull(), (ull)n);
#endif
        if (n && (mini(r) != w.front().lo || maxi(r) != w.back().hi)) fail("%s: minimum %llx maximum %llx, expected %llx %llx", name, (ull)mini(r), (ull)maxi(r), (ull)w.front().lo, (ull)w.back().hi);
        if (deep) if (const char *why = invalid(r)) fail("%s fails internal validation: %s", name, why);
        // every interval is contained; then, the cardinality being right, there is nothing else
        size_t step = w.size() > 300 && !deep ? 1 + w.size() / 300 : 1;
        for (size_t i = 0; i < w.size(); i += step) {
            if (!hasr(r, w[i].lo, w[i].hi, (int)(i % 2))) fail("%s lacks values of [%llx, %llx]", name, (ull)w[i].lo, (ull)w[i].hi);
            if (w[i].hi - w[i].lo > 65536) for (int j = 0; j < 4; j++) {
                T x = (T)(w[i].lo + rng.below(len(w[i])));
                if (j == 0) x = (T)std::min<u128>(w[i].hi, std::max<u128>(w[i].lo, (u128)x >> 16 << 16));
                if (!has(r, x)) fail("%s lacks %llx", name, (ull)x);
            }
            if (w[i].lo && (i == 0 || w[i - 1].hi < w[i].lo - 1) && has(r, w[i].lo - 1)) fail("%s contains %llx", name, (ull)w[i].lo - 1);
            if ((u128)w[i].hi + 1 < TOP && has(r, w[i].hi + 1)) fail("%s contains %llx", name, (ull)w[i].hi + 1);
        }
        if (deep && n && rng.chance(50)) {   // a cursor meets every edge
            It it(r);
            size_t s2 = w.size() > 100 ? w.size() / 100 : 1;
            for (size_t i = 0; i < w.size(); i += s2) {
                if (!it.seek(w[i].lo) || it.val() != w[i].lo) fail("%s: seek to %llx", name, (ull)w[i].lo);
                if (len(w[i]) > 3) { T x = (T)(w[i].hi - rng.below(std::min<uint64_t>(len(w[i]), 200000))); if (!it.seek(x) || it.val() != x) fail("%s: seek to %llx arrived at %llx", name, (ull)x, (ull)it.val()); }
                for (T x = it.val(); x < w[i].hi && w[i].hi - x < 100; ) { it.next(); x++; if (!it.has() || it.val() != x) fail("%s: advance to %llx", name, (ull)x); }
                if (it.val() == w[i].hi) {
                    it.next();
                    if (it.has() != (i + 1 < w.size())) fail("%s: after %llx: has_value %d", name, (ull)w[i].hi, it.has());
                    if (it.has() && it.val() != w[i + 1].lo) fail("%s: after %llx comes %llx, expected %llx", name, (ull)w[i].hi, (ull)it.val(), (ull)w[i + 1].lo);
                    if (i + s2 < w.size()) continue;
                    it.prev();
                    if (!it.has() || it.val() != w[i].hi) fail("%s: before that comes %llx", name, it.has() ? (ull)it.val() : 0);
                }
            }
        }
    }
    void want_bool(const Ev &e, bool g) { if ((e.rv[0] != 0) != g) fail("answered %d, expected %u", g, e.rv[0]); }
    void want_num(uint64_t w, uint64_t g, const char *what) { if (w != g) fail("%s: answered %llu, expected %llu", what, (ull)g, (ull)w); }
    std::vector<T> listed(const Ivs &v) { std::vector<T> o; for (auto &i : v) for (uint64_t j = 0; j < len(i); j++) o.push_back((T)(i.lo + j)); return o; }

    void exec(const Ev &e) {
        const std::string &op = e.op;
        const int d = e.d, a = e.a, b = e.b, k = e.k;
        if (op == "and") put(d, b_and(R(a), R(b)));
        else if (op == "or") put(d, b_or(R(a), R(b)));
        else if (op == "xor") put(d, b_xor(R(a), R(b)));
        else if (op == "andnot") put(d, b_andnot(R(a), R(b)));
        else if (op == "iand") i_and(R(d), R(b));
        else if (op == "ior") i_or(R(d), R(b));
        else if (op == "ixor") i_xor(R(d), R(b));
        else if (op == "iandnot") i_andnot(R(d), R(b));
        else if (op == "flip") {
            BM *r = dup(R(a));
            share(r);
            for (auto &i : z.ranges(e.p, e.q)) { BM *t = flipn(r, i.lo, i.hi, k); del(r); r = t; share(r); }
            put(d, r);
        } else if (op == "iflip") { for (auto &i : z.ranges(e.p, e.q)) flipc(R(d), i.lo, i.hi, k); }
        else if (op == "orm" || op == "orheap" || op == "xorm") {
            std::vector<const BM *> v;
            bool bulky = false;   // the lazy unions go through bitset containers: 8 kB each
            for (int x : e.l) { v.push_back(R(x)); bulky = bulky || big(was[x]); }
            if (bulky && rng.chance(85)) {
                BM *r = mk();
                share(r);
                for (auto x : v) if (op == "xorm") i_xor(r, x); else i_or(r, x);
                put(d, r);
                return;
            }
#if API == 32
            put(d, op == "orm" ? roaring_bitmap_or_many(v.size(), v.data()) : op == "xorm" ? roaring_bitmap_xor_many(v.size(), v.data()) : roaring_bitmap_or_many_heap((uint32_t)v.size(), v.data()));
#elif CPP
            put(d, new BM(BM::fastunion(v.size(), v.data())));
#endif
        }
#if API == 32
        else if (op == "lorR" || op == "lxorR") {
            int conv = big(was[a]) || big(was[b]) ? 0 : k % 2;
            BM *r = op == "lorR" ? roaring_bitmap_lazy_or(R(a), R(b), conv) : roaring_bitmap_lazy_xor(R(a), R(b));
            roaring_bitmap_repair_after_lazy(r);
            put(d, r);
        } else if (op == "liorR" || op == "lixorR") {
            if (op == "liorR") roaring_bitmap_lazy_or_inplace(R(d), R(b), big(was[b]) || big(was[d]) ? 0 : k % 2);
            else roaring_bitmap_lazy_xor_inplace(R(d), R(b));
            roaring_bitmap_repair_after_lazy(R(d));
        }
#endif
        else if (op == "eq") want_bool(e, eq(R(a), R(b)));
        else if (op == "sub") want_bool(e, sub(R(a), R(b)));
        else if (op == "ssub") want_bool(e, ssub(R(a), R(b)));
#if !CPP
        else if (op == "isect") want_bool(e, FN(intersect)(R(a), R(b)));
        else if (op == "cand") want_num(z.cnt(e.rv[0]), FN(and_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "cor") want_num(z.cnt(e.rv[0]), FN(or_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "cxor") want_num(z.cnt(e.rv[0]), FN(xor_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "candnot") want_num(z.cnt(e.rv[0]), FN(andnot_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "jac") {
            double x = (double)z.cnt(e.rv[0]), y = (double)z.cnt(e.rv[1]), g = FN(jaccard_index)(R(a), R(b));
            if (!(g >= x / y - 1e-12 && g <= x / y + 1e-12)) fail("jaccard index %.17g, expected %.17g", g, x / y);
        }
#endif
        else if (op == "addA" || op == "remA") {
            Ivs v = z.expand(e.m);
            bool add = op == "addA";
            if (k % 2) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]);
            for (auto &i : v) {
                if (len(i) <= 200 && rng.chance(50)) { std::vector<T> x = listed({i}); if (add) addm(R(d), x); else remm(R(d), x); }
                else if (add) addc(R(d), i.lo, i.hi, k); else remc(R(d), i.lo, i.hi, k);
            }
        } else if (op == "addR") {
            for (auto &i : z.ranges(e.p, e.q)) addc(R(d), i.lo, i.hi, k);
            if (e.p >= e.q) nothing(R(d));
        } else if (op == "remR") {
            if (e.p < e.q) { u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng); if (lo < hi) remc(R(d), (T)lo, (T)(hi - 1), k); }
        } else if (op == "clear") clear(R(d));
        else if (op == "new") put(d, mk());
        else if (op == "ofA" || op == "build") put(d, make(e.m));
        else if (op == "fromR") {
            BM *r = nullptr;
            for (auto &i : z.ranges(e.p, e.q)) { if (!r) { r = fromr(i.lo, i.hi); share(r); } else addc(r, i.lo, i.hi, k); }
            put(d, r);
        } else if (op == "fromS") put(d, make(e.post[d].mask));
        else if (op == "copy") put(d, dup(R(a)));
#if CPP
        else if (op == "assign" || op == "over") *R(d) = *R(a);
        else if (op == "move") { *R(d) = std::move(*R(a)); *R(a) = BM(); share(R(a)); }
        else if (op == "swap") R(d)->swap(*R(a));
        else if (op == "isect") {
#if !B64
            want_bool(e, R(a)->intersect(*R(b)));
#endif
        }
#if !B64
        else if (op == "cand") want_num(z.cnt(e.rv[0]), R(a)->and_cardinality(*R(b)), "cardinality");
        else if (op == "cor") want_num(z.cnt(e.rv[0]), R(a)->or_cardinality(*R(b)), "cardinality");
        else if (op == "cxor") want_num(z.cnt(e.rv[0]), R(a)->xor_cardinality(*R(b)), "cardinality");
        else if (op == "candnot") want_num(z.cnt(e.rv[0]), R(a)->andnot_cardinality(*R(b)), "cardinality");
        else if (op == "jac") {
            double x = (double)z.cnt(e.rv[0]), y = (double)z.cnt(e.rv[1]), g = R(a)->jaccard_index(*R(b));
            if (!(g >= x / y - 1e-12 && g <= x / y + 1e-12)) fail("jaccard index %.17g, expected %.17g", g, x / y);
        }
#endif
#elif !B64
        else if (op == "over") { if (!roaring_bitmap_overwrite(R(d), R(a))) fail("overwrite reported failure"); }
#endif
        else if (op == "cow") {}
        // ---- queries
        else if (op == "has") {
            const Ivs &v = z.expand(e.rv[1]);
            for (auto &i : z.expand(e.rv[0])) {
                if (rng.chance(20)) continue;
                for (T x : {i.lo, i.hi, (T)(i.lo + rng.below(len(i)))}) if (has(R(a), x) != member(v, x)) fail("contains(%llx) answered %d", (ull)x, has(R(a), x));
            }
        } else if (op == "hasR") {
            bool g = true;
            if (e.p < e.q) for (auto &i : z.ranges(e.p, e.q)) g = hasr(R(a), i.lo, i.hi, k) && g;
            want_bool(e, g);
            anywhere(a, z.expand(e.post[a].mask));
        } else if (op == "cardR") {
            anywhere(a, z.expand(e.post[a].mask));
            u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng);
            want_num(e.p < e.q ? z.cnt(e.rv[0]) : 0, e.p < e.q && lo < hi ? cardr(R(a), (T)lo, (T)(hi - 1), k) : 0, "range cardinality");
        } else if (op == "isectR") {
            u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng);
            if (e.p < e.q && lo < hi) want_bool(e, isectr(R(a), (T)lo, (T)(hi - 1)));
        } else if (op == "rank") {
            u128 x = z.jitter(e.p, rng);
            if (x) want_num(z.cnt(e.rv[0]), rank(R(a), (T)(x - 1)), "rank");
            // and anywhere
            for (int i = 0; i < 8; i++) {
                T y = (T)(z.seg[0].lo + (T)(rng.next() % (uint64_t)std::min<u128>(z.start(z.S) - z.seg[0].lo, (u128)1 << 62)));
                want_num(below(z.expand(e.post[a].mask), (u128)y + 1), rank(R(a), y), "rank of a value");
            }
        } else if (op == "rankM") {
#if !B64
            std::vector<T> q;
            for (int i = 0; i < 40; i++) q.push_back((T)(rng.chance(50) ? rng.next() : z.seg[rng.below(z.S)].lo - rng.below(2)));
            std::sort(q.begin(), q.end());
            std::vector<uint64_t> g(q.size(), 7);
#if CPP
            R(a)->rank_many(q.data(), q.data() + q.size(), g.data());
#else
            roaring_bitmap_rank_many(R(a), q.data(), q.data() + q.size(), g.data());
#endif
            for (size_t i = 0; i < q.size(); i++) want_num(below(z.expand(e.post[a].mask), (u128)q[i] + 1), g[i], "rank_many");
#endif
        } else if (op == "sel" || op == "selp") {
            const Ivs &v = z.expand(e.post[a].mask);
            uint64_t n = below(v, z.start(e.p)), all = count(v);
            if (op == "selp") n--;
            for (int i = 0; i < 8; i++) {
                T got = 0, want = 0;
                bool h = kth(v, n, &want), g = sel(R(a), n, &got);
                if (B64 || n <= UINT32_MAX) if (g != h || (h && got != want)) fail("select(%llu) answered %d %llx, expected %d %llx", (ull)n, g, (ull)got, h, (ull)want);
                n = i == 0 ? all : i == 1 && all ? all - 1 : rng.below(all + 2);
            }
        } else if (op == "idx") {
            const Ivs &v = z.expand(e.post[a].mask);
            for (int i = 0; i < 8; i++) {
                const Ivs &w = z.expand(i ? ((1u << (z.S * z.C)) - 1) : e.rv[0]);
                const Iv &s = w[rng.below(w.size())];
                T x = i % 3 == 0 ? s.lo : i % 3 == 1 ? s.hi : (T)(s.lo + rng.below(len(s)));
                int64_t g = index_of(R(a), x), want = member(v, x) ? (int64_t)below(v, x) : -1;
                if (g != want) fail("get_index(%llx) answered %lld, expected %lld", (ull)x, (long long)g, (long long)want);
            }
        } else if (op == "min") want_num(e.rv[0] ? z.expand(e.rv[0]).front().lo : (T)~(T)0, mini(R(a)), "minimum");
        else if (op == "max") want_num(e.rv[0] ? z.expand(e.rv[0]).back().hi : 0, maxi(R(a)), "maximum");
        else if (op == "empty") want_bool(e, none(R(a)));
        else if (op == "card") want_num(z.cnt(e.rv[0]), card(R(a)), "cardinality");
        else if (op == "arr") {
            if (z.cnt(e.rv[0]) > 3000000) return;
            std::vector<T> w = listed(z.expand(e.rv[0])), g(w.size());
            array(R(a), g.data());
            check_list(w, g.data(), g.size(), "array");
        } else if (op == "page") {
#if API == 32 || API == 132
            const Ivs &v = z.expand(e.post[a].mask);
            uint64_t all = count(v), off = rng.chance(50) ? z.cnt(e.rv[0]) : all ? rng.below(all) : 0;
            size_t lim = (size_t)rng.oneof({1, 10, 1000, 70000, 200000});
            uint64_t n = off >= all ? 0 : std::min<uint64_t>(lim, all - off);
            std::vector<T> g(n + 1, 0xabababab), w;
            T x;
            for (uint64_t i = 0; i < n; i++) { if (i && w.back() != (T)~(T)0 && member(v, w.back() + 1)) x = w.back() + 1; else if (!kth(v, off + i, &x)) fail("oracle"); w.push_back(x); }
            if (off > SIZE_MAX) return;
#if CPP
            R(a)->rangeUint32Array(g.data(), off, n);
#else
            if (!roaring_bitmap_range_uint32_array(R(a), off, n, g.data())) fail("range_uint32_array reported failure");
#endif
            if (g[n] != 0xabababab) fail("page of %llu values wrote beyond", (ull)n);
            check_list(w, g.data(), n, "page");
#endif
        } else if (op == "iter") {
            const Ivs &v = z.expand(e.post[a].mask);
            struct St { std::vector<T> o; size_t lim; } s{{}, (size_t)rng.oneof({1, 5, 70000, 200000})};
            bool all = iterate_all(R(a), [](T x, void *p) { St *t = (St *)p; t->o.push_back(x); return t->o.size() < t->lim; }, &s);
            std::vector<T> w;
            for (auto &i : v) for (uint64_t j = 0; j < len(i) && w.size() < s.lim; j++) w.push_back((T)(i.lo + j));
            check_list(w, s.o.data(), s.o.size(), "callback iteration");
            if (!CPP && all != (count(v) < s.lim)) fail("callback iteration returned %d", all);
        } else if (op == "walk") walk(e);
        else if (op == "stat") {
#if !CPP
            const Ivs &v = z.expand(e.post[a].mask);
#if B64
            roaring64_statistics_t st;
#else
            roaring_statistics_t st;
#endif
            FN(statistics)(R(a), &st);
            want_num(count(v), st.cardinality, "statistics.cardinality");
            want_num(keys(v), st.n_containers, "statistics.n_containers");
            if (!v.empty()) { want_num(v.front().lo, st.min_value, "statistics.min"); want_num(v.back().hi, st.max_value, "statistics.max"); }
#endif
        }
        // ---- representation
        else if (op == "opt") opt(R(d));
        else if (op == "unopt") {
#if !(API == 64)
            if (big(e.post[d].mask)) { opt(R(d)); return; }
#if CPP
            R(d)->removeRunCompression();
#else
            roaring_bitmap_remove_run_compression(R(d));
#endif
#endif
        } else if (op == "shrink") shrink(R(d));
        else if (op == "ser" || op == "view") serial(e);
#if API == 32
        else if (op == "off") shift(e);
#endif
        else if (op == "conv") conv(e);
        else { fprintf(stderr, "unsupported call %s\n", op.c_str()); exit(2); }
    }

    // ranges without values
    void nothing(BM *r) {
        uint64_t x = rng.chance(50) ? (uint64_t)z.seg[0].lo : rng.next(), y = rng.chance(30) ? x : x - std::min<uint64_t>(x, rng.oneof({1, 65536, 1ull << 31, 1ull << 32, x}));
        if (rng.chance(40)) {   // closed: the end is before the start
            T lo = (T)y, hi = (T)x;
            if (rng.chance(30)) { hi = (T)z.seg[z.S - 1].hi; lo = (T)z.seg[0].lo; }
            if (rng.chance(30)) hi = lo + 1;
            if (lo >= hi) return;
            switch (rng.below(6)) {
#if CPP
                case 0: r->addRangeClosed(hi, lo); break;
                case 1: r->removeRangeClosed(hi, lo); break;
                case 2: r->flipClosed(hi, lo); break;
#if B64
                case 3: r->addRangeClosed((uint32_t)5, (uint32_t)3); break;
                case 4: r->removeRangeClosed((uint32_t)5, (uint32_t)3); break;
                default: r->flipClosed((uint32_t)5, (uint32_t)3);
#else
                default: if (!r->containsRangeClosed(hi, lo)) fail("containsRangeClosed(%llx, %llx) of nothing", (ull)hi, (ull)lo);
#endif
#else
                case 0: FN(add_range_closed)(r, hi, lo); break;
                case 1: FN(remove_range_closed)(r, hi, lo); break;
#if B64
                case 2: FN(flip_closed_inplace)(r, hi, lo); break;
                case 4: if (FN(range_closed_cardinality)(r, hi, lo)) fail("the cardinality of the closed range %llx, %llx is not 0", (ull)hi, (ull)lo); break;
#else
                case 2: FN(flip_inplace_closed)(r, hi, lo); break;
                case 4: if (FN(range_cardinality_closed)(r, hi, lo)) fail("the cardinality of the closed range %llx, %llx is not 0", (ull)hi, (ull)lo); break;
#endif
                case 3: { BM *t = FN(flip_closed)(r, hi, lo); if (!eq(t, r)) fail("flip_closed(%llx, %llx) changed something", (ull)hi, (ull)lo); del(t); break; }
#if !B64
                default: if (!FN(contains_range_closed)(r, hi, lo)) fail("contains_range_closed(%llx, %llx) of nothing", (ull)hi, (ull)lo);
#else
                default: break;
#endif
#endif
            }
            return;
        }
#if !B64
        if (rng.chance(50)) { y = (1ull << 32) + rng.oneof({0, 1, 5, 65536, 1ull << 32, 1ull << 40}); x = y + rng.oneof({0, 1, 65536, 1ull << 32, 1ull << 33}); if (rng.chance(60)) std::swap(x, y); }
#endif
        // x >= y, or both at or beyond the end of the universe
#if CPP
        switch (rng.below(3)) {
            case 0: r->addRange(x, y); break;
            case 1: r->removeRange(x, y); break;
            default: r->flip(x, y);
        }
#else
        switch (rng.below(6)) {
            case 0: FN(add_range)(r, x, y); break;
            case 1: FN(remove_range)(r, x, y); break;
            case 2: FN(flip_inplace)(r, x, y); break;
            case 3: if (FN(range_cardinality)(r, x, y)) fail("range_cardinality(%llx, %llx) is %llu", (ull)x, (ull)y, (ull)FN(range_cardinality)(r, x, y)); break;
            case 4: if (FN(intersect_with_range)(r, x, y)) fail("intersect_with_range(%llx, %llx)", (ull)x, (ull)y); break;
            default: { BM *t = FN(from_range)(x, y, 1 + (T)rng.below(3)); if (t) { if (!none(t)) fail("from_range(%llx, %llx) has values", (ull)x, (ull)y); del(t); } t = FN(flip)(r, x, y); if (!eq(t, r)) fail("flip(%llx, %llx) changed something", (ull)x, (ull)y); del(t); }
        }
#endif
    }

    void walk(const Ev &e) {
        const Ivs v = z.expand(e.post[e.a].mask);
        const uint64_t all = count(v);
        u128 x = rng.chance(60) ? z.jitter(e.p, rng) : v.empty() ? 0 : (u128)v[rng.below(v.size())].lo + rng.below(70000);
        if (x >= TOP) return;
        uint64_t at = below(v, x);   // index of the first value at or above x
        It it(R(e.a));
        T want = 0;
        auto expect = [&](const char *what) {
            bool h = at < all && kth(v, at, &want);
            if (it.has() != h) fail("%s: has_value %d, expected %d", what, it.has(), h);
            if (h && it.val() != want) fail("%s: at %llx, expected %llx", what, (ull)it.val(), (ull)want);
        };
        bool g = it.seek((T)x);
        if (g != (at < all)) fail("seek answered %d", g);
        expect("seek");
        for (int i = 0; i < 12; i++) {
            switch (rng.below(3)) {
                case 0: {
                    size_t n = (size_t)rng.oneof({1, 3, 60, 5000, 66000, 140000});
                    if (CPP) n %= 5000;
                    std::vector<T> buf(n), w;
                    uint64_t got = it.read(buf.data(), n);
                    T y;
                    for (uint64_t j = 0; j < n && at + j < all; j++) { if (j && w.back() != (T)~(T)0 && member(v, w.back() + 1)) y = w.back() + 1; else kth(v, at + j, &y); w.push_back(y); }
                    check_list(w, buf.data(), got, "read");
                    at += got;
                    expect("after read");
                    break;
                }
                case 1: if (at) { size_t n = (size_t)std::min<uint64_t>(at, rng.oneof({1, 2, 30})); for (size_t j = 0; j < n; j++) { it.prev(); at--; } expect("previous"); } break;
                default: if (at < all) { size_t n = (size_t)std::min<uint64_t>(all - at, rng.oneof({1, 2, 30})); for (size_t j = 0; j < n; j++) { it.next(); at++; } expect("advance"); } break;
            }
            if (at < all && rng.chance(50) && !v.empty()) {   // forward seek
                kth(v, at, &want);
                u128 y = (u128)want + rng.oneof({0, 1, 100, 65536, 1u << 20, 1u << 30});
                if (y >= TOP) continue;
                at = below(v, y);
                if (it.seek((T)y) != (at < all)) fail("forward seek to %llx", (ull)y);
                expect("forward seek");
            }
        }
        It last(R(e.a), true);
        at = all ? all - 1 : 0;
        if (all) {
            if (!last.has() || last.val() != v.back().hi) fail("an iterator at the last value");
            size_t n = (size_t)std::min<uint64_t>(all - 1, 500);
            for (size_t j = 0; j < n; j++) last.prev();
            kth(v, at - n, &want);
            if (!last.has() || last.val() != want) fail("%zu steps back from the last value: at %llx, expected %llx", n, last.has() ? (ull)last.val() : 0, (ull)want);
        }
    }

    void serial(const Ev &e) {
        const Ivs v = z.expand(e.post[e.d].mask);
        if (keys(v) > 3000 && e.op != "view" && rng.chance(40)) { put(e.d, dup(R(e.a))); return; }
        BM *src = dup(R(e.a));
        if (rng.chance(50)) opt(src);
        if (API == 64 || rng.chance(30)) shrink(src);
        char *buf = nullptr;
        size_t n, wr;
        BM *r = nullptr;
        const bool view = e.op == "view" && !cow;
        auto alloc = [&](size_t m) { if (posix_memalign((void **)&buf, 64, m + 64)) exit(2); memset(buf + m, 0x3c, 64); };
#if API == 32
        int fmt = (int)rng.below(3);
        n = fmt == 0 ? roaring_bitmap_portable_size_in_bytes(src) : fmt == 1 ? roaring_bitmap_size_in_bytes(src) : roaring_bitmap_frozen_size_in_bytes(src);
        if (n > 200000000) { del(src); put(e.d, dup(R(e.a))); return; }
        alloc(n);
        wr = n;
        if (fmt == 0) wr = roaring_bitmap_portable_serialize(src, buf);
        else if (fmt == 1) wr = roaring_bitmap_serialize(src, buf);
        else roaring_bitmap_frozen_serialize(src, buf);
        if (fmt == 0 && roaring_bitmap_portable_deserialize_size(buf, n) != n) fail("the size probe answered %zu for %zu bytes", roaring_bitmap_portable_deserialize_size(buf, n), n);
        bool keep = view && fmt != 1;
        r = fmt == 0 ? (keep ? roaring_bitmap_portable_deserialize_frozen(buf) : roaring_bitmap_portable_deserialize_safe(buf, n)) : fmt == 1 ? roaring_bitmap_deserialize_safe(buf, n) : (BM *)roaring_bitmap_frozen_view(buf, n);
        if (fmt == 0 && roaring_bitmap_portable_deserialize_safe(buf, n - 1)) fail("a truncated document was accepted");
        if (fmt == 2 && !keep && r) { BM *t = roaring_bitmap_copy(r); del(r); r = t; }
        if (fmt != 1 && n < 4000000 && count(v) < 400000) {
            std::string why = fmt::written(fmt ? "fz" : "p32", buf, n, listed(v));
            if (!why.empty()) fail("%s", why.c_str());
        }
#elif API == 64
        int fmt = (int)rng.below(2);
        n = fmt == 0 ? roaring64_bitmap_portable_size_in_bytes(src) : roaring64_bitmap_frozen_size_in_bytes(src);
        if (n > 200000000) { del(src); put(e.d, dup(R(e.a))); return; }
        alloc(n);
        wr = fmt == 0 ? roaring64_bitmap_portable_serialize(src, buf) : roaring64_bitmap_frozen_serialize(src, buf);
        if (fmt == 0 && roaring64_bitmap_portable_deserialize_size(buf, n) != n) fail("the size probe answered wrong for %zu bytes", n);
        bool keep = view && fmt == 1;
        r = fmt == 0 ? roaring64_bitmap_portable_deserialize_safe(buf, n) : roaring64_bitmap_frozen_view(buf, n);
        if (fmt == 1 && !keep && r) { BM *t = roaring64_bitmap_copy(r); del(r); r = t; }
#else
        (void)view;
        int fmt = (int)rng.below(3);
        n = fmt == 2 ? src->getFrozenSizeInBytes() : src->getSizeInBytes(fmt == 0);
        if (n > 200000000) { del(src); put(e.d, dup(R(e.a))); return; }
        alloc(n);
        wr = n;
        if (fmt == 2) src->writeFrozen(buf); else wr = src->write(buf, fmt == 0);
        bool keep = false;
        if (fmt == 0) r = rng.chance(50) ? new BM(BM::readSafe(buf, n)) : new BM(BM::read(buf, true));
        else if (fmt == 1) r = new BM(BM::read(buf, false));
        else {
#if B64
            const BM f = BM::frozenView(buf);
#else
            const BM f = BM::frozenView(buf, n);
#endif
            r = new BM(f);
        }
#endif
        if (wr != n) fail("wrote %zu bytes, announced %zu", wr, n);
        for (int i = 0; i < 64; i++) if (buf[n + i] != 0x3c) fail("byte %d beyond the announced size was written", i);
        if (!r) fail("the reader refused the bytes just written");
        if (!eq(r, src) || !eq(src, r)) fail("read back, format %d: not equal to what was written", fmt);
        del(src);
        if (keep) { put(e.d, r, buf); return; }
        memset(buf, 0xee, n);
        free(buf);
        put(e.d, r);
    }
#if API == 32
    void shift(const Ev &e) {
        const Ivs v = z.expand(was[e.a]);
        int64_t o = 0;
        switch (rng.below(6)) {
            case 0: o = (int64_t)rng.below(1ull << 33) - (1ll << 32); break;
            case 1: o = (int64_t)(rng.below(1ull << 17) << 16) - (1ll << 32); break;
            case 2: o = (int64_t)rng.oneof({1, 65535, 65536, 65537, 1ull << 31, 1ull << 32, (1ull << 32) - 1}); break;
            case 3: o = -(int64_t)rng.oneof({1, 65535, 65536, 65537, 1ull << 31, 1ull << 32, (1ull << 32) - 1}); break;
            case 4: o = v.empty() ? 5 : -(int64_t)v[rng.below(v.size())].lo; break;
            default: o = v.empty() ? 5 : (int64_t)UINT32_MAX - (int64_t)v[rng.below(v.size())].hi; break;
        }
        Ivs w;
        for (auto &i : v) {
            int64_t lo = std::max<int64_t>(0, (int64_t)i.lo + o), hi = std::min<int64_t>(UINT32_MAX, (int64_t)i.hi + o);
            if (lo <= hi) push(w, (T)lo, (T)hi);
        }
        BM *r = roaring_bitmap_add_offset(R(e.a), o);
        if (!r) fail("add_offset returned NULL");
        char name[60];
        snprintf(name, sizeof name, "shifted by %lld", (long long)o);
        check(r, w, true, name);
        del(r);
        put(e.d, make(e.post[e.d].mask));
    }
#endif
    void conv(const Ev &e) {
#if API == 64   // from a 32-bit bitmap
        const Ivs v = z.expand(e.post[e.d].mask);
        if (!v.empty() && v.back().hi > UINT32_MAX) { put(e.d, dup(R(e.a))); return; }
        roaring_bitmap_t *s = roaring_bitmap_create();
        for (auto &i : v) roaring_bitmap_add_range_closed(s, (uint32_t)i.lo, (uint32_t)i.hi);
        BM *r = roaring64_bitmap_move_from_roaring32(s);
        if (!roaring_bitmap_is_empty(s)) fail("the 32-bit source is not empty after the move");
        roaring_bitmap_free(s);
        put(e.d, r);
#elif API == 32
        const Ivs v = z.expand(e.post[e.d].mask);
        if (v.empty() || (v.back().hi > 40000000u && rng.chance(90))) { put(e.d, dup(R(e.a))); return; }
        bitset_t *s = bitset_create();
        if (!roaring_bitmap_to_bitset(R(e.a), s)) fail("to_bitset reported failure");
        if (bitset_count(s) != count(v)) fail("the bitset has %zu bits, expected %llu", bitset_count(s), (ull)count(v));
        if (bitset_minimum(s) != v.front().lo || bitset_maximum(s) != v.back().hi) fail("minimum or maximum of the bitset");
        for (auto &i : v) {
            if (!bitset_get(s, i.lo) || !bitset_get(s, i.hi) || !bitset_get(s, i.lo + rng.below(len(i)))) fail("the bitset lacks values of [%x,%x]", i.lo, i.hi);
            if (i.lo && bitset_get(s, i.lo - 1)) fail("the bitset has %x", i.lo - 1);
            if (bitset_get(s, (size_t)i.hi + 1) && !member(v, i.hi + 1)) fail("the bitset has %x", i.hi + 1);
        }
        bitset_free(s);
        put(e.d, dup(R(e.a)));
#else
        put(e.d, dup(R(e.a)));
#endif
    }
};

int main(int argc, char **argv) {
    Args ar = parse(argc, argv);
    Script sc = load_script(ar.script.c_str());
    signal(SIGALRM, on_alarm);
    if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
    else for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_crash);
    signal(SIGABRT, on_crash);
    mem_install();
    const long base = mem_outstanding();
    uint64_t nb = 0, ncalls = 0;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool stop = false;
    for (int c = 0; c < ar.conc && !stop; c++) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        for (size_t b = ar.start; b < sc.beh.size() && !stop; b += ar.stride) {
            if (ar.only_b >= 0 && (int)b != ar.only_b) continue;
            g_where.beh = (int)b; g_where.conc = c; g_where.step = 0; g_where.op = "setup";
            uint64_t cs = mix(mix(ar.seed, b), c);
            Wide z = make_wide(sc.S, sc.C, cs);
            g_desc = z.desc.c_str();
            alarm(ar.hang);
            {
                Wback be(z, mix(cs, 77), sc.N);
                for (const Ev &e : sc.beh[b]) {
                    g_where.step = e.step; g_where.op = e.op.empty() ? "setup" : e.op;
                    if (e.kind == 'P') { for (int r = 0; r < sc.N; r++) { be.put(r, be.make(e.post[r].mask)); be.was[r] = e.post[r].mask; } continue; }
                    if (e.op == "nop") continue;
                    be.exec(e);
                    for (int r = 0; r < sc.N; r++) be.was[r] = e.post[r].mask;
                    ncalls++;
                    bool last = &e == &sc.beh[b].back();
                    for (int r = 0; r < sc.N; r++)
                        if (r == e.d || last || be.rng.chance(15)) be.verify(r, e.post[r].mask, last || be.rng.chance(40));
                }
                g_where.op = "teardown";
            }
            if (mem_outstanding() != base) fail("%ld blocks obtained from the allocator were never returned", mem_outstanding() - base);
            alarm(0);
            nb++;
            if (ar.budget > 0) {
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > ar.budget) stop = true;
            }
        }
    }
    printf("OK behaviours=%llu calls=%llu nops=0 digest=0\n", (ull)nb, (ull)ncalls);
    return 0;
}
