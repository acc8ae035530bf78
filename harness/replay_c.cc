// Binding of spec/SetMachine.tla to the C API: -DB64=0 roaring_bitmap_*, -DB64=1 roaring64_bitmap_*.
#include <roaring/roaring.h>
#include <roaring/roaring64.h>

#include <sys/wait.h>

#include <functional>

#include "driver.hh"
#include "format.hh"

#if B64
typedef uint64_t T;
typedef roaring64_bitmap_t bm_t;
typedef roaring64_bulk_context_t ctx_t;
typedef roaring64_statistics_t stat_t;
#define FN(x) roaring64_bitmap_##x
#else
typedef uint32_t T;
typedef roaring_bitmap_t bm_t;
typedef roaring_bulk_context_t ctx_t;
typedef roaring_statistics_t stat_t;
#define FN(x) roaring_bitmap_##x
#endif
typedef unsigned long long ull;

struct Backend {
    typedef T value;
    typedef bm_t *handle;
    static void destroy(bm_t *r) { FN(free)(r); }
    bm_t *build_template(uint32_t mask, int form) {
        // form 0: runs where they pay; the others vary
        return make(mask, form == 0 ? 4 : form == 1 ? 0 : (int)rng.oneof({1, 5, 6, 2, 4, 0}));
    }
    struct Reg { bm_t *r = nullptr; char *buf = nullptr; };
    Conc<T> &z;
    Rng rng;
    std::vector<Reg> reg;
    std::vector<T> tmp;
    static u128 universe() { return 0; }

    Backend(Conc<T> &z_, uint64_t seed, int N) : z(z_), rng(seed), reg(N) {
        for (auto &x : reg) x.r = FN(create)();
#if !B64
        if (g_cow || (g_cow_draw && rng.chance(35))) enable_cow();
#endif
    }
    // Copy-on-write is documented as all-or-nothing: once enabled it is enabled on every bitmap.
    bool cow = false;
    // ranges from anywhere to anywhere: all, some or how many of their values are there?
    void anywhere(const Ev &e) {
        const int a = e.a;
        if (e.post[a].lz) return;
        const std::vector<T> &v = z.expand(e.post[a].mask);
        if (v.empty()) return;
        for (int n = 0; n < 6; n++) {
            size_t i = rng.below(v.size()), j = i;
            switch (rng.below(4)) {
                case 0: while (j + 1 < v.size() && v[j + 1] - v[j] == 1) j++; break;
                case 1: j = std::min(v.size() - 1, i + rng.below(6)); break;
                case 2: j = v.size() - 1; break;
                default: j = i + rng.below(v.size() - i);
            }
            T lo = v[i], hi = v[j];
            if (lo && rng.chance(25)) lo--;
            if (hi != (T)~(T)0 && rng.chance(25)) hi++;
            uint64_t have = (uint64_t)(std::upper_bound(v.begin(), v.end(), hi) - std::lower_bound(v.begin(), v.end(), lo));
            bool all = have == (uint64_t)(hi - lo) + 1 && (hi != lo || have);
#if B64
            uint64_t c = rng.chance(50) || hi == UINT64_MAX ? roaring64_bitmap_range_closed_cardinality(R(a), lo, hi) : roaring64_bitmap_range_cardinality(R(a), lo, hi + 1);
            bool some = hi == UINT64_MAX || FN(intersect_with_range)(R(a), lo, hi + 1), full = hi == UINT64_MAX ? all : FN(contains_range)(R(a), lo, hi + 1);
            if (hi == UINT64_MAX) some = have;
#else
            bool cl = rng.chance(50);
            uint64_t c = cl ? roaring_bitmap_range_cardinality_closed(R(a), lo, hi) : roaring_bitmap_range_cardinality(R(a), lo, (uint64_t)hi + 1);
            bool some = roaring_bitmap_intersect_with_range(R(a), lo, (uint64_t)hi + 1);
            bool full = cl ? roaring_bitmap_contains_range_closed(R(a), lo, hi) : roaring_bitmap_contains_range(R(a), lo, (uint64_t)hi + 1);
#endif
            if (c != have || some != (have > 0) || full != all)
                fail("of [%llx,%llx], %llu values are there: counted %llu, any: %d, all: %d", (ull)lo, (ull)hi, (ull)have, (ull)c, some, full);
        }
    }
#if !B64
    // The bitmaps of l in pieces, in any order: their union (xr: their symmetric difference) is that of l.
    void spread(const std::vector<int> &l, bool xr, std::vector<const bm_t *> &v, std::vector<bm_t *> &own) {
        uint64_t total = 0;
        for (int x : l) total += roaring_bitmap_get_cardinality(R(x));
        if (total > 20000 || !rng.chance(35)) { for (int x : l) v.push_back(R(x)); return; }
        const size_t most = (size_t)rng.oneof({2, 3, 4, 8, 20});
        for (int x : l) {
            std::vector<T> all(roaring_bitmap_get_cardinality(R(x)));
            roaring_bitmap_to_uint32_array(R(x), all.data());
            const size_t n = 1 + rng.below(most), len = (size_t)rng.oneof({1, 3, 50, 3000});
            if (n == 1) { v.push_back(R(x)); continue; }
            std::vector<std::vector<T>> part(n);
            for (size_t i = 0; i < all.size(); i += len) {
                size_t end = std::min(all.size(), i + len), p = rng.below(n), q = rng.below(n);
                part[p].insert(part[p].end(), all.begin() + i, all.begin() + end);
                if (!rng.chance(30)) continue;
                if (!xr) part[q].insert(part[q].end(), all.begin() + i, all.begin() + end);
                else {   // the same values twice more: they cancel
                    size_t r = rng.below(n);
                    if (p == q || q == r || p == r) continue;
                    for (size_t s : {q, r}) part[s].insert(part[s].end(), all.begin() + i, all.begin() + end);
                }
            }
            for (auto &w : part) {
                bm_t *b = roaring_bitmap_of_ptr(w.size(), w.data());
                if (rng.chance(40)) roaring_bitmap_run_optimize(b);
                if (cow) roaring_bitmap_set_copy_on_write(b, true);
                own.push_back(b); v.push_back(b);
            }
        }
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]);
    }
#endif
    void enable_cow() {
#if !B64
        for (auto &x : reg) if (x.buf) return;
        cow = true;
        for (auto &x : reg) roaring_bitmap_set_copy_on_write(x.r, true);
#endif
    }
    std::vector<std::pair<bm_t *, uint32_t>> extra;  // further sharers of storage
    ~Backend() {
        for (auto &x : reg) drop(x);
        for (auto &x : extra) FN(free)(x.first);
    }
    static void drop(Reg &x) {
        if (x.r) FN(free)(x.r);
        free(x.buf);
        x.r = nullptr; x.buf = nullptr;
    }
    void put(int d, bm_t *r, char *buf = nullptr) {
        if (!r) fail("call returned NULL");
#if !B64
        if (cow && !buf) roaring_bitmap_set_copy_on_write(r, true);
#endif
        drop(reg[d]);
        reg[d].r = r; reg[d].buf = buf;
    }
    bm_t *R(int i) { return reg[i].r; }

    static uint64_t card(const bm_t *r) { return FN(get_cardinality)(r); }
    static void to_array(const bm_t *r, T *out) {
#if B64
        roaring64_bitmap_to_uint64_array(r, out);
#else
        roaring_bitmap_to_uint32_array(r, out);
#endif
    }

    // ---- ranges: half-open or closed overload, handling of the top of the universe
    bool fits(u128 x) const { return x <= (B64 ? (u128)UINT64_MAX : (u128)1 << 32); }
    void add_closed(bm_t *r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) FN(add_range)(r, lo, (uint64_t)hi + 1);
        else FN(add_range_closed)(r, lo, hi);
    }
    void rem_closed(bm_t *r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) FN(remove_range)(r, lo, (uint64_t)hi + 1);
        else FN(remove_range_closed)(r, lo, hi);
    }
    void flip_closed_in(bm_t *r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) FN(flip_inplace)(r, lo, (uint64_t)hi + 1);
#if B64
        else roaring64_bitmap_flip_closed_inplace(r, lo, hi);
#else
        else roaring_bitmap_flip_inplace_closed(r, lo, hi);
#endif
    }
    bm_t *flip_closed_new(const bm_t *r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) return FN(flip)(r, lo, (uint64_t)hi + 1);
        return FN(flip_closed)(r, lo, hi);
    }

    // ---- construction of a register from a set of atoms
    void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]); }
    bm_t *make(uint32_t mask, int how) {
        const std::vector<T> &v = z.expand(mask);
        bm_t *r = nullptr;
        switch (how) {
            case 0: r = FN(of_ptr)(v.size(), v.data()); break;
            case 1: {  // everything by ranges of consecutive values
                r = FN(create)();
                for (size_t i = 0; i < v.size();) {
                    size_t j = i;
                    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
                    add_closed(r, v[i], v[j], (int)rng.below(2));
                    i = j + 1;
                }
                break;
            }
            case 2: {  // the complement is carved out of full ranges
                r = FN(create)();
                for (auto c : z.ranges(0, z.S)) add_closed(r, c.lo, c.hi, 0);
                std::vector<T> w = z.expand(((1u << (z.S * z.C)) - 1) & ~mask);
                if (rng.chance(50)) shuffle(w);
                FN(remove_many)(r, w.size(), w.data());
                break;
            }
            case 3: {  // shuffled insertion
                std::vector<T> w = v;
                shuffle(w);
                r = FN(create)();
                for (T x : w) FN(add)(r, x);
                break;
            }
            case 4: {
                r = FN(of_ptr)(v.size(), v.data());
                FN(run_optimize)(r);
                break;
            }
            case 5: {  // runs, then one flip at a time
                r = FN(create)();
                for (size_t i = 0; i < v.size();) {
                    size_t j = i;
                    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
                    flip_closed_in(r, v[i], v[j], (int)rng.below(2));
                    i = j + 1;
                }
                FN(run_optimize)(r);
                break;
            }
            case 6: {  // through the portable format
                bm_t *t = FN(of_ptr)(v.size(), v.data());
                if (rng.chance(50)) FN(run_optimize)(t);
                std::vector<char> b(FN(portable_size_in_bytes)(t));
                FN(portable_serialize)(t, b.data());
                r = FN(portable_deserialize_safe)(b.data(), b.size());
                FN(free)(t);
                break;
            }
            default: {
                ctx_t c;
                memset(&c, 0, sizeof c);
                r = FN(create)();
                for (T x : v) FN(add_bulk)(r, &c, x);
            }
        }
        return r;
    }
    void setup(int d, uint32_t mask, Templates<Backend> &tpl) {
        put(d, FN(copy)(tpl.get(*this, mask, (int)rng.below(tpl.FORMS))));
#if !B64
        if (cow && rng.chance(50)) { bm_t *t = roaring_bitmap_copy(R(d)); if (rng.chance(50)) roaring_bitmap_free(t); else extra.push_back({t, mask}); }
#endif
    }

    // ---- whole-content checks, by varying routes
    void verify(int i, uint32_t mask, bool deep) {
        const bm_t *r = R(i);
        const std::vector<T> &w = z.expand(mask);
        uint64_t n = card(r);
        if (n != w.size()) fail("register %d holds %llu values, expected %zu", i, (ull)n, w.size());
        if (deep) {
            const char *why = nullptr;
            if (!FN(internal_validate)(r, &why)) fail("register %d fails internal validation: %s", i, why ? why : "?");
        }
        std::vector<T> got(n);
        unsigned how = deep ? (unsigned)rng.below(8) : 0;
        if (how <= 3) { to_array(r, got.data()); check_list(w, got.data(), n, "content"); return; }
        if (how == 4) { iterate_all(r, got); check_list(w, got.data(), got.size(), "content by callback iteration"); return; }
        // iterators
        got.clear();
#if B64
        roaring64_iterator_t *it = how == 5 ? roaring64_iterator_create_last(r) : roaring64_iterator_create(r);
        if (how == 5) {
            while (roaring64_iterator_has_value(it)) { got.push_back(roaring64_iterator_value(it)); roaring64_iterator_previous(it); }
            std::reverse(got.begin(), got.end());
        } else if (how == 6) {
            while (roaring64_iterator_has_value(it)) { got.push_back(roaring64_iterator_value(it)); roaring64_iterator_advance(it); }
        } else {
            for (;;) {
                size_t want = 1 + rng.below(rng.chance(50) ? 70 : 70000);
                std::vector<T> b(want);
                uint64_t g = roaring64_iterator_read(it, b.data(), want);
                got.insert(got.end(), b.begin(), b.begin() + g);
                if (g < want) break;
            }
        }
        roaring64_iterator_free(it);
#else
        roaring_uint32_iterator_t it;
        if (how == 5) {
            roaring_iterator_init_last(r, &it);
            while (it.has_value) { got.push_back(it.current_value); roaring_uint32_iterator_previous(&it); }
            std::reverse(got.begin(), got.end());
        } else {
            roaring_iterator_init(r, &it);
            if (how == 6)
                while (it.has_value) { got.push_back(it.current_value); roaring_uint32_iterator_advance(&it); }
            else
                for (;;) {
                    uint32_t want = 1 + (uint32_t)rng.below(rng.chance(50) ? 70 : 70000);
                    std::vector<T> b(want);
                    uint32_t g = roaring_uint32_iterator_read(&it, b.data(), want);
                    got.insert(got.end(), b.begin(), b.begin() + g);
                    if (g < want) break;
                }
        }
#endif
        check_list(w, got.data(), got.size(), "content by iterator");
    }
    struct Vis { std::vector<T> *out; uint64_t limit; uint64_t high; };
    static bool visit(T v, void *p) {
        Vis *s = (Vis *)p;
        s->out->push_back(v);
        return s->out->size() < s->limit;
    }
#if !B64
    static bool visit64(uint64_t v, void *p) {
        Vis *s = (Vis *)p;
        if ((v & 0xFFFFFFFF00000000ull) != s->high) fail("iterate64 delivered %llx", (ull)v);
        s->out->push_back((uint32_t)v);
        return s->out->size() < s->limit;
    }
#endif
    bool iterate_upto(const bm_t *r, std::vector<T> &out, uint64_t limit) {
        out.clear();
        Vis s{&out, limit, 0};
#if B64
        return roaring64_bitmap_iterate(r, visit, &s);
#else
        if (rng.chance(30)) { s.high = 0xABCD00000000ull; return roaring_iterate64(r, visit64, s.high, &s); }
        return roaring_iterate(r, visit, &s);
#endif
    }
    void iterate_all(const bm_t *r, std::vector<T> &out) {
        if (!iterate_upto(r, out, UINT64_MAX)) fail("full iteration reported an early stop");
    }

    // ---- answers
    void want_bool(const Ev &e, bool got) {
        if ((e.rv[0] != 0) != got) fail("answered %d, expected %u", got, e.rv[0]);
    }
    void want_num(uint64_t want, uint64_t got, const char *what) {
        if (want != got) fail("%s: answered %llu, expected %llu", what, (ull)got, (ull)want);
    }
    uint64_t ncard(const Ev &e, int i = 0) { return z.cnt(e.rv[i]); }

    // values to probe membership with: sampled members of every atom plus values in gaps
    std::vector<std::pair<T, bool>> probes(uint32_t m, uint32_t v) {
        std::vector<std::pair<T, bool>> p;
        for (int a = 0; a < z.S * z.C; a++) {
            if (!(m >> a & 1)) continue;
            bool in = v >> a & 1;
            const std::vector<T> &x = z.expand(1u << a);
            if (x.size() <= 40) for (T t : x) p.push_back({t, in});
            else {
                for (int i = 0; i < 30; i++) p.push_back({x[rng.below(x.size())], in});
                p.push_back({x.front(), in});
                p.push_back({x.back(), in});
            }
        }
        for (int s = 0; s <= z.S; s++) {  // never-used values
            u128 lo = s ? (u128)z.seg[s - 1].hi + 1 : 0, hi = s < z.S ? (u128)z.seg[s].lo : z.U;
            if (lo < hi) { p.push_back({(T)lo, false}); p.push_back({(T)(hi - 1), false}); }
        }
        return p;
    }

    // hash of the serialized bytes
    uint64_t content(const bm_t *r) {
        std::vector<T> v(card(r));
        to_array(r, v.data());
        return fnv(v.data(), v.size() * sizeof(T));
    }
    uint64_t content(int d) { return content(R(d)); }

    // ---- calls that report failure, with each of their allocations refused in turn (spec/Ledger.tla)
    // run: makes the call, answers whether it reported success; look: checks what it made; undo: releases it.
    // The call must leave the same blocks out as before when it fails, and all is back after undo.
    template <class Run, class Look, class Undo>
    void refuse_each(const char *what, const char *kind, int d, int s, Run run, Look look, Undo undo) {
        g_where.op = what;
        // the first copy-on-write copy leaves its source's containers wrapped for sharing, also when it fails
        bool loose = cow && !strcmp(kind, "copy");
        if (loose && !g_trace && rng.chance(50)) { FN(free)(FN(copy)(R(s))); loose = false; }
        for (int all = 0; all < 2; all++)
            for (int i = 1;; i++) {
                if (i > 24 && rng.chance(60)) i += (int)rng.below(20);   // many containers: not every position
                uint64_t was = mem_digest();
                Traced call(kind, d, s);
                mem_refuse(i, all);
                bool ok = run();
                long hit = mem_refused();
                mem_refuse(0, false);
                if (!ok) {
                    if (g_trace) mem_trace(nullptr);
                    if (!hit) fail("reported failure although no allocation was refused");
                    if (!loose && mem_digest() != was) fail("request %d %srefused: the failing call did not leave the blocks as they were", i, all ? "and all that follow " : "");
                    call.end(false);
                } else {
                    if (g_trace) mem_trace(nullptr);
                    uint64_t v = look();
                    call.end(true, v);
                    if (!strcmp(kind, "make") || !strcmp(kind, "copy")) {
                        Traced drop("drop", d, 0);
                        undo();
                        drop.end(true);
                    } else undo();
                    if (!loose && mem_digest() != was) fail("request %d %srefused: blocks are still out after releasing the result", i, all ? "and all that follow " : "");
                    if (!hit) break;
                }
            }
    }
    uint64_t looks_like(const bm_t *r, uint64_t want, const char *whence) {
        const char *why = nullptr;
        if (!FN(internal_validate)(r, &why)) fail("%s: invalid: %s", whence, why ? why : "?");
        uint64_t got = content(r);
        if (got != want) fail("%s: holds other values than its source", whence);
        return got;
    }
    void refusals(const Ev &e) {
        int a = rng.chance(70) ? e.d : (int)rng.below(reg.size()), b = (int)rng.below(reg.size());
        if (e.post[a].lz || z.cnt(e.post[a].mask) > 60000) return;
        const int N = (int)reg.size();
        const std::string op = g_where.op;
        const uint64_t want = content(a);
        bm_t *r = R(a), *x = nullptr;
        auto nothing = [] {};
        auto freex = [&] { FN(free)(x); x = nullptr; };
        auto lookx = [&] { return looks_like(x, want, g_where.op.c_str()); };
        int what = (int)rng.below(10);
#if B64
        (void)b; (void)nothing;
        mem_spare_realloc(what <= 5);   // known finding: growing the index or the container list is not checked
        if (what <= 2) refuse_each("copy, refused", "copy", N, a, [&] { return (x = roaring64_bitmap_copy(r)) != nullptr; }, lookx, freex);
        else if (what <= 5) {
            std::vector<char> buf(roaring64_bitmap_portable_size_in_bytes(r));
            roaring64_bitmap_portable_serialize(r, buf.data());
            refuse_each("portable_deserialize_safe, refused", "copy", N, a, [&] { return (x = roaring64_bitmap_portable_deserialize_safe(buf.data(), buf.size())) != nullptr; }, lookx, freex);
        } else if (what <= 8) {
            bm_t *own = roaring64_bitmap_copy(r);
            roaring64_bitmap_shrink_to_fit(own);
            size_t n = roaring64_bitmap_frozen_size_in_bytes(own);
            char *buf = nullptr;
            if (posix_memalign((void **)&buf, 64, n + 64)) exit(2);
            roaring64_bitmap_frozen_serialize(own, buf);
            roaring64_bitmap_free(own);
            refuse_each("frozen_view, refused", "copy", N, a, [&] { return (x = roaring64_bitmap_frozen_view(buf, n)) != nullptr; }, lookx, freex);
            free(buf);
        } else {
            uint64_t none = fnv(nullptr, 0);
            refuse_each("create, refused", "make", N, 0, [&] { return (x = roaring64_bitmap_create()) != nullptr; }, [&] { return looks_like(x, none, "create"); }, freex);
        }
        mem_spare_realloc(false);
#else
        if (what == 0) refuse_each("copy, refused", "copy", N, a, [&] { return (x = roaring_bitmap_copy(r)) != nullptr; }, lookx, freex);
        else if (what <= 2) {   // overwrite: a fresh destination every time
            if (e.post[b].lz || z.cnt(e.post[b].mask) > 60000) return;
            const uint64_t none = fnv(nullptr, 0);
            g_where.op = "overwrite, refused";
            for (int all = 0; all < 2; all++)
                for (int i = 1;; i++) {
                    Traced mk("copy", N, b);
                    x = roaring_bitmap_copy(R(b));
                    mk.end(true, 0);
                    bool loose = cow;
                    if (loose && !g_trace && rng.chance(50)) { roaring_bitmap_free(roaring_bitmap_copy(r)); loose = false; }
                    long was = mem_outstanding();
                    Traced call("over", N, a);
                    mem_refuse(i, all);
                    bool ok = roaring_bitmap_overwrite(x, r);
                    long hit = mem_refused();
                    mem_refuse(0, false);
                    if (g_trace) mem_trace(nullptr);
                    if (!ok) {
                        if (!hit) fail("reported failure although no allocation was refused");
                        if (!loose && mem_outstanding() > was) fail("request %d refused: %ld more blocks are out after the failing call", i, mem_outstanding() - was);
                        looks_like(x, none, "the destination of a failed overwrite");
                        call.end(false);
                        observed(N, none);
                        if (g_trace) {}
                        else if (rng.chance(30)) { if (!roaring_bitmap_overwrite(x, r)) fail("a failed destination cannot be overwritten"); lookx(); roaring_bitmap_clear(x); }
                        else if (rng.chance(40)) { roaring_bitmap_add(x, 7); roaring_bitmap_add_range(x, 5, 100000); if (roaring_bitmap_get_cardinality(x) != 99995) fail("a failed destination cannot be used"); }
                    } else { lookx(); call.end(true); }
                    if (g_trace) {   // whatever was done with it since
                        Traced dr("drop", N, 0);
                        freex();
                        dr.end(true);
                    } else freex();
                    if (ok && !hit) break;
                    if (content(a) != want) fail("request %d refused: the source changed", i);
                }
        } else if (what <= 5) {
            int fmt = (int)rng.below(5);
            size_t n = fmt <= 1 ? roaring_bitmap_portable_size_in_bytes(r) : fmt == 2 ? roaring_bitmap_size_in_bytes(r)
                     : fmt == 3 ? roaring_bitmap_frozen_size_in_bytes(r) : roaring_bitmap_portable_size_in_bytes(r);
            char *buf = nullptr;
            if (posix_memalign((void **)&buf, 64, n + 64)) exit(2);
            if (fmt == 2) roaring_bitmap_serialize(r, buf);
            else if (fmt == 3) roaring_bitmap_frozen_serialize(r, buf);
            else roaring_bitmap_portable_serialize(r, buf);
            if (fmt == 2 && buf[0] == 1) { free(buf); return; }   // known finding: the list form is rebuilt value by value
            static const char *names[] = {"portable_deserialize_safe, refused", "portable_deserialize, refused", "deserialize_safe, refused", "frozen_view, refused", "portable_deserialize_frozen, refused"};
            refuse_each(names[fmt], "copy", N, a, [&] {
                x = fmt == 0 ? roaring_bitmap_portable_deserialize_safe(buf, n) : fmt == 1 ? roaring_bitmap_portable_deserialize(buf) : fmt == 2 ? roaring_bitmap_deserialize_safe(buf, n)
                  : fmt == 3 ? (bm_t *)roaring_bitmap_frozen_view(buf, n) : roaring_bitmap_portable_deserialize_frozen(buf);
                return x != nullptr;
            }, lookx, freex);
            free(buf);
        } else if (what == 6) {
            if (!e.post[a].mask || *std::max_element(z.expand(e.post[a].mask).begin(), z.expand(e.post[a].mask).end()) > 50000000) return;
            bitset_t *s = nullptr;
            refuse_each("to_bitset, refused", "ask", 0, a, [&] {
                if (!(s = bitset_create())) return false;
                bool ok = roaring_bitmap_to_bitset(r, s);
                if (ok && bitset_count(s) != card(r)) fail("to_bitset: %zu bits for %llu values", bitset_count(s), (ull)card(r));
                bitset_free(s);
                return ok;
            }, [] { return (uint64_t)0; }, nothing);
        } else if (what == 7) {
            uint64_t n = card(r), off = n ? rng.below(n) : 0, lim = n ? 1 + rng.below(n - off) : 0;
            std::vector<T> out(lim);
            refuse_each("range_uint32_array, refused", "ask", 0, a, [&] {
                bool ok = roaring_bitmap_range_uint32_array(r, off, lim, out.data());
                if (ok) { const std::vector<T> &w = z.expand(e.post[a].mask); if (memcmp(w.data() + off, out.data(), lim * sizeof(T))) fail("range_uint32_array delivered wrong values"); }
                return ok;
            }, [] { return (uint64_t)0; }, nothing);
        } else if (what == 8) {
            roaring_uint32_iterator_t *it = nullptr;
            refuse_each("iterator_create, refused", "make", N, 0, [&] { return (it = roaring_iterator_create(r)) != nullptr; }, [] { return (uint64_t)0; }, [&] { roaring_uint32_iterator_free(it); });
        } else {
            uint64_t none = fnv(nullptr, 0);
            uint32_t cap = (uint32_t)rng.oneof({0, 1, 2, 5, 100, 70000});
            refuse_each("create_with_capacity, refused", "make", N, 0, [&] { return (x = roaring_bitmap_create_with_capacity(cap)) != nullptr; }, [&] { return looks_like(x, none, "create"); }, freex);
            roaring_bitmap_t in;
            refuse_each("init_with_capacity, refused", "make", N, 0, [&] { return roaring_bitmap_init_with_capacity(&in, cap); }, [&] { return looks_like(&in, none, "init"); }, [&] { roaring_bitmap_clear(&in); });
        }
#endif
        if (content(a) != want) fail("the bitmap read by the failing calls changed");
        observed(a, want);
        if (!e.post[b].lz) verify(b, e.post[b].mask, true);
        verify(a, e.post[a].mask, true);
        g_where.op = op;
    }
    uint64_t bytes(int d) {
        std::vector<char> b(FN(portable_size_in_bytes)(R(d)));
        size_t n = FN(portable_serialize)(R(d), b.data());
        if (n != b.size()) fail("wrote %zu bytes, announced %zu", n, b.size());
        return fnv(b.data(), n);
    }
    // copies taken along the way must still hold what they were taken from
    void finish() {
        for (auto &x : extra) {
            const std::vector<T> &w = z.expand(x.second);
            uint64_t n = card(x.first);
            if (n != w.size()) fail("a copy taken earlier now holds %llu values, expected %zu", (ull)n, w.size());
            std::vector<T> got(n);
            to_array(x.first, got.data());
            check_list(w, got.data(), n, "a copy taken earlier");
        }
    }
    void snapshot(int d, uint32_t mask) {
        if (extra.size() < 6 && rng.chance(cow ? 15 : 4)) extra.push_back({FN(copy)(R(d)), mask});
        else if (!extra.empty() && rng.chance(6)) {  // one of them goes away
            size_t i = rng.below(extra.size());
            FN(free)(extra[i].first);
            extra.erase(extra.begin() + i);
        }
    }

    void exec(const Ev &e) {
        const std::string &op = e.op;
        const int d = e.d, a = e.a, b = e.b, k = e.k;
        // ---------------------------------------------------------- algebra
        if (op == "and") put(d, FN(and)(R(a), R(b)));
        else if (op == "or") put(d, FN(or)(R(a), R(b)));
        else if (op == "xor") put(d, FN(xor)(R(a), R(b)));
        else if (op == "andnot") put(d, FN(andnot)(R(a), R(b)));
        else if (op == "iand") FN(and_inplace)(R(d), R(b));
        else if (op == "ior") FN(or_inplace)(R(d), R(b));
        else if (op == "ixor") FN(xor_inplace)(R(d), R(b));
        else if (op == "iandnot") FN(andnot_inplace)(R(d), R(b));
        else if (op == "flip") {
            auto rs = z.ranges(e.p, e.q);
            if (rs.empty()) put(d, FN(flip)(R(a), (uint64_t)std::min<u128>(z.start(e.p), UINT32_MAX), (uint64_t)std::min<u128>(z.start(e.q), UINT32_MAX)));
            else {
                bm_t *r = flip_closed_new(R(a), rs[0].lo, rs[0].hi, k);
                for (size_t i = 1; i < rs.size(); i++) {
                    if (i < 4) { bm_t *t = flip_closed_new(r, rs[i].lo, rs[i].hi, k); FN(free)(r); r = t; }
                    else flip_closed_in(r, rs[i].lo, rs[i].hi, k);
                }
                put(d, r);
            }
        } else if (op == "iflip") {
            auto rs = z.ranges(e.p, e.q);
            if (rs.empty() && fits(z.start(e.p)) && fits(z.start(e.q))) FN(flip_inplace)(R(d), (uint64_t)z.start(e.p), (uint64_t)z.start(e.q));
            for (auto c : rs) flip_closed_in(R(d), c.lo, c.hi, k);
        }
#if !B64
        else if (op == "orm" || op == "orheap" || op == "xorm") {
            std::vector<const bm_t *> v;
            std::vector<bm_t *> own;
            spread(e.l, op == "xorm", v, own);
            bm_t *r = op == "orm" ? roaring_bitmap_or_many(v.size(), v.data())
                    : op == "xorm" ? roaring_bitmap_xor_many(v.size(), v.data())
                                   : roaring_bitmap_or_many_heap((uint32_t)v.size(), v.data());
            for (bm_t *x : own) roaring_bitmap_free(x);
            put(d, r);
        } else if (op == "lor") put(d, roaring_bitmap_lazy_or(R(a), R(b), k % 2));
        else if (op == "lior") roaring_bitmap_lazy_or_inplace(R(d), R(b), k % 2);
        else if (op == "lxor") put(d, roaring_bitmap_lazy_xor(R(a), R(b)));
        else if (op == "lixor") roaring_bitmap_lazy_xor_inplace(R(d), R(b));
        else if (op == "lorR") { bm_t *r = roaring_bitmap_lazy_or(R(a), R(b), k % 2); roaring_bitmap_repair_after_lazy(r); put(d, r); }
        else if (op == "liorR") { roaring_bitmap_lazy_or_inplace(R(d), R(b), k % 2); roaring_bitmap_repair_after_lazy(R(d)); }
        else if (op == "lxorR") { bm_t *r = roaring_bitmap_lazy_xor(R(a), R(b)); roaring_bitmap_repair_after_lazy(r); put(d, r); }
        else if (op == "lixorR") { roaring_bitmap_lazy_xor_inplace(R(d), R(b)); roaring_bitmap_repair_after_lazy(R(d)); }
        else if (op == "repair") roaring_bitmap_repair_after_lazy(R(d));
#endif
        // ------------------------------------------------------ comparisons
        else if (op == "eq") want_bool(e, FN(equals)(R(a), R(b)));
        else if (op == "sub") want_bool(e, FN(is_subset)(R(a), R(b)));
        else if (op == "ssub") want_bool(e, FN(is_strict_subset)(R(a), R(b)));
        else if (op == "isect") want_bool(e, FN(intersect)(R(a), R(b)));
        else if (op == "cand") want_num(ncard(e), FN(and_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "cor") want_num(ncard(e), FN(or_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "cxor") want_num(ncard(e), FN(xor_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "candnot") want_num(ncard(e), FN(andnot_cardinality)(R(a), R(b)), "cardinality");
        else if (op == "jac") {
            double x = (double)ncard(e, 0), y = (double)ncard(e, 1), g = FN(jaccard_index)(R(a), R(b));
            if (!(g >= x / y - 1e-12 && g <= x / y + 1e-12)) fail("jaccard index %.17g, expected %.17g", g, x / y);
        }
        // ---------------------------------------------------------- updates
        else if (op == "addA") {
            const std::vector<T> v = z.expand(e.m);
            uint64_t fresh = ncard(e), got = 0;
            switch (k) {
                case 0: for (T x : v) FN(add)(R(d), x); break;
                case 1: {
                    std::vector<T> w = v;
                    if (rng.chance(50)) shuffle(w);
                    for (T x : w) got += FN(add_checked)(R(d), x);
                    want_num(fresh, got, "number of values reported as new");
                    break;
                }
                case 2: FN(add_many)(R(d), v.size(), v.data()); break;
                case 3: { std::vector<T> w = v; shuffle(w); FN(add_many)(R(d), w.size(), w.data()); break; }
                case 4: case 5: {
                    ctx_t c;
                    memset(&c, 0, sizeof c);
                    std::vector<T> w = v;
                    if (k == 5) shuffle(w);
                    for (T x : w) {
                        FN(add_bulk)(R(d), &c, x);
                        if (!w.empty() && rng.below(64) == 0) {  // reads may share the context
                            T y = w[rng.below(w.size())];
                            bool g = FN(contains_bulk)(R(d), &c, y);
                            if (g != FN(contains)(R(d), y)) fail("contains_bulk disagrees with contains");
                        }
                    }
                    break;
                }
            }
        } else if (op == "remA") {
            const std::vector<T> v = z.expand(e.m);
            uint64_t there = ncard(e), got = 0;
            switch (k) {
                case 0: for (T x : v) FN(remove)(R(d), x); break;
                case 1: case 4: {
                    std::vector<T> w = v;
                    if (k == 4) shuffle(w);
                    for (T x : w) got += FN(remove_checked)(R(d), x);
                    want_num(there, got, "number of values reported as removed");
                    break;
                }
                case 2: FN(remove_many)(R(d), v.size(), v.data()); break;
                case 3: { std::vector<T> w = v; shuffle(w); FN(remove_many)(R(d), w.size(), w.data()); break; }
                case 5: {
#if B64
                    ctx_t c;
                    memset(&c, 0, sizeof c);
                    std::vector<T> w = v;
                    if (rng.chance(50)) shuffle(w);
                    for (T x : w) roaring64_bitmap_remove_bulk(R(d), &c, x);
#else
                    for (size_t i = v.size(); i-- > 0;) roaring_bitmap_remove(R(d), v[i]);
#endif
                    break;
                }
            }
        } else if (op == "addR") {
            auto rs = z.ranges(e.p, e.q);
            if (rs.empty() && fits(z.start(e.p)) && fits(z.start(e.q))) FN(add_range)(R(d), (uint64_t)z.start(e.p), (uint64_t)z.start(e.q));
            for (auto c : rs) add_closed(R(d), c.lo, c.hi, k);
        } else if (op == "remR") {
            if (e.p >= e.q) { if (fits(z.start(e.p)) && fits(z.start(e.q))) FN(remove_range)(R(d), (uint64_t)z.start(e.p), (uint64_t)z.start(e.q)); }
            else { u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng); if (lo < hi) rem_closed(R(d), (T)lo, (T)(hi - 1), k); }
        } else if (op == "clear") FN(clear)(R(d));
        else if (op == "new") put(d, FN(create)());
        else if (op == "ofA") construct(e);
        else if (op == "build") put(d, make(e.m, (int)rng.below(8)));
        else if (op == "fromR") {
            auto rs = z.ranges(e.p, e.q);
            bm_t *r = fits((u128)rs[0].hi + 1) ? FN(from_range)(rs[0].lo, (uint64_t)rs[0].hi + 1, 1) : nullptr;
            if (!r) { r = FN(create)(); FN(add_range_closed)(r, rs[0].lo, rs[0].hi); }
            for (size_t i = 1; i < rs.size(); i++) add_closed(r, rs[i].lo, rs[i].hi, k);
            put(d, r);
        } else if (op == "fromS") {
            const std::vector<T> &v = z.expand(e.post[d].mask);
            u128 step = z.stride * (unsigned)z.C, end = (u128)v.back() + (rng.chance(40) ? 1 : rng.chance(40) ? step : 1 + rng.below((uint64_t)step));
            if (end > z.U) end = (u128)v.back() + 1;
            if (z.strided && fits(end)) put(d, FN(from_range)(v[0], (uint64_t)end, (T)step));
            else put(d, FN(of_ptr)(v.size(), v.data()));
        } else if (op == "copy") put(d, FN(copy)(R(a)));
#if !B64
        else if (op == "over") { if (!roaring_bitmap_overwrite(R(d), R(a))) fail("overwrite reported failure"); }
        else if (op == "cow") { if (k % 3 == 0) enable_cow(); if (roaring_bitmap_get_copy_on_write(R(d)) != (cow && !reg[d].buf)) fail("the copy-on-write flag is wrong"); }
#endif
        // ---------------------------------------------------------- queries
        else if (op == "has") {
            auto p = probes(e.rv[0], e.rv[1]);
            if (k % 3 == 2) for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rng.below(i)]);
            ctx_t c;
            memset(&c, 0, sizeof c);
            for (auto &x : p) {
                bool g = k % 3 == 0 ? FN(contains)(R(a), x.first) : FN(contains_bulk)(R(a), &c, x.first);
                if (g != x.second) fail("contains(%llx) answered %d", (ull)x.first, g);
            }
        } else if (op == "hasR") {
            bool got = true;
            if (e.p >= e.q) {
                if (fits(z.start(e.p)) && fits(z.start(e.q))) got = FN(contains_range)(R(a), (uint64_t)z.start(e.p), (uint64_t)z.start(e.q));
            } else
                for (auto c : z.ranges(e.p, e.q)) {
                    bool g;
#if B64
                    if (!fits((u128)c.hi + 1)) {  // [x, 2^64) has no half-open form
                        g = FN(contains)(R(a), c.hi) && (c.lo == c.hi || FN(contains_range)(R(a), c.lo, c.hi));
                    } else g = FN(contains_range)(R(a), c.lo, (uint64_t)c.hi + 1);
#else
                    g = k % 2 ? roaring_bitmap_contains_range_closed(R(a), c.lo, c.hi) : roaring_bitmap_contains_range(R(a), c.lo, (uint64_t)c.hi + 1);
#endif
                    got = got && g;
                }
            want_bool(e, got);
            anywhere(e);
        } else if (op == "cardR") {
            anywhere(e);
            u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng);
            uint64_t g = 0;
            if (e.p < e.q ? lo < hi : true) {
                if (e.p >= e.q) { lo = z.start(e.p); hi = z.start(e.q); }
                if (!fits(lo) || (!fits(hi) && hi <= lo)) return;
                if (k % 2 == 0 && fits(hi)) g = FN(range_cardinality)(R(a), (uint64_t)lo, (uint64_t)hi);
                else if (hi > lo)
#if B64
                    g = roaring64_bitmap_range_closed_cardinality(R(a), (T)lo, (T)(hi - 1));
#else
                    g = roaring_bitmap_range_cardinality_closed(R(a), (T)lo, (T)(hi - 1));
#endif
            }
            want_num(ncard(e), g, "range cardinality");
        } else if (op == "isectR") {
            u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng);
            if (e.p >= e.q) { lo = z.start(e.p); hi = z.start(e.q); }
            if (!fits(lo) || !fits(hi)) return;
            want_bool(e, FN(intersect_with_range)(R(a), (uint64_t)lo, (uint64_t)hi));
            anywhere(e);
        } else if (op == "rank") {
            u128 x = z.jitter(e.p, rng);
            if (x == 0) return;
            want_num(ncard(e), FN(rank)(R(a), (T)(x - 1)), "rank");
        } else if (op == "rankM") {
#if !B64
            std::vector<T> q;
            std::vector<uint64_t> w;
            for (int i = 0; i <= z.S; i++) {
                u128 x = z.jitter(i, rng);
                if (x == 0) continue;
                uint64_t c = ncard(e, i);
                for (int t = 0; t < (int)rng.below(3); t++) { q.push_back((T)(x - 1)); w.push_back(c); }
            }
            std::vector<uint64_t> g(q.size(), 0xdeadbeefdeadbeefull);
            // out of order only when two boundaries jitter into the same gap: keep the order
            if (std::is_sorted(q.begin(), q.end())) {
                roaring_bitmap_rank_many(R(a), q.data(), q.data() + q.size(), g.data());
                for (size_t i = 0; i < q.size(); i++)
                    if (g[i] != w[i]) fail("rank_many #%zu (value %llx): answered %llu, expected %llu", i, (ull)q[i], (ull)g[i], (ull)w[i]);
            }
#endif
        } else if (op == "sel") {  // the element whose index is the number of values below boundary p
            uint64_t n = 0;
            // index = #V minus #values at or above p; computed from the register's own expected content
            const std::vector<T> &v = z.expand(e.post[a].mask);
            n = std::lower_bound(v.begin(), v.end(), z.start(e.p), [](T x, u128 y) { return (u128)x < y; }) - v.begin();
            T got = 0;
            bool has = e.rv[0] != 0;
            T want = has ? z.expand(e.rv[0]).front() : 0;
            bool g = FN(select)(R(a), n, &got);
            if (g != has || (has && got != want)) fail("select(%llu) answered %d %llx, expected %d %llx", (ull)n, g, (ull)got, has, (ull)want);
            if (!has) { if (FN(select)(R(a), n + 1 + rng.below(1000), &got)) fail("select past the end answered true"); }
        } else if (op == "selp") {
            const std::vector<T> &v = z.expand(e.post[a].mask);
            uint64_t n = std::lower_bound(v.begin(), v.end(), z.start(e.p), [](T x, u128 y) { return (u128)x < y; }) - v.begin();
            T got = 0, want = z.expand(e.rv[0]).back();
            if (!FN(select)(R(a), n - 1, &got) || got != want) fail("select(%llu) answered %llx, expected %llx", (ull)n - 1, (ull)got, (ull)want);
        } else if (op == "idx") {
            const std::vector<T> at = z.expand(e.rv[0]);
            if (e.rk == "absent") {
                T x = e.rv[1] ? at.back() : at.front();
#if B64
                uint64_t o;
                if (roaring64_bitmap_get_index(R(a), x, &o)) fail("get_index of an absent value answered true");
#else
                int64_t g = roaring_bitmap_get_index(R(a), x);
                if (g != -1) fail("get_index(%llx) of an absent value answered %lld", (ull)x, (long long)g);
#endif
            } else {
                T x = e.rv[2] ? at.back() : at.front();
                const std::vector<T> &v = z.expand(e.rv[1]);
                uint64_t w = std::lower_bound(v.begin(), v.end(), x) - v.begin();
#if B64
                uint64_t g = ~0ull;
                if (!roaring64_bitmap_get_index(R(a), x, &g)) fail("get_index of a present value answered false");
                want_num(w, g, "get_index");
#else
                want_num(w, (uint64_t)roaring_bitmap_get_index(R(a), x), "get_index");
#endif
                want_num(w + 1, FN(rank)(R(a), x), "rank of a present value");
            }
        } else if (op == "min") {
            T w = e.rv[0] ? z.expand(e.rv[0]).front() : (T)~(T)0;
            want_num(w, FN(minimum)(R(a)), "minimum");
        } else if (op == "max") {
            T w = e.rv[0] ? z.expand(e.rv[0]).back() : 0;
            want_num(w, FN(maximum)(R(a)), "maximum");
        } else if (op == "empty") want_bool(e, FN(is_empty)(R(a)));
        else if (op == "card") want_num(ncard(e), card(R(a)), "cardinality");
        else if (op == "arr") {
            std::vector<T> g(ncard(e));
            to_array(R(a), g.data());
            check_list(z.expand(e.rv[0]), g.data(), g.size(), "array");
#if !B64
            if (g.size() <= 3000 && rng.chance(10)) show(R(a), g);
#endif
        } else if (op == "page") {
#if !B64
            size_t off = z.cnt(e.rv[0]), lim = z.cnt(e.rv[1]);
            std::vector<T> g(lim);
            if (!roaring_bitmap_range_uint32_array(R(a), off, lim, g.data())) fail("range_uint32_array reported failure");
            check_list(z.expand(e.rv[1]), g.data(), g.size(), "page");
#endif
        } else if (op == "iter") {
            const std::vector<T> &v = z.expand(e.rv[1]);
            uint64_t lim = std::max<uint64_t>(1, z.cnt(e.rv[0]));
            const std::vector<T> &w = z.expand(e.rv[1]);
            (void)v;
            bool all = iterate_upto(R(a), tmp, lim);
            size_t n = std::min<size_t>(lim, w.size());
            if (tmp.size() != n || (n && memcmp(tmp.data(), w.data(), n * sizeof(T)))) fail("callback iteration delivered %zu values or wrong ones, expected %zu", tmp.size(), n);
            if (all != (w.size() < lim)) fail("callback iteration returned %d", all);
        } else if (op == "walk") walk(e);
        else if (op == "stat") {
            stat_t st;
            memset(&st, 0x5a, sizeof st);
            FN(statistics)(R(a), &st);
            const std::vector<T> &v = z.expand(e.rv[0]);
            want_num(v.size(), st.cardinality, "statistics.cardinality");
            std::vector<T> keys;
            for (T x : v) if (keys.empty() || keys.back() != (x >> 16)) keys.push_back(x >> 16);
            want_num(keys.size(), st.n_containers, "statistics.n_containers");
            want_num(st.n_containers, (uint64_t)st.n_array_containers + st.n_run_containers + st.n_bitset_containers, "sum of the container counts");
            want_num(st.cardinality, (uint64_t)st.n_values_array_containers + st.n_values_run_containers + st.n_values_bitset_containers, "sum of the value counts");
            if (!v.empty()) { want_num(v.front(), st.min_value, "statistics.min"); want_num(v.back(), st.max_value, "statistics.max"); }
        }
        // --------------------------------------------- representation changes
        else if (op == "opt") {
            uint64_t before = payload(d);
            FN(run_optimize)(R(d));
            uint64_t after = payload(d);
            if (after > before) fail("run_optimize enlarged the containers from %llu to %llu bytes", (ull)before, (ull)after);
        }
#if !B64
        else if (op == "unopt") {
            roaring_bitmap_remove_run_compression(R(d));
            stat_t st;
            roaring_bitmap_statistics(R(d), &st);
            want_num(0, st.n_run_containers, "run containers left by remove_run_compression");
        }
#endif
        else if (op == "shrink") FN(shrink_to_fit)(R(d));
        // ------------------------------------------------------ serialization
        else if (op == "ser" || op == "view") serial(e);
#if !B64
        else if (op == "off") shift(e);
        else if (op == "conv") {  // through the dense bitset and back
            bitset_t *bs = bitset_create();
            const std::vector<T> &w = z.expand(e.post[d].mask);
            if (!w.empty() && w.back() > 200000000u) { bitset_free(bs); put(d, roaring_bitmap_copy(R(a))); return; }
            if (rng.chance(50)) { for (int i = 0; i < 100; i++) bitset_set(bs, rng.below(200000)); bitset_clear(bs); }
            if (!roaring_bitmap_to_bitset(R(a), bs)) fail("to_bitset reported failure");
            std::vector<T> got;
            for (size_t i = 0; bitset_next_set_bit(bs, &i); i++) got.push_back((T)i);
            check_list(w, got.data(), got.size(), "bitset content");
            if (bitset_count(bs) != w.size()) fail("bitset count");
            bitset_free(bs);
            put(d, roaring_bitmap_of_ptr(got.size(), got.data()));
        }
#else
        else if (op == "conv") {  // from a 32-bit bitmap
            const std::vector<T> w = z.expand(e.post[d].mask);
            bool small = w.empty() || w.back() <= UINT32_MAX;
            if (!small) { put(d, roaring64_bitmap_copy(R(a))); return; }
            std::vector<uint32_t> x(w.begin(), w.end());
            roaring_bitmap_t *r32 = roaring_bitmap_of_ptr(x.size(), x.data());
            roaring_bitmap_t *other = nullptr;
            if (rng.chance(50)) roaring_bitmap_run_optimize(r32);
            if (rng.chance(30)) { roaring_bitmap_set_copy_on_write(r32, true); other = roaring_bitmap_copy(r32); }
            bm_t *r = roaring64_bitmap_move_from_roaring32(r32);
            if (!roaring_bitmap_is_empty(r32)) fail("the 32-bit source is not empty after the move");
            roaring_bitmap_add(r32, 7);
            if (roaring_bitmap_get_cardinality(r32) != 1) fail("the 32-bit source is unusable after the move");
            roaring_bitmap_free(r32);
            put(d, r);
            if (other) {
                if (roaring_bitmap_get_cardinality(other) != x.size()) fail("copy of the moved 32-bit bitmap changed");
                roaring_bitmap_free(other);
            }
        }
#endif
        else { fprintf(stderr, "unsupported call %s\n", op.c_str()); exit(2); }
    }
#if !B64
    // shift so that exactly the wanted values stay in the universe, check every one of them, and shift back
    void shift(const Ev &e) {
        const int64_t TOP = (int64_t)UINT32_MAX, first = z.seg[0].lo, last = z.seg[z.S - 1].hi;
        const std::vector<T> keep = z.expand(e.post[e.d].mask);
        int64_t lo, hi;   // the offsets with that effect
        if (e.k % 2 == 0) {
            hi = e.p == 0 ? TOP - last : -(int64_t)z.seg[e.p - 1].hi - 1;
            lo = e.p < z.S ? -(int64_t)z.seg[e.p].lo : INT64_MIN + 1;
        } else {
            lo = e.p == z.S ? -first : TOP + 1 - (int64_t)z.seg[e.p].lo;
            hi = e.p > 0 ? TOP - (int64_t)z.seg[e.p - 1].hi : INT64_MAX;
        }
        if (lo > hi) fail("no offset");   // cannot happen
        std::vector<int64_t> c = {lo, hi};
        auto add = [&](int64_t o) { if (o >= lo && o <= hi) c.push_back(o); };
        for (int64_t o : {-131072, -65537, -65536, -65535, -64, -63, -1, 0, 1, 63, 64, 65535, 65536, 65537, 131072}) add(o);
        for (int64_t o : {lo, hi}) for (int64_t j : {1, 2, 63, 64, 65535, 65536, 100000}) { if (o < INT64_MAX - j) add(o + j); if (o > INT64_MIN + j) add(o - j); }
        // multiples of 2^16 (no container is split)
        int64_t m = lo < -(1ll << 40) ? hi : lo > (1ll << 40) ? lo : lo + (int64_t)rng.below((uint64_t)std::min<int64_t>(hi - lo, 1ll << 33));
        add(m & ~(int64_t)65535); add((m & ~(int64_t)65535) + 65536);
        // a boundary of the values lands at a container edge
        for (int i = 0; i < 4; i++) {
            int64_t v = rng.chance(50) ? z.seg[rng.below(z.S)].lo : (int64_t)z.seg[rng.below(z.S)].hi + 1;
            int64_t o = ((m + v) & ~(int64_t)65535) - v;
            add(o); add(o + 1); add(o - 1); add(o + 65536); add(o + 64 * (int64_t)rng.below(1024));
        }
        // wherever the middle of the values is split
        if (!keep.empty()) { int64_t v = keep[rng.below(keep.size())]; add(((m + v) & ~(int64_t)65535) - v); add(((m + v) & ~(int64_t)65535) - v - 1); }
        for (int i = 0; i < 4; i++) add(m + (int64_t)rng.below(1 << 18));
        int64_t o = rng.chance(25) ? c[rng.below(2)] : c[rng.below(c.size())];
        bm_t *t = roaring_bitmap_add_offset(R(e.a), o);
        if (!t) fail("add_offset returned NULL");
        const char *why = nullptr;
        if (!roaring_bitmap_internal_validate(t, &why)) fail("shifted by %lld: invalid: %s", (long long)o, why ? why : "?");
        std::vector<T> want(keep.size()), got(card(t));
        for (size_t i = 0; i < keep.size(); i++) want[i] = (T)((int64_t)keep[i] + o);
        if (got.size() != want.size()) fail("shifted by %lld: %zu values, expected %zu", (long long)o, got.size(), want.size());
        to_array(t, got.data());
        char what[64];
        snprintf(what, sizeof what, "shifted by %lld", (long long)o);
        check_list(want, got.data(), got.size(), what);
        if (!want.empty()) {
            if (roaring_bitmap_minimum(t) != want.front() || roaring_bitmap_maximum(t) != want.back()) fail("shifted by %lld: minimum or maximum is off", (long long)o);
            if (rng.chance(20)) roaring_bitmap_run_optimize(t);
        }
        bm_t *r = roaring_bitmap_add_offset(t, -o);
        roaring_bitmap_free(t);
        put(e.d, r);
    }
#endif
    uint64_t payload(int d) {
        stat_t st;
        FN(statistics)(R(d), &st);
        return st.n_bytes_array_containers + st.n_bytes_run_containers + st.n_bytes_bitset_containers;
    }

    // constructors from a list of values, in any order and with repetitions
    void construct(const Ev &e) {
        std::vector<T> v = z.expand(e.m);
        const size_t n = v.size();
        if (rng.chance(30)) {
            for (size_t i = 0; i < 5 && i < n; i++) v.push_back(v[rng.below(n)]);
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]);
        }
        if (v.size() <= 4 && rng.chance(60)) {
#if B64
            put(e.d, v.empty() ? roaring64_bitmap_from() : v.size() == 1 ? roaring64_bitmap_from(v[0]) : v.size() == 2 ? roaring64_bitmap_from(v[0], v[1])
                     : v.size() == 3 ? roaring64_bitmap_from(v[0], v[1], v[2]) : roaring64_bitmap_from(v[0], v[1], v[2], v[3]));
#else
            bm_t *r;
            if (rng.chance(50)) r = v.empty() ? roaring_bitmap_of(0) : v.size() == 1 ? roaring_bitmap_of(1, v[0]) : v.size() == 2 ? roaring_bitmap_of(2, v[0], v[1])
                     : v.size() == 3 ? roaring_bitmap_of(3, v[0], v[1], v[2]) : roaring_bitmap_of(4, v[0], v[1], v[2], v[3]);
            else r = v.empty() ? roaring_bitmap_from() : v.size() == 1 ? roaring_bitmap_from(v[0]) : v.size() == 2 ? roaring_bitmap_from(v[0], v[1])
                     : v.size() == 3 ? roaring_bitmap_from(v[0], v[1], v[2]) : roaring_bitmap_from(v[0], v[1], v[2], v[3]);
            put(e.d, r);
#endif
            return;
        }
#if !B64
        if (rng.chance(30)) {   // on a structure of the caller's
            bm_t own;
            memset(&own, 0x5a, sizeof own);
            if (rng.chance(50)) roaring_bitmap_init_cleared(&own);
            else if (!roaring_bitmap_init_with_capacity(&own, (uint32_t)rng.below(rng.chance(20) ? 100000 : 9))) fail("init_with_capacity failed");
            if (!roaring_bitmap_is_empty(&own) || roaring_bitmap_get_cardinality(&own)) fail("a bitmap just initialized is not empty");
            roaring_bitmap_add_many(&own, v.size(), v.data());
            const char *why = nullptr;
            if (!roaring_bitmap_internal_validate(&own, &why)) fail("invalid: %s", why ? why : "?");
            bm_t *r = roaring_bitmap_copy(&own);
            roaring_bitmap_clear(&own);
            if (!roaring_bitmap_is_empty(&own)) fail("clear leaves values");
            roaring_bitmap_add(&own, 77);
            if (roaring_bitmap_get_cardinality(&own) != 1 || !roaring_bitmap_contains(&own, 77)) fail("unusable after clear");
            roaring_bitmap_clear(&own);
            put(e.d, r);
            return;
        }
#endif
        put(e.d, FN(of_ptr)(v.size(), v.data()));
    }
#if !B64
    // what is printed
    void show(const bm_t *r, const std::vector<T> &v) {
        std::string want = "{";
        for (size_t i = 0; i < v.size(); i++) want += (i ? "," : "") + std::to_string(v[i]);
        want += "}";
        std::string got = printed([&] { roaring_bitmap_printf(r); });
        if (got != want) fail("roaring_bitmap_printf prints %.200s", got.c_str());
        // the structure: every block with its number of values
        got = printed([&] { roaring_bitmap_printf_describe(r); });
        const char *p = got.c_str();
        if (*p++ != '{') fail("roaring_bitmap_printf_describe prints %.200s", got.c_str());
        for (size_t i = 0; i < v.size();) {
            size_t j = i;
            while (j < v.size() && v[j] >> 16 == v[i] >> 16) j++;
            int key = -1, at = 0;
            long card = -1;
            if (sscanf(p, "%d: %n", &key, &at) != 1 || key != (int)(v[i] >> 16)) fail("roaring_bitmap_printf_describe: block %u is missing in %.300s", v[i] >> 16, got.c_str());
            p += at;
            const char *q = strchr(p, '(');   // the kind may say (shared)
            while (q && !isdigit(q[1])) q = strchr(q + 1, '(');
            if (!q || sscanf(q, "(%ld)", &card) != 1 || card != (long)(j - i)) fail("roaring_bitmap_printf_describe: wrong number of values of block %u in %.300s", v[i] >> 16, got.c_str());
            p = strchr(q, ')') + 1;
            if (*p == '(') { p = strchr(p, ')'); if (!p) fail("roaring_bitmap_printf_describe: %.300s", got.c_str()); p++; }
            if (*p == ',') p += 2;
            i = j;
        }
        if (strcmp(p, "}")) fail("roaring_bitmap_printf_describe prints %.300s", got.c_str());
    }
#endif
    void walk(const Ev &e) {
        const std::vector<T> from = z.expand(e.rv[0]), below = z.expand(e.rv[1]);
        size_t nread = z.cnt(e.rv[2]);
        u128 x = z.jitter(e.p, rng);
        if (x >= (B64 ? (u128)1 << 64 : (u128)1 << 32)) return;
        auto expect = [&](bool has, bool got, T want, T val, const char *what) {
            if (has != got) fail("%s: has_value %d, expected %d", what, got, has);
            if (has && want != val) fail("%s: at %llx, expected %llx", what, (ull)val, (ull)want);
        };
#if B64
        roaring64_iterator_t *it = roaring64_iterator_create(R(a(e)));
#define VAL roaring64_iterator_value(it)
#define HAS roaring64_iterator_has_value(it)
#define ADV roaring64_iterator_advance(it)
#define PRV roaring64_iterator_previous(it)
#define MOV(v) roaring64_iterator_move_equalorlarger(it, v)
#define READ(b, n) roaring64_iterator_read(it, b, n)
#define CPY roaring64_iterator_copy(it)
#define FREEIT(i) roaring64_iterator_free(i)
#else
        roaring_uint32_iterator_t *it = roaring_iterator_create(R(a(e)));
#define VAL it->current_value
#define HAS it->has_value
#define ADV roaring_uint32_iterator_advance(it)
#define PRV roaring_uint32_iterator_previous(it)
#define MOV(v) roaring_uint32_iterator_move_equalorlarger(it, v)
#define READ(b, n) roaring_uint32_iterator_read(it, b, (uint32_t)(n))
#define CPY roaring_uint32_iterator_copy(it)
#define FREEIT(i) roaring_uint32_iterator_free(i)
#endif
        bool g = MOV((T)x);
        expect(!from.empty(), g, from.empty() ? 0 : from[0], HAS ? VAL : 0, "seek");
        // a copy walks backward into the values below
        {
            auto *keep = it;
            it = CPY;
            size_t lim = std::min<size_t>(below.size(), 300);
            for (size_t i = 0; i < lim; i++) {
                PRV;
                expect(true, HAS, below[below.size() - 1 - i], HAS ? VAL : 0, "previous");
            }
            if (lim == below.size()) { PRV; expect(false, HAS, 0, 0, "previous past the first"); if (!below.empty()) { ADV; expect(true, HAS, below[0], HAS ? VAL : 0, "advance from before the first"); } }
            FREEIT(it);
            it = keep;
        }
        expect(!from.empty(), HAS, from.empty() ? 0 : from[0], HAS ? VAL : 0, "original after using its copy");
        size_t at = 0;
        while (at < nread) {
            size_t n = std::min<size_t>(nread - at, 1 + rng.below(rng.chance(50) ? 10 : 10000));
            std::vector<T> buf(n);
            uint64_t got = READ(buf.data(), n);
            if (got != n || memcmp(buf.data(), from.data() + at, n * sizeof(T))) fail("read of %zu values at offset %zu delivered %llu values or wrong ones", n, at, (ull)got);
            at += n;
            expect(at < from.size(), HAS, at < from.size() ? from[at] : 0, HAS ? VAL : 0, "after read");
        }
        for (int i = 0; i < 200 && at < from.size(); i++) {
            ADV; at++;
            expect(at < from.size(), HAS, at < from.size() ? from[at] : 0, HAS ? VAL : 0, "advance");
        }
        if (at < from.size() && from.size() - at < 5000) {
            std::vector<T> buf(from.size() - at + 50);
            uint64_t got = READ(buf.data(), buf.size());
            if (got != from.size() - at || memcmp(buf.data(), from.data() + at, got * sizeof(T))) fail("read to the end delivered %llu values or wrong ones", (ull)got);
            at = from.size();
            expect(false, HAS, 0, 0, "after reading everything");
        }
        if (at == from.size() && !from.empty()) { PRV; expect(true, HAS, from.back(), HAS ? VAL : 0, "previous from past the end"); }
        FREEIT(it);
    }
    static int a(const Ev &e) { return e.a; }

    // k selects format and reader
    void serial(const Ev &e) {
        const bm_t *src = R(e.a);
        const bool view = e.op == "view" && !cow;
        const size_t GUARD = 64;
#if B64
        int fmt = view ? 1 : e.k % 2;
        bm_t *own = nullptr;
        if (fmt == 1) {  // frozen requires a shrunken bitmap
            own = roaring64_bitmap_copy(src);
            if (rng.chance(50)) { for (int i = 0; i < 8; i++) roaring64_bitmap_add(own, rng.next()); roaring64_bitmap_free(own); own = roaring64_bitmap_copy(src); }
            roaring64_bitmap_shrink_to_fit(own);
            src = own;
        }
        size_t n = fmt == 0 ? roaring64_bitmap_portable_size_in_bytes(src) : roaring64_bitmap_frozen_size_in_bytes(src);
        char *buf = nullptr;
        if (posix_memalign((void **)&buf, 64, n + GUARD)) exit(2);
        memset(buf, 0x3c, n + GUARD);
        size_t wr = fmt == 0 ? roaring64_bitmap_portable_serialize(src, buf) : roaring64_bitmap_frozen_serialize(src, buf);
#else
        int fmt = view ? (e.k % 2 ? 5 : 4) : e.k % 6;
        size_t n = fmt <= 1 || fmt == 5 ? roaring_bitmap_portable_size_in_bytes(src)
                 : fmt <= 3 ? roaring_bitmap_size_in_bytes(src) : roaring_bitmap_frozen_size_in_bytes(src);
        char *buf = nullptr;
        if (posix_memalign((void **)&buf, 64, n + GUARD)) exit(2);
        memset(buf, 0x3c, n + GUARD);
        size_t wr = n;
        if (fmt <= 1 || fmt == 5) wr = roaring_bitmap_portable_serialize(src, buf);
        else if (fmt <= 3) wr = roaring_bitmap_serialize(src, buf);
        else roaring_bitmap_frozen_serialize(src, buf);
#endif
        if (wr != n) fail("wrote %zu bytes, announced %zu", wr, n);
        for (size_t i = 0; i < GUARD; i++) if (buf[n + i] != 0x3c) fail("byte %zu beyond the announced size was written", i);
        {   // what was written is the document of these values (spec/Format.tla)
            std::string why;
            const std::vector<T> vals = z.expand(e.post[e.d].mask);
#if B64
            if (fmt == 0) why = fmt::written("p64", buf, n, vals);
#else
            if (fmt <= 1 || fmt == 5) why = fmt::written("p32", buf, n, vals);
            else if (fmt <= 3) why = vals.empty() ? "" : fmt::written("own", buf, n, vals);
            else why = fmt::written("fz", buf, n, vals);
#endif
            if (!why.empty()) fail("%s", why.c_str());
        }
        // exactly sized copy so that an over-read is caught
        char *ex = nullptr;
        const size_t more = rng.chance(30) ? 1 + rng.below(rng.chance(50) ? 9 : 70000) : 0;   // bytes that follow the document
        if (posix_memalign((void **)&ex, 64, n + more ? n + more : 1)) exit(2);
        memcpy(ex, buf, n);
        for (size_t i = 0; i < more; i++) ex[n + i] = (char)rng.next();
        free(buf);
        bm_t *r = nullptr;
        size_t cut = n ? rng.below(n) : 0;
        if (rng.chance(30) && n) cut = n - 1;
#if B64
        if (fmt == 0) {
            if (roaring64_bitmap_portable_deserialize_size(ex, n + more) != n) fail("size probe answered %zu, expected %zu", roaring64_bitmap_portable_deserialize_size(ex, n + more), n);
            truncated(ex, cut, [](const char *p, size_t m) { size_t s = roaring64_bitmap_portable_deserialize_size(p, m); if (s) fail("size probe accepted a truncated document"); return roaring64_bitmap_portable_deserialize_safe(p, m); });
            r = roaring64_bitmap_portable_deserialize_safe(ex, n + more);
        } else {
            bm_t *v = roaring64_bitmap_frozen_view(ex, n);
            if (!v) fail("frozen_view refused its own bytes");
            if (view) { if (own) roaring64_bitmap_free(own); put(e.d, v, ex); return; }
            const char *why = nullptr;
            if (!roaring64_bitmap_internal_validate(v, &why)) fail("frozen view invalid: %s", why);
            if (!roaring64_bitmap_equals(v, src) || !roaring64_bitmap_equals(src, v)) fail("frozen view differs from its source");
            r = roaring64_bitmap_copy(v);
            roaring64_bitmap_free(v);
        }
        if (own) roaring64_bitmap_free(own);
#else
        if (fmt <= 1 || fmt == 5) {
            size_t s = roaring_bitmap_portable_deserialize_size(ex, n + more);
            if (s != n) fail("size probe answered %zu, expected %zu", s, n);
            if (fmt == 0) {
                truncated(ex, cut, [](const char *p, size_t m) { size_t s2 = roaring_bitmap_portable_deserialize_size(p, m); if (s2) fail("size probe accepted a truncated document"); return roaring_bitmap_portable_deserialize_safe(p, m); });
                r = roaring_bitmap_portable_deserialize_safe(ex, n + more);
            } else if (fmt == 1) r = roaring_bitmap_portable_deserialize(ex);
            else {
                bm_t *v = roaring_bitmap_portable_deserialize_frozen(ex);
                if (!v) fail("portable_deserialize_frozen refused its own bytes");
                if (view) { put(e.d, v, ex); return; }
                r = roaring_bitmap_copy(v);
                roaring_bitmap_free(v);
            }
        } else if (fmt <= 3) {
            if (fmt == 2) {
                truncated(ex, cut, [](const char *p, size_t m) { return roaring_bitmap_deserialize_safe(p, m); });
                r = roaring_bitmap_deserialize_safe(ex, n + more);
            } else r = roaring_bitmap_deserialize(ex);
        } else {
            const bm_t *v = roaring_bitmap_frozen_view(ex, n);
            if (!v) fail("frozen_view refused its own bytes");
            if (view) { put(e.d, (bm_t *)v, ex); return; }
            if (roaring_bitmap_frozen_view(ex, cut)) fail("frozen_view accepted a truncated buffer (%zu of %zu bytes)", cut, n);
            r = roaring_bitmap_copy(v);
            roaring_bitmap_free(v);
        }
#endif
        if (!r) fail("reader refused the bytes just written");
        memset(ex, 0xee, n);
        free(ex);
        put(e.d, r);
    }
    template <class F>
    void truncated(const char *full, size_t cut, F f) {
        char *p = (char *)malloc(cut ? cut : 1);
        memcpy(p, full, cut);
        bm_t *r = f(p, cut);
        free(p);
        if (r) { FN(free)(r); fail("a document truncated to %zu bytes was accepted", cut); }
    }
};

// Failures recorded in known-findings.txt, each tried in a child process: prints "FAILS <key>" for those that still fail.
template <class F>
static bool survives(long nth, F f) {   // f() makes the call with its nth request refused
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        if (!freopen("/dev/null", "w", stderr)) _exit(9);
        mem_refuse(nth, false);
        bool made = f();
        bool hit = mem_refused() > 0;
        _exit(made ? (hit ? 8 : 7) : 0);   // 7: no refusal was met
    }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7 || WEXITSTATUS(st) == 8);
}
static int known() {
    mem_install();
    std::vector<char> buf;
    auto report = [](const char *key, std::function<bool()> f) {
        for (long i = 1; i < 40; i++) if (!survives(i, f)) { printf("FAILS %s\n", key); return; }
    };
#if B64
    roaring64_bitmap_t *r = roaring64_bitmap_create();
    for (uint64_t i = 0; i < 30; i++) { roaring64_bitmap_add(r, i << 40); roaring64_bitmap_add_range(r, i << 30, (i << 30) + 70000); }
    buf.resize(roaring64_bitmap_portable_size_in_bytes(r));
    roaring64_bitmap_portable_serialize(r, buf.data());
    report("roaring64_bitmap_copy: crashes when growing the index or the container list is refused", [&] { return roaring64_bitmap_copy(r) != nullptr; });
    report("roaring64_bitmap_portable_deserialize_safe: crashes when growing the index or the container list is refused",
           [&] { return roaring64_bitmap_portable_deserialize_safe(buf.data(), buf.size()) != nullptr; });
#else
    roaring_bitmap_t *r = roaring_bitmap_create();
    for (uint32_t i = 0; i < 5; i++) roaring_bitmap_add(r, i * 1000003);
    buf.resize(roaring_bitmap_size_in_bytes(r));
    roaring_bitmap_serialize(r, buf.data());
    if (buf[0] == 1)
        report("roaring_bitmap_deserialize_safe of the list form: crashes when an allocation is refused while the values are added one by one",
               [&] { return roaring_bitmap_deserialize_safe(buf.data(), buf.size()) != nullptr; });
#endif
    return 0;
}

#if !SCHED
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "--known")) return known();
    return drive<T, Backend>(argc, argv);
}
#endif
