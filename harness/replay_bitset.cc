// Binding of spec/Dense.tla to bitset_t and to roaring_bitmap_to_bitset.
#include <roaring/bitset/bitset.h>
#include <roaring/roaring.h>

#include <functional>
#include <set>

#include "driver.hh"
typedef unsigned long long ull;
typedef std::vector<std::pair<long, long>> Runs;  // closed intervals

struct Step { std::string op; int step, d, e; long x, y; std::string rk; std::vector<long> rv; Runs rr; long n; Runs b; };
struct Beh { bool pre = false; long n0 = 0, n1 = 0; Runs b0, b1; std::vector<Step> s; };

static Runs rd(FILE *f) {
    int n; Runs r;
    if (fscanf(f, "%d", &n) != 1) exit(2);
    r.resize(n);
    for (auto &x : r) if (fscanf(f, "%ld", &x.first) != 1) exit(2);
    for (auto &x : r) if (fscanf(f, "%ld", &x.second) != 1) exit(2);
    return r;
}
static std::vector<Beh> load(const char *path) {
    std::vector<Beh> out;
    FILE *f = fopen(path, "r");
    if (!f) exit(2);
    char t[32];
    while (fscanf(f, "%31s", t) == 1) {
        if (t[0] == 'B') out.emplace_back();
        else if (t[0] == 'P') {
            Beh &b = out.back(); b.pre = true;
            if (fscanf(f, "%ld", &b.n0) != 1) exit(2); b.b0 = rd(f);
            if (fscanf(f, "%ld", &b.n1) != 1) exit(2); b.b1 = rd(f);
        } else {
            Step s; int n;
            if (fscanf(f, "%d %31s %d %d %ld %ld", &s.step, t, &s.d, &s.e, &s.x, &s.y) != 6) exit(2);
            s.op = t;
            if (fscanf(f, "%31s", t) != 1) exit(2);
            s.rk = t;
            if (s.rk == "runs") s.rr = rd(f);
            else { if (fscanf(f, "%d", &n) != 1) exit(2); s.rv.resize(n); for (auto &v : s.rv) if (fscanf(f, "%ld", &v) != 1) exit(2); }
            if (fscanf(f, "%ld", &s.n) != 1) exit(2);
            s.b = rd(f);
            out.back().s.push_back(s);
        }
    }
    fclose(f);
    return out;
}
static std::vector<size_t> flat(const Runs &r) { std::vector<size_t> v; for (auto &p : r) for (long i = p.first; i <= p.second; i++) v.push_back(i); return v; }

struct Model { long n = 0; Runs b; };
struct World {
    bitset_t *s[3]; Model m[3]; Rng rng;
    World(uint64_t seed) : rng(seed) { for (auto &x : s) x = bitset_create(); }
    ~World() { for (auto x : s) bitset_free(x); }
    void put(int d, bitset_t *x) { if (!x) fail("constructor returned NULL"); bitset_free(s[d]); s[d] = x; }

    // any way to obtain a bitset of n words with these bits (capacity and history vary)
    bitset_t *make(const Runs &b, long n) {
        bitset_t *t;
        switch (rng.below(5)) {
            case 0: t = bitset_create_with_capacity(64 * n); for (size_t i : flat(b)) bitset_set(t, i); break;
            case 1: t = bitset_create(); for (size_t i : flat(b)) bitset_set(t, i); if (!bitset_grow(t, n)) fail("grow refused"); break;
            case 2: {  // dirty larger bitset cut down, then padded up again
                t = bitset_create_with_capacity(64 * (n + 1 + rng.below(20)));
                bitset_fill(t);
                if (!bitset_resize(t, rng.below(n + 1), false) || !bitset_resize(t, n, true)) fail("resize refused");
                bitset_clear(t);
                for (size_t i : flat(b)) bitset_set_to_value(t, i, true);
                break;
            }
            case 3: {  // complement carved out of a full one
                t = bitset_create_with_capacity(n ? 64 * n - rng.below(64) : 0);
                bitset_fill(t);
                std::vector<bool> in(64 * n);
                for (size_t i : flat(b)) in[i] = true;
                for (long i = 0; i < 64 * n; i++) if (!in[i]) bitset_set_to_value(t, i, false);
                break;
            }
            default: {
                bitset_t *u = make(b, n);
                t = bitset_copy(u);
                bitset_free(u);
            }
        }
        if (!t) fail("constructor returned NULL");
        return t;
    }
    void verify(int i, unsigned how) {
        bitset_t *t = s[i];
        if ((long)bitset_size_in_words(t) != m[i].n) fail("bitset %d has %zu words, expected %ld", i, bitset_size_in_words(t), m[i].n);
        if ((long)bitset_size_in_bits(t) != 64 * m[i].n || (long)bitset_size_in_bytes(t) != 8 * m[i].n) fail("sizes in bits/bytes disagree");
        if (t->capacity < t->arraysize) fail("capacity %zu below size %zu", t->capacity, t->arraysize);
        std::vector<size_t> w = flat(m[i].b), g;
        switch (how % 5) {
            case 0: for (size_t x = 0; bitset_next_set_bit(t, &x); x++) g.push_back(x); break;
            case 1: {
                size_t cap = 1 + rng.below(rng.chance(50) ? 5 : 300), n;
                std::vector<size_t> buf(cap);
                for (size_t x = 0; (n = bitset_next_set_bits(t, buf.data(), cap, &x)) > 0; x++) g.insert(g.end(), buf.begin(), buf.begin() + n);
                break;
            }
            case 2:
                if (!bitset_for_each(t, [](size_t v, void *p) { ((std::vector<size_t> *)p)->push_back(v); return true; }, &g)) fail("for_each stopped by itself");
                break;
            case 3:
                if (w.size() < 3000) {   // as printed
                    std::string p = printed([&] { bitset_print(t); });
                    if (p.size() < 2 || p[0] != '{' || p.back() != '}') fail("bitset_print writes '%.40s'", p.c_str());
                    for (size_t k = 0; k < p.size();)
                        if (p[k] >= '0' && p[k] <= '9') { char *e; g.push_back(strtoull(&p[k], &e, 10)); k = e - &p[0]; } else k++;
                    break;
                }
                // fall through
            default: for (long x = 0; x < 64 * m[i].n + 70; x++) if (bitset_get(t, x)) g.push_back(x);
        }
        if (g != w) {
            size_t k = 0;
            while (k < g.size() && k < w.size() && g[k] == w[k]) k++;
            fail("bitset %d: %zu bits set, expected %zu; first difference at #%zu (%lld vs %lld)", i, g.size(), w.size(), k,
                 k < g.size() ? (long long)g[k] : -1ll, k < w.size() ? (long long)w[k] : -1ll);
        }
        if (bitset_count(t) != w.size()) fail("bitset %d counts %zu, expected %zu", i, bitset_count(t), w.size());
    }
    void num(const Step &s, size_t got) {
        size_t want = s.rv[0] < 0 ? SIZE_MAX : (size_t)s.rv[0];
        if (want != got) fail("answered %zu, expected %zu", got, want);
    }
    void yes(const Step &s, bool got) { if ((s.rv[0] != 0) != got) fail("answered %d, expected %ld", got, s.rv[0]); }
    void list(const Step &s, const std::vector<size_t> &got) {
        if (got != flat(s.rr)) fail("delivered %zu indices, expected %zu (or others)", got.size(), flat(s.rr).size());
    }
    // shifting may leave the size anywhere between what the bits need and what the specification allows
    void settle(const Step &st, int d) {
        long need = st.b.empty() ? 0 : st.b.back().second / 64 + 1, have = (long)bitset_size_in_words(s[d]);
        if (have < need || have > st.n) fail("after a shift the size is %ld words; the bits need %ld, at most %ld make sense", have, need, st.n);
        if (have != st.n && !bitset_resize(s[d], st.n, true)) fail("resize refused");
    }
    // a call that reports failure, first with each of its allocations refused: the bitsets stay as they were
    template <class F>
    bool attempt(int d, F call) {
        if (!g_refuse) return call();
        for (int i = 1;; i++) {
            uint64_t was = mem_digest();
            mem_refuse(i, rng.chance(30));
            bool ok = call();
            long hit = mem_refused();
            mem_refuse(0, false);
            if (ok || !hit) return ok;
            const std::string op = g_where.op;
            g_where.op += ", refused";
            if (mem_digest() != was) fail("request %d refused: the failing call did not leave the blocks as they were", i);
            for (int r = 0; r < 3; r++) verify(r, (unsigned)rng.below(5));
            g_where.op = op;
        }
        (void)d;
    }
    // a merge that fails may be half done: it is tried on a copy
    template <class F>
    bool merged(int d, F call) {
        if (!g_refuse) return call(s[d]);
        bitset_t *t = bitset_copy(s[d]);
        if (!t) return false;
        bool ok = call(t);
        if (ok) { bitset_free(s[d]); s[d] = t; } else bitset_free(t);
        return ok;
    }
    bitset_t *made(int d, std::function<bitset_t *()> f) { bitset_t *x = nullptr; attempt(d, [&] { return (x = f()) != nullptr; }); return x; }
    void exec(const Step &st) {
        const std::string &op = st.op;
        int d = st.d, e = st.e;
        bitset_t *&A = s[d], *&B = s[e];
        if (op == "rand") put(d, make(st.b, st.n));
        else if (op == "new") put(d, made(d, [] { return bitset_create(); }));
        else if (op == "cap") put(d, made(d, [&] { return bitset_create_with_capacity(st.x); }));
        else if (op == "copy") put(d, made(d, [&] { return bitset_copy(B); }));
        else if (op == "set") bitset_set(A, st.x);
        else if (op == "put") bitset_set_to_value(A, st.x, st.y % 2);
        else if (op == "clear") bitset_clear(A);
        else if (op == "fill") bitset_fill(A);
        else if (op == "resize") { bool pad = st.n > m[d].n || rng.chance(50); yes(st, attempt(d, [&] { return bitset_resize(A, st.n, pad); })); }
        else if (op == "grow") yes(st, attempt(d, [&] { return bitset_grow(A, st.x / 64); }));
        else if (op == "trim") yes(st, attempt(d, [&] { return bitset_trim(A); }));
        else if (op == "shl") { bitset_shift_left(A, st.x); settle(st, d); }
        else if (op == "shr") { bitset_shift_right(A, st.x); settle(st, d); }
        else if (op == "size") num(st, bitset_size_in_words(A));
        else if (op == "get") yes(st, bitset_get(A, st.x));
        else if (op == "count") num(st, bitset_count(A));
        else if (op == "empty") yes(st, bitset_empty(A));
        else if (op == "min") num(st, bitset_minimum(A));
        else if (op == "max") num(st, bitset_maximum(A));
        else if (op == "next") { size_t x = st.x; num(st, bitset_next_set_bit(A, &x) ? x : SIZE_MAX); }
        else if (op == "nexts") {
            std::vector<size_t> buf(st.y + 1, 12345);
            size_t x = st.x, n = bitset_next_set_bits(A, buf.data(), st.y, &x);
            if (n > (size_t)st.y || buf[st.y] != 12345) fail("wrote past the buffer");
            if (n && x != buf[n - 1]) fail("startfrom is %zu, expected the last index %zu", x, buf[n - 1]);
            buf.resize(n);
            list(st, buf);
        } else if (op == "each") {
            struct P { std::vector<size_t> v; size_t lim; } p{{}, (size_t)st.y};
            if (st.y == 0) { list(st, {}); return; }
            bool all = bitset_for_each(A, [](size_t v, void *q) { P *p = (P *)q; p->v.push_back(v); return p->v.size() < p->lim; }, &p);
            list(st, p.v);
            if (all != (p.v.size() < p.lim)) fail("for_each reported %d", all);
        } else if (op == "ior") yes(st, attempt(d, [&] { return merged(d, [&](bitset_t *t) { return bitset_inplace_union(t, B); }); }));
        else if (op == "iand") bitset_inplace_intersection(A, B);
        else if (op == "iandnot") bitset_inplace_difference(A, B);
        else if (op == "ixor") yes(st, attempt(d, [&] { return merged(d, [&](bitset_t *t) { return bitset_inplace_symmetric_difference(t, B); }); }));
        else if (op == "cor") num(st, bitset_union_count(A, B));
        else if (op == "cand") num(st, bitset_intersection_count(A, B));
        else if (op == "candnot") num(st, bitset_difference_count(A, B));
        else if (op == "cxor") num(st, bitset_symmetric_difference_count(A, B));
        else if (op == "disj") yes(st, bitsets_disjoint(A, B));
        else if (op == "isect") yes(st, bitsets_intersect(A, B));
        else if (op == "all") yes(st, bitset_contains_all(A, B));
        else if (op == "conv") {
            std::vector<uint32_t> v;
            for (size_t i : flat(st.b)) v.push_back((uint32_t)i);
            roaring_bitmap_t *r = roaring_bitmap_of_ptr(v.size(), v.data()), *c = nullptr;
            if (rng.chance(50)) roaring_bitmap_run_optimize(r);
            if (rng.chance(30)) { roaring_bitmap_set_copy_on_write(r, true); c = roaring_bitmap_copy(r); }
            bitset_clear(A);
            yes(st, roaring_bitmap_to_bitset(r, A));
            roaring_bitmap_free(r);
            if (c) roaring_bitmap_free(c);
        } else { fprintf(stderr, "unknown call %s\n", op.c_str()); exit(2); }
        m[d].n = st.n; m[d].b = st.b;
    }
};

// conversion of large bitmaps: contents from gen_values, expected words computed directly
#include "values.hh"
static void convert_large(uint64_t seed) {
    Rng r(seed);
    std::vector<uint32_t> v;
    size_t n = (size_t)r.oneof({0, 1, 2, 100, 4096, 4097, 9000, 65536, 65537, 150000});
    for (;;) { v = gen_values<uint32_t>(n, r); if (v.empty() || v.back() < (r.chance(3) ? UINT32_MAX : 40u << 20)) break; }
    roaring_bitmap_t *b = roaring_bitmap_of_ptr(v.size(), v.data());
    if (r.chance(60)) roaring_bitmap_run_optimize(b);
    if (r.chance(30)) roaring_bitmap_remove_run_compression(b);
    roaring_bitmap_t *c = nullptr;
    if (r.chance(25)) { roaring_bitmap_set_copy_on_write(b, true); c = roaring_bitmap_copy(b); }
    bitset_t *t = r.chance(50) ? bitset_create() : bitset_create_with_capacity(r.below(200000));
    if (!roaring_bitmap_to_bitset(b, t)) fail("conversion refused");
    std::vector<size_t> g;
    bitset_for_each(t, [](size_t x, void *p) { ((std::vector<size_t> *)p)->push_back(x); return true; }, &g);
    if (g.size() != v.size()) fail("conversion of %zu values set %zu bits", v.size(), g.size());
    for (size_t i = 0; i < g.size(); i++) if (g[i] != v[i]) fail("bit #%zu is %zu, expected %u", i, g[i], v[i]);
    if (bitset_count(t) != v.size()) fail("count %zu, expected %zu", bitset_count(t), v.size());
    bitset_free(t);
    roaring_bitmap_free(b);
    if (c) roaring_bitmap_free(c);
}

int main(int argc, char **argv) {
    Args ar = parse(argc, argv);
    auto beh = load(ar.script.c_str());
    signal(SIGALRM, on_alarm);
    if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
    signal(SIGABRT, on_crash);
    mem_install();
    uint64_t nb = 0, nc = 0;
    long base = mem_outstanding();
    for (int c = 0; c < ar.conc; c++) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        for (size_t i = ar.start; i < beh.size(); i += ar.stride) {
            if (ar.only_b >= 0 && (int)i != ar.only_b) continue;
            g_where.beh = (int)i; g_where.conc = c; g_where.step = 0; g_where.op = "setup";
            alarm(ar.hang);
            {
                World w(mix(mix(ar.seed, i), c));
                Beh &b = beh[i];
                if (b.pre) {
                    w.put(0, w.make(b.b0, b.n0)); w.m[0].n = b.n0; w.m[0].b = b.b0;
                    w.put(1, w.make(b.b1, b.n1)); w.m[1].n = b.n1; w.m[1].b = b.b1;
                }
                for (auto &st : b.s) {
                    g_where.step = st.step; g_where.op = st.op;
                    w.exec(st);
                    nc++;
                    for (int r = 0; r < 3; r++) w.verify(r, (unsigned)w.rng.below(5));
                }
                g_where.op = "teardown";
                if (!b.pre) { g_where.op = "to_bitset"; convert_large(mix(mix(ar.seed, i), 1000 + c)); }
            }
            if (mem_outstanding() != base) fail("%ld blocks were never returned", mem_outstanding() - base);
            alarm(0);
            nb++;
        }
    }
    printf("OK behaviours=%llu calls=%llu nops=0\n", (ull)nb, (ull)nc);
    return 0;
}
