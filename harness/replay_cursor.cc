// Replays histories generated by TLC from spec/Cursor.tla on the iterators of the library.
// -DAPI=32 / 64: C iterators, -DAPI=132 / 164: C++ iterators
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include <stdarg.h>
#if API > 100
#include "roaring64map.hh"
#include "roaring.hh"
using roaring::Roaring; using roaring::Roaring64Map;
using namespace roaring::api;
#endif
#include "driver.hh"
#include "values.hh"
typedef unsigned long long ull;
#if API == 32
typedef uint32_t T; typedef roaring_bitmap_t BM; typedef roaring_uint32_iterator_t It;
#elif API == 64
typedef uint64_t T; typedef roaring64_bitmap_t BM; typedef roaring64_iterator_t It;
#elif API == 132
typedef uint32_t T; typedef Roaring BM; typedef Roaring::const_iterator It;
#else
typedef uint64_t T; typedef Roaring64Map BM; typedef Roaring64Map::const_iterator It;
#endif

struct Call { char op; int c; long x, y, p, cnt; };
struct History { size_t n; std::vector<Call> calls; };

static std::vector<History> load(const char *path, int &K) {
    std::vector<History> out;
    FILE *f = fopen(path, "r");
    if (!f) exit(2);
    unsigned long n, len;
    if (fscanf(f, "%d", &K) != 1) exit(2);
    while (fscanf(f, "%lu %lu", &n, &len) == 2) {
        History h;
        h.n = n;
        for (unsigned long i = 0; i < len; i++) {
            char op[16];
            Call c;
            if (fscanf(f, "%15s %d %ld %ld %ld %ld", op, &c.c, &c.x, &c.y, &c.p, &c.cnt) != 6) exit(2);
            c.op = !strcmp(op, "seek") ? 's' : !strcmp(op, "copy") ? 'c' : !strcmp(op, "cmp") ? '=' : op[0];
            h.calls.push_back(c);
        }
        out.push_back(h);
    }
    fclose(f);
    return out;
}

struct Bitmap {   // the bitmap under the iterators, in one of several representations
    BM *r = nullptr;
    std::vector<BM *> others;
    char *buf = nullptr;
    Bitmap(const std::vector<T> &v, Rng &g) {
        size_t n = v.size();
#if API == 32
        r = roaring_bitmap_create();
        if (g.chance(50)) roaring_bitmap_add_many(r, n, v.data());
        else for (size_t i = 0; i < n;) {
            size_t j = i;
            while (j + 1 < n && v[j + 1] == v[j] + 1) j++;
            roaring_bitmap_add_range_closed(r, v[i], v[j]);
            i = j + 1;
        }
        if (g.chance(50)) roaring_bitmap_run_optimize(r);
        else if (g.chance(30)) roaring_bitmap_remove_run_compression(r);
        if (g.chance(20)) { roaring_bitmap_set_copy_on_write(r, true); others.push_back(roaring_bitmap_copy(r)); }
        else if (g.chance(30)) {
            bool fz = g.chance(50);
            size_t b = fz ? roaring_bitmap_frozen_size_in_bytes(r) : roaring_bitmap_portable_size_in_bytes(r);
            if (posix_memalign((void **)&buf, 32, b ? b : 1)) exit(2);
            BM *v2;
            if (fz) { roaring_bitmap_frozen_serialize(r, buf); v2 = (BM *)roaring_bitmap_frozen_view(buf, b); }
            else { roaring_bitmap_portable_serialize(r, buf); v2 = roaring_bitmap_portable_deserialize_frozen(buf); }
            if (!v2) fail("view refused");
            others.push_back(r);
            r = v2;
        }
#elif API == 64
        r = g.chance(50) ? roaring64_bitmap_of_ptr(n, v.data()) : roaring64_bitmap_create();
        for (size_t i = 0; i < n;) {
            size_t j = i;
            while (j + 1 < n && v[j + 1] == v[j] + 1) j++;
            roaring64_bitmap_add_range_closed(r, v[i], v[j]);
            i = j + 1;
        }
        if (g.chance(60)) roaring64_bitmap_run_optimize(r);
        if (g.chance(40)) {
            roaring64_bitmap_shrink_to_fit(r);
            size_t b = roaring64_bitmap_frozen_size_in_bytes(r);
            if (posix_memalign((void **)&buf, 64, b ? b : 1)) exit(2);
            roaring64_bitmap_frozen_serialize(r, buf);
            BM *v2 = roaring64_bitmap_frozen_view(buf, b);
            if (!v2) fail("view refused");
            others.push_back(r);
            r = v2;
        }
#else
        r = new BM(n, v.data());
        if (g.chance(50)) r->runOptimize();
        if (g.chance(20)) { r->setCopyOnWrite(true); others.push_back(new BM(*r)); }
#endif
    }
    static void del(BM *x) {
#if API == 32
        roaring_bitmap_free(x);
#elif API == 64
        roaring64_bitmap_free(x);
#else
        delete x;
#endif
    }
    ~Bitmap() { del(r); for (auto *x : others) del(x); free(buf); }
};

static void run(const History &h, int K, Rng &g, const std::vector<T> &v, const BM *r) {
    const long n = (long)v.size();
    std::vector<It *> it(K);
    std::vector<long> pos(K, 1);
    for (auto &x : it) {
#if API == 32
        x = roaring_iterator_create(r);
#elif API == 64
        x = roaring64_iterator_create(r);
#else
        x = new It(r->begin());
#endif
    }
    std::vector<T> buf;
    auto check = [&](int c, const char *what) {
        long p = pos[c];
        bool want = p >= 1 && p <= n;
#if API == 32
        bool has = it[c]->has_value; T val = it[c]->current_value;
#elif API == 64
        bool has = roaring64_iterator_has_value(it[c]); T val = has ? roaring64_iterator_value(it[c]) : 0;
#else
        bool has = !(*it[c] == r->end());
        if ((*it[c] != r->end()) != has) fail("%s: == and != with end() agree", what);
        T val = has ? **it[c] : 0;
#endif
        if (has != want) fail("%s: iterator %d has a value: %d, expected %d (position %ld of %ld)", what, c, has, want, p, n);
        if (want && val != v[p - 1]) fail("%s: iterator %d at %llx, expected %llx (position %ld of %ld)", what, c, (ull)val, (ull)v[p - 1], p, n);
    };
    for (int c = 0; c < K; c++) check(c, "new iterator");
    for (size_t i = 0; i < h.calls.size(); i++) {
        const Call &e = h.calls[i];
        int c = e.c - 1;
        bool ret = e.p >= 1 && e.p <= n, got = ret;
        g_where.step = (int)i;
        g_where.op = std::string(1, e.op);
        const bool old = g.chance(15);   // the deprecated name
        (void)old;
        switch (e.op) {
#if API == 32
            case 'f': if (g.chance(20)) { old ? roaring_free_uint32_iterator(it[c]) : roaring_uint32_iterator_free(it[c]); it[c] = old ? roaring_create_iterator(r) : roaring_iterator_create(r); } else (old ? roaring_init_iterator(r, it[c]) : roaring_iterator_init(r, it[c])); break;
            case 'l': (old ? roaring_init_iterator_last(r, it[c]) : roaring_iterator_init_last(r, it[c])); break;
            case 'a': got = old ? roaring_advance_uint32_iterator(it[c]) : roaring_uint32_iterator_advance(it[c]); break;
            case 'p': got = old ? roaring_previous_uint32_iterator(it[c]) : roaring_uint32_iterator_previous(it[c]); break;
            case 'c': { It *t = old ? roaring_copy_uint32_iterator(it[e.x - 1]) : roaring_uint32_iterator_copy(it[e.x - 1]); roaring_uint32_iterator_free(it[c]); it[c] = t; break; }
#elif API == 64
            case 'f': if (g.chance(20)) { roaring64_iterator_free(it[c]); it[c] = roaring64_iterator_create(r); } else roaring64_iterator_reinit(r, it[c]); break;
            case 'l': if (g.chance(20)) { roaring64_iterator_free(it[c]); it[c] = roaring64_iterator_create_last(r); } else roaring64_iterator_reinit_last(r, it[c]); break;
            case 'a': got = roaring64_iterator_advance(it[c]); break;
            case 'p': got = roaring64_iterator_previous(it[c]); break;
            case 'c': { It *t = roaring64_iterator_copy(it[e.x - 1]); roaring64_iterator_free(it[c]); it[c] = t; break; }
#else
            case 'f': *it[c] = r->begin(); break;
            case 'l': *it[c] = r->end(); --*it[c]; break;
            case 'e': *it[c] = r->end(); break;
            case 'a': {
                if (pos[c] > n) break;
                if (g.chance(50)) ++*it[c];
                else { It old = (*it[c])++; if (*old != v[pos[c] - 1]) fail("postfix ++ returned an iterator at %llx, expected %llx", (ull)*old, (ull)v[pos[c] - 1]); }
                break;
            }
            case 'p':
                if (g.chance(50)) --*it[c];
                else { It old = (*it[c])--; if (pos[c] > n ? !(old == r->end()) : *old != v[pos[c] - 1]) fail("postfix -- returned another position"); }
                break;
            case 'c': if (c != (int)e.x - 1) { if (g.chance(50)) *it[c] = *it[e.x - 1]; else { It t(*it[e.x - 1]); *it[c] = t; } } break;
            case '=': {
                const It &a = *it[c], &b = *it[e.x - 1];
                bool lt = e.cnt == 0, eq = e.cnt == 1, gt = e.cnt == 2;
                if ((a == b) != eq || (a != b) == eq) fail("== / != of positions %ld and %ld is wrong", pos[c], pos[e.x - 1]);
                if ((a < b) != lt || (a > b) != gt || (a <= b) != (lt || eq) || (a >= b) != (gt || eq)) fail("ordering of positions %ld and %ld is wrong", pos[c], pos[e.x - 1]);
                break;
            }
#endif
            case 's': {
                // any target with v[x-1] < t <= v[x]
                u128 lo = e.x > 1 ? (u128)v[e.x - 2] + 1 : 0, hi = e.x <= n ? (u128)v[e.x - 1] : ((u128)1 << (8 * sizeof(T))) - 1;
                if (lo > hi) {  // the last value is the largest there is: nothing to ask for
                    Rng skip(0);
                    goto stop;
                }
                u128 t = hi;
                if (e.y) {
                    u128 w = hi - lo;
                    switch (g.below(4)) {
                        case 0: t = lo; break;
                        case 1: t = lo + (w ? (w >> 64 ? (u128)g.next() : (u128)(g.next() % (uint64_t)(w ? w : 1))) : 0); break;
                        case 2: { u128 k = (hi >> 16) << 16; t = k >= lo ? k : lo; break; }     // start of the container of v[x]
                        default: { u128 k = (lo | 0xffff); t = k <= hi ? k : hi; }                  // end of the container of v[x-1]
                    }
                }
#if API == 32
                got = old ? roaring_move_uint32_iterator_equalorlarger(it[c], (T)t) : roaring_uint32_iterator_move_equalorlarger(it[c], (T)t);
#elif API == 64
                got = roaring64_iterator_move_equalorlarger(it[c], (T)t);
#else
                got = it[c]->move_equalorlarger((T)t);
#endif
                break;
            }
#if API < 100
            case 'r': {
                T *p = (T *)malloc(sizeof(T) * (e.cnt + 1));   // exactly what must be delivered, plus a canary
                size_t room = (size_t)e.x;
                p[e.cnt] = (T)0xC0FFEE1234567890ull;
#if API == 32
                uint64_t k = old ? roaring_read_uint32_iterator(it[c], p, (uint32_t)room) : roaring_uint32_iterator_read(it[c], p, (uint32_t)room);
#else
                uint64_t k = roaring64_iterator_read(it[c], p, room);
#endif
                if (k != (uint64_t)e.cnt) fail("read(%zu) at position %ld of %ld delivered %llu values, expected %ld", room, pos[c], n, (ull)k, e.cnt);
                if (k && memcmp(p, v.data() + pos[c] - 1, k * sizeof(T))) fail("read(%zu) at position %ld of %ld delivered wrong values", room, pos[c], n);
                if (p[e.cnt] != (T)0xC0FFEE1234567890ull) fail("read wrote beyond the values it delivered");
                free(p);
                break;
            }
#endif
            default: fprintf(stderr, "unknown call %c\n", e.op); exit(2);
        }
        pos[c] = e.p;
        if (got != ret) fail("the call answered %d, expected %d (position %ld of %ld)", got, ret, e.p, n);
        check(c, "after the call");
        int other = (int)g.below(K);
        check(other, "another iterator");
    }
stop:
    for (auto *x : it) {
#if API == 32
        roaring_uint32_iterator_free(x);
#elif API == 64
        roaring64_iterator_free(x);
#else
        delete x;
#endif
    }
}

int main(int argc, char **argv) {
    Args ar = parse(argc, argv);
    int K;
    std::vector<History> hs = load(ar.script.c_str(), K);
    signal(SIGALRM, on_alarm);
    if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
    else for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_crash);
    signal(SIGABRT, on_crash);
    mem_install();
    long base = mem_outstanding();
    uint64_t nb = 0, calls = 0;
    time_t t0 = time(0);
    for (int c = 0; c < ar.conc; c++) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        for (size_t b = ar.start; b < hs.size(); b += ar.stride) {
            if (ar.only_b >= 0 && (int)b != ar.only_b) continue;
            g_where.beh = (int)b; g_where.conc = c; g_where.step = 0; g_where.op = "setup";
            Rng g(mix(mix(ar.seed, b), c));
            alarm(ar.hang);
            std::vector<T> v = gen_values<T>(hs[b].n, g);
            {
                Bitmap m(v, g);
                run(hs[b], K, g, v, m.r);
                g_where.op = "teardown";
            }
            if (mem_outstanding() != base) fail("%ld blocks obtained from the allocator were never returned", mem_outstanding() - base);
            alarm(0);
            nb++;
            calls += hs[b].calls.size();
            if (ar.budget > 0 && (nb & 63) == 0 && time(0) - t0 > ar.budget) goto done;
        }
    }
done:
    printf("OK behaviours=%llu calls=%llu nops=0\n", (ull)nb, (ull)calls);
    return 0;
}
