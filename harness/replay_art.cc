// Replays histories generated by TLC from spec/ArtMap.tla on the radix index (src/art).
#include "driver.hh"
#include <roaring/art/art.h>
typedef unsigned long long ull;
using namespace roaring::internal;

struct Call { std::string op; int p, k; uint32_t A; int v; uint32_t m; int itk; uint32_t ita; int ret; };
typedef std::vector<Call> History;

static std::vector<History> load(const char *path, int &S, int &C) {
    std::vector<History> out;
    FILE *f = fopen(path, "r");
    if (!f) exit(2);
    unsigned long len;
    if (fscanf(f, "%d %d", &S, &C) != 2) exit(2);
    while (fscanf(f, "%lu", &len) == 1) {
        History h(len);
        for (auto &c : h) {
            char op[16];
            if (fscanf(f, "%15s %d %d %u %d %u %d %u %d", op, &c.p, &c.k, &c.A, &c.v, &c.m, &c.itk, &c.ita, &c.ret) != 9) exit(2);
            c.op = op;
        }
        out.push_back(h);
    }
    fclose(f);
    return out;
}

struct KeyConc {
    int S, C;
    std::vector<std::vector<uint64_t>> seg;      // sorted keys of each segment
    std::vector<std::vector<uint64_t>> atom;     // sorted keys of each atom
    std::vector<uint64_t> all;
    std::string desc;
    uint64_t lo(int s) const { return seg[s].front(); }
    uint64_t hi(int s) const { return seg[s].back(); }
};
static KeyConc make_keys(int S, int C, uint64_t seed) {
    Rng r(seed);
    KeyConc z;
    z.S = S; z.C = C;
    size_t want = (size_t)r.oneof({(uint64_t)S * C, (uint64_t)S * C + 2, 20, 40, 60, 100, 260, 300, 600});
    std::vector<uint64_t> k;
    for (int tries = 0; ; tries++) {
        k.clear();
        int groups = 1 + (int)r.below(3);
        for (int i = 0; i < groups; i++) grow_keys(r, k, 0, 0, std::max<size_t>(want / groups, 1));
        std::sort(k.begin(), k.end());
        k.erase(std::unique(k.begin(), k.end()), k.end());
        if (k.size() >= (size_t)S * C) break;
        want = want + S * C;
    }
    // cut into segments of at least C keys
    std::vector<size_t> cut(S + 1);
    cut[0] = 0; cut[S] = k.size();
    for (int s = 1; s < S; s++) {
        size_t lo = cut[s - 1] + C, hi = k.size() - (size_t)(S - s) * C;
        cut[s] = lo + (hi > lo ? r.below(r.chance(40) ? std::min<size_t>(hi - lo, 6) + 1 : hi - lo + 1) : 0);
    }
    z.seg.resize(S);
    z.atom.resize(S * C);
    for (int s = 0; s < S; s++) {
        std::vector<uint8_t> col;
        paint(r, col, cut[s + 1] - cut[s], C, nullptr);
        for (size_t i = cut[s]; i < cut[s + 1]; i++) { z.seg[s].push_back(k[i]); z.atom[s * C + col[i - cut[s]]].push_back(k[i]); }
    }
    z.all = k;
    char b[100];
    snprintf(b, sizeof b, "%zu keys %012llx..%012llx", k.size(), (ull)k.front(), (ull)k.back());
    z.desc = b;
    return z;
}

struct Run {
    KeyConc &z;
    Rng g;
    art_t art;
    art_iterator_t it;
    std::vector<uint64_t> keys, vals;    // expected content
    uint32_t cur = 0;

    Run(KeyConc &z_, uint64_t seed) : z(z_), g(seed) { art_init_cleared(&art); memset(&it, 0, sizeof it); }
    ~Run() { art_free(&art); }
    static void enc(uint64_t k, uint8_t *b) { for (int i = 5; i >= 0; i--) { b[i] = (uint8_t)k; k >>= 8; } }
    static uint64_t dec(const uint8_t *b) { uint64_t k = 0; for (int i = 0; i < 6; i++) k = k << 8 | b[i]; return k; }
    static uint64_t val(uint64_t k, int v) { return mix(k, v); }
    std::vector<uint64_t> keysOf(uint32_t A) {
        std::vector<uint64_t> o;
        for (int a = 0; a < z.S * z.C; a++) if (A >> a & 1) o.insert(o.end(), z.atom[a].begin(), z.atom[a].end());
        std::sort(o.begin(), o.end());
        return o;
    }
    static int ver(uint32_t m, int a) { return m >> (2 * a) & 3; }
    int atomOf(uint64_t k) { for (int a = 0; a < z.S * z.C; a++) if (std::binary_search(z.atom[a].begin(), z.atom[a].end(), k)) return a; return -1; }
    void expect(uint32_t m) {
        if (m == cur) return;
        cur = m;
        std::vector<std::pair<uint64_t, uint64_t>> kv;
        for (int a = 0; a < z.S * z.C; a++) if (ver(m, a)) for (uint64_t k : z.atom[a]) kv.push_back({k, val(k, ver(m, a))});
        std::sort(kv.begin(), kv.end());
        keys.clear(); vals.clear();
        for (auto &x : kv) { keys.push_back(x.first); vals.push_back(x.second); }
    }
    void shuffle(std::vector<uint64_t> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); }
    void order(std::vector<uint64_t> &v) { if (g.chance(60)) shuffle(v); else if (g.chance(50)) std::reverse(v.begin(), v.end()); }
    uint64_t boundary(int p) {   // a key between the last of segment p-1 (exclusive) and the first of segment p (inclusive)
        uint64_t hi = p < z.S ? z.lo(p) : ((ull)1 << 48) - 1, lo = p ? z.hi(p - 1) + 1 : 0;
        if (p == z.S && lo > hi) return UINT64_MAX;
        switch (g.below(4)) {
            case 0: return lo;
            case 1: return hi;
            case 2: { int sh = 8 * (int)g.below(6); uint64_t x = (hi >> sh) << sh; return x >= lo ? x : lo; }
            default: return lo + g.below(hi - lo + 1);
        }
    }
    size_t idx(uint64_t k) { return std::lower_bound(keys.begin(), keys.end(), k) - keys.begin(); }
    void at(const art_iterator_t &i, size_t want, const char *what) {   // want == keys.size(): past an end
        if (want >= keys.size()) { if (i.value) fail("%s: stands on %012llx, expected the end", what, (ull)dec(i.key)); return; }
        if (!i.value) fail("%s: past the end, expected key %012llx", what, (ull)keys[want]);
        if (dec(i.key) != keys[want]) fail("%s: stands on %012llx, expected %012llx", what, (ull)dec(i.key), (ull)keys[want]);
        if (*i.value != vals[want]) fail("%s: value of %012llx is %llx, expected %llx", what, (ull)keys[want], (ull)*i.value, (ull)vals[want]);
    }
    void everything(art_t *t, const char *what) {
        const char *why = nullptr;
        if (!art_internal_validate(t, &why, nullptr, nullptr)) fail("%s: consistency check fails: %s", what, why ? why : "?");
        if (art_is_empty(t) != keys.empty()) fail("%s: is_empty answered %d with %zu keys", what, art_is_empty(t), keys.size());
        art_iterator_t i = art_init_iterator(t, true);
        for (size_t j = 0; j <= keys.size(); j++) {
            at(i, j, what);
            if (j < keys.size()) { bool r = art_iterator_next(&i); if (r != (j + 1 < keys.size())) fail("%s: next answered %d", what, r); }
        }
        i = art_init_iterator(t, false);
        for (size_t j = keys.size(); j-- > 0;) {
            at(i, j, what);
            bool r = art_iterator_prev(&i);
            if (r != (j > 0)) fail("%s: prev answered %d", what, r);
        }
        if (i.value) fail("%s: backward iteration does not end", what);
        if (keys.size() > 1) {   // the order of keys
            size_t a = g.below(keys.size()), b = g.chance(50) ? g.below(keys.size()) : (a + 1) % keys.size();
            uint8_t ka[6], kb[6];
            enc(keys[a], ka); enc(keys[b], kb);
            int c = art_compare_keys(ka, kb);
            if ((c > 0) - (c < 0) != (a > b) - (a < b)) fail("%s: art_compare_keys answered %d for %012llx and %012llx", what, c, (ull)keys[a], (ull)keys[b]);
        }
    }
    void lookups(art_t *t, uint64_t k, const char *what) {
        uint8_t b[6];
        enc(k, b);
        size_t i = idx(k);
        bool in = i < keys.size() && keys[i] == k;
        art_val_t *p = art_find(t, b);
        if (in != (p != nullptr)) fail("%s: find(%012llx) %s", what, (ull)k, p ? "found an absent key" : "missed a present key");
        if (p && *p != vals[i]) fail("%s: find(%012llx) has value %llx, expected %llx", what, (ull)k, (ull)*p, (ull)vals[i]);
        art_iterator_t l = art_lower_bound(t, b);
        at(l, i, "lower bound");
        art_iterator_t u = art_upper_bound(t, b);
        at(u, i + in, "upper bound");
        for (int n = 0; n < 3 && i + n < keys.size(); n++) { at(l, i + n, "after the lower bound"); art_iterator_next(&l); }
        if (i + in < keys.size()) for (size_t n = 0; n < 3; n++) { at(u, i + in - n, "before the upper bound"); if (i + in - n == 0) break; art_iterator_prev(&u); }
    }
    void position(const Call &e, const char *what) {
        if (e.itk == 0) return;
        if (e.itk == 3) { if (it.value) fail("%s: the iterator stands on %012llx, expected past an end", what, (ull)dec(it.key)); return; }
        std::vector<uint64_t> k = keysOf(e.ita);
        at(it, idx(e.itk == 1 ? k.front() : k.back()), what);
    }
    void exec(const Call &e) {
        const std::string &op = e.op;
        const std::vector<uint64_t> before = keys, bvals = vals;
        uint8_t b[6];
        if (op == "init") {
            expect(e.m);
            std::vector<uint64_t> v = keys;
            order(v);
            for (uint64_t k : v) { enc(k, b); art_insert(&art, b, vals[idx(k)]); }
        } else if (op == "ins") {
            std::vector<uint64_t> v = keysOf(e.A);
            order(v);
            for (uint64_t k : v) { enc(k, b); art_val_t *p = art_insert(&art, b, val(k, e.v)); if (!p || *p != val(k, e.v)) fail("insert does not return the value"); }
        } else if (op == "set") {
            for (uint64_t k : keysOf(e.A)) {
                enc(k, b);
                art_val_t *p = art_find(&art, b);
                bool in = std::binary_search(before.begin(), before.end(), k);
                if (in != (p != nullptr)) fail("find(%012llx) %s", (ull)k, p ? "found an absent key" : "missed a present key");
                if (p) *p = val(k, e.v);
            }
        } else if (op == "del") {
            std::vector<uint64_t> v = keysOf(e.A);
            order(v);
            for (uint64_t k : v) {
                enc(k, b);
                art_val_t x = 99;
                size_t i = std::lower_bound(before.begin(), before.end(), k) - before.begin();
                bool in = i < before.size() && before[i] == k;
                bool r = g.chance(80) || in ? art_erase(&art, b, &x) : art_erase(&art, b, nullptr);
                if (r != in) fail("erase(%012llx) answered %d", (ull)k, r);
                if (in && x != bvals[i]) fail("erase(%012llx) reported value %llx, expected %llx", (ull)k, (ull)x, (ull)bvals[i]);
            }
        } else if (op == "find") {
            for (uint64_t k : keysOf(e.A)) lookups(&art, k, "find");
        } else if (op == "around") {
            for (uint64_t k : keysOf(e.A)) {
                uint64_t x = k;
                switch (g.below(4)) {
                    case 0: x = k + 1; break;
                    case 1: x = k - 1; break;
                    case 2: x = k ^ ((ull)1 << g.below(48)); break;
                    default: { int sh = 8 * (int)g.below(6); x = ((k >> sh) + (g.chance(50) ? 0 : 1)) << sh; if (g.chance(30)) x--; }
                }
                if (x >> 48) continue;
                lookups(&art, x, "around");
            }
        } else if (op == "empty") {
            if (art_is_empty(&art) != (e.ret != 0)) fail("is_empty answered %d", art_is_empty(&art));
        } else if (op == "all") {
        } else if (op == "first" || op == "last") {
            it = art_init_iterator(&art, op == "first");
        } else if (op == "lb") {
            uint64_t x = boundary(e.p);
            if (x == UINT64_MAX) { memset(b, 255, 6); it = art_upper_bound(&art, b); }
            else if (e.k == 0) { enc(x, b); it = art_lower_bound(&art, b); }
            else if (x == (e.p < z.S ? z.lo(e.p) : UINT64_MAX)) {   // exclusive bound just before it
                if (x == 0) { enc(0, b); it = art_lower_bound(&art, b); } else { enc(x - 1, b); it = art_upper_bound(&art, b); }
            } else { enc(x, b); it = art_upper_bound(&art, b); }
        } else if (op == "seek") {
            uint64_t x = boundary(e.p);
            if (x == UINT64_MAX) { x = ((ull)1 << 48) - 1; if (!keys.empty() && keys.back() == x) { expect(e.m); it = art_init_iterator(&art, false); art_iterator_next(&it); position(e, "seek"); return; } }
            enc(x, b);
            bool r = art_iterator_lower_bound(&it, b);
            if (r != (e.itk != 3)) fail("seek answered %d", r);
        } else if (op == "fwd" || op == "bwd") {
            bool f = op == "fwd";
            size_t i = idx(dec(it.key));
            uint64_t lim = e.p < z.S ? z.lo(e.p) : UINT64_MAX;
            for (;;) {
                at(it, i, "step");
                if (f ? keys[i] >= lim : keys[i] < lim) break;
                bool more = f ? i + 1 < keys.size() : i > 0;
                bool r = g.chance(50) ? art_iterator_move(&it, f) : f ? art_iterator_next(&it) : art_iterator_prev(&it);
                if (r != more) fail("step answered %d", r);
                if (!more) break;
                i += f ? 1 : -1;
            }
        } else if (op == "iins") {
            std::vector<uint64_t> v = keysOf(e.A);
            if (e.k) std::reverse(v.begin(), v.end());
            for (uint64_t k : v) {
                enc(k, b);
                art_iterator_insert(&it, b, val(k, e.v));
                if (!it.value || dec(it.key) != k || *it.value != val(k, e.v)) fail("after inserting %012llx the iterator is not on it", (ull)k);
            }
        } else if (op == "iera") {
            uint64_t lim = e.p < z.S ? z.lo(e.p) : UINT64_MAX;
            size_t i = idx(dec(it.key));
            while (i < keys.size() && keys[i] < lim) {
                at(it, i, "erasing walk");
                if (e.A >> atomOf(keys[i]) & 1) {
                    art_val_t x = 99;
                    if (!art_iterator_erase(&it, &x)) fail("erase through the iterator answered false");
                    if (x != vals[i]) fail("erase through the iterator reported value %llx, expected %llx", (ull)x, (ull)vals[i]);
                } else art_iterator_next(&it);
                i++;
            }
            if (i >= keys.size() && it.value) fail("erasing walk: not at the end");
            if (i >= keys.size()) { art_val_t x; if (art_iterator_erase(&it, &x)) fail("erase past the end answered true"); }
        } else if (op == "shrink" || op == "view") {
            art_shrink_to_fit(&art);
            if (!art_is_shrunken(&art)) fail("not shrunken after shrink_to_fit");
            if (op == "view") {
                expect(e.m);
                size_t n = art_size_in_bytes(&art);
                if (!n) fail("size 0 after shrinking");
                char *buf;
                if (posix_memalign((void **)&buf, 64, n + 64)) exit(2);
                memset(buf, 0x5c, n + 64);
                size_t w = art_serialize(&art, buf);
                if (w != n) fail("serialized %zu bytes, announced %zu", w, n);
                for (int i = 0; i < 64; i++) if (buf[n + i] != 0x5c) fail("serialization wrote past its size");
                char *ex;
                if (posix_memalign((void **)&ex, 64, n)) exit(2);
                memcpy(ex, buf, n);
                free(buf);
                art_t t;
                size_t cut = g.below(n);
                char *sh;
                if (posix_memalign((void **)&sh, 64, cut ? cut : 1)) exit(2);
                memcpy(sh, ex, cut);
                if (art_frozen_view(sh, cut, &t)) fail("a view of %zu of %zu bytes was accepted", cut, n);
                free(sh);
                size_t rd = art_frozen_view(ex, n, &t);
                if (rd != n) fail("the view used %zu bytes of %zu", rd, n);
                everything(&t, "view");
                for (int i = 0; i < 5 && !keys.empty(); i++) {
                    uint64_t x = keys[g.below(keys.size())] + g.below(2);
                    lookups(&t, x >> 48 ? x - 1 : x, "view");
                }
                free(ex);
            }
        } else { fprintf(stderr, "unknown call %s\n", op.c_str()); exit(2); }
        expect(e.m);
        position(e, "iterator");
        if (op == "all" || g.chance(op == "ins" || op == "del" || op == "iera" || op == "iins" || op == "shrink" ? 60 : 10)) everything(&art, "content");
        else {
            const char *why = nullptr;
            if (!art_internal_validate(&art, &why, nullptr, nullptr)) fail("consistency check fails: %s", why ? why : "?");
        }
        if (!z.all.empty()) lookups(&art, z.all[g.below(z.all.size())], "content");
    }
};

int main(int argc, char **argv) {
    Args ar = parse(argc, argv);
    int S, C;
    std::vector<History> hs = load(ar.script.c_str(), S, C);
    signal(SIGALRM, on_alarm);
    if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
    signal(SIGABRT, on_crash);
    mem_install();
    long base = mem_outstanding();
    uint64_t nb = 0, calls = 0;
    time_t t0 = time(0);
    for (int c = 0; c < ar.conc; c++) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        for (size_t b = ar.start; b < hs.size(); b += ar.stride) {
            if (ar.only_b >= 0 && (int)b != ar.only_b) continue;
            g_where.beh = (int)b; g_where.conc = c; g_where.step = 0; g_where.op = "setup";
            KeyConc z = make_keys(S, C, mix(mix(ar.seed, b), c));
            g_desc = z.desc.c_str();
            alarm(ar.hang);
            {
                Run r(z, mix(mix(ar.seed, b), 7 + c));
                for (auto &e : hs[b]) { g_where.op = e.op; r.exec(e); g_where.step++; }
                g_where.op = "teardown";
            }
            if (mem_outstanding() != base) fail("%ld blocks obtained from the allocator were never returned", mem_outstanding() - base);
            alarm(0);
            nb++;
            calls += hs[b].size() - 1;
            if (ar.budget > 0 && (nb & 63) == 0 && time(0) - t0 > ar.budget) goto done;
        }
    }
done:
    printf("OK behaviours=%llu calls=%llu nops=0\n", (ull)nb, (ull)calls);
    return 0;
}
