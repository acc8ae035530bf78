// Gives the byte strings TLC classified (spec/Format.tla) to every bounded reader, and many more strings classified by the
// compiled form of that specification (format.hh), which is itself checked here against TLC's verdicts.
#include "driver.hh"
#include "format.hh"
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include "roaring.hh"
#include "roaring64map.hh"
typedef unsigned long long ull;
using fmt::Bytes; using fmt::Ranges; using fmt::Verdict; using fmt::VALID; using fmt::LOOSE; using fmt::INVALID; using fmt::SHORT; using fmt::BAD;
using roaring::Roaring; using roaring::Roaring64Map;

static std::string describe(const std::string &kind, const uint8_t *d, size_t n) {
    char b[80];
    snprintf(b, sizeof b, "%s %zu bytes:", kind.c_str(), n);
    std::string s = b;
    for (size_t i = 0; i < n && i < 400; i++) { snprintf(b, sizeof b, " %02x", d[i]); s += b; }
    return s;
}
// a copy of the bytes in a block of exactly that size, at any alignment
struct Exact {
    char *block, *p;
    size_t n;
    Exact(const uint8_t *d, size_t n_, int off) : n(n_) {
        if (off < 0) { if (posix_memalign((void **)&block, 32, n ? n : 1)) exit(2); off = 0; }
        else block = (char *)malloc(n + off ? n + off : 1);
        p = block + off;
        if (n) memcpy(p, d, n);
    }
    ~Exact() { free(block); }
};
static std::string show(const Ranges &v) {
    std::string s = "{";
    char b[64];
    for (size_t i = 0; i < v.size() && i < 12; i++) { snprintf(b, sizeof b, "%s%llx..%llx", i ? "," : "", (ull)v[i].first, (ull)v[i].second); s += b; }
    return s + (v.size() > 12 ? ",...}" : "}");
}
static Ranges ranges_of(const roaring_bitmap_t *r) {
    Ranges v;
    roaring_uint32_iterator_t it;
    roaring_iterator_init(r, &it);
    uint64_t prev = 0;
    bool first = true;
    while (it.has_value) {
        uint64_t x = it.current_value;
        if (!first && x <= prev) fail("iteration is not ascending: %llx after %llx", (ull)x, (ull)prev);
        if (!first && x == prev + 1) v.back().second = x; else v.push_back({x, x});
        prev = x; first = false;
        roaring_uint32_iterator_advance(&it);
    }
    return v;
}
static Ranges ranges_of(const roaring64_bitmap_t *r) {
    Ranges v;
    roaring64_iterator_t *it = roaring64_iterator_create(r);
    uint64_t prev = 0;
    bool first = true;
    while (roaring64_iterator_has_value(it)) {
        uint64_t x = roaring64_iterator_value(it);
        if (!first && x <= prev) fail("iteration is not ascending: %llx after %llx", (ull)x, (ull)prev);
        if (!first && x == prev + 1) v.back().second = x; else v.push_back({x, x});
        prev = x; first = false;
        roaring64_iterator_advance(it);
    }
    roaring64_iterator_free(it);
    return v;
}
static Ranges ranges_of(const Roaring64Map &m) {
    Ranges v;
    for (auto it = m.begin(); it != m.end(); ++it) {
        uint64_t x = *it;
        if (!v.empty() && x == v.back().second + 1) v.back().second = x; else v.push_back({x, x});
    }
    return v;
}
static void same(const Ranges &got, const Ranges &want, const char *who) { if (got != want) fail("%s: holds %s, the document says %s", who, show(got).c_str(), show(want).c_str()); }

// the accepted bitmap must be usable
static void use32(roaring_bitmap_t *r, const Ranges &want, Rng &g, const char *who, bool frozen = false) {
    uint64_t n = fmt::count(want);
    if (roaring_bitmap_get_cardinality(r) != n) fail("%s: cardinality %llu, the document has %llu values", who, (ull)roaring_bitmap_get_cardinality(r), (ull)n);
    if (n > 3000000) { for (auto &x : want) if (!roaring_bitmap_contains_range(r, x.first, x.second + 1)) fail("%s: misses values of %llx..%llx", who, (ull)x.first, (ull)x.second); }
    else same(ranges_of(r), want, who);
    if (n) {
        if (roaring_bitmap_minimum(r) != want.front().first || roaring_bitmap_maximum(r) != want.back().second) fail("%s: minimum or maximum is wrong", who);
        const auto &x = g.pick(want);
        uint64_t v = x.first + g.below(x.second - x.first + 1);
        uint64_t below = 0;
        for (auto &y : want) { if (y.second < v) below += y.second - y.first + 1; else if (y.first <= v) below += v - y.first + 1; }
        if (!roaring_bitmap_contains(r, (uint32_t)v)) fail("%s: misses %llx", who, (ull)v);
        if (roaring_bitmap_rank(r, (uint32_t)v) != below) fail("%s: rank(%llx) is %llu, expected %llu", who, (ull)v, (ull)roaring_bitmap_rank(r, (uint32_t)v), (ull)below);
        uint32_t s;
        if (!roaring_bitmap_select(r, (uint32_t)(below - 1), &s) || s != v) fail("%s: select does not give %llx", who, (ull)v);
    }
    // what it writes is the document of its values
    std::vector<char> out(roaring_bitmap_portable_size_in_bytes(r));
    if (roaring_bitmap_portable_serialize(r, out.data()) != out.size()) fail("%s: writes another number of bytes than announced", who);
    Verdict w = fmt::decode((const uint8_t *)out.data(), out.size());
    if (w.res != VALID || w.size != out.size()) fail("%s: writing it back gives a document that is %s", who, fmt::NAMES[w.res]);
    same(w.v, want, "written back");
    roaring_bitmap_t *c = roaring_bitmap_copy(r);
    for (int i = 0; i < 6; i++) {
        uint32_t v = g.chance(50) && n ? (uint32_t)(g.pick(want).first + g.below(3)) : (uint32_t)g.next();
        switch (g.below(6)) {
            case 0: roaring_bitmap_add(c, v); if (!roaring_bitmap_contains(c, v)) fail("%s: a value added is missing", who); break;
            case 1: roaring_bitmap_remove(c, v); if (roaring_bitmap_contains(c, v)) fail("%s: a value removed is present", who); break;
            case 2: roaring_bitmap_run_optimize(c); break;
            case 3: roaring_bitmap_remove_run_compression(c); break;
            case 4: roaring_bitmap_flip_inplace(c, v, (uint64_t)v + g.below(100000)); break;
            default: roaring_bitmap_remove_range(c, v, (uint64_t)v + g.below(100000));
        }
        const char *why = nullptr;
        if (!roaring_bitmap_internal_validate(c, &why)) fail("%s: updating a copy makes it invalid: %s", who, why ? why : "?");
    }
    roaring_bitmap_t *a = roaring_bitmap_and(c, r), *o = roaring_bitmap_or(c, r);
    if (roaring_bitmap_get_cardinality(a) + roaring_bitmap_get_cardinality(o) != roaring_bitmap_get_cardinality(c) + n) fail("%s: counts after combining are inconsistent", who);
    roaring_bitmap_free(a); roaring_bitmap_free(o); roaring_bitmap_free(c);
    if (!frozen) {
        roaring_bitmap_run_optimize(r); roaring_bitmap_shrink_to_fit(r);
        const char *why = nullptr;
        if (!roaring_bitmap_internal_validate(r, &why)) fail("%s: invalid after run compression: %s", who, why ? why : "?");
        if (roaring_bitmap_get_cardinality(r) != n) fail("%s: run compression changed the cardinality", who);
    }
}
static void use64(roaring64_bitmap_t *r, const Ranges &want, Rng &g, const char *who) {
    uint64_t n = fmt::count(want);
    if (roaring64_bitmap_get_cardinality(r) != n) fail("%s: cardinality %llu, the document has %llu values", who, (ull)roaring64_bitmap_get_cardinality(r), (ull)n);
    if (n < 3000000) same(ranges_of(r), want, who);
    std::vector<char> out(roaring64_bitmap_portable_size_in_bytes(r));
    if (roaring64_bitmap_portable_serialize(r, out.data()) != out.size()) fail("%s: writes another number of bytes than announced", who);
    Verdict w = fmt::decode64((const uint8_t *)out.data(), out.size());
    if (w.res != VALID || w.size != out.size()) fail("%s: writing it back gives a document that is %s", who, fmt::NAMES[w.res]);
    same(w.v, want, "written back");
    for (int i = 0; i < 6; i++) {
        uint64_t v = g.chance(50) && n ? g.pick(want).first + g.below(3) : g.next();
        switch (g.below(4)) {
            case 0: roaring64_bitmap_add(r, v); if (!roaring64_bitmap_contains(r, v)) fail("%s: a value added is missing", who); break;
            case 1: roaring64_bitmap_remove(r, v); if (roaring64_bitmap_contains(r, v)) fail("%s: a value removed is present", who); break;
            case 2: roaring64_bitmap_run_optimize(r); break;
            default: roaring64_bitmap_flip_inplace(r, v, v > UINT64_MAX - 70000 ? v : v + g.below(70000));
        }
        const char *why = nullptr;
        if (!roaring64_bitmap_internal_validate(r, &why)) fail("%s: updating it makes it invalid: %s", who, why ? why : "?");
    }
}

// every reader on exactly these bytes
static void judge(const std::string &kind, const uint8_t *d, size_t n, const Verdict &z, Rng &g) {
    static std::string text;
    text = describe(kind, d, n);
    g_desc = text.c_str();
    const bool fz = kind == "fz", fm = kind == "fm";
    if (fm && z.res != VALID) return;
    Exact e(d, n, fz || fm ? -1 : (int)g.oneof({0, 0, 0, 1, 2, 3, 5}));
    bool none = z.res <= BAD, must = z.res == VALID;
    size_t probe = 0;
    const char *why = nullptr;
    auto verdict32 = [&](roaring_bitmap_t *r, const char *who) {
        if (!r) { if (must) fail("%s: rejects a valid document", who); return; }
        if (none) fail("%s: returns a bitmap for a document that is %s", who, fmt::NAMES[z.res]);
        why = nullptr;
        bool ok = roaring_bitmap_internal_validate(r, &why);
        if (must && !ok) fail("%s: a valid document gives an invalid bitmap: %s", who, why ? why : "?");
        if (z.res == INVALID && ok) fail("%s: accepts a document whose content denotes no set, and the bitmap passes the validity check", who);
        if (ok) use32(r, z.v, g, who, fz);
        roaring_bitmap_free(r);
    };
    auto throws = [&](const char *who, bool threw) {
        if (must && threw) fail("%s: rejects a valid document", who);
        if (none && !threw) fail("%s: returns a bitmap for a document that is %s", who, fmt::NAMES[z.res]);
    };
    if (kind == "p32") {
        g_where.op = "portable_deserialize_size";
        probe = roaring_bitmap_portable_deserialize_size(e.p, n);
        g_where.op = "portable_deserialize_safe";
        verdict32(roaring_bitmap_portable_deserialize_safe(e.p, n), "portable_deserialize_safe");
        g_where.op = "Roaring::readSafe";
        bool threw = false;
        try {
            Roaring r = Roaring::readSafe(e.p, n);
            why = nullptr;
            bool ok = roaring_bitmap_internal_validate(&r.roaring, &why);
            if (must && !ok) fail("Roaring::readSafe: a valid document gives an invalid bitmap: %s", why ? why : "?");
            if (z.res == INVALID && ok) fail("Roaring::readSafe: accepts a document whose content denotes no set");
            if (ok && z.res >= LOOSE) { if (r.cardinality() != fmt::count(z.v)) fail("Roaring::readSafe: cardinality"); if (fmt::count(z.v) < 3000000) same(ranges_of(&r.roaring), z.v, "Roaring::readSafe"); }
        } catch (const std::exception &) { threw = true; }
        throws("Roaring::readSafe", threw);
        if (must) {
            g_where.op = "portable_deserialize";
            roaring_bitmap_t *r = roaring_bitmap_portable_deserialize(e.p);
            if (!r) fail("portable_deserialize: rejects a valid document");
            use32(r, z.v, g, "portable_deserialize");
            roaring_bitmap_free(r);
            g_where.op = "portable_deserialize_frozen";
            r = roaring_bitmap_portable_deserialize_frozen(e.p);
            if (!r) fail("portable_deserialize_frozen: rejects a valid document");
            if (!roaring_bitmap_internal_validate(r, &why)) fail("portable_deserialize_frozen: invalid: %s", why ? why : "?");
            use32(r, z.v, g, "portable_deserialize_frozen", true);
            roaring_bitmap_free(r);
        }
    } else if (kind == "p64") {
        g_where.op = "roaring64 portable_deserialize_size";
        probe = roaring64_bitmap_portable_deserialize_size(e.p, n);
        g_where.op = "roaring64 portable_deserialize_safe";
        roaring64_bitmap_t *r = roaring64_bitmap_portable_deserialize_safe(e.p, n);
        const char *who = "roaring64 portable_deserialize_safe";
        if (!r) { if (must) fail("%s: rejects a valid document", who); }
        else {
            if (none) fail("%s: returns a bitmap for a document that is %s", who, fmt::NAMES[z.res]);
            bool ok = roaring64_bitmap_internal_validate(r, &why);
            if (must && !ok) fail("%s: a valid document gives an invalid bitmap: %s", who, why ? why : "?");
            if (z.res == INVALID && ok) fail("%s: accepts a document whose content denotes no set, and the bitmap passes the validity check", who);
            if (ok) use64(r, z.v, g, who);
            roaring64_bitmap_free(r);
        }
        g_where.op = "Roaring64Map::readSafe";
        bool threw = false;
        try {
            Roaring64Map m = Roaring64Map::readSafe(e.p, n);
            if (must) {
                if (m.cardinality() != fmt::count(z.v)) fail("Roaring64Map::readSafe: cardinality");
                if (fmt::count(z.v) < 3000000) same(ranges_of(m), z.v, "Roaring64Map::readSafe");
                std::vector<char> out(m.getSizeInBytes());
                if (m.write(out.data()) != out.size()) fail("Roaring64Map: writes another number of bytes than announced");
                Verdict w = fmt::decode64((const uint8_t *)out.data(), out.size());
                if (w.res != VALID || w.size != out.size() || w.v != z.v) fail("Roaring64Map: writing it back gives another document");
            }
        } catch (const std::exception &) { threw = true; }
        throws("Roaring64Map::readSafe", threw);
        if (must) {
            g_where.op = "Roaring64Map::read";
            Roaring64Map m = Roaring64Map::read(e.p), f = Roaring64Map::portableDeserializeFrozen(e.p);
            if (fmt::count(z.v) < 3000000) { same(ranges_of(m), z.v, "Roaring64Map::read"); same(ranges_of(f), z.v, "Roaring64Map::portableDeserializeFrozen"); }
        }
    } else if (fm) {
        g_where.op = "Roaring64Map::frozenView";
        const Roaring64Map m = Roaring64Map::frozenView(e.p);
        if (m.cardinality() != fmt::count(z.v)) fail("Roaring64Map::frozenView: cardinality");
        if (fmt::count(z.v) < 3000000) same(ranges_of(m), z.v, "Roaring64Map::frozenView");
        if (m.getFrozenSizeInBytes() != z.size) fail("getFrozenSizeInBytes: %zu, the image has %zu bytes", m.getFrozenSizeInBytes(), z.size);
        Bytes none(z.size + 8, 0);
        Exact out(none.data(), none.size(), -1);
        m.writeFrozen(out.p);
        if (memcmp(out.p, d, z.size)) fail("writeFrozen writes another image than the one read");
        for (int i = 0; i < 8; i++) if (out.p[z.size + i]) fail("writeFrozen writes beyond the announced size");
        Roaring64Map c = m;
        if (!(c == m) || c.cardinality() != fmt::count(z.v)) fail("a copy of the view differs from it");
        return;
    } else if (fz) {
        g_where.op = "frozen_view";
        verdict32((roaring_bitmap_t *)roaring_bitmap_frozen_view(e.p, n), "frozen_view");
        g_where.op = "Roaring::frozenView";
        bool threw = false;
        try {
            const Roaring v = Roaring::frozenView(e.p, n);
            bool ok = roaring_bitmap_internal_validate(&v.roaring, &why);
            if (must && !ok) fail("Roaring::frozenView: a valid image gives an invalid bitmap: %s", why ? why : "?");
            if (z.res == INVALID && ok) fail("Roaring::frozenView: accepts an image whose content denotes no set");
            if (ok) { if (v.cardinality() != fmt::count(z.v)) fail("Roaring::frozenView: cardinality"); if (fmt::count(z.v) < 3000000) same(ranges_of(&v.roaring), z.v, "Roaring::frozenView"); }
        } catch (const std::exception &) { threw = true; }
        throws("Roaring::frozenView", threw);
        if (must) {
            // the image of the bitmap viewed, and of a copy, is the image
            g_where.op = "frozen_serialize";
            roaring_bitmap_t *v = (roaring_bitmap_t *)roaring_bitmap_frozen_view(e.p, n), *c = roaring_bitmap_copy(v);
            for (roaring_bitmap_t *r : {v, c}) {
                if (roaring_bitmap_frozen_size_in_bytes(r) != n) fail("frozen_size_in_bytes: %zu, the image has %zu bytes", roaring_bitmap_frozen_size_in_bytes(r), n);
                Bytes out(n + 8, 0x5a);
                roaring_bitmap_frozen_serialize(r, (char *)out.data());
                if (!std::equal(d, d + n, out.begin())) fail("frozen_serialize writes another image than the one read");
                for (int i = 0; i < 8; i++) if (out[n + i] != 0x5a) fail("frozen_serialize writes beyond the announced size");
                roaring_bitmap_free(r);
            }
        }
        return;
    } else {
        g_where.op = "deserialize_safe";
        verdict32(roaring_bitmap_deserialize_safe(e.p, n), "deserialize_safe");
        if (must) {
            g_where.op = "deserialize";
            roaring_bitmap_t *r = roaring_bitmap_deserialize(e.p);
            if (!r) fail("deserialize: rejects a valid document");
            use32(r, z.v, g, "deserialize");
            roaring_bitmap_free(r);
        }
        return;
    }
    if (must && probe != z.size) fail("the size probe answers %zu, the document has %zu bytes", probe, z.size);
    if (none && probe) fail("the size probe answers %zu for a document that is %s", probe, fmt::NAMES[z.res]);
    if (probe && probe != z.size) fail("the size probe answers %zu, the document has %zu bytes", probe, z.size);
}
static uint64_t g_docs = 0;
static void judged(const std::string &kind, const Bytes &d, const Verdict &z, Rng &g) {
    long base = mem_outstanding();
    judge(kind, d.data(), d.size(), z, g);
    if (mem_outstanding() != base) fail("%ld blocks obtained from the allocator were never returned", mem_outstanding() - base);
    g_docs++;
}
static void prefixes(const std::string &kind, const Bytes &d, Rng &g) {
    size_t n = d.size();
    Verdict z;
    z.res = SHORT;
    std::vector<size_t> at;
    if (n <= 220) for (size_t i = 0; i < n; i++) at.push_back(i);
    else { for (size_t i = 0; i < 40; i++) at.push_back(g.below(n)); for (size_t i = 1; i <= 10; i++) { at.push_back(n - i); at.push_back(i * 3); } }
    for (size_t i : at) {
        if (kind[0] == 'f') z = fmt::read(kind, d.data(), i);
        judged(kind, Bytes(d.begin(), d.begin() + i), z, g);
    }
}

// ------------------------------------------------------------ random documents
static fmt::Cont random_cont(Rng &g, uint16_t key, bool small) {
    fmt::Cont c;
    c.key = key;
    int k = (int)g.below(small ? 2 : 3);
    c.kind = "arb"[k];
    if (c.kind == 'a') {
        size_t n = small || g.chance(70) ? 1 + g.below(12) : (size_t)g.oneof({100, 1000, 4095, 4096, 4096});
        std::vector<uint32_t> v;
        uint32_t span = (uint32_t)g.oneof({64, 300, 65536, 65536});
        if (n > span / 2) span = 65536;
        uint32_t off = (uint32_t)g.below(65536 - span + 1);
        std::vector<uint8_t> in(span);
        while (v.size() < n) { uint32_t x = (uint32_t)g.below(span); if (!in[x]) { in[x] = 1; v.push_back(off + x); } }
        if (g.chance(30)) v[0] = 65535;
        if (g.chance(30)) v.back() = 0;
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        for (uint32_t x : v) c.s.push_back({x, x});
    } else {
        // runs: random gaps and lengths; a bitset needs more than 4096 values
        for (;;) {
            c.s.clear();
            uint32_t at = (uint32_t)g.oneof({0, 0, 1, g.below(65536)});
            size_t want = small ? 1 + g.below(4) : c.kind == 'b' ? 1 + g.below(3000) : (size_t)g.oneof({1, 2, 3, 10, 100, 2047, 2048, 5000, 32768});
            uint32_t len = (uint32_t)g.oneof({1, 1, 3, 20, 300, 5000, 65536}), gap = (uint32_t)g.oneof({1, 1, 2, 50, 3000});
            while (c.s.size() < want && at < 65536) {
                uint32_t e = std::min<uint32_t>(65535, at + (uint32_t)g.below(len));
                c.s.push_back({at, e});
                at = e + 2 + (uint32_t)g.below(gap);
            }
            if (c.kind == 'r' || fmt::count(c.s) > 4096) break;
        }
    }
    return c;
}
static std::vector<fmt::Cont> random_conts(Rng &g, bool small) {
    size_t n = small ? g.below(6) : (size_t)g.oneof({0, 1, 2, 3, 3, 4, 4, 5, 7, 8, 9, 15, 16, 17, 40});
    if (!small && g.chance(3)) n = (size_t)g.oneof({300, 1000, 65536});
    std::vector<fmt::Cont> cs;
    std::vector<uint32_t> ks;
    if (n == 65536) for (uint32_t i = 0; i < n; i++) ks.push_back(i);
    else {
        uint32_t k = (uint32_t)g.oneof({0, 0, 1, 65535 - n, g.below(65536 - n)}), gap = (uint32_t)g.oneof({1, 1, 2, 100});
        while (ks.size() < n && k < 65536) { ks.push_back(k); k += 1 + (uint32_t)g.below(gap); }
        if (!ks.empty() && g.chance(20)) ks.back() = 65535;
    }
    for (uint32_t k : ks) cs.push_back(random_cont(g, (uint16_t)k, small || n > 20));
    return cs;
}
static Bytes random_doc(const std::string &kind, Rng &g, bool small) {
    Bytes b;
    if (kind == "own") {
        if (g.chance(60)) { b.push_back(2); auto cs = random_conts(g, small); Bytes c = fmt::encode(cs, fmt::has_run(cs)); b.insert(b.end(), c.begin(), c.end()); return b; }
        size_t n = small ? g.below(8) : g.below(3000);
        b.push_back(1);
        fmt::le(b, n, 4);
        uint64_t x = g.next();
        for (size_t i = 0; i < n; i++) { x = g.chance(60) ? x + 1 : g.chance(50) ? x + g.below(70000) : g.next(); fmt::le(b, (uint32_t)x, 4); }
        return b;
    }
    if (kind == "p32") { auto cs = random_conts(g, small); return fmt::encode(cs, fmt::has_run(cs) || (!cs.empty() && g.chance(10))); }
    size_t n = (size_t)g.oneof({0, 1, 1, 2, 3, small ? 3 : 40});
    std::vector<uint32_t> hs;
    for (size_t i = 0; i < n; i++) hs.push_back((uint32_t)g.oneof({g.below(4), g.next(), UINT32_MAX, 65535 + g.below(3)}));
    std::sort(hs.begin(), hs.end());
    hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    fmt::le(b, hs.size(), 8);
    for (uint32_t h : hs) {
        fmt::le(b, h, 4);
        auto cs = random_conts(g, small || n > 5);
        if (cs.empty() && g.chance(80)) cs.push_back(random_cont(g, (uint16_t)g.below(65536), true));
        if (cs.size() > 1000) cs.resize(10);
        Bytes c = fmt::encode(cs, fmt::has_run(cs));
        b.insert(b.end(), c.begin(), c.end());
    }
    return b;
}
static void mutate(Bytes &b, Rng &g) {
    if (b.empty()) { b.push_back((uint8_t)g.next()); return; }
    size_t head = g.chance(70) ? std::min<size_t>(b.size(), (size_t)g.oneof({8, 16, 32, 64, 200})) : b.size();
    size_t i = g.below(head);
    switch (g.below(12)) {
        case 0: case 1: b[i] ^= 1 << g.below(8); break;
        case 2: b[i] = (uint8_t)g.oneof({0, 1, 2, 4, 15, 16, 127, 128, 254, 255, 0x3a, 0x3b, 0x30}); break;
        case 3: b[i] += (uint8_t)g.oneof({1, 255, 2, 254}); break;
        case 4: if (i + 1 < b.size()) { uint16_t v = (uint16_t)(fmt::rd(&b[i], 2) + g.oneof({1, 65535, 256, 4096, 61440})); b[i] = (uint8_t)v; b[i + 1] = v >> 8; } break;
        case 5: if (i + 1 < b.size()) { uint16_t v = (uint16_t)g.oneof({0, 1, 0xffff, 0x0fff, 0x1000, 0x0ffe, 0x8000, 0x7fff}); b[i] = (uint8_t)v; b[i + 1] = v >> 8; } break;
        case 6: b.resize(g.below(b.size())); break;
        case 7: b.erase(b.begin() + i, b.begin() + std::min(b.size(), i + 1 + (size_t)g.oneof({0, 1, 3}))); break;
        case 8: { Bytes x(b.begin() + i, b.begin() + std::min(b.size(), i + (size_t)g.oneof({1, 2, 4}))); b.insert(b.begin() + i, x.begin(), x.end()); } break;
        case 9: if (b.size() >= 4) { size_t x = g.below(b.size() - 1), y = g.below(b.size() - 1); std::swap(b[x], b[y]); std::swap(b[x + 1], b[y + 1]); } break;
        case 10: for (size_t j = 0, n = (size_t)g.oneof({1, 4, 30}); j < n; j++) b.push_back((uint8_t)g.next()); break;
        default: if (b.size() > 8) { size_t x = b.size() - 1 - g.below(std::min<size_t>(b.size() - 1, 30)); b[x] = (uint8_t)g.next(); }
    }
}
// an image with its directory (at the end) changed, so that it often still fits
static void mutate_frozen(Bytes &b, size_t n, Rng &g) {
    if (b.size() < 4 + 5 * n || g.chance(25)) { mutate(b, g); return; }
    size_t dir = b.size() - 4 - 5 * n;
    size_t at = g.chance(10) ? b.size() - 4 + g.below(4) : n && g.chance(60) ? dir + g.below(5 * n) : g.below(b.size());
    if (n > 1 && g.chance(20)) {   // swap two entries of one table
        size_t i = g.below(n), j = g.below(n);
        for (int t = 0; t < 3; t++) {
            if (g.chance(50)) continue;
            size_t o = dir + 2 * n * t, w = t < 2 ? 2 : 1;
            for (size_t x = 0; x < w; x++) std::swap(b[o + w * i + x], b[o + w * j + x]);
        }
    } else if (n && g.chance(30)) {   // move size between two counts: the total may still fit
        size_t i = g.below(n), j = g.below(n), by = (size_t)g.oneof({1, 1, 2, 5});
        uint16_t x = (uint16_t)(fmt::rd(&b[dir + 2 * n + 2 * i], 2) + by), y = (uint16_t)(fmt::rd(&b[dir + 2 * n + 2 * j], 2) - by * (size_t)g.oneof({1, 1, 2}));
        b[dir + 2 * n + 2 * i] = (uint8_t)x; b[dir + 2 * n + 2 * i + 1] = x >> 8;
        b[dir + 2 * n + 2 * j] = (uint8_t)y; b[dir + 2 * n + 2 * j + 1] = y >> 8;
    } else b[at] = g.chance(50) ? b[at] ^ (uint8_t)(1 << g.below(8)) : (uint8_t)g.oneof({0, 1, 2, 3, 4, 255, b[at] + 1u, b[at] - 1u});
}
// the 64-bit zero-copy format must come from the library itself; whole images and all their truncations
static void frozen64(Rng &g) {
    Bytes doc = random_doc("p64", g, g.chance(80));
    roaring64_bitmap_t *r = roaring64_bitmap_portable_deserialize_safe((const char *)doc.data(), doc.size());
    if (!r) fail("valid document rejected");
    for (int i = 0; i < 4; i++) { uint64_t v = g.next() >> g.below(40); if (g.chance(70)) roaring64_bitmap_add(r, v); else roaring64_bitmap_remove(r, v); }
    if (g.chance(40)) for (uint64_t i = 0, base = g.next(); i < 60; i++) roaring64_bitmap_add(r, base + (i << g.oneof({16, 24, 32, 40})));
    if (g.chance(30)) roaring64_bitmap_run_optimize(r);
    roaring64_bitmap_shrink_to_fit(r);
    size_t n = roaring64_bitmap_frozen_size_in_bytes(r);
    Ranges want = ranges_of(r);
    char *b = nullptr, *p = nullptr;
    if (posix_memalign((void **)&b, 64, n + 64)) exit(2);
    g_where.op = "frozen64";
    if (roaring64_bitmap_frozen_serialize(r, b) != n) fail("frozen_serialize (64): writes another number of bytes than announced");
    long base = mem_outstanding();
    std::vector<size_t> at = {n, n ? n - 1 : 0, 0, 7, 8, 15, 16};
    for (int i = 0; i < 10; i++) at.push_back(g.below(n + 1));
    for (int i = 0; i < 10; i++) at.push_back(g.below(std::min<size_t>(n, 1500) + 1));
    for (size_t len : at) {
        if (len > n) continue;
        if (posix_memalign((void **)&p, 64, len ? len : 1)) exit(2);
        memcpy(p, b, len);
        roaring64_bitmap_t *v = roaring64_bitmap_frozen_view(p, len);
        if (!v && len == n) fail("frozen_view (64): rejects what frozen_serialize wrote");
        // without a byte of the padding at its end the image still holds every value
        if (v && n - len >= 64) fail("frozen_view (64): accepts an image of %zu bytes truncated to %zu", n, len);
        if (v) {
            const char *why = nullptr;
            if (!roaring64_bitmap_internal_validate(v, &why)) fail("frozen_view (64): invalid: %s", why ? why : "?");
            if (fmt::count(want) < 3000000) same(ranges_of(v), want, "frozen_view (64)");
            if (!roaring64_bitmap_equals(r, v)) fail("frozen_view (64): not equal to what was written");
            roaring64_bitmap_free(v);
        }
        free(p);
        if (mem_outstanding() != base) fail("frozen_view (64): %ld blocks were never returned", mem_outstanding() - base);
    }
    free(b);
    roaring64_bitmap_free(r);
    g_docs++;
}

int main(int argc, char **argv) {
    Args ar = parse(argc, argv);
    signal(SIGALRM, on_alarm);
    if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
    signal(SIGABRT, on_crash); signal(SIGSEGV, on_crash);
    mem_install();
    time_t t0 = time(0);
    // what TLC classified
    FILE *f = ar.script.empty() ? nullptr : fopen(ar.script.c_str(), "r");
    char kind[8], what[16], res[16];
    unsigned long size, len, nv;
    int b = 0;
    while (f && fscanf(f, "%7s %15s %15s %lu %lu", kind, what, res, &size, &len) == 5) {
        Bytes d(len);
        for (auto &x : d) { unsigned v; if (fscanf(f, "%u", &v) != 1) exit(2); x = (uint8_t)v; }
        if (fscanf(f, "%lu", &nv) != 1) exit(2);
        std::string k = kind;
        Ranges v;
        for (size_t i = 0; i < nv; i++) {
            unsigned h1 = 0, h0 = 0, key, lo, hi;
            if ((k == "p64" || k == "fm") && fscanf(f, "%u %u", &h1, &h0) != 2) exit(2);
            if (fscanf(f, "%u %u %u", &key, &lo, &hi) != 3) exit(2);
            uint64_t base = ((uint64_t)h1 << 48) | ((uint64_t)h0 << 32) | ((uint64_t)key << 16);
            v.push_back({base + lo, base + hi});
        }
        int me = b++;
        if (me % ar.stride != ar.start % ar.stride || (ar.only_b >= 0 && me != ar.only_b)) continue;
        std::sort(v.begin(), v.end());
        v = fmt::merged(v);
        Verdict z = fmt::read(k, d.data(), d.size());
        if (strcmp(fmt::NAMES[z.res], res) || z.size != size || z.v != v) {
            printf("the compiled specification disagrees with TLC on %s: %s, size %zu, %s; TLC: %s, size %lu, %s\n", describe(k, d.data(), len).c_str(), fmt::NAMES[z.res],
                   z.size, show(z.v).c_str(), res, size, show(v).c_str());
            return 3;
        }
        g_where.beh = me; g_where.conc = 0; g_where.step = 0;
        Rng g(mix(ar.seed, me));
        alarm(ar.hang);
        judged(k, d, z, g);
        if (!strcmp(what, "written") || !strcmp(what, "allowed")) {
            if (z.res == VALID) {
                prefixes(k, d, g);
                Bytes longer = d;
                for (int i = 0; i < 9; i++) longer.push_back((uint8_t)g.next());
                judged(k, longer, k[0] == 'f' ? fmt::read(k, longer.data(), longer.size()) : z, g);
            }
            if (!strcmp(what, "written") && (z.res == VALID && !z.canonical && k != "own")) { printf("not canonical: %s\n", describe(k, d.data(), len).c_str()); return 3; }
        }
        alarm(0);
    }
    if (f) fclose(f);
    // many more, classified by the compiled specification
    for (int c = ar.start; c < ar.conc; c += ar.stride) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        g_where.beh = -1; g_where.conc = c; g_where.step = 0;
        Rng g(mix(ar.seed * 31 + 5, c));
        alarm(ar.hang);
        if (c % 8 == 3) frozen64(g);
        else if (c % 4 == 3) {
            auto cs = random_conts(g, g.chance(70));
            if (cs.size() > 50) cs.resize(20);
            Bytes d = fmt::encode_frozen(cs);
            int muts = (int)g.oneof({0, 1, 1, 1, 2, 3});
            if (muts) for (int i = 0; i < muts; i++) mutate_frozen(d, cs.size(), g);
            Verdict z = fmt::read("fz", d.data(), d.size());
            if (!muts && z.res != VALID) { printf("an encoded image is %s\n", fmt::NAMES[z.res]); return 3; }
            judged("fz", d, z, g);
            if (muts == 0 && g.chance(30)) prefixes("fz", d, g);
        }
        else {
            std::string k = c % 4 == 0 ? "p64" : g.chance(15) ? "own" : "p32";
            bool small = g.chance(75);
            Bytes d = random_doc(k, g, small);
            int muts = (int)g.oneof({0, 1, 1, 1, 1, 2, 3, 6});
            Bytes orig = d;
            for (int i = 0; i < muts; i++) mutate(d, g);
            judged(k, d, fmt::read(k, d.data(), d.size()), g);
            if (muts == 0 && g.chance(30)) prefixes(k, d, g);
        }
        alarm(0);
        if (ar.budget > 0 && (c & 15) == 0 && time(0) - t0 > ar.budget) break;
    }
    printf("OK behaviours=%llu calls=%llu nops=0\n", (ull)g_docs, (ull)g_docs);
    return 0;
}
