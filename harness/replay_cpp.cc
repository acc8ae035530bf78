// Binding of spec/SetMachine.tla to the C++ classes: -DB64=0 roaring::Roaring, -DB64=1 roaring::Roaring64Map.
#include <memory>
#include <sstream>
#include <utility>

#include "roaring64map.hh"
#include "roaring.hh"

#include "driver.hh"
#include "format.hh"

using roaring::Roaring;
using roaring::Roaring64Map;
#if B64
typedef uint64_t T;
typedef Roaring64Map BM;
#else
typedef uint32_t T;
typedef Roaring BM;
#endif
typedef unsigned long long ull;

struct Backend {
    typedef T value;
    struct Box {
        BM *r = nullptr;
    };
    typedef std::shared_ptr<BM> handle;
    static void destroy(handle &h) { h.reset(); }
    struct Reg { BM *r = nullptr; char *buf = nullptr; };
    Conc<T> &z;
    Rng rng;
    std::vector<Reg> reg;
    std::vector<std::pair<BM *, uint32_t>> extra;
    bool cow = false;
    static u128 universe() { return 0; }

    handle build_template(uint32_t mask, int form) {
        return handle(make(mask, form == 0 ? 4 : form == 1 ? 0 : (int)rng.below(10)));
    }
    Backend(Conc<T> &z_, uint64_t seed, int N) : z(z_), rng(seed), reg(N) {
        for (auto &x : reg) x.r = new BM();
        if (g_cow || rng.chance(35)) enable_cow();
    }
    ~Backend() {
        for (auto &x : reg) drop(x);
        for (auto &x : extra) delete x.first;
    }
    static void drop(Reg &x) { delete x.r; free(x.buf); x.r = nullptr; x.buf = nullptr; }
    void enable_cow() {
        for (auto &x : reg) if (x.buf) return;
        cow = true;
        for (auto &x : reg) x.r->setCopyOnWrite(true);
    }
    void put(int d, BM *r, char *buf = nullptr) {
        if (cow && !buf) r->setCopyOnWrite(true);
        drop(reg[d]);
        reg[d].r = r; reg[d].buf = buf;
    }
    BM &R(int i) { return *reg[i].r; }
    const BM &CR(int i) { return *reg[i].r; }

    // ---- ranges
    static bool fits(u128 x) { return x <= (B64 ? (u128)UINT64_MAX : (u128)1 << 32); }
    void add_closed(BM &r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) r.addRange(lo, (uint64_t)hi + 1);
        else if (B64 && hi <= UINT32_MAX && rng.chance(50)) r.addRangeClosed((uint32_t)lo, (uint32_t)hi);
        else r.addRangeClosed(lo, hi);
    }
    void rem_closed(BM &r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) r.removeRange(lo, (uint64_t)hi + 1);
        else if (B64 && hi <= UINT32_MAX && rng.chance(50)) r.removeRangeClosed((uint32_t)lo, (uint32_t)hi);
        else r.removeRangeClosed(lo, hi);
    }
    void flip_closed(BM &r, T lo, T hi, int k) {
        if (k % 2 == 0 && fits((u128)hi + 1)) r.flip(lo, (uint64_t)hi + 1);
        else if (B64 && hi <= UINT32_MAX && rng.chance(50)) r.flipClosed((uint32_t)lo, (uint32_t)hi);
        else r.flipClosed(lo, hi);
    }
    void add1(BM &r, T x) {
#if B64
        if (x <= UINT32_MAX && rng.chance(50)) { r.add((uint32_t)x); return; }
#endif
        r.add(x);
    }
    void rem1(BM &r, T x) {
#if B64
        if (x <= UINT32_MAX && rng.chance(50)) { r.remove((uint32_t)x); return; }
#endif
        r.remove(x);
    }
    bool has1(const BM &r, T x) {
#if B64
        if (x <= UINT32_MAX && rng.chance(50)) return r.contains((uint32_t)x);
#endif
        return r.contains(x);
    }
    void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]); }
    // ways in which an inner bitmap may be left empty; none may ever be observable
    void hollow(BM &r) {
#if B64
        switch (rng.below(3)) {
            case 0: r.addMany(0, (const uint32_t *)nullptr); break;
            case 1: r.addRangeClosed((uint32_t)9, (uint32_t)3); break;
            default: break;
        }
#endif
    }
    BM *of(const std::vector<T> &v) {
        size_t n = v.size();
        switch (rng.below(n <= 4 ? 5 : 2)) {
            case 0: return new BM(n, v.data());
            case 1: { BM *r = new BM(); r->addMany(n, v.data()); return r; }
            case 2: switch (n) {
                case 0: return new BM{};
                case 1: { BM *r = new BM(); *r = {v[0]}; return r; }
                case 2: return new BM{v[0], v[1]};
                case 3: return new BM{v[0], v[1], v[2]};
                default: return new BM{v[0], v[1], v[2], v[3]};
            }
            case 3: switch (n) {
                case 0: return new BM(BM::bitmapOfList({}));
                case 1: return new BM(BM::bitmapOfList({v[0]}));
                case 2: return new BM(BM::bitmapOfList({v[1], v[0]}));
                case 3: return new BM(BM::bitmapOfList({v[0], v[1], v[2]}));
                default: return new BM(BM::bitmapOfList({v[3], v[1], v[2], v[0]}));
            }
            default: switch (n) {
                case 0: return new BM(BM::bitmapOf(0));
                case 1: return new BM(BM::bitmapOf(1, v[0]));
                case 2: return new BM(BM::bitmapOf(2, v[1], v[0]));
                case 3: return new BM(BM::bitmapOf(3, v[0], v[1], v[2]));
                default: return new BM(BM::bitmapOf(4, v[3], v[1], v[2], v[0]));
            }
        }
    }
    BM *make(uint32_t mask, int how) {
        const std::vector<T> v = z.expand(mask);
        BM *r = nullptr;
        switch (how) {
            case 0: r = of(v); break;
            case 1: case 5: {
                r = new BM();
                if (rng.chance(30)) hollow(*r);
                for (size_t i = 0; i < v.size();) {
                    size_t j = i;
                    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
                    if (how == 1) add_closed(*r, v[i], v[j], (int)rng.below(2));
                    else flip_closed(*r, v[i], v[j], (int)rng.below(2));
                    i = j + 1;
                }
                break;
            }
            case 2: {
                r = new BM();
                for (auto c : z.ranges(0, z.S)) add_closed(*r, c.lo, c.hi, 0);
                std::vector<T> w = z.expand(((1u << (z.S * z.C)) - 1) & ~mask);
                if (rng.chance(50)) shuffle(w);
                for (T x : w) rem1(*r, x);
                break;
            }
            case 3: {
                std::vector<T> w = v;
                shuffle(w);
                r = new BM();
                for (T x : w) add1(*r, x);
                break;
            }
            case 4: {
                r = new BM(v.size(), v.data());
                r->runOptimize();
                break;
            }
            case 6: {
                std::unique_ptr<BM> t(of(v));
                if (rng.chance(50)) t->runOptimize();
                std::vector<char> b(t->getSizeInBytes());
                t->write(b.data());
#if B64
                if (rng.chance(60)) b = with_empties(b);
#endif
                r = new BM(BM::readSafe(b.data(), b.size()));
                break;
            }
            case 7: {
                r = new BM();
                hollow(*r);
                r->addMany(v.size(), v.data());
                if (rng.chance(50)) r->shrinkToFit();
                break;
            }
#if !B64
            case 8: {
                r = new BM();
                roaring::BulkContext c;
                for (T x : v) r->addBulk(c, x);
                break;
            }
            default: {
                roaring_bitmap_t *c = roaring::api::roaring_bitmap_of_ptr(v.size(), v.data());
                r = new BM(c);
            }
#else
            default: {
                if (v.empty() || v.back() <= UINT32_MAX) {
                    std::vector<uint32_t> x(v.begin(), v.end());
                    Roaring q(x.size(), x.data());
                    if (rng.chance(50)) r = new BM(q);
                    else { r = new BM(std::move(q)); q.add(3); if (q.cardinality() != 1) fail("the moved-from 32-bit bitmap is unusable"); }
                } else r = of(v);
            }
#endif
        }
        return r;
    }
    typedef roaring::api::roaring_bitmap_t roaring_bitmap_t;
#if B64
    // the same document with empty 32-bit bitmaps under unused keys
    std::vector<char> with_empties(const std::vector<char> &b) {
        std::map<uint32_t, std::string> parts;
        uint64_t n;
        memcpy(&n, b.data(), 8);
        size_t at = 8;
        for (uint64_t i = 0; i < n; i++) {
            uint32_t key;
            memcpy(&key, &b[at], 4);
            at += 4;
            size_t len = roaring::api::roaring_bitmap_portable_deserialize_size(&b[at], b.size() - at);
            parts[key] = std::string(&b[at], len);
            at += len;
        }
        Roaring e;
        std::string es(e.getSizeInBytes(), 0);
        e.write(&es[0]);
        std::vector<uint32_t> keys;
        for (auto &x : parts) keys.push_back(x.first);
        keys.push_back(0); keys.push_back(UINT32_MAX); keys.push_back((uint32_t)rng.next());
        for (uint32_t k : keys) {
            if (rng.chance(50)) parts.emplace(k, es);
            if (rng.chance(50)) parts.emplace(k + 1, es);
            if (rng.chance(50)) parts.emplace(k - 1, es);
        }
        std::vector<char> out(8);
        n = parts.size();
        memcpy(out.data(), &n, 8);
        for (auto &x : parts) {
            out.insert(out.end(), (const char *)&x.first, (const char *)&x.first + 4);
            out.insert(out.end(), x.second.begin(), x.second.end());
        }
        return out;
    }
#endif
    void setup(int d, uint32_t mask, Templates<Backend> &tpl) {
        put(d, new BM(*tpl.get(*this, mask, (int)rng.below(tpl.FORMS))));
        if (cow && rng.chance(50)) { BM *t = new BM(R(d)); if (rng.chance(50)) delete t; else extra.push_back({t, mask}); }
    }

    static void to_array(const BM &r, T *out) {
#if B64
        r.toUint64Array(out);
#else
        r.toUint32Array(out);
#endif
    }
    struct Vis { std::vector<T> *out; uint64_t limit; };
    static bool visit(T v, void *p) {
        Vis *s = (Vis *)p;
        s->out->push_back(v);
        return s->out->size() < s->limit;
    }
    void validate(const BM &r, const char *what) {
        const char *why = nullptr;
#if B64
        std::vector<char> b(r.getSizeInBytes());
        if (r.write(b.data()) != b.size()) fail("%s: write() and getSizeInBytes() disagree", what);
        uint64_t n;
        memcpy(&n, b.data(), 8);
        size_t at = 8;
        for (uint64_t i = 0; i < n; i++) {
            at += 4;
            size_t len = roaring::api::roaring_bitmap_portable_deserialize_size(&b[at], b.size() - at);
            roaring_bitmap_t *t = len ? roaring::api::roaring_bitmap_portable_deserialize_safe(&b[at], len) : nullptr;
            if (!t) fail("%s: written document is unreadable", what);
            if (!roaring::api::roaring_bitmap_internal_validate(t, &why)) fail("%s fails internal validation: %s", what, why ? why : "?");
            roaring::api::roaring_bitmap_free(t);
            at += len;
        }
#else
        if (!roaring::api::roaring_bitmap_internal_validate(&r.roaring, &why)) fail("%s fails internal validation: %s", what, why ? why : "?");
#endif
    }
    void verify(int i, uint32_t mask, bool deep) {
        const BM &r = CR(i);
        const std::vector<T> &w = z.expand(mask);
        uint64_t n = r.cardinality();
        if (n != w.size()) fail("register %d holds %llu values, expected %zu", i, (ull)n, w.size());
        if (r.isEmpty() != w.empty()) fail("isEmpty answered %d", r.isEmpty());
        if (deep && rng.chance(40)) validate(r, "register");
        std::vector<T> got(n);
        unsigned how = deep ? (unsigned)rng.below(8) : 0;
        if (how <= 3) { to_array(r, got.data()); check_list(w, got.data(), n, "content"); return; }
        got.clear();
        got.reserve(n);
        if (how == 4) {
            Vis s{&got, UINT64_MAX};
            r.iterate(visit, &s);
        } else if (how == 5) {
            auto it = r.end();
            bool post = rng.chance(50);
            for (size_t j = 0; j < n; j++) {
                if (post) it--; else --it;
                got.push_back(*it);
            }
            if (n && !(it == r.begin())) fail("walking back does not arrive at begin()");
            std::reverse(got.begin(), got.end());
        } else if (how == 6) {
            for (T v : r) got.push_back(v);
        } else {
            for (auto it = r.begin(); it != r.end(); it++) got.push_back(*it);
        }
        check_list(w, got.data(), got.size(), "content by iterator");
        if (w.size() <= 200 && deep) {
            std::ostringstream o;
            o << "{";
            for (size_t j = 0; j < w.size(); j++) o << (j ? "," : "") << (uint64_t)w[j];
            o << "}";
            if (r.toString() != o.str()) fail("toString() is %.200s", r.toString().c_str());
            if (rng.chance(20)) {
                std::string got = printed([&] { r.printf(); });
                if (got != o.str() + (B64 ? "\n" : "")) fail("printf() prints %.200s", got.c_str());
            }
        }
    }

    // ---- answers
    void want_bool(const Ev &e, bool got) { if ((e.rv[0] != 0) != got) fail("answered %d, expected %u", got, e.rv[0]); }
    void want_num(uint64_t want, uint64_t got, const char *what) { if (want != got) fail("%s: answered %llu, expected %llu", what, (ull)got, (ull)want); }
    uint64_t ncard(const Ev &e, int i = 0) { return z.cnt(e.rv[i]); }
    std::vector<std::pair<T, bool>> probes(uint32_t m, uint32_t v) {
        std::vector<std::pair<T, bool>> p;
        for (int a = 0; a < z.S * z.C; a++) {
            if (!(m >> a & 1)) continue;
            bool in = v >> a & 1;
            const std::vector<T> &x = z.expand(1u << a);
            if (x.size() <= 40) for (T t : x) p.push_back({t, in});
            else {
                for (int i = 0; i < 30; i++) p.push_back({x[rng.below(x.size())], in});
                p.push_back({x.front(), in});
                p.push_back({x.back(), in});
            }
        }
        for (int s = 0; s <= z.S; s++) {
            u128 lo = s ? (u128)z.seg[s - 1].hi + 1 : 0, hi = s < z.S ? (u128)z.seg[s].lo : z.U;
            if (lo < hi) { p.push_back({(T)lo, false}); p.push_back({(T)(hi - 1), false}); }
        }
        return p;
    }

    // hash of the serialized bytes
    uint64_t content(int) { return 0; }
    void refusals(const Ev &) {}
    uint64_t bytes(int d) {
        std::vector<char> b(R(d).getSizeInBytes());
        size_t n = R(d).write(b.data());
        if (n != b.size()) fail("wrote %zu bytes, announced %zu", n, b.size());
        return fnv(b.data(), n);
    }
    // copies taken along the way must still hold what they were taken from
    void finish() {
        for (auto &x : extra) {
            const std::vector<T> &w = z.expand(x.second);
            uint64_t n = x.first->cardinality();
            if (n != w.size()) fail("a copy taken earlier now holds %llu values, expected %zu", (ull)n, w.size());
            std::vector<T> got(n);
            to_array(*x.first, got.data());
            check_list(w, got.data(), n, "a copy taken earlier");
        }
    }
    void snapshot(int d, uint32_t mask) {
        if (extra.size() < 6 && rng.chance(cow ? 15 : 4)) extra.push_back({new BM(R(d)), mask});
        else if (!extra.empty() && rng.chance(6)) {  // one of them goes away
            size_t i = rng.below(extra.size());
            delete extra[i].first;
            extra.erase(extra.begin() + i);
        }
    }

    void exec(const Ev &e) {
        const std::string &op = e.op;
        const int d = e.d, a = e.a, b = e.b, k = e.k;
        if (op == "and") put(d, new BM(CR(a) & CR(b)));
        else if (op == "or") put(d, new BM(CR(a) | CR(b)));
        else if (op == "xor") put(d, new BM(CR(a) ^ CR(b)));
        else if (op == "andnot") put(d, new BM(CR(a) - CR(b)));
        else if (op == "iand") { if (&(R(d) &= CR(b)) != &R(d)) fail("&= does not return its object"); }
        else if (op == "ior") { if (&(R(d) |= CR(b)) != &R(d)) fail("|= does not return its object"); }
        else if (op == "ixor") { if (&(R(d) ^= CR(b)) != &R(d)) fail("^= does not return its object"); }
        else if (op == "iandnot") { if (&(R(d) -= CR(b)) != &R(d)) fail("-= does not return its object"); }
        else if (op == "iflip" || op == "flip") {
            if (op == "flip") put(d, new BM(CR(a)));
            auto rs = z.ranges(e.p, e.q);
            if (rs.empty() && fits(z.start(e.p)) && fits(z.start(e.q))) R(d).flip((uint64_t)z.start(e.p), (uint64_t)z.start(e.q));
            for (auto c : rs) flip_closed(R(d), c.lo, c.hi, k);
        } else if (op == "orm") {
            std::vector<const BM *> v;
            std::vector<std::unique_ptr<BM>> own;
            uint64_t total = 0;
            for (int x : e.l) { total += reg[x].r->cardinality(); v.push_back(reg[x].r); }
            if (total <= 20000 && rng.chance(35)) {   // the same, in pieces
                const size_t most = (size_t)rng.oneof({2, 4, 8, 20});
                v.clear();
                for (int x : e.l) {
                    std::vector<T> all(reg[x].r->cardinality());
#if B64
                    reg[x].r->toUint64Array(all.data());
#else
                    reg[x].r->toUint32Array(all.data());
#endif
                    const size_t n = 1 + rng.below(most), len = (size_t)rng.oneof({1, 3, 50, 3000});
                    std::vector<std::vector<T>> part(n);
                    for (size_t i = 0; i < all.size(); i += len)
                        for (int t = rng.chance(30) ? 2 : 1; t > 0; t--) {
                            auto &w = part[rng.below(n)];
                            w.insert(w.end(), all.begin() + i, all.begin() + std::min(all.size(), i + len));
                        }
                    for (auto &w : part) {
                        own.emplace_back(new BM(w.size(), w.data()));
                        if (rng.chance(40)) own.back()->runOptimize();
                        if (cow) own.back()->setCopyOnWrite(true);
                        v.push_back(own.back().get());
                    }
                }
                for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng.below(i)]);
            }
            put(d, new BM(BM::fastunion(v.size(), v.data())));
        }
        else if (op == "eq") want_bool(e, CR(a) == CR(b));
        else if (op == "sub") want_bool(e, CR(a).isSubset(CR(b)));
        else if (op == "ssub") want_bool(e, CR(a).isStrictSubset(CR(b)));
#if !B64
        else if (op == "isect") want_bool(e, CR(a).intersect(CR(b)));
        else if (op == "cand") want_num(ncard(e), CR(a).and_cardinality(CR(b)), "cardinality");
        else if (op == "cor") want_num(ncard(e), CR(a).or_cardinality(CR(b)), "cardinality");
        else if (op == "cxor") want_num(ncard(e), CR(a).xor_cardinality(CR(b)), "cardinality");
        else if (op == "candnot") want_num(ncard(e), CR(a).andnot_cardinality(CR(b)), "cardinality");
        else if (op == "jac") {
            double x = (double)ncard(e, 0), y = (double)ncard(e, 1), g = CR(a).jaccard_index(CR(b));
            if (!(g >= x / y - 1e-12 && g <= x / y + 1e-12)) fail("jaccard index %.17g, expected %.17g", g, x / y);
        }
#endif
        else if (op == "addA") {
            const std::vector<T> v = z.expand(e.m);
            uint64_t fresh = ncard(e), got = 0;
            std::vector<T> w = v;
            if (k == 3 || k == 5 || (k == 1 && rng.chance(50))) shuffle(w);
            switch (k) {
                case 0: case 3: for (T x : w) add1(R(d), x); break;
                case 1: {
                    for (T x : w) {
#if B64
                        if (x <= UINT32_MAX && rng.chance(50)) { got += R(d).addChecked((uint32_t)x); continue; }
#endif
                        got += R(d).addChecked(x);
                    }
                    want_num(fresh, got, "number of values reported as new");
                    break;
                }
#if !B64
                case 4: {
                    roaring::BulkContext c;
                    for (T x : w) {
                        R(d).addBulk(c, x);
                        if (rng.below(64) == 0) { T y = w[rng.below(w.size())]; if (R(d).containsBulk(c, y) != R(d).contains(y)) fail("containsBulk disagrees with contains"); }
                        if (rng.below(300) == 0) { roaring::BulkContext c2(std::move(c)); c = std::move(c2); }
                    }
                    break;
                }
#endif
                default: {
#if B64
                    if (!w.empty() && *std::max_element(w.begin(), w.end()) <= UINT32_MAX && rng.chance(50)) {
                        std::vector<uint32_t> x(w.begin(), w.end());
                        R(d).addMany(x.size(), x.data());
                        break;
                    }
#endif
                    R(d).addMany(w.size(), w.data());
                }
            }
        } else if (op == "remA") {
            std::vector<T> w = z.expand(e.m);
            uint64_t there = ncard(e), got = 0;
            if (k & 1) shuffle(w);
            if (k <= 2) for (T x : w) rem1(R(d), x);
            else {
                for (T x : w) {
#if B64
                    if (x <= UINT32_MAX && rng.chance(50)) { got += R(d).removeChecked((uint32_t)x); continue; }
#endif
                    got += R(d).removeChecked(x);
                }
                want_num(there, got, "number of values reported as removed");
            }
        } else if (op == "addR") {
            auto rs = z.ranges(e.p, e.q);
            if (rs.empty() && fits(z.start(e.p)) && fits(z.start(e.q))) R(d).addRange((uint64_t)z.start(e.p), (uint64_t)z.start(e.q));
            for (auto c : rs) add_closed(R(d), c.lo, c.hi, k);
        } else if (op == "remR") {
            if (e.p >= e.q) { if (fits(z.start(e.p)) && fits(z.start(e.q))) R(d).removeRange((uint64_t)z.start(e.p), (uint64_t)z.start(e.q)); }
            else { u128 lo = z.jitter(e.p, rng), hi = z.jitter(e.q, rng); if (lo < hi) rem_closed(R(d), (T)lo, (T)(hi - 1), k); }
        } else if (op == "clear") R(d).clear();
        else if (op == "new") put(d, new BM());
        else if (op == "ofA") put(d, of(z.expand(e.m)));
        else if (op == "build") put(d, make(e.m, (int)rng.below(10)));
        else if (op == "copy") put(d, new BM(CR(a)));
        else if (op == "assign") {
            switch (a == d ? 0 : k % 4) {
                case 0: { BM &x = R(d) = CR(a); if (&x != &R(d)) fail("= does not return its object"); break; }
                case 1: { BM t(CR(a)); R(d) = std::move(t); t.add((T)11); if (t.cardinality() != 1 || !t.contains((T)11)) fail("a moved-from bitmap is not usable"); break; }
                case 2: { BM t; t = CR(a); R(d).swap(t); break; }
                default: R(d) = BM(CR(a));
            }
        } else if (op == "move") {
            if (k % 2) R(d) = std::move(R(a));
            else put(d, new BM(std::move(R(a))));
            if (cow) R(a).setCopyOnWrite(true);
        } else if (op == "swap") {
            if (k % 2) R(d).swap(R(a));
            else std::swap(R(d), R(a));
        }
        else if (op == "has") {
            auto p = probes(e.rv[0], e.rv[1]);
            if (k % 3 == 2) for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rng.below(i)]);
#if !B64
            roaring::BulkContext c;
#endif
            for (auto &x : p) {
                bool g;
#if !B64
                if (k % 3) g = CR(a).containsBulk(c, x.first);
                else
#endif
                    g = has1(CR(a), x.first);
                if (g != x.second) fail("contains(%llx) answered %d", (ull)x.first, g);
            }
        }
#if !B64
        else if (op == "hasR") {
            bool got = true;
            if (e.p >= e.q) { if (fits(z.start(e.p)) && fits(z.start(e.q))) got = CR(a).containsRange((uint64_t)z.start(e.p), (uint64_t)z.start(e.q)); }
            else
                for (auto c : z.ranges(e.p, e.q))
                    got = (k % 2 ? CR(a).containsRangeClosed(c.lo, c.hi) : CR(a).containsRange(c.lo, (uint64_t)c.hi + 1)) && got;
            want_bool(e, got);
            const std::vector<T> &v = z.expand(e.post[a].mask);
            for (int n = 0; n < 6 && !v.empty(); n++) {   // and from anywhere to anywhere
                size_t i = rng.below(v.size()), j = i + (rng.chance(50) ? rng.below(v.size() - i) : rng.below(std::min<size_t>(v.size() - i, 6)));
                T lo = v[i], hi = v[j];
                if (lo && rng.chance(25)) lo--;
                if (hi != (T)~(T)0 && rng.chance(25)) hi++;
                uint64_t have = (uint64_t)(std::upper_bound(v.begin(), v.end(), hi) - std::lower_bound(v.begin(), v.end(), lo));
                bool full = n % 2 ? CR(a).containsRangeClosed(lo, hi) : CR(a).containsRange(lo, (uint64_t)hi + 1);
                if (full != (have == (uint64_t)(hi - lo) + 1)) fail("of [%llx,%llx], %llu values are there: all: %d", (ull)lo, (ull)hi, (ull)have, full);
            }
        } else if (op == "rankM") {
            std::vector<T> q;
            std::vector<uint64_t> w;
            for (int i = 0; i <= z.S; i++) {
                u128 x = z.jitter(i, rng);
                if (x == 0) continue;
                uint64_t c = ncard(e, i);
                for (int t = 0; t < (int)rng.below(3); t++) { q.push_back((T)(x - 1)); w.push_back(c); }
            }
            std::vector<uint64_t> g(q.size(), 0xdeadbeefdeadbeefull);
            if (std::is_sorted(q.begin(), q.end())) {
                CR(a).rank_many(q.data(), q.data() + q.size(), g.data());
                for (size_t i = 0; i < q.size(); i++)
                    if (g[i] != w[i]) fail("rank_many #%zu (value %llx): answered %llu, expected %llu", i, (ull)q[i], (ull)g[i], (ull)w[i]);
            }
        } else if (op == "page") {
            size_t off = z.cnt(e.rv[0]), lim = z.cnt(e.rv[1]);
            std::vector<T> g(lim);
            CR(a).rangeUint32Array(g.data(), off, lim);
            check_list(z.expand(e.rv[1]), g.data(), g.size(), "page");
        }
#endif
        else if (op == "rank") {
            u128 x = z.jitter(e.p, rng);
            if (x == 0) return;
            want_num(ncard(e), CR(a).rank((T)(x - 1)), "rank");
        } else if (op == "sel") {
            const std::vector<T> &v = z.expand(e.post[a].mask);
            uint64_t n = std::lower_bound(v.begin(), v.end(), z.start(e.p), [](T x, u128 y) { return (u128)x < y; }) - v.begin();
            T got = 0;
            bool has = e.rv[0] != 0;
            T want = has ? z.expand(e.rv[0]).front() : 0;
            bool g = CR(a).select((T)n, &got);
            if (g != has || (has && got != want)) fail("select(%llu) answered %d %llx, expected %d %llx", (ull)n, g, (ull)got, has, (ull)want);
            if (!has && CR(a).select((T)(n + 1 + rng.below(1000)), &got)) fail("select past the end answered true");
        } else if (op == "selp") {
            const std::vector<T> &v = z.expand(e.post[a].mask);
            uint64_t n = std::lower_bound(v.begin(), v.end(), z.start(e.p), [](T x, u128 y) { return (u128)x < y; }) - v.begin();
            T got = 0, want = z.expand(e.rv[0]).back();
            if (!CR(a).select((T)(n - 1), &got) || got != want) fail("select(%llu) answered %llx, expected %llx", (ull)n - 1, (ull)got, (ull)want);
        } else if (op == "idx") {
            const std::vector<T> at = z.expand(e.rv[0]);
            if (e.rk == "absent") {
                T x = e.rv[1] ? at.back() : at.front();
                if (CR(a).getIndex(x) != -1) fail("getIndex(%llx) of an absent value answered %lld", (ull)x, (long long)CR(a).getIndex(x));
            } else {
                T x = e.rv[2] ? at.back() : at.front();
                const std::vector<T> &v = z.expand(e.rv[1]);
                uint64_t w = std::lower_bound(v.begin(), v.end(), x) - v.begin();
                want_num(w, (uint64_t)CR(a).getIndex(x), "getIndex");
                want_num(w + 1, CR(a).rank(x), "rank of a present value");
            }
        } else if (op == "min") want_num(e.rv[0] ? z.expand(e.rv[0]).front() : (T)~(T)0, CR(a).minimum(), "minimum");
        else if (op == "max") want_num(e.rv[0] ? z.expand(e.rv[0]).back() : 0, CR(a).maximum(), "maximum");
        else if (op == "empty") { want_bool(e, CR(a).isEmpty()); if (CR(a).isFull()) fail("isFull answered true"); }
        else if (op == "card") want_num(ncard(e), CR(a).cardinality(), "cardinality");
        else if (op == "arr") {
            std::vector<T> g(ncard(e));
            to_array(CR(a), g.data());
            check_list(z.expand(e.rv[0]), g.data(), g.size(), "array");
        } else if (op == "iter") {
            uint64_t lim = std::max<uint64_t>(1, z.cnt(e.rv[0]));
            const std::vector<T> &w = z.expand(e.rv[1]);
            std::vector<T> got;
            Vis s{&got, lim};
            CR(a).iterate(visit, &s);
            size_t n = std::min<size_t>(lim, w.size());
            if (got.size() != n || (n && memcmp(got.data(), w.data(), n * sizeof(T)))) fail("callback iteration delivered %zu values or wrong ones, expected %zu", got.size(), n);
        } else if (op == "walk") walk(e);
        else if (op == "opt") R(d).runOptimize();
        else if (op == "unopt") R(d).removeRunCompression();
        else if (op == "shrink") R(d).shrinkToFit();
        else if (op == "cow") { if (k % 3 == 0) enable_cow(); if (R(d).getCopyOnWrite() != (cow && !reg[d].buf)) fail("the copy-on-write flag is wrong"); }
        else if (op == "ser" || op == "view") serial(e);
        else { fprintf(stderr, "unsupported call %s\n", op.c_str()); exit(2); }
    }

    // a cursor over the sorted sequence: seek, steps in both directions, comparisons
    void walk(const Ev &e) {
        const std::vector<T> from = z.expand(e.rv[0]), below = z.expand(e.rv[1]);
        u128 x = z.jitter(e.p, rng);
        if (x >= (B64 ? (u128)1 << 64 : (u128)1 << 32)) return;
        const BM &r = CR(e.a);
        auto it = r.begin();
        const auto first = r.begin(), end = r.end();
        if (rng.chance(30)) it = r.end();
        else for (int i = (int)rng.below(4); i > 0 && it != end; i--) ++it;
        // 32-bit seeks only at or after the current position are documented for 64-bit C iterators; these classes seek freely
        bool g = it.move_equalorlarger((T)x);
        if (g != !from.empty()) fail("seek answered %d", g);
        auto at_end = [&](const decltype(it) &i) { return i == end; };
        if (from.empty() != at_end(it)) fail("seek: at the end %d", at_end(it));
        if (!from.empty() && *it != from[0]) fail("seek: at %llx, expected %llx", (ull)*it, (ull)from[0]);
        // ordering against begin and end
        bool any = !from.empty() || !below.empty();
        auto pos = it;
        if ((pos == first) != (below.empty())) { if (any || !(pos == first)) fail("seek result compared equal to begin(): %d", pos == first); }
        if ((pos != end) != !from.empty() || (end != pos) != !from.empty() || (end == pos) != from.empty()) fail("comparison with end() is wrong");
        if ((pos < end) != !from.empty() || (end > pos) != !from.empty() || !(pos <= end) || !(end >= pos)) fail("ordering against end() is wrong");
        if ((first < pos) != !below.empty() || !(first <= pos) || (pos > first) != !below.empty() || !(pos >= first)) fail("ordering against begin() is wrong");
        // backward
        size_t lim = std::min<size_t>(below.size(), 300);
        auto bk = it;
        for (size_t i = 0; i < lim; i++) {
            T want = below[below.size() - 1 - i];
            if (rng.chance(50)) {
                auto old = bk--;
                if (i + from.size() > 0 && !(i == 0 && from.empty()) && *old != (i ? below[below.size() - i] : from[0])) fail("postfix -- returned %llx", (ull)*old);
            } else if (&--bk != &bk) fail("-- does not return its object");
            if (*bk != want) fail("stepping back %zu: at %llx, expected %llx", i + 1, (ull)*bk, (ull)want);
        }
        for (size_t i = lim; i > 0; i--) {  // and forth again
            ++bk;
            if (i > 1) { if (*bk != below[below.size() - i + 1]) fail("stepping forth again: at %llx", (ull)*bk); }
            else if (!(bk == it)) fail("stepping forth again does not arrive where it started");
        }
        for (size_t i = 1; i <= std::min<size_t>(from.size(), 300); i++) {
            if (rng.chance(50)) { auto old = it++; if (*old != from[i - 1]) fail("postfix ++ returned %llx", (ull)*old); }
            else if (&++it != &it) fail("++ does not return its object");
            if (at_end(it) != (i == from.size())) fail("stepping forward %zu of %zu: at the end %d", i, from.size(), at_end(it));
            if (i < from.size() && *it != from[i]) fail("stepping forward %zu: at %llx, expected %llx", i, (ull)*it, (ull)from[i]);
        }
        if (at_end(it) && any) { --it; T want = from.empty() ? below.back() : from.back(); if (*it != want) fail("stepping back from the end: at %llx, expected %llx", (ull)*it, (ull)want); }
    }

    void serial(const Ev &e) {
        const BM &src = CR(e.a);
        const bool view = e.op == "view" && !cow;
        const size_t GUARD = 64;
        int fmt = view ? 3 + e.k % 2 : e.k % 5;  // 0 portable/safe 1 portable 2 native 3 frozen 4 portable view
        size_t n = fmt == 3 ? src.getFrozenSizeInBytes() : src.getSizeInBytes(fmt != 2);
        char *buf = nullptr;
        if (posix_memalign((void **)&buf, 64, n + GUARD)) exit(2);
        memset(buf, 0x3c, n + GUARD);
        size_t wr = n;
        if (fmt == 3) src.writeFrozen(buf);
        else wr = src.write(buf, fmt != 2);
        if (wr != n) fail("wrote %zu bytes, announced %zu", wr, n);
        for (size_t i = 0; i < GUARD; i++) if (buf[n + i] != 0x3c) fail("byte %zu beyond the announced size was written", i);
        {   // what was written is the document of these values (spec/Format.tla)
            std::string why;
            const std::vector<T> vals = z.expand(e.post[e.d].mask);
#if B64
            if (fmt != 3 && fmt != 2) why = fmt::written("p64", buf, n, vals, true);
            else if (fmt == 3) why = fmt::written("fm", buf, n, vals);
#else
            if (fmt != 3 && fmt != 2) why = fmt::written("p32", buf, n, vals);
            else if (fmt == 3) why = fmt::written("fz", buf, n, vals);
            else if (!vals.empty()) why = fmt::written("own", buf, n, vals);
#endif
            if (!why.empty()) fail("%s", why.c_str());
        }
        char *ex = nullptr;
        if (posix_memalign((void **)&ex, 64, n ? n : 1)) exit(2);
        memcpy(ex, buf, n);
        free(buf);
        BM *r = nullptr;
        if (fmt == 0) {
            size_t cut = n ? rng.below(n) : 0;
            if (rng.chance(30) && n) cut = n - 1;
            if (n) {
                char *p = (char *)malloc(cut ? cut : 1);
                memcpy(p, ex, cut);
                bool threw = false;
                try { BM t = BM::readSafe(p, cut); } catch (const std::exception &) { threw = true; }
                free(p);
                if (!threw) fail("readSafe accepted a document truncated to %zu of %zu bytes", cut, n);
            }
            r = new BM(BM::readSafe(ex, n));
        } else if (fmt == 1) r = new BM(BM::read(ex));
        else if (fmt == 2) r = new BM(BM::read(ex, false));
        else {
#if B64
            BM *v = fmt == 3 ? new BM(BM::frozenView(ex)) : new BM(BM::portableDeserializeFrozen(ex));
#else
            BM *v = fmt == 3 ? new BM(BM::frozenView(ex, n)) : new BM(BM::portableDeserializeFrozen(ex));
#endif
            if (view) { put(e.d, v, ex); return; }
            if (!(*v == src) || !(src == *v)) fail("view differs from its source");
            r = new BM(*v);
            delete v;
        }
        memset(ex, 0xee, n);
        free(ex);
        put(e.d, r);
    }
};

int main(int argc, char **argv) { return drive<T, Backend>(argc, argv); }
