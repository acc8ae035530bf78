// A compiled form of spec/Format.tla.  replay_format checks it against the verdicts TLC computes from the specification.
#pragma once
#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <string>
#include <utility>
#include <vector>

namespace fmt {
typedef std::vector<uint8_t> Bytes;
typedef std::vector<std::pair<uint64_t, uint64_t>> Ranges;   // closed
enum Res { SHORT, BAD, INVALID, LOOSE, VALID };
static const char *const NAMES[] = {"short", "bad", "invalid", "loose", "valid"};
struct Verdict { Res res; size_t size = 0; Ranges v; bool canonical = false; };
struct Cont { uint16_t key; char kind; Ranges s; };   // s: pairs as in Format.tla

inline void le(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
inline uint64_t rd(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
inline uint64_t count(const Ranges &r) { uint64_t n = 0; for (auto &x : r) n += x.second - x.first + 1; return n; }
inline Ranges merged(const Ranges &r) {
    Ranges o;
    for (auto &x : r) {
        if (!o.empty() && x.first <= o.back().second + 1 && o.back().second != UINT64_MAX) o.back().second = std::max(o.back().second, x.second);
        else o.push_back(x);
    }
    return o;
}
inline size_t payload_size(const Cont &c) { return c.kind == 'a' ? 2 * c.s.size() : c.kind == 'r' ? 2 + 4 * c.s.size() : 8192; }
inline void payload(Bytes &b, const Cont &c) {
    if (c.kind == 'a') for (auto &x : c.s) le(b, x.first, 2);
    else if (c.kind == 'r') { le(b, c.s.size(), 2); for (auto &x : c.s) { le(b, x.first, 2); le(b, x.second - x.first, 2); } }
    else {
        size_t at = b.size();
        b.resize(at + 8192);
        for (auto &x : c.s) for (uint64_t v = x.first; v <= x.second; v++) b[at + v / 8] |= 1 << (v % 8);
    }
}
inline bool has_run(const std::vector<Cont> &cs) { for (auto &c : cs) if (c.kind == 'r') return true; return false; }
inline Bytes encode(const std::vector<Cont> &cs, bool run) {
    Bytes b;
    size_t n = cs.size();
    if (run) {
        le(b, 12347, 2); le(b, n - 1, 2);
        Bytes f((n + 7) / 8);
        for (size_t i = 0; i < n; i++) if (cs[i].kind == 'r') f[i / 8] |= 1 << (i % 8);
        b.insert(b.end(), f.begin(), f.end());
    } else { le(b, 12346, 4); le(b, n, 4); }
    for (auto &c : cs) { le(b, c.key, 2); le(b, count(c.s) - 1, 2); }
    if (!run || n >= 4) {
        size_t at = b.size() + 4 * n;
        for (auto &c : cs) { le(b, at, 4); at += payload_size(c); }
    }
    for (auto &c : cs) payload(b, c);
    return b;
}
inline Bytes encode(const std::vector<Cont> &cs) { return encode(cs, has_run(cs)); }

// d: the string, len its length; values are offset by base
inline Verdict decode(const uint8_t *d, size_t len, uint64_t base = 0) {
    auto no = [](Res r) { Verdict v; v.res = r; return v; };
    if (len < 4) return no(SHORT);
    bool run = rd(d, 2) == 12347, plain = rd(d, 4) == 12346;
    if (!run && !plain) return no(BAD);
    if (plain && len < 8) return no(SHORT);
    uint64_t n = run ? rd(d + 2, 2) + 1 : rd(d + 4, 4);
    if (n > 65536) return no(BAD);
    size_t flags = run ? 4 : 8, desc = flags + (run ? (n + 7) / 8 : 0);
    bool offs = !run || n >= 4;
    size_t body = desc + 4 * n + (offs ? 4 * n : 0);
    if (len < body) return no(SHORT);
    Verdict z;
    int good = run && n % 8 && d[flags + (n - 1) / 8] >> (n % 8) ? 1 : 2;
    size_t p = body;
    bool anyrun = false;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t key = rd(d + desc + 4 * i, 2), card = rd(d + desc + 4 * i + 2, 2) + 1, b = base + (key << 16);
        if (i && key <= rd(d + desc + 4 * i - 4, 2)) good = 0;
        if (offs && rd(d + desc + 4 * n + 4 * i, 4) != p) good = std::min(good, 1);
        if (run && d[flags + i / 8] >> (i % 8) & 1) {
            anyrun = true;
            if (len - p < 2) return no(SHORT);
            uint64_t r = rd(d + p, 2), sum = 0, last = 0;
            if (len - p < 2 + 4 * r) return no(SHORT);
            if (!r) good = 0;
            for (uint64_t j = 0; j < r; j++) {
                uint64_t a = rd(d + p + 2 + 4 * j, 2), e = a + rd(d + p + 4 + 4 * j, 2);
                if (e > 65535 || (j && a <= last)) good = 0;
                else if (j && a == last + 1) good = std::min(good, 1);
                sum += e - a + 1;
                last = e;
                z.v.push_back({b + a, b + e});
            }
            if (sum != card) good = std::min(good, 1);
            p += 2 + 4 * r;
        } else if (card <= 4096) {
            if (len - p < 2 * card) return no(SHORT);
            for (uint64_t j = 0; j < card; j++) {
                uint64_t a = rd(d + p + 2 * j, 2);
                if (j && a <= rd(d + p + 2 * j - 2, 2)) good = 0;
                z.v.push_back({b + a, b + a});
            }
            p += 2 * card;
        } else {
            if (len - p < 8192) return no(SHORT);
            uint64_t sum = 0;
            for (uint64_t v = 0; v < 65536; v++)
                if (d[p + v / 8] >> (v % 8) & 1) {
                    sum++;
                    if (v && !z.v.empty() && z.v.back().second == b + v - 1 && (d[p + (v - 1) / 8] >> ((v - 1) % 8) & 1)) z.v.back().second++;
                    else z.v.push_back({b + v, b + v});
                }
            if (sum != card) good = 0;
            p += 8192;
        }
    }
    z.res = (Res)(INVALID + good);
    z.size = p;
    if (!good) z.v.clear();
    else z.v = merged(z.v);
    // what a writer produces: the cookie without run flags when there is no run container
    z.canonical = good == 2 && (!run || anyrun);
    return z;
}
inline Verdict decode64(const uint8_t *d, size_t len) {
    Verdict z;
    z.res = SHORT;
    if (len < 8) return z;
    uint64_t n = rd(d, 8);
    if (n >> 32) { z.res = BAD; return z; }
    size_t p = 8;
    int good = 2;
    bool canon = true;
    uint64_t prev = 0;
    Ranges v;
    for (uint64_t i = 0; i < n; i++) {
        if (len - p < 4) return z;
        uint64_t high = rd(d + p, 4);
        p += 4;
        Verdict c = decode(d + p, len - p, high << 32);
        if (c.res <= BAD) { z.res = c.res; return z; }
        good = std::min(good, c.res - INVALID);
        canon = canon && c.canonical;
        if (i && high <= prev) good = 0;
        if (c.v.empty()) good = std::min(good, 1);
        prev = high;
        v.insert(v.end(), c.v.begin(), c.v.end());
        p += c.size;
    }
    z.res = (Res)(INVALID + good);
    z.size = p;
    if (good) z.v = merged(v);
    z.canonical = canon && good == 2;
    return z;
}
inline Verdict decode_own(const uint8_t *d, size_t len) {
    Verdict z;
    z.res = SHORT;
    if (len < 1) return z;
    if (d[0] == 2) { z = decode(d + 1, len - 1); if (z.size) z.size++; return z; }
    if (d[0] != 1) { z.res = BAD; return z; }
    if (len < 5) return z;
    uint64_t n = rd(d + 1, 4);
    if ((len - 5) / 4 < n) return z;
    std::vector<uint64_t> v;
    for (uint64_t i = 0; i < n; i++) v.push_back(rd(d + 5 + 4 * i, 4));
    std::sort(v.begin(), v.end());
    for (uint64_t x : v) z.v.push_back({x, x});
    z.v = merged(z.v);
    z.res = n ? VALID : LOOSE;
    z.size = 5 + 4 * n;
    return z;
}
// the zero-copy image
inline Bytes encode_frozen(const std::vector<Cont> &cs) {
    Bytes b;
    for (char k : {'b', 'r', 'a'})
        for (auto &c : cs) if (c.kind == k) { Bytes p; payload(p, c); b.insert(b.end(), p.begin() + (k == 'r' ? 2 : 0), p.end()); }
    for (auto &c : cs) le(b, c.key, 2);
    for (auto &c : cs) le(b, c.kind == 'r' ? c.s.size() : count(c.s) - 1, 2);
    for (auto &c : cs) b.push_back(c.kind == 'b' ? 1 : c.kind == 'a' ? 2 : 3);
    le(b, cs.size() << 15 | 13766, 4);
    return b;
}
inline Verdict decode_frozen(const uint8_t *d, size_t len) {
    Verdict z;
    z.res = SHORT;
    if (len < 4) return z;
    uint64_t head = rd(d + len - 4, 4), n = head >> 15;
    if ((head & 32767) != 13766) { z.res = BAD; return z; }
    if (len - 4 < 5 * n) return z;
    size_t dir = len - 4 - 5 * n, zone[4] = {0, 0, 0, 0};
    auto cnt = [&](size_t i) { return rd(d + dir + 2 * n + 2 * i, 2); };
    const uint8_t *code = d + dir + 4 * n;
    auto size = [&](size_t i) -> size_t { return code[i] == 1 ? 8192 : code[i] == 2 ? 2 * (cnt(i) + 1) : 4 * cnt(i); };
    for (size_t i = 0; i < n; i++) {
        if (code[i] < 1 || code[i] > 3) { z.res = BAD; return z; }
        zone[code[i]] += size(i);
    }
    if (zone[1] + zone[2] + zone[3] != dir) return z;
    size_t at[4] = {0, 0, zone[1] + zone[3], zone[1]};
    int good = 2;
    for (size_t i = 0; i < n; i++) {
        const uint8_t *p = d + at[code[i]];
        uint64_t key = rd(d + dir + 2 * i, 2), b = key << 16, c = cnt(i);
        if (i && key <= rd(d + dir + 2 * i - 2, 2)) good = 0;
        if (code[i] == 1) {
            uint64_t sum = 0;
            for (uint64_t v = 0; v < 65536; v++) if (p[v / 8] >> (v % 8) & 1) { sum++; z.v.push_back({b + v, b + v}); }
            if (sum != c + 1) good = 0;
            else if (c < 4096) good = std::min(good, 1);
        } else if (code[i] == 2) {
            for (uint64_t j = 0; j <= c; j++) {
                uint64_t a = rd(p + 2 * j, 2);
                if (j && a <= rd(p + 2 * j - 2, 2)) good = 0;
                z.v.push_back({b + a, b + a});
            }
            if (c >= 4096) good = std::min(good, 1);
        } else {
            uint64_t last = 0;
            if (!c) good = 0;
            for (uint64_t j = 0; j < c; j++) {
                uint64_t a = rd(p + 4 * j, 2), e = a + rd(p + 4 * j + 2, 2);
                if (e > 65535 || (j && a <= last)) good = 0;
                else if (j && a == last + 1) good = std::min(good, 1);
                last = e;
                z.v.push_back({b + a, b + e});
            }
        }
        at[code[i]] += size(i);
    }
    z.res = (Res)(INVALID + good);
    z.size = len;
    z.v = good ? merged(z.v) : Ranges();
    z.canonical = good == 2;
    return z;
}
// the C++ map's zero-copy image
inline Verdict decode_frozen_map(const uint8_t *d, size_t len) {
    Verdict z;
    z.res = SHORT;
    if (len < 8) return z;
    uint64_t n = rd(d, 8), prev = 0;
    size_t p = 8;
    Ranges v;
    for (uint64_t i = 0; i < n; i++) {
        while ((p + 12) % 32) p++;
        if (len < p + 12) return z;
        uint64_t size = rd(d + p, 8), high = rd(d + p + 8, 4);
        p += 12;
        if (len - p < size) return z;
        Verdict c = decode_frozen(d + p, size);
        if (c.res != VALID || (i && high <= prev)) { z.res = BAD; return z; }
        for (auto &x : c.v) v.push_back({x.first + (high << 32), x.second + (high << 32)});
        prev = high;
        p += size;
    }
    z.res = VALID;
    z.size = p;
    z.v = merged(v);
    z.canonical = true;
    return z;
}
inline Verdict read(const std::string &k, const uint8_t *d, size_t len) {
    return k == "fm" ? decode_frozen_map(d, len) : k == "p32" ? decode(d, len) : k == "p64" ? decode64(d, len) : k == "fz" ? decode_frozen(d, len) : decode_own(d, len);
}
template <class T>
Ranges ranges(const std::vector<T> &sorted) {
    Ranges r;
    for (uint64_t x : sorted) {
        if (!r.empty() && r.back().second + 1 == x) r.back().second = x;
        else r.push_back({x, x});
    }
    return r;
}
// the bytes a writer produced for these values; empty: fine. Empty buckets are tolerated where 'loose' says so.
template <class T>
std::string written(const std::string &kind, const char *buf, size_t n, const std::vector<T> &values, bool loose = false) {
    Verdict v = read(kind, (const uint8_t *)buf, n);
    if (v.res != VALID && !(loose && v.res == LOOSE)) return std::string("the bytes written are not a document of the format: ") + NAMES[v.res];
    if (v.size != n) return "the document written ends before the announced size";
    if (v.v != ranges(values)) return "the document written denotes other values";
    if (v.res == VALID && kind != "own" && !v.canonical) return "run flags announced without a run container";
    return "";
}
}  // namespace fmt
