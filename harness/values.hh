// Random sets of exactly n values whose layout exercises every container kind and boundary.
#pragma once
#include "common.hh"

template <class T>
std::vector<T> gen_values(size_t n, Rng &r) {
    std::vector<T> v;
    if (!n) return v;
    const u128 top = (u128)1 << (8 * sizeof(T));
    const bool is64 = sizeof(T) == 8;
    for (unsigned shrink = 0;; shrink++) {
        std::vector<u128> o;
        o.reserve(n);
        u128 cur = 0;
        switch (r.below(6)) {
            case 0: cur = 0; break;
            case 1: cur = r.below(300); break;
            case 2: cur = ((u128)r.below(70) << 16) + r.oneof({0, 1, 63, 64, 65535, 65534, 30000}); break;
            case 3: cur = is64 ? ((u128)r.oneof({1, 2, 255, 256}) << 32) - 1 - r.below(r.oneof({5, 3000, 80000})) : ((u128)r.below(0x8000) << 16) - 0; break;
            case 4: cur = is64 ? ((u128)r.oneof({1, 3, 255}) << r.oneof({40, 48, 56})) - 1 - r.below(3000) : r.below(1u << 30); break;
            default: cur = (u128)r.below(1000) << 16;
        }
        unsigned sparse = (unsigned)r.oneof({0, 0, 20, 60, 100});   // percent of single values
        while (o.size() < n) {
            size_t left = n - o.size();
            if (r.chance(sparse)) { o.push_back(cur); cur += 1 + r.below(r.oneof({1, 10, 5000, 70000, 1u << 20})); }
            else {
                size_t len = (size_t)r.oneof({1, 2, 3, 10, 64, 65, 1000, 4095, 4096, 4097, 20000, 65536, 65537, 140000});
                if (r.chance(30)) len = 65536 - (size_t)(cur & 0xffff);
                len = std::min(len, left);
                unsigned step = (unsigned)r.oneof({1, 1, 1, 2, 3, 17});
                bool rnd = r.chance(15);
                for (size_t i = 0; i < len; i++) { o.push_back(cur); cur += rnd ? 1 + r.below(4) : step; }
            }
            if (shrink < 6) switch (r.below(7)) {
                case 0: break;
                case 1: cur += 1 + r.below(200); break;
                case 2: cur = ((cur >> 16) + 1) << 16; break;
                case 3: cur = (((cur >> 16) + 1) << 16) + 65536 * r.below(3) + r.oneof({0, 1, 65535, 64}); break;
                case 4: cur += is64 ? (u128)1 << r.oneof({17, 24, 32, 33, 40, 48}) : 65536 * r.below(300); break;
                case 5: if (is64) cur = ((cur >> 32) + 1) << 32; break;
                default: cur += is64 ? r.next() >> (8 + r.below(50)) : r.below(1u << 20);
            } else cur += r.below(100);
        }
        if (o.back() >= top) continue;
        u128 shift = r.chance(20) ? top - 1 - o.back() : 0;
        v.resize(n);
        for (size_t i = 0; i < n; i++) v[i] = (T)(o[i] + shift);
        return v;
    }
}
