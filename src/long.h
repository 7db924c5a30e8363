// Inputs longer than counters of 16 and 24 bits.
#pragma once
#include "h.h"
namespace {
using namespace hh;
// k: which of the sizes; successive cases of a property should pass successive values.
inline size_t longSize(Ctx &c, uint64_t k) {
    static const size_t base[] = {1u << 16, 1u << 24, 17u << 20, 1u << 20, 24u << 20};
    const size_t n = base[k % (c.thorough ? 5 : 4)];
    return c.coin() ? n + (size_t) c.choose(300) : (size_t) ((int64_t) n + c.range(-3, 3));
}
// Changes a long message in every region, tells each, and restores it. f(what) is called on each changed message.
template<class F> unsigned longChanges(Ctx &c, Bytes &m, F f) {
    const size_t n = m.size();
    unsigned done = 0;
    auto flip = [&](size_t at) {
        if (at >= n) return;
        const uint8_t v = (uint8_t) (1u << c.choose(8));
        m[at] ^= v;
        f(pbt::str("byte %zu of %zu changed", at, n));
        m[at] ^= v;
        done++;
    };
    flip(0); flip(n - 1); flip((size_t) c.choose(n));
    flip(65535 + (size_t) c.choose(2)); flip((1u << 24) - 1 + (size_t) c.choose(3));
    flip(n - 1 - (size_t) c.choose(std::min<size_t>(n, 5000)));
    auto cut = [&](size_t k) {
        if (k > n) return;
        Bytes tail(m.end() - (long) k, m.end());
        m.resize(n - k);
        f(pbt::str("%zu bytes cut from %zu", k, n));
        m.insert(m.end(), tail.begin(), tail.end());
        done++;
    };
    cut(1 + (size_t) c.choose(300)); cut(65536); cut(1u << 24);
    const size_t more = c.pick({(size_t) 1, (size_t) 65536});
    m.resize(n + more);
    f(pbt::str("%zu zero bytes appended to %zu", more, n));
    m.resize(n);
    return done + 1;
}
// Bytes both languages can make for themselves.
inline Bytes lcgBytes(size_t n, uint64_t k) {
    Bytes b(n);
    for (auto &x : b) { k = k * 6364136223846793005ull + 1442695040888963407ull; x = (uint8_t) (k >> 56); }
    return b;
}
// Just past what 32 bits count.
inline size_t giantSize(Ctx &c) { return ((size_t) 1 << 32) + (size_t) c.choose(400); }
} // namespace
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_FUZZ)
#define GIANTS
#endif
