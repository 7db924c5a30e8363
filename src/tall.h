// Wallets of great height with one-hash leaves (see flavour.cpp): what a signature of theirs must be.
#pragma once
#include "genq.h"
namespace {
struct Tall {
    Cfg g;
    Bytes seed, root;
    uint32_t n;
    ref::Virtual parts; // only for the key parts derived from the seed
    Tall(Ctx &c, Cfg gg) : g(gg), seed(genSeed(c)), n(1u << g.h), parts(seed, rp(Cfg{g.hash, 4, g.w}), 0, {}) {}
    // Is this the signature of the message at this index under the root? Every block is decided by the scheme.
    void valid(const Bytes &s, uint32_t i, const Bytes &m, const char *kind = "does-not-verify") const {
        const size_t size = ref::sigSize(g.h, g.w);
        check(s.size() == size, "signature-size", str("%zu, the scheme has %zu", s.size(), size));
        check(sigIndex(s) == i, "index-carried", str("signature carries %u, issued at %u", sigIndex(s), i));
        std::vector<ref::B32> path(g.h);
        for (unsigned lv = 0; lv < g.h; lv++) memcpy(path[lv].data(), &s[size - 32 * (g.h - lv)], 32);
        ref::B32 lf = ref::leaf(g.hash, g.w, parts.skseed.data(), parts.pubseed.data(), i);
        ref::B32 r = ref::rootFromPath(g.hash, lf, i, path, parts.pubseed.data());
        check(memcmp(r.data(), root.data(), 32) == 0, kind, str("index %u of %u: the authentication path does not lead to the root", i, n));
        ref::B32 R = ref::randomizer(g.hash, parts.skprf.data(), i);
        Bytes e = ref::assemble(rp(g), i, R.data(), parts.skseed.data(), parts.pubseed.data(), root.data(), path, m);
        check(s == e, kind, str("index %u of %u: %s", i, n, diff(s, e).c_str()));
    }
};
Cfg tallCfg(Ctx &c, bool small = false) {
    static const unsigned hs[] = {18, 16, 18, 14, 20, 12, 18, 10}, sm[] = {18, 12, 16, 10, 14, 18};
    Cfg g{(int) c.choose(3), small ? sm[c.sweep(6)] : hs[c.sweep(8)], c.pick({16u, 4u, 2u, 16u})};
    if (c.thorough && !small && c.choose(20) == 19) g.h = 22;
    return g;
}
// At or after cur, often next to a power of two or where the index needs another byte.
uint32_t ahead(Ctx &c, uint32_t cur, uint32_t n) {
    if (cur >= n - 1) return n - 1;
    uint32_t t = cur;
    switch (c.choose(6)) {
    case 0: t = cur + (uint32_t) c.choose(std::min<uint32_t>(5, n - cur)); break;
    case 1: t = n - 1 - (uint32_t) c.choose(4); break;
    case 2: t = c.pick({255u, 256u, 65534u, 65535u, 65536u, 65537u, 131071u, 131072u, 32767u}); break;
    case 3: { uint32_t p = 1u << (6 + c.choose(14)); t = (cur / p + 1) * p - 1 + (uint32_t) c.choose(3); break; }
    default: t = cur + (uint32_t) c.choose(n - cur);
    }
    return t < cur || t >= n ? cur + (uint32_t) c.choose(n - cur) : t;
}
} // namespace

