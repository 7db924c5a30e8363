// Signing in the middle of trees no wallet here can build: heights to 30, indices of four bytes. The state starts empty
// at an index instead of being built, so the upper part of each authentication path is arbitrary; the rest of every
// signature is the scheme's, and the lower levels become genuine after a number of signatures.
#pragma once
#include "tall.h"
#include <map>
#include <thread>
namespace {
struct GiantModel {
    Cfg g;
    Bytes sk;
    std::map<std::pair<unsigned, uint32_t>, ref::B32> memo;
    GiantModel(const Bytes &seed, Cfg gg, uint32_t start, const Bytes &root) : g(gg), sk(ref::Wallet(seed, rp(Cfg{g.hash, 4, g.w})).sk(0)) {
        memcpy(&sk[100], root.data(), 32);
        setIndex(start);
    }
    void setIndex(uint32_t i) { for (int k = 0; k < 4; k++) sk[(size_t) k] = (uint8_t) (i >> (24 - 8 * k)); }
    const uint8_t *skseed() const { return &sk[4]; }
    const uint8_t *pubseed() const { return &sk[68]; }
    ref::B32 node(unsigned lv, uint32_t j) {
        auto it = memo.find({lv, j});
        if (it != memo.end()) return it->second;
        ref::B32 r = lv ? ref::hashH(g.hash, node(lv - 1, 2 * j), node(lv - 1, 2 * j + 1), pubseed(), 2, 0, lv - 1, j) : ref::leaf(g.hash, g.w, skseed(), pubseed(), j);
        return memo[{lv, j}] = r;
    }
    // Levels the traversal has made anew since `rounds` indices ago are genuine.
    unsigned check(const Bytes &s, uint32_t i, uint32_t rounds, const Bytes &m) {
        const size_t size = ref::sigSize(g.h, g.w);
        pbt::check(s.size() == size, "signature-size", str("%zu, the scheme has %zu", s.size(), size));
        pbt::check(sigIndex(s) == i, "index-carried", str("signature carries %u, issued at %u", sigIndex(s), i));
        std::vector<ref::B32> path(g.h);
        for (unsigned lv = 0; lv < g.h; lv++) memcpy(path[lv].data(), &s[size - 32 * (g.h - lv)], 32);
        ref::B32 R = ref::randomizer(g.hash, &sk[36], i);
        Bytes e = ref::assemble(rp(g), i, R.data(), skseed(), pubseed(), &sk[100], path, m);
        pbt::check(s == e, "signature-differs", str("index %u of 2^%u: %s", i, g.h, diff(s, e).c_str()));
        unsigned levels = 0;
        for (unsigned lv = 0; lv < g.h - 2 && rounds >= (8u << lv); lv++, levels++)
            pbt::check(path[lv] == node(lv, (i >> lv) ^ 1), "authentication-path", str("index %u of 2^%u, level %u", i, g.h, lv));
        return levels;
    }
};
// S(g, key): a signer in an empty state.
template<class S> void giantHistory(Ctx &c, Cfg g, uint32_t start, unsigned ops, bool illegal) {
    Bytes seed = genSeed(c), root = c.bytes(32);
    GiantModel model(seed, g, start, root);
    S s(g, model.sk);
    const uint32_t n = 1u << g.h;
    uint32_t cur = start;
    unsigned sigs = 0, levels = 0, refused = 0;
    c.note(str("empty state, %s, start at %u", show(g).c_str(), start));
    for (unsigned k = 0; k < ops && cur < n; k++) {
        if (illegal && c.choose(6) == 5) {
            uint32_t x = c.coin() && cur ? c.pick({cur - 1, cur & 0xFFFFFFu, cur & 0xFFFFu, cur >> 1, 0u, cur & ~0xFFu}) : c.pick({n, n + 1, cur | 0x80000000u, 0xFFFFFFFFu, cur | n});
            if (x < cur || x >= n) {
                check(!s.jump(x), x < cur ? "rewinds" : "jumps-beyond-the-tree", str("setIndex(%u) at %u of %u was accepted", x, cur, n));
                check(s.key() == model.sk, "failed-call-changed-state", str("setIndex(%u) at %u", x, cur));
                refused++;
            }
        }
        if (c.choose(4) == 3) {
            uint32_t x = cur + (uint32_t) c.choose(std::min<uint32_t>(c.choose(8) == 7 ? 5000 : 6, n - cur));
            c.note(str("jump %u", x));
            check(s.jump(x), "refuses-legal-jump", str("%u at %u of %u", x, cur, n));
            model.setIndex(cur = x);
            check(s.key() == model.sk, "secret-key", str("after the jump to %u: %s", x, diff(s.key(), model.sk).c_str()));
        }
        Bytes m = genMsg(c, 40);
        c.note(str("sign %u", cur));
        levels = std::max(levels, model.check(s.sign(m), cur, cur - start, m));
        sigs++;
        model.setIndex(++cur);
        check(s.key() == model.sk, "secret-key", str("after signing at %u: %s", cur - 1, diff(s.key(), model.sk).c_str()));
    }
    if (cur == n) check(!s.jump(n), "jumps-beyond-the-tree", str("setIndex(%u) of %u was accepted", n, n));
    c.label(str("h=%u", g.h));
    c.label(str("path levels compared: %u", levels));
    c.count("signatures", sigs);
    c.nontrivial(sigs >= 10);
}
// Does the empty state work where everything else is known to? Otherwise it is not what these functions expect.
template<class S> bool giantWorks(Ctx &c) {
    static int ok = -1;
    if (ok < 0) {
        ok = 1;
        try {
            for (int h = 0; h < 3; h++) {
                Cfg g{h, 8, 16};
                Bytes seed(48, (uint8_t) (5 + h));
                GiantModel model(seed, g, 96, Bytes(32, 1));
                S s(g, model.sk);
                for (uint32_t i = 96; i < 160; i++) { if (i % 3 == 0 && !s.jump(i)) ok = 0; model.check(s.sign({1}), i, i - 96, {1}); }
            }
        } catch (...) { ok = 0; }
        if (!ok) fprintf(stderr, "starting from an empty state does not work here: left out\n");
    }
    if (!ok) c.note("left out");
    return ok;
}
uint32_t giantStart(Ctx &c, unsigned h) {
    uint32_t n = 1u << h, back = 8 + (uint32_t) c.choose(c.choose(4) == 3 ? 6000 : 60), x;
    switch (c.choose(4)) {
    case 0: x = n - 1 - (uint32_t) c.choose(c.choose(4) == 3 ? 5000 : 40); break; // to the end
    case 1: x = (1u << 24) * (1 + (uint32_t) c.choose((n >> 24) - 1 + (n >> 24 < 2))) - back; break; // the fourth byte changes
    case 2: x = (1u << (16 + c.choose(h - 16))) - back; break;
    default: x = (uint32_t) c.choose(n - 100);
    }
    return std::min(x, n - 1) & (c.coin() ? ~1u : ~0u);
}
template<class S> void giant(Ctx &c, bool illegal) {
    if (!giantWorks<S>(c)) return;
    Cfg g{(int) c.choose(3), 24 + 2 * (unsigned) c.sweep(4), c.pick({16u, 4u, 2u, 16u})};
    uint32_t start = giantStart(c, g.h);
    giantHistory<S>(c, g, start, 20 + (unsigned) c.choose(90), illegal);
}
// Basic wallets keep no state, but hold the whole tree of one signature in memory (64 bytes per leaf).
ref::B32 subtree(int hash, const uint8_t *skseed, const uint8_t *pubseed, unsigned lv, uint32_t j) { // of one-hash leaves
    if (!lv) return ref::leaf(hash, 16, skseed, pubseed, j);
    ref::B32 l = subtree(hash, skseed, pubseed, lv - 1, 2 * j), r = subtree(hash, skseed, pubseed, lv - 1, 2 * j + 1);
    return ref::hashH(hash, l, r, pubseed, 2, 0, lv - 1, j);
}
// sign(g, key, message): the signature; the key is advanced.
template<class F> void giantBasic(Ctx &c, unsigned h, F sign) {
    Cfg g{(int) c.choose(3), h, c.pick({16u, 4u, 2u})};
    Tall t(c, g);
    Bytes sk = ref::Wallet(t.seed, rp(Cfg{g.hash, 4, g.w})).sk(0), m = genMsg(c, 60);
    const unsigned top = 8;
    std::vector<ref::B32> up(1u << top);
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < 8; k++) ts.emplace_back([&, k] { for (uint32_t j = k; j < up.size(); j += 8) up[j] = subtree(g.hash, &sk[4], &sk[68], g.h - top, j); });
    for (auto &x : ts) x.join();
    for (unsigned lv = g.h - top; lv < g.h; lv++) {
        std::vector<ref::B32> next(up.size() / 2);
        for (uint32_t j = 0; j < next.size(); j++) next[j] = ref::hashH(g.hash, up[2 * j], up[2 * j + 1], &sk[68], 2, 0, lv, j);
        up = next;
    }
    t.root.assign(up[0].begin(), up[0].end());
    memcpy(&sk[100], t.root.data(), 32);
    uint32_t i = (1u << 24) + (uint32_t) c.choose(t.n - (1u << 24));
    for (int k = 0; k < 4; k++) sk[(size_t) k] = (uint8_t) (i >> (24 - 8 * k));
    c.note(str("basic %s, sign at %u", show(g).c_str(), i));
    Bytes s = sign(g, sk, m);
    t.valid(s, i, m, "basic-signature-differs");
    check(sigIndex(sk) == i + 1, "index-after-signing", str("%u after %u", sigIndex(sk), i));
    c.label(str("h=%u", g.h));
    c.nontrivial();
}
} // namespace
