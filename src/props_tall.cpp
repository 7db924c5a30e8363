// C01 C04 C05 C06 C08 C18 C19 C20 on wallets with up to millions of leaves. The build these run in replaces the
// one-time keys below each leaf by one cheap hash (see flavour.cpp), so that building and walking the tree is what
// is left; every part of a signature is still the one the model computes, with the same leaves.
#include "tall.h"
#include <misc.h>
#ifndef NO_INTERNALS
#include "giant.h"
#include <algsxmss.h>
#include <algsxmss_fast.h>
#endif
namespace { Bytes rootOf(XmssBase &w) { return w.getRoot(); } }

// ---------------------------------------------------------------- C01, C06, C19: legal routes
namespace {
void route(Ctx &c, bool capacity) {
    Cfg g = tallCfg(c);
    Tall t(c, g);
    c.note(show(g) + " seed=" + pbt::hexs(t.seed, 8));
    auto w = mkFast(t.seed, g);
    t.root = rootOf(*w);
    uint32_t cur = 0;
    unsigned sigs = 0, ops = 4 + (unsigned) c.choose(8);
    std::string log;
    auto counts = [&] {
        if (!capacity) return;
        check(w->getIndex() == cur, "index", str("%u, expected %u", w->getIndex(), cur));
        check(w->getNumberSignatures() == t.n, "number-of-signatures", str("%u", w->getNumberSignatures()));
        check(w->getRemainingSignatures() == t.n - cur, "remaining", str("%u at index %u of %u", w->getRemainingSignatures(), cur, t.n));
    };
    counts();
    for (unsigned k = 0; k < ops && cur < t.n; k++) {
        if (c.choose(4)) { cur = ahead(c, cur, t.n); w->setIndex(cur); log += str(" jump %u", cur); counts(); }
        for (unsigned j = 0, m = 1 + (unsigned) c.choose(4); j < m && cur < t.n; j++, cur++) {
            Bytes msg = genMsg(c, 100), s = w->sign(msg);
            log += str(" sign %u", cur);
            c.note(log); log.clear();
            t.valid(s, cur, msg, capacity ? "signature" : "does-not-verify");
            sigs++;
            if (capacity) { cur++; counts(); cur--; }
        }
    }
    c.count("signatures checked", sigs);
    c.label(str("h=%u", g.h));
    c.nontrivial(sigs >= 2);
}
}
PROP(C01, tall_wallets, 40, 400, 200) { route(c, false); }
PROP(C06, tall_routes, 40, 400, 200) { route(c, false); }
PROP(C19, tall_counts, 24, 300, 200) { route(c, true); }
// Every index of trees beyond 65536 leaves.
PROP(C06, tall_walks, 4, 24, 600) {
    Cfg g{(int) (c.sweep(3) + c.choose(3)) % 3, c.index == 0 ? 18u : c.pick({12u, 14u, 16u}), c.index == 0 ? 4u : c.pick({16u, 4u, 2u})};
    Tall t(c, g);
    c.note("every index, " + show(g));
    ref::Wallet r(t.seed, rp(g));
    auto w = mkFast(t.seed, g);
    t.root = rootOf(*w);
    check(w->getPK() == r.pk(), "public-key", diff(w->getPK(), r.pk()));
    for (uint32_t i = 0; i < t.n; i++) {
        Bytes s = w->sign({7});
        check(sigIndex(s) == i, "wrong-index", str("%u for %u", sigIndex(s), i));
        auto path = r.path(i);
        for (unsigned lv = 0; lv < g.h; lv++)
            check(memcmp(&s[s.size() - 32 * (g.h - lv)], path[lv].data(), 32) == 0, "authentication-path", str("index %u level %u", i, lv));
    }
    c.count("paths compared", t.n);
    c.label(str("h=%u", g.h));
    c.nontrivial();
}
PROP(C06, tall_basic, 12, 100, 200) {
    Cfg g = tallCfg(c, true);
    Tall t(c, g);
    c.note("basic " + show(g));
    auto w = mkBasic(t.seed, g);
    t.root = rootOf(*w);
    uint32_t cur = 0;
    for (int k = 0; k < 5; k++) {
        if (cur >= t.n || c.choose(3)) { cur = c.coin() ? (uint32_t) c.choose(t.n) : ahead(c, 0, t.n); w->setIndex(cur); }
        Bytes msg = genMsg(c, 100), s = w->sign(msg);
        c.note(str("sign %u", cur));
        t.valid(s, cur, msg, "basic-signature-differs");
        cur++;
    }
    c.label(str("h=%u", g.h));
    c.nontrivial();
}

// ---------------------------------------------------------------- C04
PROP(C04, tall_keys, 18, 150, 300, 0, false, 4) {
    Cfg g = tallCfg(c);
    if (c.index % 9 == 5) g.h = c.thorough && c.coin() ? 24 : 22;
    Tall t(c, g);
    c.note(show(g) + " seed=" + pbt::hexs(t.seed, 8));
    ref::Wallet r(t.seed, rp(g));
    auto f = mkFast(t.seed, g);
    check(f->getPK() == r.pk(), "public-key", "fast: " + diff(f->getPK(), r.pk()));
    check(f->getSK() == r.sk(0), "secret-key", "fast: " + diff(f->getSK(), r.sk(0)));
    if (g.h <= 22 && c.coin()) {
        auto b = mkBasic(t.seed, g);
        check(b->getPK() == r.pk(), "public-key", "basic: " + diff(b->getPK(), r.pk()));
        check(b->getSK() == r.sk(0), "secret-key", "basic: " + diff(b->getSK(), r.sk(0)));
    }
    c.label(str("h=%u", g.h));
    c.nontrivial();
}

// ---------------------------------------------------------------- C05
PROP(C05, tall_histories, 40, 400, 200) {
    Cfg g = tallCfg(c);
    Tall t(c, g);
    c.note(show(g) + " seed=" + pbt::hexs(t.seed, 8));
    auto w = mkFast(t.seed, g);
    t.root = rootOf(*w);
    uint32_t model = 0;
    int64_t last = -1;
    unsigned sigs = 0, refused = 0, ops = 8 + (unsigned) c.choose(14);
    if (c.choose(3) == 2) { model = t.n - 1 - (uint32_t) c.choose(4); w->setIndex(model); c.note(str("start at %u", model)); }
    for (unsigned k = 0; k < ops; k++) {
        Bytes before = w->getSK();
        if (c.coin()) {
            Bytes s;
            bool th = false;
            try { s = w->sign({(uint8_t) k}); } catch (const std::exception &) { th = true; }
            if (model >= t.n) {
                check(th, "signs-when-exhausted", str("issued index %u of %u", th ? 0 : sigIndex(s), t.n));
                refused++;
            } else {
                check(!th, "refuses-legal-signature", str("index %u of %u", model, t.n));
                check((int64_t) sigIndex(s) > last, "index-reused", str("issued %u after %lld", sigIndex(s), (long long) last));
                t.valid(s, model, {(uint8_t) k}, "invalid-signature");
                last = model++;
                sigs++;
                before.clear();
            }
        } else {
            uint32_t x;
            switch (c.choose(3)) {
            case 0: x = model < t.n ? ahead(c, model, t.n) : 0; break;
            case 1: x = model ? c.pick({model - 1, model >> 1, model & 0xFFFFu, (uint32_t) c.choose(model), 0u}) : t.n; break;
            default: x = c.pick({t.n, t.n + 1, t.n + model, model | 0x80000000u, 0xFFFFFFFFu, t.n << 1 | model, model + 0x1000000u});
            }
            bool legal = x >= model && x < t.n, th = false;
            try { w->setIndex(x); } catch (const std::exception &) { th = true; }
            c.note(str("set %u%s", x, legal ? "" : " (illegal)"));
            if (legal) { check(!th, "refuses-legal-jump", str("setIndex(%u) at %u of %u", x, model, t.n)); model = x; before.clear(); }
            else { check(th, x < model ? "rewinds" : "jumps-beyond-the-tree", str("setIndex(%u) at %u of %u was accepted", x, model, t.n)); refused++; }
        }
        if (!before.empty()) check(w->getSK() == before, "failed-call-changed-state", "");
        check(w->getIndex() == model, "index-disagrees", str("reports %u, the history says %u", w->getIndex(), model));
    }
    c.label(str("h=%u", g.h));
    c.count("signatures", sigs);
    c.nontrivial(sigs >= 2 && refused >= 1);
}

// ---------------------------------------------------------------- C08
PROP(C08, tall_restores, 16, 200, 200) {
    Cfg g = tallCfg(c, true);
    g.w = 16;
    Tall t(c, g);
    c.note(show(g) + " seed=" + pbt::hexs(t.seed, 8));
    auto w = mkFast(t.seed, g);
    Bytes ext = w->getExtendedSeed(), back = c.coin() ? mnemonic2bin(bin2mnemonic(ext)) : hstr2bin(bin2hstr(ext));
    XmssFast b(back);
    t.root = rootOf(*w);
    check(b.getPK() == w->getPK() && b.getHeight() == g.h && b.getAddress() == w->getAddress() && b.getExtendedSeed() == ext, "restored-wallet", show(g));
    uint32_t cur = 0;
    for (int k = 0; k < 3 && cur < t.n; k++, cur++) {
        cur = ahead(c, cur, t.n);
        w->setIndex(cur);
        b.setIndex(cur);
        Bytes m = genMsg(c, 60), s1 = w->sign(m), s2 = b.sign(m);
        c.note(str("sign %u", cur));
        check(s1 == s2, "restored-signature", str("index %u: %s", cur, diff(s1, s2).c_str()));
        t.valid(s2, cur, m, "restored-signature-invalid");
    }
    c.label(str("h=%u", g.h));
    c.nontrivial();
}

// ---------------------------------------------------------------- C18
PROP(C18, tall_constructions, 24, 200, 200) {
    unsigned h = 8 + 2 * (unsigned) c.sweep(c.thorough ? 10 : 8);
    Cfg g{(int) c.choose(3), h, 16};
    Tall t(c, g);
    c.note(show(g));
    std::unique_ptr<XmssBase> w;
    Bytes ext = ref::descriptor(g.hash, 0, g.h, 0);
    ext.insert(ext.end(), t.seed.begin(), t.seed.end());
    switch (c.choose(h > 18 ? 2 : 3)) {
    case 0: w = mkFast(t.seed, g); c.label("fast"); break;
    case 1: w.reset(new XmssFast(ext)); c.label("fast from an extended seed"); break;
    default: w = mkBasic(t.seed, g); c.label("basic");
    }
    auto d = w->getDescriptor();
    check(d.getHashFunction() == (eHashFunction) g.hash && d.getSignatureType() == eSignatureType::XMSS && d.getHeight() == g.h && d.getAddrFormatType() == eAddrFormatType::SHA256_2X, "descriptor", show(g));
    check(w->getHeight() == h && w->getIndex() == 0 && w->getNumberSignatures() == t.n, "fresh-wallet", show(g));
    t.root = rootOf(*w);
    t.valid(w->sign({1, 2, 3}), 0, {1, 2, 3}, "first-signature");
    c.label(str("h=%u", h));
    c.nontrivial();
}

// ---------------------------------------------------------------- C20
PROP(C20, tall_copies, 16, 200, 200) {
    Cfg g = tallCfg(c, true);
    Tall t(c, g);
    c.note(show(g));
    std::vector<std::unique_ptr<XmssFast>> ws;
    std::vector<uint32_t> at;
    ws.push_back(mkFast(t.seed, g));
    at.push_back(0);
    t.root = rootOf(*ws[0]);
    unsigned copies = 0;
    for (unsigned k = 0; k < 10; k++) {
        size_t i = (size_t) c.choose(ws.size());
        if (c.choose(4) == 3 && ws.size() < 4) { ws.push_back(std::unique_ptr<XmssFast>(new XmssFast(*ws[i]))); at.push_back(at[i]); copies++; c.note(str("copy %zu", i)); continue; }
        if (c.choose(8) == 7 && ws.size() > 1) { ws.erase(ws.begin() + i); at.erase(at.begin() + i); c.note(str("drop %zu", i)); continue; }
        if (at[i] >= t.n) continue;
        if (c.coin()) { at[i] = ahead(c, at[i], t.n); ws[i]->setIndex(at[i]); }
        c.note(str("%zu signs %u", i, at[i]));
        Bytes m{(uint8_t) k};
        t.valid(ws[i]->sign(m), at[i], m, "signature-of-a-copy");
        at[i]++;
    }
    c.label(str("h=%u", g.h));
    c.nontrivial(copies >= 1);
}

// ---------------------------------------------------------------- C01 C05 C06: in the middle of trees of height 24 to 30
#ifndef NO_INTERNALS
namespace {
struct CGiant {
    Cfg g;
    std::vector<unsigned char> stack, levels, auth, keep, nodes, retain, sk;
    std::vector<treehash_inst> th;
    bds_state st;
    xmss_params params;
    CGiant(Cfg gg, const Bytes &key) : g(gg), stack((g.h + 1) * 32), levels(g.h + 1), auth(g.h * 32), keep(g.h / 2 * 32), nodes((g.h - 2) * 32), retain(32), sk(key), th(g.h - 2) {
        for (unsigned i = 0; i < th.size(); i++) { th[i].node = &nodes[32 * i]; th[i].completed = 1; }
        xmss_set_bds_state(&st, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
        xmss_set_params(&params, 32, g.h, g.w, 2);
    }
    Bytes sign(Bytes m) {
        Bytes s(ref::sigSize(g.h, g.w));
        xmssfast_Signmsg((eHashFunction) g.hash, &params, sk.data(), &st, s.data(), m.data(), m.size());
        return s;
    }
    bool jump(uint32_t i) {
        try { return xmssfast_update((eHashFunction) g.hash, &params, sk.data(), &st, i) >= 0; } catch (const std::exception &) { return false; }
    }
    Bytes key() const { return sk; }
};
}
PROP(C01, giant_trees, 600, 20000, 60) { giant<CGiant>(c, false); }
PROP(C05, giant_histories, 600, 20000, 60) { giant<CGiant>(c, true); }
PROP(C06, giant_trees, 600, 20000, 60) { giant<CGiant>(c, false); }
PROP(C06, giant_basic, 0, 2, 1200, 0, false, 1) {
    giantBasic(c, c.index % 2 ? 28 : 26, [](const Cfg &g, Bytes &sk, Bytes m) {
        xmss_params params;
        xmss_set_params(&params, 32, g.h, g.w, 2);
        Bytes s(ref::sigSize(g.h, g.w));
        xmss_Signmsg((eHashFunction) g.hash, &params, sk.data(), s.data(), m.data(), m.size());
        return s;
    });
}
#endif
