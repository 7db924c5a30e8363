// C01 C04 C05 C06 C08: what wallets produce, against the reference model.
#include "genq.h"
#include "long.h"
#define FAULT_BLOCKS
#include "faults.h"
#include <misc.h>
#include <qrlHelper.h>
#include <hashing.h>
#ifndef NO_INTERNALS
#include <xmss-alt/algsxmss_fast.h>
#endif
namespace {
void checkSig(Ctx &c, XmssBase &w, const Cfg &g, const Bytes &pk, const Bytes &msg, const Bytes &sig, uint32_t idx) {
    check(sig.size() == ref::sigSize(g.h, g.w), "signature-size", str("got %zu, the scheme has %zu", sig.size(), ref::sigSize(g.h, g.w)));
    check(sig.size() == w.getSignatureSize(g.w), "advertised-size", str("got %zu, advertised %u", sig.size(), (unsigned) w.getSignatureSize(g.w)));
    check(sigIndex(sig) == idx, "index-carried", str("signature carries index %u, issued at %u", sigIndex(sig), idx));
    check(verifyW(msg, sig, pk, g.w), "does-not-verify", str("signature at index %u of a %zu byte message", idx, msg.size()));
    if (g.w == 16) check(XmssBase::verify(msg, sig, pk), "does-not-verify-default-w", str("signature at index %u", idx));
    c.count("signatures verified");
}
uint32_t jumpTarget(Ctx &c, uint32_t cur, uint32_t n) { // cur <= result < n
    if (cur >= n) return cur;
    switch (c.choose(4)) {
    case 0: return cur + (uint32_t) c.choose(std::min<uint32_t>(n - cur, 4));
    case 1: return n - 1 - (uint32_t) c.choose(std::min<uint32_t>(n - cur, 3));
    case 2: { // next multiple of a power of two, or just before it
        uint32_t p = 1u << c.choose(9);
        uint32_t t = (cur / p + 1) * p - (uint32_t) c.choose(2);
        return std::min(std::max(t, cur), n - 1); }
    default: return cur + (uint32_t) c.choose(n - cur);
    }
}
} // namespace

// ---------------------------------------------------------------- C01
PROP(C01, history_verifies, 240, 12000, 120) {
    Cfg g = genCfg(c, {14, 3, 1});
    Bytes seed = genSeed(c);
    bool basic = c.choose(3) == 2 && (toyFlavour || g.h == 4 || (g.h == 6 && g.w != 256 && c.choose(3) == 2));
    c.note(str("%s wallet %s seed=%s", basic ? "basic" : "fast", show(g).c_str(), pbt::hexs(seed, 8).c_str()));
    std::unique_ptr<XmssBase> w;
    if (basic) w = mkBasic(seed, g); else w = mkFast(seed, g);
    Bytes pk = w->getPK();
    uint32_t n = 1u << g.h;
    unsigned ops = 2 + (unsigned) c.choose(basic ? 3 : 9);
    unsigned sigs = 0, jumps = 0;
    std::vector<std::pair<Bytes, Bytes>> issued;
    for (unsigned i = 0; i < ops; i++) {
        uint32_t cur = w->getIndex();
        size_t op = c.weighted({5, 3, 1});
        if (op == 0 || (op == 1 && cur >= n)) {
            if (cur >= n) { c.note("sign refused at the end"); check(throws([&] { w->sign({1}); }), "signs-when-exhausted", "index " + std::to_string(cur)); continue; }
            Bytes m = genMsg(c);
            c.note(str("sign@%u len=%zu", cur, m.size()));
            Bytes s = w->sign(m);
            checkSig(c, *w, g, pk, m, s, cur);
            check(w->getIndex() == cur + 1, "index-after-signing", str("%u after signing at %u", w->getIndex(), cur));
            issued.push_back({m, s});
            sigs++;
        } else if (op == 1) {
            uint32_t t = jumpTarget(c, cur, n);
            c.note(str("jump %u", t));
            w->setIndex(t);
            check(w->getIndex() == t, "index-after-jump", str("%u after setting %u", w->getIndex(), t));
            if (t != cur) jumps++;
        } else if (!basic) { // calls that must fail and disturb nothing
            uint32_t bad = c.coin() ? n + (uint32_t) c.choose(3) : (cur ? (uint32_t) c.choose(cur) : n);
            c.note(str("bad jump %u", bad));
            check(throws([&] { w->setIndex(bad); }), "bad-jump-accepted", str("setIndex(%u) at %u of %u", bad, cur, n));
        }
    }
    if (w->getIndex() < n) {
        uint32_t last = n - 1;
        w->setIndex(last);
        Bytes m = genMsg(c, 200), s = w->sign(m);
        c.note("last index");
        checkSig(c, *w, g, pk, m, s, last);
        sigs++;
    }
    check(w->getPK() == pk, "public-key-changed", diff(w->getPK(), pk));
    for (auto &p : issued) check(verifyW(p.first, p.second, pk, g.w), "earlier-signature-invalid", "a signature issued before no longer verifies");
    c.label(str("w=%u", g.w)); c.label(str("h=%u", g.h)); c.label(basic ? "basic" : "fast");
    c.nontrivial(sigs >= 2);
}
// Every index of a tree, in order.
PROP(C01, every_index_verifies, 36, 300, 300) {
    Cfg g;
    g.hash = (int) (c.sweep(36) % 3);
    g.w = c.pick({16u, 16u, 4u, 2u});
    g.h = toyFlavour ? 8 + 2 * (unsigned) c.weighted({2, 2, 1}) : c.thorough ? 4 + 2 * (unsigned) c.weighted({1, 2, 1}) : 4 + 2 * (unsigned) c.weighted({1, 2});
    Bytes seed = genSeed(c);
    c.note(str("fast wallet %s, all %u indices, seed=%s", show(g).c_str(), 1u << g.h, pbt::hexs(seed, 8).c_str()));
    auto w = mkFast(seed, g);
    Bytes pk = w->getPK();
    for (uint32_t i = 0; i < 1u << g.h; i++) {
        Bytes m{(uint8_t) i, (uint8_t) (i >> 8), 7};
        Bytes s = w->sign(m);
        checkSig(c, *w, g, pk, m, s, i);
    }
    c.label(str("h=%u", g.h));
    c.nontrivial();
}
PROP(C01, tall_signatures_verify, 400, 9000, 60) { // what a wallet of any height would issue
    Genuine a = genGenuine(c);
    c.note(showG(a));
    check(verifyW(a.msg, a.sig, a.pk, a.g.w), "does-not-verify", showG(a));
    c.label(str("h=%u", a.g.h));
    c.nontrivial();
}
PROP(C01, long_messages_verify, 7, 60, 200) {
    Cfg g{(int) c.sweep(3), 4, c.pick({16u, 4u})};
    size_t n = c.pick({(size_t) 70000, (size_t) 1 << 16, (size_t) 1 << 20, (size_t) 9000000}) + (size_t) c.choose(300);
    if (c.index == 6) n = ((size_t) 17 << 20) + (size_t) c.choose(1000);
    if (c.thorough && c.choose(4) == 3) n = ((size_t) 24 << 20) + (size_t) c.choose(1000);
    Bytes seed = genSeed(c), m = c.bytes(n);
    c.note(str("%s message of %zu bytes", show(g).c_str(), n));
    std::unique_ptr<XmssBase> w;
    if (c.coin()) w = mkFast(seed, g); else w = mkBasic(seed, g);
    uint32_t idx = (uint32_t) c.choose(16);
    w->setIndex(idx);
    Bytes s = w->sign(m);
    checkSig(c, *w, g, w->getPK(), m, s, idx);
    m[(size_t) c.choose(n)] ^= 1;
    check(!verifyW(m, s, w->getPK(), g.w), "long-message-not-authenticated", "a changed byte of a long message was not noticed");
    c.nontrivial();
}

// ---------------------------------------------------------------- C04
PROP(C04, keys_equal_reference, 300, 9000, 200) {
    Cfg g = genCfg(c, {12, 3, 1});
    if (!toyFlavour && !c.thorough && g.h > 6) g.h = 6;
    Bytes seed = genSeed(c);
    c.note(show(g) + " seed=" + pbt::hexs(seed));
    ref::Wallet r(seed, rp(g));
    auto f = mkFast(seed, g);
    Bytes b4(seed);
    auto chk = [&](XmssBase &w, const char *what) {
        check(w.getPK() == r.pk(), "public-key", std::string(what) + ": " + diff(w.getPK(), r.pk()));
        check(w.getSK() == r.sk(0), "secret-key", std::string(what) + ": " + diff(w.getSK(), r.sk(0)));
        check(w.getRoot() == Bytes(r.root().begin(), r.root().end()), "root", what);
        check(w.getPKSeed() == r.pubseed, "public-seed", what);
        check(w.getSKSeed() == r.skseed, "secret-seed", what);
        check(w.getSKPRF() == r.skprf, "prf-key", what);
        check(w.getSeed() == seed, "seed", what);
        check(w.getAddress() == ref::address(r.pk()), "address", what);
        check(w.getHeight() == g.h && w.getIndex() == 0, "fresh-wallet", what);
    };
    chk(*f, "fast");
    if (g.h == 4 || c.choose(3) == 2) { auto b = mkBasic(seed, g); chk(*b, "basic"); c.label("both kinds"); }
    if (c.choose(3) == 2) { auto f2 = mkFast(b4, g); chk(*f2, "rebuilt"); c.label("rebuilt"); }
    if (c.choose(4) == 3) { f->initialize_tree(g.w); chk(*f, "re-initialised"); }
    c.label(str("w=%u", g.w)); c.label(str("h=%u", g.h)); c.label(str("hash=%d", g.hash));
    c.nontrivial();
}
PROP(C04, tall_trees, 4, 40, 600) {
    Cfg g{(int) c.sweep(3), 8, 16};
    if (toyFlavour) { g.h = c.thorough ? c.pick({12u, 14u, 16u}) : c.index % 2 ? 10 : 12; g.w = c.pick({4u, 16u}); }
    else if (c.thorough) g.h = c.pick({8u, 10u});
    Bytes seed = genSeed(c);
    c.note(show(g) + " seed=" + pbt::hexs(seed));
    ref::Wallet r(seed, rp(g));
    auto f = mkFast(seed, g);
    check(f->getPK() == r.pk(), "public-key", diff(f->getPK(), r.pk()));
    if (c.coin()) { auto b = mkBasic(seed, g); check(b->getPK() == r.pk(), "public-key-basic", diff(b->getPK(), r.pk())); }
    c.nontrivial();
}
PROP(C04, any_change_changes_the_root, 400, 6000, 120) {
    Cfg g = genCfg(c, {1}), o = g;
    Bytes seed = genSeed(c), s2 = seed;
    switch (c.choose(4)) {
    case 0: case 1: { size_t bit = (size_t) c.sweep(384); s2[bit / 8] ^= (uint8_t) (1u << (bit % 8)); c.note(str("seed bit %zu", bit)); c.label("seed bit"); break; }
    case 2: o.hash = (g.hash + 1 + (int) c.choose(2)) % 3; c.label("hash"); break;
    default: if (c.coin()) { o.w = g.w == 16 ? 4 : 16; c.label("w"); } else { o.h = 6; if (g.w == 256) g.w = o.w = 4; c.label("height"); }
    }
    c.note(show(g) + " against " + show(o));
    auto a = mkFast(seed, g), b = mkFast(s2, o);
    check(a->getRoot() != b->getRoot(), "roots-collide", "different parameters gave the same root");
    check(a->getPK() != b->getPK() && a->getAddress() != b->getAddress(), "keys-collide", "different parameters gave the same public key or address");
    if (s2 != seed) check(a->getPKSeed() != b->getPKSeed() && a->getSKSeed() != b->getSKSeed() && a->getSKPRF() != b->getSKPRF(), "key-parts-collide", "different seeds share a key part");
    c.nontrivial();
}

// ---------------------------------------------------------------- C05
PROP(C05, one_time_indices, 500, 9000, 120) {
    Cfg g = genCfg(c, {16, 2});
    Bytes seed = genSeed(c);
    c.note("fast " + show(g));
    auto w = mkFast(seed, g);
    Bytes pk = w->getPK();
    const uint32_t n = 1u << g.h;
    uint32_t model = 0; // next index
    int64_t lastIssued = -1;
    unsigned ops = 6 + (unsigned) c.choose(25), refused = 0, sigs = 0, tail = 0;
    if (c.choose(3) == 2) { model = n - 1 - (uint32_t) c.choose(4); w->setIndex(model); c.note(str("start at %u", model)); }
    auto state = [&](const char *when) {
        check(w->getIndex() == model, "index-disagrees", str("%s: reports %u, the history says %u", when, w->getIndex(), model));
        check(w->getRemainingSignatures() == n - model, "remaining-disagrees", str("%s: reports %u", when, w->getRemainingSignatures()));
    };
    for (unsigned i = 0; i < ops; i++) {
        size_t op = c.weighted({8, 3, 3, 3, 1});
        Bytes before = w->getSK();
        if (op == 0) {
            Bytes m = genMsg(c, 100), s;
            bool t = false;
            try { s = w->sign(m); } catch (const std::exception &) { t = true; }
            c.note(str("sign@%u", model));
            if (model >= n) {
                check(t, "signs-when-exhausted", str("issued index %u of a tree with %u leaves", t ? 0 : sigIndex(s), n));
                check(w->getSK() == before, "failed-call-changed-state", "a refused signing request changed the secret key");
                refused++; tail++;
            } else {
                check(!t, "refuses-legal-signature", str("at index %u of %u", model, n));
                check((int64_t) sigIndex(s) > lastIssued, "index-reused", str("issued %u after %lld", sigIndex(s), (long long) lastIssued));
                check(sigIndex(s) == model, "wrong-index", str("issued %u, the next index is %u", sigIndex(s), model));
                check(verifyW(m, s, pk, g.w), "invalid-signature", str("at index %u", model));
                lastIssued = model;
                model++;
                sigs++;
            }
        } else {
            uint32_t t;
            if (op == 1) t = model < n ? jumpTarget(c, model, n) : n - 1;
            else if (op == 2) t = model ? (uint32_t) c.choose(model) : 0;
            else if (op == 3) t = c.pick({n, n + 1, 2 * n, 0x10000u + model, 0x80000000u, 0x80000000u | model, 0xFFFFFFFFu, (uint32_t) 1 << 16, (uint32_t) 1 << 8});
            else t = model;
            bool legal = t >= model && t < n, th = false;
            try { w->setIndex(t); } catch (const std::exception &) { th = true; }
            c.note(str("set %u%s", t, legal ? "" : " (illegal)"));
            if (legal) { check(!th, "refuses-legal-jump", str("setIndex(%u) at %u of %u", t, model, n)); model = t; }
            else {
                check(th, t < model ? "rewinds" : "jumps-beyond-the-tree", str("setIndex(%u) at %u of %u was accepted", t, model, n));
                check(w->getSK() == before, "failed-call-changed-state", "a refused index change modified the secret key");
                refused++;
            }
        }
        state("after the operation");
        check(w->getPK() == pk, "public-key-changed", "");
    }
    if (c.coin()) { // run to the end: the last few signatures and the refusals after them
        if (model < n && model + 3 < n) { model = n - 1 - (uint32_t) c.choose(3); if (w->getIndex() <= model) w->setIndex(model); else model = w->getIndex(); }
        while (model < n) {
            Bytes s = w->sign({9});
            check(sigIndex(s) == model && (int64_t) model > lastIssued, "index-reused", str("issued %u", sigIndex(s)));
            check(verifyW({9}, s, pk, g.w), "invalid-signature", str("at index %u", model));
            lastIssued = model++;
        }
        for (int k = 0; k < 3; k++) {
            Bytes before = w->getSK();
            check(throws([&] { w->sign({1}); }), "signs-when-exhausted", str("attempt %d after the last index", k));
            check(throws([&] { w->setIndex((uint32_t) c.choose(n + 2)); }), "moves-when-exhausted", "an exhausted wallet accepted an index");
            check(w->getSK() == before, "failed-call-changed-state", "exhausted wallet changed");
            state("exhausted");
        }
        c.label("exhausted");
        refused++;
    }
    c.count("signatures", sigs);
    c.count("refused requests", refused);
    c.nontrivial(sigs >= 2 && refused >= 1);
}
PROP(C05, basic_wallet_indices, 60, 900, 120) {
    Cfg g = genCfg(c, {1});
    if (g.w == 256) g.w = 16;
    if (toyFlavour) g.h = 4 + 2 * (unsigned) c.choose(4);
    Bytes seed = genSeed(c);
    c.note("basic " + show(g));
    auto w = mkBasic(seed, g);
    Bytes pk = w->getPK();
    uint32_t n = 1u << g.h, start = (uint32_t) c.choose(n + 1);
    if (c.choose(5) == 4) start = c.pick({n, n + 1, 255u, 256u, 65536u, 0x7FFFFFFFu, 0xFFFFFFFEu});
    w->setIndex(start);
    check(w->getIndex() == start, "index-after-set", "");
    c.note(str("start %u", start));
    uint32_t model = start;
    unsigned sigs = 0, refused = 0;
    for (int i = 0; i < 6; i++) {
        Bytes s;
        bool t = false;
        try { s = w->sign({(uint8_t) i}); } catch (const std::exception &) { t = true; }
        if (model < n) {
            check(!t, "refuses-legal-signature", str("index %u", model));
            check(sigIndex(s) == model, "wrong-index", str("issued %u, expected %u", sigIndex(s), model));
            check(verifyW({(uint8_t) i}, s, pk, g.w), "invalid-signature", str("index %u", model));
            model++;
            sigs++;
        } else {
            check(t, "signs-beyond-the-tree", str("index %u of %u leaves", model, n));
            refused++;
        }
        check(w->getIndex() == model, "index-disagrees", str("reports %u, expected %u", w->getIndex(), model));
    }
    c.nontrivial(sigs && refused);
    if (refused) c.label("exhausted");
}

// ---------------------------------------------------------------- C06
PROP(C06, signature_is_the_schemes, 260, 8000, 120) {
    Cfg g = genCfg(c, {14, 4, 1});
    if (!toyFlavour && !c.thorough && g.h > 6) g.h = 6;
    Bytes seed = genSeed(c);
    c.note(show(g) + " seed=" + pbt::hexs(seed, 8));
    ref::Wallet r(seed, rp(g));
    const uint32_t n = 1u << g.h;
    auto w = mkFast(seed, g);
    unsigned sigs = 0;
    std::string route;
    uint32_t cur = 0;
    unsigned ops = 2 + (unsigned) c.choose(8);
    for (unsigned i = 0; i < ops && cur < n; i++) {
        size_t op = c.weighted({4, 4, 1, 1});
        if (op == 0 || i + 1 == ops) {
            Bytes m = genAnyMsg(c, 600), s = w->sign(m), e = r.sign(cur, m);
            route += str(" sign@%u", cur);
            check(s == e, "signature-differs", str("index %u, %zu byte message, route:%s: %s", cur, m.size(), route.c_str(), diff(s, e).c_str()));
            cur++;
            sigs++;
        } else if (op == 1) { cur = jumpTarget(c, cur, n); w->setIndex(cur); route += str(" jump %u", cur); }
        else if (op == 2) { check(throws([&] { w->setIndex(n + (uint32_t) c.choose(2)); }), "bad-jump-accepted", ""); route += " badjump"; }
        else { Bytes p = w->getPK(); w->getAddress(); w->getExtendedSeed(); XmssBase::verify({1}, Bytes(ref::sigSize(g.h, g.w), 3), p, g.w); route += " query"; }
    }
    c.note(route);
    if (g.h == 4 && c.choose(3) == 2) {
        auto b = mkBasic(seed, g);
        uint32_t i = (uint32_t) c.choose(n);
        b->setIndex(i);
        Bytes m = genMsg(c, 300);
        for (uint32_t k = i; k < n && k < i + 2; k++) {
            Bytes s = b->sign(m);
            check(s == r.sign(k, m), "basic-signature-differs", str("index %u: %s", k, diff(s, r.sign(k, m)).c_str()));
        }
        c.label("basic too");
    }
    c.label(str("w=%u", g.w)); c.label(str("h=%u", g.h));
    c.count("signatures compared", sigs);
    c.nontrivial(sigs >= 1);
}
#ifdef FAULTS
// Signing fails for want of memory for the message; what the wallet does afterwards is not affected.
namespace {
void starved(Ctx &c, bool compare) {
    Cfg g = genCfg(c, {14, 4});
    const bool basic = c.choose(3) == 2;
    if (basic) g.h = 4;
    Bytes seed = genSeed(c);
    c.note(std::string(basic ? "basic " : "") + show(g) + " seed=" + pbt::hexs(seed, 8));
    ref::Wallet r(seed, rp(g));
    const uint32_t n = 1u << g.h;
    std::unique_ptr<XmssBase> w;
    if (basic) w = mkBasic(seed, g); else w = mkFast(seed, g);
    const Bytes pk = w->getPK();
    std::string route;
    unsigned failed = 0, sigs = 0;
    int64_t last = -1;
    const unsigned ops = 3 + (unsigned) c.choose(7);
    for (unsigned i = 0; i < ops; i++) {
        const uint32_t cur = w->getIndex();
        check((int64_t) cur > last, "index-reused", str("index %u after %lld was used, route:%s", cur, (long long) last, route.c_str()));
        if (cur >= n) break;
        const size_t op = i + 1 == ops ? 1 : c.weighted({4, 4, 2});
        if (op == 0) {
            const Bytes m = lcgBytes(65536 + (size_t) c.choose(70000), c.choose(1000));
            const int left = (int) c.choose(3);
            Bytes s;
            bool threw = false;
            const int before = faults::blocksRefused;
            faults::blockFrom = m.size() / 2 + 1;
            faults::blocksLeft = left;
            faults::blocks = true;
            try { s = w->sign(m); } catch (const std::exception &) { threw = true; }
            faults::blocks = false;
            route += str(" sign@%u(%zu bytes, block %d refused)%s", cur, m.size(), left, threw ? " failed" : "");
            if (threw) { check(faults::blocksRefused > before, "refused-without-a-reason", route); failed++; continue; }
            check(compare ? s == r.sign(cur, m) : XmssBase::verify(m, s, pk, g.w), "signature-wrong", str("index %u, route:%s", cur, route.c_str()));
            last = cur;
            sigs++;
        } else if (op == 1) {
            const Bytes m = genMsg(c, 200), s = w->sign(m);
            route += str(" sign@%u", cur);
            if (compare) { const Bytes e = r.sign(cur, m); check(s == e, "signature-differs", str("index %u, route:%s: %s", cur, route.c_str(), diff(s, e).c_str())); }
            else check(XmssBase::verify(m, s, pk, g.w), "signature-does-not-verify", str("index %u, route:%s", cur, route.c_str()));
            last = cur;
            sigs++;
        } else { const uint32_t to = jumpTarget(c, cur, n); w->setIndex(to); route += str(" jump %u", to); }
    }
    c.note(route);
    c.label(basic ? "basic" : "fast");
    c.count("failed calls", failed); c.count("signatures", sigs);
    c.nontrivial(failed && sigs);
}
} // namespace
PROP(C06, starved_of_memory, 60, 1500, 120) { starved(c, true); }
PROP(C01, starved_of_memory, 60, 1500, 120) { starved(c, false); }
#endif
// The basic wallet goes anywhere in its tree, also back.
PROP(C06, basic_signatures, 20, 400, 200) {
    Cfg g{(int) (c.sweep(36) % 3), 6, c.pick({16u, 4u, 2u})};
    if (toyFlavour) g.h = 6 + 2 * (unsigned) (c.thorough ? c.choose(5) : c.weighted({2, 2, 2, 1}));
    Bytes seed = genSeed(c);
    c.note("basic " + show(g) + " seed=" + pbt::hexs(seed, 8));
    ref::Wallet r(seed, rp(g));
    auto b = mkBasic(seed, g);
    const uint32_t n = 1u << g.h;
    uint32_t cur = 0;
    for (unsigned k = 0; k < (toyFlavour ? 6 : 3); k++) {
        if (cur >= n || c.choose(3)) {
            cur = c.coin() ? (uint32_t) c.choose(n) : n - 1 - (uint32_t) c.choose(8);
            b->setIndex(cur);
        }
        Bytes m = genMsg(c, 300), s = b->sign(m), e = r.sign(cur, m);
        c.note(str("sign@%u", cur));
        check(s == e, "basic-signature-differs", str("index %u: %s", cur, diff(s, e).c_str()));
        c.count("signatures compared");
        cur++;
    }
    c.label(str("basic h=%u", g.h));
    c.nontrivial();
}
PROP(C06, long_messages, 4, 40, 200) {
    Cfg g{(int) c.choose(3), 4, c.pick({16u, 4u})};
    Bytes seed = genSeed(c), m = c.bytes(longSize(c, c.sweep(20)));
    bool basic = c.choose(3) == 2;
    c.note(str("%s%s message of %zu bytes", basic ? "basic " : "", show(g).c_str(), m.size()));
    ref::Wallet r(seed, rp(g));
    std::unique_ptr<XmssBase> w;
    if (basic) w = mkBasic(seed, g); else w = mkFast(seed, g);
    uint32_t idx = (uint32_t) c.choose(16);
    w->setIndex(idx);
    Bytes s = w->sign(m), e = r.sign(idx, m);
    check(s == e, "signature-differs", str("index %u, %zu byte message: %s", idx, m.size(), diff(s, e).c_str()));
    c.count("signatures compared");
    c.nontrivial();
}
#ifdef GIANTS
namespace {
void giantMessage(Ctx &c, bool compare) { // up to 17 GB
    if (toyFlavour) return;
    Cfg g{(int) c.sweep(3), 4, 16};
    Bytes seed = genSeed(c), m = lcgBytes(giantSize(c), c.choose(0));
    c.note(str("%s message of %zu bytes", show(g).c_str(), m.size()));
    std::unique_ptr<XmssBase> w;
    if (c.coin()) w = mkFast(seed, g); else w = mkBasic(seed, g);
    uint32_t idx = (uint32_t) c.choose(16);
    w->setIndex(idx);
    Bytes s = w->sign(m);
    if (compare) {
        Bytes e = ref::Wallet(seed, rp(g)).sign(idx, m);
        check(s == e, "signature-differs", str("index %u, %zu byte message: %s", idx, m.size(), diff(s, e).c_str()));
    } else checkSig(c, *w, g, w->getPK(), m, s, idx);
    c.nontrivial();
}
} // namespace
PROP(C01, giant_messages, 0, 3, 1200, 0, false, 1) { giantMessage(c, false); }
PROP(C06, giant_messages, 0, 3, 1200, 0, false, 1) { giantMessage(c, true); }
#endif
// Full walks: every index, with one or more jumps in between.
PROP(C06, full_walk, 40, 400, 300) {
    Cfg g;
    g.hash = (int) (c.sweep(36) % 3);
    g.w = c.pick({16u, 4u, 2u});
    g.h = toyFlavour ? 8 + 2 * (unsigned) c.weighted({2, 2}) : 4 + 2 * (unsigned) c.weighted({1, 2});
    Bytes seed = genSeed(c);
    c.note("walk " + show(g));
    ref::Wallet r(seed, rp(g));
    auto w = mkFast(seed, g);
    uint32_t n = 1u << g.h, step = (uint32_t) c.pick({1, 1, 2, 3, 5});
    Bytes m = c.bytes(33);
    for (uint32_t i = 0; i < n;) {
        Bytes s = w->sign(m);
        // compare the parts that depend on the tree state without recomputing the chains
        check(sigIndex(s) == i, "wrong-index", str("%u for %u", sigIndex(s), i));
        auto path = r.path(i);
        for (unsigned lv = 0; lv < g.h; lv++)
            check(memcmp(&s[s.size() - 32 * (g.h - lv)], path[lv].data(), 32) == 0, "authentication-path", str("index %u level %u", i, lv));
        c.count("paths compared");
        i += 1;
        if (step > 1 && i + step < n) { i += (uint32_t) c.choose(step); w->setIndex(i); }
    }
    c.nontrivial();
}
// Trees whose indices need more than two bytes, with the toy hash.
PROP(C06, big_tree, 2, 6, 3000, 0, false, 2) {
    if (!toyFlavour) return;
    Cfg g{(int) (c.sweep(3) + 1) % 3, c.thorough ? 16u : 12u, 2};
    if (c.index == 0 && c.thorough) g.h = 18;
    Bytes seed = genSeed(c);
    c.note(show(g));
    ref::Wallet r(seed, rp(g), 4);
    auto w = mkFast(seed, g);
    check(w->getPK() == r.pk(), "public-key", diff(w->getPK(), r.pk()));
    uint32_t n = 1u << g.h, cur = 0;
    for (uint32_t base : {255u, 1023u, 2046u, 4093u, 16383u, 32767u, 65533u, 65534u, 65535u, 65536u, 131071u, n - 2, n - 1}) {
        if (base >= n || base < cur) continue;
        w->setIndex(base);
        cur = base;
        for (int k = 0; k < 4 && cur < n; k++, cur++) {
            Bytes s = w->sign({1, 2}), e = r.sign(cur, {1, 2});
            check(s == e, "signature-differs", str("index %u: %s", cur, diff(s, e).c_str()));
            check(verifyW({1, 2}, s, r.pk(), g.w), "does-not-verify", str("index %u", cur));
            c.count("signatures compared");
        }
    }
    c.nontrivial();
}

#ifndef NO_INTERNALS
// The traversal below the wallets, which takes any number of retained levels k (wallets use 2).
namespace {
struct LowLevel {
    Cfg g;
    unsigned k;
    std::vector<unsigned char> stack, levels, auth, keep, nodes, retain, sk = std::vector<unsigned char>(132), pk = std::vector<unsigned char>(64);
    std::vector<treehash_inst> th;
    bds_state st;
    xmss_params params;
    LowLevel(const Bytes &seed, Cfg gg, unsigned kk) : g(gg), k(kk), stack((g.h + 1) * 32), levels(g.h + 1), auth(g.h * 32), keep(g.h / 2 * 32), nodes((g.h - k) * 32), retain(((1u << k) - k - 1) * 32), th(g.h - k) {
        for (unsigned i = 0; i < th.size(); i++) th[i].node = &nodes[32 * i];
        xmss_set_bds_state(&st, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
        xmss_set_params(&params, 32, g.h, g.w, k);
        Bytes sd(seed);
        xmssfast_Genkeypair((eHashFunction) g.hash, &params, pk.data(), sk.data(), &st, sd.data());
    }
    Bytes sign(Bytes m) {
        Bytes s(ref::sigSize(g.h, g.w));
        unsigned char none = 0;
        if (xmssfast_Signmsg((eHashFunction) g.hash, &params, sk.data(), &st, s.data(), m.empty() ? &none : m.data(), m.size()) != 0) fail("signing-failed", str("at index %u", sigIndex(s)));
        return s;
    }
};
void lowLevel(Ctx &c, bool whole) {
    Cfg g{(int) c.choose(3), 4 + 2 * (unsigned) (toyFlavour ? 1 + c.choose(3) : c.weighted({1, 2})), c.pick({16u, 4u, 2u})};
    unsigned k = 2 + 2 * (unsigned) c.choose((g.h - 2) / 2);
    Bytes seed = genSeed(c), m = c.bytes((size_t) c.choose(60));
    c.note(str("%s k=%u", show(g).c_str(), k));
    ref::Wallet r(seed, rp(g));
    LowLevel w(seed, g, k);
    check(memcmp(w.pk.data(), r.root().data(), 32) == 0, "root", show(g) + str(" k=%u", k));
    const uint32_t n = 1u << g.h;
    unsigned done = 0;
    for (uint32_t i = 0; i < n; i++) {
        if (!whole && i + 1 < n && c.choose(3) == 2) {
            uint32_t t = jumpTarget(c, i, n);
            if (xmssfast_update((eHashFunction) g.hash, &w.params, w.sk.data(), &w.st, t) != 0) fail("jump-refused", str("from %u to %u", i, t));
            i = t;
            c.note(str("jump %u", t));
        }
        Bytes s = w.sign(m);
        check(sigIndex(s) == i, "wrong-index", str("%u for %u", sigIndex(s), i));
        if (whole) {
            Bytes mm(m), ss(s), pk(w.pk);
            ss.reserve(ss.size() + 8); mm.reserve(8);
            if (xmss_Verifysig((eHashFunction) g.hash, &w.params.wots_par, mm.data(), mm.size(), ss.data(), pk.data(), (unsigned char) g.h) != 0) fail("does-not-verify", str("index %u, k=%u", i, k));
        } else {
            Bytes e = r.sign(i, m);
            check(s == e, "signature-differs", str("index %u, k=%u: %s", i, k, diff(s, e).c_str()));
        }
        if (!whole && done >= 12) break;
        done++;
    }
    c.count("signatures compared", done);
    c.label(str("k=%u of %u", k, g.h));
    c.nontrivial();
}
} // namespace
PROP(C01, whole_trees_with_any_k, 24, 300, 200) { lowLevel(c, true); }
PROP(C06, routes_with_any_k, 60, 1500, 120) { lowLevel(c, false); }
#endif

// ---------------------------------------------------------------- C08
PROP(C08, restored_wallet_is_the_same, 300, 5000, 120) {
    Cfg g = genCfg(c, {12, 2}, false);
    Bytes seed = genSeed(c);
    c.note(show(g) + " seed=" + pbt::hexs(seed));
    XmssFast w(seed, (unsigned char) g.h, (eHashFunction) g.hash, eAddrFormatType::SHA256_2X);
    Bytes ext = w.getExtendedSeed();
    Bytes want = ref::descriptor(g.hash, 0, g.h, 0);
    want.insert(want.end(), seed.begin(), seed.end());
    check(ext == want, "extended-seed-layout", diff(ext, want));
    std::string via;
    Bytes back;
    std::string words = bin2mnemonic(ext), hx = bin2hstr(ext);
    check(words == ref::mnemonic(ext), "mnemonic-backup", words);
    check(hx == ref::hex(ext), "hex-backup", hx);
    switch (c.choose(4)) {
    case 0: via = "bytes"; back = ext; break;
    case 1: via = "hex"; back = hstr2bin(hx); break;
    case 2: { via = "upper-case hex"; for (auto &ch : hx) ch = (char) toupper(ch); back = hstr2bin(hx); break; }
    default: via = "mnemonic"; back = mnemonic2bin(words);
    }
    c.note("via " + via);
    check(back == ext, "backup-decodes-differently", diff(back, ext));
    // the original may have been used before the backup is restored
    unsigned used = (unsigned) c.choose(3);
    for (unsigned i = 0; i < used; i++) w.sign({(uint8_t) i});
    check(w.getExtendedSeed() == ext, "extended-seed-changes-with-use", "");
    XmssFast b(back);
    check(b.getSeed() == seed && b.getHeight() == g.h, "restored-parameters", "");
    auto d = b.getDescriptor();
    check(d.getHashFunction() == (eHashFunction) g.hash && d.getSignatureType() == eSignatureType::XMSS && d.getHeight() == g.h && d.getAddrFormatType() == eAddrFormatType::SHA256_2X, "restored-descriptor", "");
    check(b.getDescriptorBytes() == Bytes(ext.begin(), ext.begin() + 3), "restored-descriptor-bytes", "");
    check(b.getPK() == w.getPK(), "restored-public-key", diff(b.getPK(), w.getPK()));
    check(b.getAddress() == w.getAddress(), "restored-address", "");
    check(b.getExtendedSeed() == ext, "restored-extended-seed", "");
    check(b.getIndex() == 0, "restored-index", "");
    Bytes skb = b.getSK(), skw = w.getSK();
    check(Bytes(skb.begin() + 4, skb.end()) == Bytes(skw.begin() + 4, skw.end()), "restored-secret-key", "");
    uint32_t n = 1u << g.h, cur = used;
    for (int i = 0; i < 4 && cur < n; i++) {
        if (c.coin()) { cur = jumpTarget(c, cur, n); w.setIndex(cur); }
        b.setIndex(cur);
        Bytes m = genMsg(c, 200), s1 = w.sign(m), s2 = b.sign(m);
        check(s1 == s2, "restored-signature", str("index %u: %s", cur, diff(s1, s2).c_str()));
        check(XmssBase::verify(m, s2, w.getPK()), "restored-signature-invalid", "");
        cur++;
    }
    c.label(via);
    c.nontrivial();
}

PROP(C08, extended_seeds_of_any_height, 3000, 60000, 30) {
    Cfg g{(int) c.choose(3), 4 + 2 * (unsigned) c.sweep(14), 16};
    Bytes seed = genSeed(c), sk = c.bytes(132);
    c.note(show(g) + " seed=" + pbt::hexs(seed));
    TallWallet w(seed, g.h, g.hash, sk);
    Bytes ext = w.getExtendedSeed(), want = ref::descriptor(g.hash, 0, g.h, 0);
    check(w.getDescriptorBytes() == want, "descriptor", pbt::hexs(w.getDescriptorBytes()));
    want.insert(want.end(), seed.begin(), seed.end());
    check(ext == want, "extended-seed-layout", diff(ext, want));
    Bytes back = c.coin() ? mnemonic2bin(bin2mnemonic(ext)) : hstr2bin(bin2hstr(ext));
    check(back == ext, "backup-decodes-differently", diff(back, ext));
    TallWallet b(back, sk);
    check(b.getSeed() == seed && b.getHeight() == g.h && b.getExtendedSeed() == ext && b.getDescriptorBytes() == w.getDescriptorBytes(), "restored-parameters", show(g));
    check(b.getDescriptor().getHashFunction() == (eHashFunction) g.hash && b.getDescriptor().getHeight() == g.h, "restored-descriptor", show(g));
    if (w.ready && b.ready) {
        check(b.getPK() == w.getPK() && b.getAddress() == w.getAddress(), "restored-public-key", show(g));
        want = ref::descriptor(g.hash, 0, g.h, 0);
        for (auto part : {w.getRoot(), w.getPKSeed()}) want.insert(want.end(), part.begin(), part.end());
        check(w.getPK() == want, "public-key-layout", diff(w.getPK(), want));
    }
    c.label(str("h=%u", g.h));
    c.nontrivial();
}
