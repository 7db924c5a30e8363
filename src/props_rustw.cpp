// The Rust halves of C01 to C15 and C18 to C20: Rust wallets, verification and codecs against the model.
#include "chains.h"
#include "long.h"
#include "rustwallet.h"
#include <atomic>
#include <thread>

namespace {
bool rustVerify(const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w, bool basic = false) {
    return rust(20, Req().s(m).s(s).s(pk).n(w).n(basic)).ok();
}
Cfg genRCfg(Ctx &c, bool six = true) {
    Cfg g;
    g.hash = (int) c.choose(3);
    g.h = six && c.choose(5) == 4 ? 6 : 4;
    g.w = c.pick<unsigned>({16, 16, 16, 4, 4, 2, 256});
    if (g.h > 4 && g.w == 256) g.w = 16;
    return g;
}
// The part of a Rust wallet that needs no tree, so of any height.
bool haveBase() { static const bool b = need("features", rust(43, Req())).n() != 0; return b; }
Rep rustBase(const Bytes &seed, const Cfg &g, const Bytes &sk) { return rust(40, Req().s(seed).n(g.h).n((uint64_t) g.hash).s(sk)); }
Rep rustBase(const Bytes &ext, const Bytes &sk) { return rust(41, Req().s(ext).s(sk)); }
RW asWallet(Rep r, const Cfg &g) { return RW{std::unique_ptr<Obj>(new Obj(need("making a wallet's base", r).n())), g, false}; }
} // namespace

// ---------------------------------------------------------------- C01
PROP(C01, rust_history_verifies, 110, 4000, 120) {
    Cfg g = genRCfg(c);
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g, g.h == 4 && c.choose(3) == 2);
    c.note(rnote(w, seed));
    Bytes pk = w.info().pk;
    const uint32_t n = 1u << g.h;
    uint32_t cur = 0;
    unsigned sigs = 0, ops = 2 + (unsigned) c.choose(w.basic ? 3 : 9);
    auto one = [&](const Bytes &m) {
        Bytes s = w.mustSign(m);
        c.note(str("sign@%u len=%zu", cur, m.size()));
        check(s.size() == ref::sigSize(g.h, g.w), "signature-size", str("%zu", s.size()));
        check(need("signature size", rust(39, Req().n(w.o->h).n(g.w))).n() == s.size(), "advertised-size", "");
        check(sigIndex(s) == cur, "index-carried", str("%u, issued at %u", sigIndex(s), cur));
        check(rustVerify(m, s, pk, g.w, c.coin()), "does-not-verify", str("signature at index %u of a %zu byte message", cur, m.size()));
        cur++;
        sigs++;
        check(w.info().index == cur, "index-after-signing", "");
    };
    for (unsigned i = 0; i < ops; i++) {
        if (cur >= n) { check(!w.sign({1}).ok(), "signs-when-exhausted", ""); break; }
        size_t op = c.weighted({5, 3, 1});
        if (op == 0) one(c.choose(20) != 19 ? genMsg(c) : c.bytes(70000 + (size_t) c.choose(300000)));
        else if (op == 1) { uint32_t t = cur + (uint32_t) c.choose(std::min<uint32_t>(n - cur, c.coin() ? 3 : n)); w.mustSet(t); cur = t; c.note(str("jump %u", t)); }
        else if (!w.basic) { uint32_t bad = c.coin() || !cur ? n + (uint32_t) c.choose(3) : (uint32_t) c.choose(cur); check(!w.set(bad).ok(), "bad-jump-accepted", str("%u", bad)); }
    }
    if (cur < n) { if (cur < n - 1) w.mustSet(n - 1); cur = n - 1; one(genMsg(c, 100)); }
    check(w.info().pk == pk, "public-key-changed", "");
    c.label(str("Rust w=%u", g.w)); c.label(str("Rust h=%u", g.h));
    c.nontrivial(sigs >= 2);
}
PROP(C01, rust_every_index_verifies, 10, 100, 300) {
    Cfg g{(int) c.choose(3), 4 + 2 * (unsigned) c.weighted({1, 1, 1}), c.pick({4u, 2u})};
    if (c.index == 0) g.h = 10;
    if (c.thorough && c.index == 1) g.h = 12;
    if (g.h < 8 && c.coin()) g.w = 16;
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g);
    c.note(rnote(w, seed) + " all indices");
    Bytes pk = w.info().pk;
    for (uint32_t i = 0; i < 1u << g.h; i++) {
        Bytes m{(uint8_t) i, 7}, s = w.mustSign(m);
        check(sigIndex(s) == i, "index-carried", str("%u at %u", sigIndex(s), i));
        check(rustVerify(m, s, pk, g.w), "does-not-verify", str("signature at index %u", i));
    }
    c.nontrivial();
}
PROP(C01, rust_tall_signatures_verify, 250, 5000, 60) { // what a tall wallet would issue
    Genuine a = genGenuine(c);
    c.note("Rust " + showG(a));
    check(rustVerify(a.msg, a.sig, a.pk, a.g.w, c.coin()), "does-not-verify", showG(a));
    c.nontrivial();
}

// ---------------------------------------------------------------- C02
PROP(C02, rust_mutations_rejected, 700, 20000, 60) {
    Genuine a = genGenuine(c);
    c.note("Rust " + showG(a));
    check(rustVerify(a.msg, a.sig, a.pk, a.g.w), "genuine-rejected", "before any mutation");
    unsigned n = 3 + (unsigned) c.choose(6), done = 0;
    for (unsigned i = 0; i < n; i++) {
        Mut o;
        if (!mutate(c, a, o)) continue;
        c.note(o.what);
        check(!rustVerify(o.m, o.s, o.pk, o.w, c.coin()), "accepted", o.what + " of " + showG(a));
        done++;
        if (c.choose(3) == 2) check(rustVerify(a.msg, a.sig, a.pk, a.g.w), "genuine-rejected", "after " + o.what);
    }
    c.count("mutations rejected", done);
    c.nontrivial(done >= 2);
}

PROP(C02, rust_long_messages_bind, 4, 40, 120) {
    Genuine a = genGenuine(c, false);
    Bytes m = c.bytes(longSize(c, c.sweep(20)));
    c.note(str("Rust message of %zu bytes, ", m.size()) + showG(a));
    Bytes s = a.v.sign(m);
    check(rustVerify(m, s, a.pk, a.g.w), "genuine-rejected", c.desc);
    c.count("changed long messages rejected", longChanges(c, m, [&](const std::string &what) { check(!rustVerify(m, s, a.pk, a.g.w, c.coin()), "accepted", what + " of " + showG(a)); }));
    c.nontrivial();
}

// ---------------------------------------------------------------- C03
PROP(C03, rust_long_messages, 4, 40, 120) {
    Genuine a = genGenuine(c, false);
    Bytes m = c.bytes(longSize(c, c.sweep(20)));
    c.note(str("Rust message of %zu bytes, ", m.size()) + showG(a));
    Bytes s = a.v.sign(m);
    check(rustVerify(m, s, a.pk, a.g.w, c.coin()), "valid-rejected", c.desc);
    m[c.coin() ? m.size() - 1 : (size_t) c.choose(m.size())] ^= (uint8_t) (1u << c.choose(8));
    check(!rustVerify(m, s, a.pk, a.g.w, c.coin()), "invalid-accepted", c.desc);
    c.nontrivial();
}
PROP(C03, rust_decides_as_the_scheme_defines, 1200, 30000, 60) {
    unsigned n = 1 + (unsigned) c.choose(3);
    std::vector<Q> qs;
    std::vector<int> want;
    bool wellFormed = false;
    for (unsigned i = 0; i < n; i++) {
        qs.push_back(genQuery(c));
        Q &q = qs.back();
        c.note("Rust " + q.what);
        want.push_back(ref::verify(q.m, q.s, q.pk, q.w));
        if (ref::supportedW(q.w) && q.pk.size() == 67 && q.s.size() >= 36) wellFormed = true;
    }
    for (unsigned i = 0; i < n; i++) check(rustVerify(qs[i].m, qs[i].s, qs[i].pk, qs[i].w, c.coin()) == want[i], want[i] ? "valid-rejected" : "invalid-accepted", qs[i].what);
    for (unsigned i = n; i-- > 0;) check(rustVerify(qs[i].m, qs[i].s, qs[i].pk, qs[i].w) == want[i], "answer-depends-on-history", qs[i].what);
    c.nontrivial(wellFormed);
}

// ---------------------------------------------------------------- C04
PROP(C04, rust_keys_equal_reference, 120, 3000, 120) {
    Cfg g = genRCfg(c);
    if (c.thorough && c.choose(10) == 9) g.h = 8, g.w = 16;
    Bytes seed = genSeed(c);
    ref::Wallet r(seed, rp(g));
    auto chk = [&](const RW &w) {
        RInfo i = w.info();
        check(i.pk == r.pk(), "public-key", diff(i.pk, r.pk()));
        check(i.sk == r.sk(0), "secret-key", diff(i.sk, r.sk(0)));
        check(i.root == Bytes(r.root().begin(), r.root().end()), "root", "");
        check(i.pkSeed == r.pubseed && i.skSeed == r.skseed && i.prf == r.skprf, "key-parts", "");
        check(i.seed == seed && i.addr == ref::address(r.pk()) && i.height == g.h && i.index == 0, "fresh-wallet", "");
    };
    RW w = mkRust(seed, g, g.h == 4 && c.choose(3) == 2);
    c.note(rnote(w, seed));
    chk(w);
    if (!w.basic && c.choose(3) == 2) { need("initialize_tree", rust(37, Req().n(w.o->h).n(g.w))); chk(w); }
    if (c.choose(4) == 3) {
        Bytes s2 = seed;
        size_t bit = (size_t) c.choose(384);
        s2[bit / 8] ^= (uint8_t) (1u << (bit % 8));
        check(mkRust(s2, g).info().root != w.info().root, "roots-collide", str("seed bit %zu", bit));
    }
    c.nontrivial();
}

// ---------------------------------------------------------------- C05
PROP(C05, rust_one_time_indices, 130, 3000, 120) {
    Cfg g = genRCfg(c, c.choose(4) == 3);
    if (g.w == 256) g.w = 16;
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g, g.h == 4 && c.choose(5) == 4);
    c.note(rnote(w, seed));
    Bytes pk = w.info().pk;
    const uint32_t n = 1u << g.h;
    uint32_t model = 0;
    int64_t last = -1;
    unsigned sigs = 0, refused = 0, ops = 6 + (unsigned) c.choose(20);
    if (w.basic) ops = 6;
    if (w.basic || c.choose(3) == 2) { model = n - 1 - (uint32_t) c.choose(4); w.mustSet(model); c.note(str("start at %u", model)); }
    for (unsigned i = 0; i < ops; i++) {
        Bytes before = w.info().sk;
        if (w.basic || c.weighted({8, 9}) == 0) {
            Bytes m = genMsg(c, 100);
            c.note(str("sign@%u", model));
            Rep r = w.sign(m);
            if (model >= n) {
                check(!r.ok(), "signs-when-exhausted", str("at %u of %u", model, n));
                check(w.info().sk == before, "failed-call-changed-state", "");
                refused++;
            } else {
                check(r.ok(), "refuses-legal-signature", str("index %u", model));
                Bytes s = r.s();
                check((int64_t) sigIndex(s) > last && sigIndex(s) == model, "index-reused", str("issued %u, the next index is %u", sigIndex(s), model));
                check(rustVerify(m, s, pk, g.w), "invalid-signature", str("at index %u", model));
                last = model++;
                sigs++;
            }
        } else {
            uint32_t t;
            switch (c.choose(4)) {
            case 0: t = model < n ? model + (uint32_t) c.choose(n - model) : n - 1; break;
            case 1: t = model ? (uint32_t) c.choose(model) : 0; break;
            case 2: t = c.pick({n, n + 1, 2 * n, 0x10000u + model, 0x80000000u, 0x80000000u | model, 0xFFFFFFFFu, (uint32_t) 1 << 16, (uint32_t) 1 << 8}); break;
            default: t = model;
            }
            bool legal = t >= model && t < n;
            c.note(str("set %u%s", t, legal ? "" : " (illegal)"));
            bool ok = w.set(t).ok();
            check(ok == legal, legal ? "refuses-legal-jump" : t < model ? "rewinds" : "jumps-beyond-the-tree", str("set_index(%u) at %u of %u", t, model, n));
            if (legal) model = t;
            else { check(w.info().sk == before, "failed-call-changed-state", ""); refused++; }
        }
        RInfo f = w.info();
        check(f.index == model && f.remaining == n - model && f.pk == pk, "index-disagrees", str("reports %u, the history says %u", f.index, model));
    }
    c.nontrivial(sigs >= 2 && refused >= 1);
}

// ---------------------------------------------------------------- C06
PROP(C06, rust_signature_is_the_schemes, 110, 3000, 120) {
    Cfg g = genRCfg(c);
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g, (g.h == 4 || g.w != 16) && c.choose(4) == 3);
    c.note(rnote(w, seed));
    ref::Wallet r(seed, rp(g));
    const uint32_t n = 1u << g.h;
    uint32_t cur = 0;
    unsigned sigs = 0, ops = 2 + (unsigned) c.choose(w.basic ? 3 : 8);
    for (unsigned i = 0; i < ops && cur < n; i++) {
        if (c.coin() || i + 1 == ops) {
            Bytes m = c.choose(20) != 19 ? genMsg(c, 600) : c.bytes(70000 + (size_t) c.choose(200000)), s = w.mustSign(m), e = r.sign(cur, m);
            check(s == e, "signature-differs", str("index %u, %zu byte message: %s", cur, m.size(), diff(s, e).c_str()));
            c.note(str("sign@%u", cur));
            cur++;
            sigs++;
        } else { cur += (uint32_t) c.choose(std::min<uint32_t>(n - cur, c.coin() ? 4 : n)); w.mustSet(cur); c.note(str("jump %u", cur)); }
    }
    c.count("Rust signatures compared", sigs);
    c.nontrivial(sigs >= 1);
}
PROP(C06, rust_long_messages, 4, 40, 120) {
    Cfg g{(int) c.choose(3), 4, c.pick({16u, 4u})};
    Bytes seed = genSeed(c), m = c.bytes(longSize(c, c.sweep(20)));
    RW w = mkRust(seed, g, c.choose(3) == 2);
    c.note(rnote(w, seed) + str(", message of %zu bytes", m.size()));
    uint32_t idx = (uint32_t) c.choose(16);
    if (idx) w.mustSet(idx);
    Bytes s = w.mustSign(m), e = ref::Wallet(seed, rp(g)).sign(idx, m);
    check(s == e, "signature-differs", str("index %u, %zu byte message: %s", idx, m.size(), diff(s, e).c_str()));
    c.nontrivial();
}
PROP(C01, rust_long_messages_verify, 4, 40, 120) {
    Cfg g{(int) c.choose(3), 4, c.pick({16u, 4u})};
    Bytes seed = genSeed(c), m = c.bytes(longSize(c, c.sweep(20)));
    RW w = mkRust(seed, g, c.choose(3) == 2);
    c.note(rnote(w, seed) + str(", message of %zu bytes", m.size()));
    Bytes s = w.mustSign(m);
    check(rustVerify(m, s, ref::Wallet(seed, rp(g)).pk(), g.w, c.coin()), "does-not-verify", c.desc);
    c.nontrivial();
}
PROP(C06, rust_larger_trees, 6, 60, 300) { // indices of more than a byte; paths compared on a walk with jumps
    Cfg g{(int) c.choose(3), 8 + 2 * (unsigned) (c.index % 2), c.pick({4u, 2u})};
    bool basic = c.index == 2;
    if (basic) g.h = 8;
    Bytes seed = genSeed(c), m = c.bytes(20);
    RW w = mkRust(seed, g, basic);
    c.note(rnote(w, seed));
    ref::Wallet r(seed, rp(g));
    const uint32_t n = 1u << g.h;
    uint32_t cur = 0;
    for (unsigned k = 0; k < (basic ? 3 : 40) && cur < n; k++) {
        if (c.choose(3) == 2) {
            uint32_t p = 1u << c.choose(9), t = c.choose(3) != 2 ? cur + (uint32_t) c.choose(std::min<uint32_t>(n - cur, 60)) : std::min(n - 1, (cur / p + 1) * p - (uint32_t) c.choose(2));
            cur = std::max(cur, t);
            w.mustSet(cur);
            c.note(str("jump %u", cur));
        }
        Bytes s = w.mustSign(m);
        check(sigIndex(s) == cur, "wrong-index", str("%u for %u", sigIndex(s), cur));
        auto path = r.path(cur);
        for (unsigned lv = 0; lv < g.h; lv++) check(memcmp(&s[s.size() - 32 * (g.h - lv)], path[lv].data(), 32) == 0, "authentication-path", str("index %u level %u", cur, lv));
        if (k % 10 == 0) check(s == r.sign(cur, m), "signature-differs", str("index %u", cur));
        cur++;
        c.count("Rust paths compared");
    }
    c.label(str("Rust h=%u", g.h));
    c.nontrivial();
}

// ---------------------------------------------------------------- C07
PROP(C07, rust_chains_positioned_by_checksum, 160, 3000, 60) {
    Cfg g = genRCfg(c, false);
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g, c.choose(4) == 3);
    uint32_t idx = (uint32_t) c.choose(16);
    Bytes m = genMsg(c, 200);
    c.note(rnote(w, seed) + str(" index=%u message of %zu bytes", idx, m.size()));
    w.mustSet(idx);
    Bytes s = w.mustSign(m);
    RInfo i = w.info();
    checkChains(g, idx, m, s, i.pk, i.sk);
    c.label(str("Rust w=%u", g.w));
    c.nontrivial();
}
PROP(C07, rust_advanced_chains_are_no_forgery, 250, 6000, 60) {
    Genuine a = genGenuine(c, false);
    c.note("Rust " + showG(a));
    ref::B32 dg = ref::messageDigest(a.g.hash, &a.sig[4], &a.pk[3], a.idx, a.msg);
    auto d = withChecksum(a.g.w, digits(a.g.w, dg.data()));
    bool changed = false;
    for (unsigned k = 1 + (unsigned) c.choose(4); k--;) {
        unsigned ch = (unsigned) c.choose(d.size());
        if (d[ch] + 1 >= a.g.w) continue;
        unsigned st = 1 + (unsigned) c.choose(a.g.w - 1 - d[ch]);
        ref::B32 x;
        memcpy(x.data(), &a.sig[36 + 32 * ch], 32);
        x = ref::chain(a.g.hash, x, d[ch], st, &a.pk[35], a.idx, ch);
        memcpy(&a.sig[36 + 32 * ch], x.data(), 32);
        d[ch] += st;
        changed = true;
    }
    if (changed) check(!rustVerify(a.msg, a.sig, a.pk, a.g.w), "forgery-accepted", "chains advanced, same message");
    c.nontrivial(changed);
}

// ---------------------------------------------------------------- C08
PROP(C08, rust_restored_wallet_is_the_same, 90, 2000, 120) {
    Cfg g = genRCfg(c);
    g.w = 16;
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g);
    RInfo a = w.info();
    Bytes want = ref::descriptor(g.hash, 0, g.h, 0);
    want.insert(want.end(), seed.begin(), seed.end());
    check(a.ext == want, "extended-seed-layout", diff(a.ext, want));
    Bytes back;
    std::string via;
    switch (c.choose(3)) {
    case 0: via = "bytes"; back = a.ext; break;
    case 1: via = "hex"; back = need("hstr2bin", rust(2, Req().t(need("bin2hstr", rust(1, Req().s(a.ext).n(0))).t()))).s(); break;
    default: via = "mnemonic"; back = need("mnemonic2bin", rust(4, Req().t(need("bin2mnemonic", rust(3, Req().s(a.ext))).t()))).s();
    }
    c.note(rnote(w, seed) + " via " + via);
    check(back == a.ext, "backup-decodes-differently", diff(back, a.ext));
    for (unsigned k = (unsigned) c.choose(3); k--;) w.mustSign({1});
    RW b{std::unique_ptr<Obj>(new Obj(need("restoring", rust(31, Req().s(back))).n())), g, false};
    RInfo i = b.info();
    check(i.seed == seed && i.height == g.h && i.index == 0, "restored-parameters", "");
    check(i.pk == a.pk && i.sk == a.sk && i.addr == a.addr && i.ext == a.ext && i.desc == a.desc, "restored-keys", "");
    for (uint32_t cur = w.info().index, k = 0; k < 3 && cur < 1u << g.h; k++) {
        if (c.coin()) { cur += (uint32_t) c.choose((1u << g.h) - cur); w.mustSet(cur); }
        b.mustSet(cur);
        Bytes m = genMsg(c, 200), s1 = w.mustSign(m), s2 = b.mustSign(m);
        check(s1 == s2, "restored-signature", str("index %u: %s", cur, diff(s1, s2).c_str()));
        cur++;
    }
    c.nontrivial();
}

PROP(C08, rust_extended_seeds_of_any_height, 2000, 40000, 30) {
    if (!haveBase()) return;
    Cfg g{(int) c.choose(3), 4 + 2 * (unsigned) c.sweep(14), 16};
    Bytes seed = genSeed(c), sk = c.bytes(132);
    c.note("Rust " + show(g) + " seed=" + pbt::hexs(seed));
    RW w = asWallet(rustBase(seed, g, sk), g);
    RInfo i = w.info();
    Bytes want = ref::descriptor(g.hash, 0, g.h, 0), pk = want;
    check(i.desc == want, "descriptor", pbt::hexs(i.desc));
    want.insert(want.end(), seed.begin(), seed.end());
    check(i.ext == want, "extended-seed-layout", diff(i.ext, want));
    RW b = asWallet(rustBase(want, sk), g);
    RInfo j = b.info();
    check(j.seed == seed && j.height == g.h && j.ext == want && j.desc == i.desc, "restored-parameters", show(g));
    for (auto &part : {i.root, i.pkSeed}) pk.insert(pk.end(), part.begin(), part.end());
    check(i.pk == pk && j.pk == pk, "public-key-layout", diff(j.pk, pk));
    check(i.addr == ref::address(pk) && j.addr == i.addr, "restored-address", "");
    c.nontrivial();
}

// ---------------------------------------------------------------- C09
PROP(C09, rust_every_descriptor, 256, 256, 60) {
    uint8_t hi = (uint8_t) c.sweep(256);
    c.note(str("Rust descriptors ....%02x", hi));
    Bytes got = need("descriptors", rust(19, Req().n(hi))).s();
    size_t p = 0;
    unsigned decoded = 0;
    for (uint32_t lo = 0; lo < 65536; lo++) {
        unsigned b0 = lo & 255, b1 = lo >> 8;
        bool known = (b0 & 15) <= 2 && b0 >> 4 == 0 && b1 >> 4 == 0;
        bool ok = got.at(p++);
        if (known) check(ok, "good-descriptor-refused", str("%02x%02x%02x", b0, b1, hi));
        else check(!ok, "unknown-value-decoded", str("%02x%02x%02x", b0, b1, hi)); // the Rust types cannot report other values
        if (!ok) continue;
        decoded++;
        check(got.at(p) == (b0 & 15) && got.at(p + 1) == 2 * (b1 & 15), "decoded-differently", str("%02x%02x%02x", b0, b1, hi));
        check(got.at(p + 2) == b0 && got.at(p + 3) == b1 && got.at(p + 4) == 0, "encoded-differently", str("%02x%02x%02x", b0, b1, hi));
        p += 5;
    }
    c.count("descriptors", 65536);
    c.nontrivial(decoded > 0);
}
PROP(C09, rust_fields_and_containers, 3000, 60000, 30) {
    int hash = (int) c.choose(3);
    unsigned h = 2 * (unsigned) c.choose(16);
    Bytes d = ref::descriptor(hash, 0, h, 0);
    Rep r = need("descriptor", rust(16, Req().n((uint64_t) hash).n(h)));
    check((int) r.n() == hash && r.n() == 0 && r.n() == h && r.n() == 0 && r.s() == d, "encoded-differently", str("hash %d height %u", hash, h));
    size_t n = c.choose(3) != 2 ? c.pick<size_t>({3, 51, 67}) : c.size(100);
    Bytes b = c.bytes(n);
    for (size_t i = 0; i < 3 && i < n; i++) b[i] = d[i];
    c.note(str("Rust hash %d height %u in %zu bytes", hash, h, n));
    for (auto &k : {std::make_pair(11u, (size_t) 3), std::make_pair(12u, (size_t) 67), std::make_pair(13u, (size_t) 51)}) {
        Rep x = rust(k.first, Req().s(b));
        check(x.ok() == (n == k.second), n == k.second ? "good-descriptor-refused" : "length-accepted", str("operation %u of %zu bytes", k.first, n));
        if (x.ok()) check((int) x.n() == hash && x.n() == 0 && x.n() == h && x.n() == 0 && x.s() == d, "decoded-differently", str("operation %u", k.first));
    }
    c.nontrivial(n == 3 || n == 51 || n == 67);
}

// ---------------------------------------------------------------- C10
PROP(C10, rust_addresses, 6000, 100000, 30) {
    Bytes pk = c.bytes(67);
    pk[0] = (uint8_t) c.choose(3); pk[1] = (uint8_t) c.choose(16); if (c.coin()) pk[2] = 0;
    c.note("Rust " + pbt::hexs(pk, 67));
    Bytes a = need("get_address", rust(14, Req().s(pk))).s();
    check(a == ref::address(pk), "address", diff(a, ref::address(pk)));
    auto valid = [&](const Bytes &x) { return need("address_is_valid", rust(15, Req().s(x))).n() != 0; };
    check(valid(a), "own-address-rejected", "");
    for (int k = 0; k < 10; k++) {
        Bytes b = a;
        switch (c.choose(5)) {
        case 0: case 1: b[(size_t) c.choose(39)] ^= (uint8_t) (1u << c.choose(8)); break;
        case 2: b[(size_t) c.choose(39)] = (uint8_t) c.choose(256); b[(size_t) c.choose(39)] = (uint8_t) c.choose(256); break;
        case 3: b.resize((size_t) c.choose(42), 0); break;
        default: { // right checksum, any descriptor
            if (c.coin()) b[0] = (uint8_t) c.choose(256);
            if (c.coin()) b[1] = (uint8_t) c.choose(256);
            if (c.coin()) b[2] = (uint8_t) c.choose(256);
            ref::B32 d = ref::sha256(b.data(), 35);
            std::copy(d.end() - 4, d.end(), b.begin() + 35); }
        }
        check(valid(b) == ref::addressValid(b), valid(b) ? "bad-address-accepted" : "good-address-rejected", pbt::hexs(b));
    }
    Bytes pk2 = pk;
    pk2[(size_t) (3 + c.choose(64))] ^= (uint8_t) (1u << c.choose(8));
    check(need("get_address", rust(14, Req().s(pk2))).s() != a, "addresses-collide", "");
    size_t n = c.size(100);
    Bytes any = c.bytes(n);
    check(valid(any) == ref::addressValid(any), "arbitrary-bytes", pbt::hexs(any));
    if (n != 67) check(!rust(14, Req().s(any)).ok(), "length-accepted", str("%zu", n));
    c.nontrivial();
}

// ---------------------------------------------------------------- C11
PROP(C11, rust_mnemonics, 1500, 30000, 30) {
    const auto &wl = ref::wordlist();
    Bytes b = c.bytes(3 * (size_t) (1 + c.choose(30)));
    if (c.choose(3) == 2) b = c.bytes(1 + c.size(200));
    c.note("Rust " + pbt::hexs(b));
    Rep r = rust(3, Req().s(b));
    check(r.ok() == (b.size() % 3 == 0), r.ok() ? "length-accepted" : "good-length-refused", str("%zu bytes", b.size()));
    if (r.ok()) {
        std::string p = r.t();
        check(p == ref::mnemonic(b), "encoded-differently", p);
        check(need("mnemonic2bin", rust(4, Req().t(p))).s() == b, "decoded-differently", p);
    }
    std::vector<std::string> words;
    std::string q;
    for (size_t i = 0, n = (size_t) c.choose(9); i < n; i++) {
        std::string w = wl[(size_t) c.choose(4096)];
        if (c.choose(8) == 7) switch (c.choose(4)) {
            case 0: w[0] = (char) toupper((unsigned char) w[0]); break;
            case 1: w += (char) ('a' + c.choose(26)); break;
            case 2: if (w.size() > 1) w.pop_back(); break;
            default: utf8(w, c.pick(ODD)); if (!w.empty() && w.back() == 0) w += 'x';
        }
        if (i) q += c.choose(6) != 5 ? " " : c.pick<const char *>({"  ", "\t", "\n", " \r\n "});
        q += w;
        words.push_back(w);
    }
    Bytes want;
    bool good = ref::unmnemonic(words, want);
    Rep d = rust(4, Req().t(q));
    check(d.ok() == good, d.ok() ? "bad-phrase-accepted" : "good-phrase-refused", quote(q));
    if (good) check(d.s() == want, "decoded-differently", quote(q));
    c.nontrivial(words.size() >= 2 || !b.empty());
}
PROP(C11, rust_every_word, 256, 256, 60) {
    unsigned base = (unsigned) c.sweep(256) * 16;
    c.note(str("Rust words %u..", base));
    Bytes b;
    for (unsigned i = base; i < base + 16; i++) { unsigned o = (unsigned) c.choose(4096); for (unsigned v : {i << 12 | o, o << 12 | i}) { b.push_back((uint8_t) (v >> 16)); b.push_back((uint8_t) (v >> 8)); b.push_back((uint8_t) v); } }
    std::string p = need("bin2mnemonic", rust(3, Req().s(b))).t();
    check(p == ref::mnemonic(b), "encoded-differently", p);
    check(need("mnemonic2bin", rust(4, Req().t(p))).s() == b, "decoded-differently", p);
    c.nontrivial();
}

// ---------------------------------------------------------------- C12
PROP(C12, rust_hex, 8000, 100000, 30) {
    Bytes b = c.bytes(c.size(400));
    uint32_t wrap = c.coin() ? 0 : c.pick({1u, 2u, 3u, 8u, 16u, 32u, 255u, 0x80000000u, 0xFFFFFFFFu, (uint32_t) b.size(), 1u + (uint32_t) c.choose(40)});
    c.note(str("Rust wrap=%u ", wrap) + pbt::hexs(b));
    auto wrapped = [&](const Bytes &x) { std::string t; for (size_t i = 0; i < x.size(); i++) { if (wrap && i && i % wrap == 0) t += '\n'; t += str("%02x", x[i]); } return t; };
    check(need("bin2hstr", rust(1, Req().s(b).n(wrap))).t() == wrapped(b), "encoded-differently", "");
    std::string h = ref::hex(b), up;
    check(need("bin2hstr", rust(1, Req().s(b).n(0))).t() == h, "encoded-differently", "");
    for (char ch : h) up += c.coin() ? (char) toupper((unsigned char) ch) : ch;
    check(need("hstr2bin", rust(2, Req().t(h))).s() == b && need("hstr2bin", rust(2, Req().t(up))).s() == b, "decoded-differently", up);
    std::string t = text(c, 60);
    Bytes tb(t.begin(), t.end());
    check(need("str2bin", rust(18, Req().t(t))).s() == tb, "text-changed", quote(t));
    check(need("binstr2hstr", rust(17, Req().t(t).n(wrap))).t() == wrapped(tb), "text-encoded-differently", quote(t));
    for (const std::string &x : {damage(c, h), text(c, 20), damage(c, damage(c, ref::hex(c.bytes(6))))}) {
        Bytes want;
        bool good = ref::unhex(x, want);
        Rep r = rust(2, Req().t(x));
        check(r.ok() == good, r.ok() ? "bad-text-accepted" : "good-text-refused", quote(x));
        if (good) check(r.s() == want, "decoded-differently", quote(x));
    }
    c.nontrivial(!b.empty());
}

// ---------------------------------------------------------------- C13
PROP(C13, rust_hashes, 5000, 60000, 30) {
    static const int rate[] = {64, 168, 136, 32, 256};
    size_t n = c.coin() ? (size_t) std::max<int64_t>(0, (int64_t) rate[c.choose(5)] * (int64_t) (1 + c.choose(6)) + c.range(-9, 3)) : c.size(3000);
    if (c.choose(60) == 59) n = 60000 + (size_t) c.choose(100000);
    size_t o = c.coin() ? (size_t) std::max<int64_t>(0, (int64_t) rate[c.choose(5)] * (int64_t) c.choose(6) + c.range(-3, 3)) : c.size(2500);
    Bytes b = c.bytes(n);
    c.note(str("Rust %zu bytes in, %zu out", n, o));
    check(need("shake128", rust(5, Req().n(o).s(b))).s() == ref::shake(128, b, o), "shake128", c.desc);
    check(need("shake256", rust(6, Req().n(o).s(b))).s() == ref::shake(256, b, o), "shake256", c.desc);
    ref::B32 d = ref::sha256(b);
    check(need("sha2_256", rust(7, Req().s(b))).s() == Bytes(d.begin(), d.end()), "sha2_256", c.desc);
    uint64_t k = c.choose(30) != 29 ? c.choose(6) : 200 + c.choose(200);
    if (c.index % 1000 == 7) k = c.pick({65535, 65536, 65537, 70000}) + c.choose(3);
    Rep r = rust(8, Req().n(k).s(b));
    check(r.ok() == (k > 0), k ? "count-refused" : "zero-count-accepted", "");
    for (uint64_t i = 1; i < k; i++) d = ref::sha256(Bytes(d.begin(), d.end()));
    if (k) check(r.s() == Bytes(d.begin(), d.end()), "sha2_256_n", str("%llu times", (unsigned long long) k));
    c.nontrivial();
}

PROP(C13, rust_long, 1, 8, 60) {
    const uint64_t k = c.sweep(20);
    size_t n = longSize(c, k), o = longSize(c, 1 + (k / 4) * 2 + k / 5);
    if (c.coin()) (c.coin() ? n : o) = c.size(300);
    Bytes b = c.bytes(n);
    c.note(str("Rust %zu bytes in, %zu out", n, o));
    check(need("shake128", rust(5, Req().n(o).s(b))).s() == ref::shake(128, b, o), "shake128", c.desc);
    check(need("shake256", rust(6, Req().n(o).s(b))).s() == ref::shake(256, b, o), "shake256", c.desc);
    ref::B32 d = ref::sha256(b);
    check(need("sha2_256", rust(7, Req().s(b))).s() == Bytes(d.begin(), d.end()), "sha2_256", c.desc);
    c.nontrivial();
}
PROP(C11, rust_long_phrases, 1, 8, 60) {
    Bytes b = c.bytes(longSize(c, c.sweep(20)) / 3 * 3);
    c.note(str("Rust %zu bytes", b.size()));
    std::string p = need("bin2mnemonic", rust(3, Req().s(b))).t();
    check(p == ref::mnemonic(b), "encoded-wrongly", c.desc);
    check(need("mnemonic2bin", rust(4, Req().t(p))).s() == b, "round-trip", c.desc);
    p[c.coin() ? p.size() - 1 : (size_t) c.choose(p.size())] = '-';
    check(!rust(4, Req().t(p)).ok(), "unknown-word-accepted", c.desc);
    c.nontrivial();
}
PROP(C12, rust_long_strings, 1, 8, 60) {
    Bytes b = c.bytes(longSize(c, c.sweep(20)));
    uint32_t wrap = c.pick({0u, 65535u, 65536u, 70001u, 1u << 24, 31u});
    c.note(str("Rust %zu bytes, wrap=%u", b.size(), wrap));
    std::string flat = ref::hex(b), want;
    for (size_t i = 0; wrap && i < b.size(); i += wrap) { if (i) want += '\n'; want.append(flat, 2 * i, 2 * (size_t) wrap); }
    check(need("bin2hstr", rust(1, Req().s(b).n(wrap))).t() == (wrap ? want : flat), "encoded-wrongly", c.desc);
    check(need("hstr2bin", rust(2, Req().t(flat))).s() == b, "round-trip", c.desc);
    flat[c.coin() ? flat.size() - 1 : (size_t) c.choose(flat.size())] = 'g';
    check(!rust(2, Req().t(flat)).ok(), "non-hex-accepted", c.desc);
    c.nontrivial();
}
// ---------------------------------------------------------------- C14
PROP(C14, rust_long_seeds, 1, 8, 60) {
    Bytes seed = c.bytes(longSize(c, c.sweep(20)));
    uint32_t shift = (uint32_t) c.choose(1ull << 32), count = 1 + (uint32_t) c.choose(3);
    c.note(str("Rust %zu byte seed, shift %u, %u entries", seed.size(), shift, count));
    Rep r = need("chain seeds", rust(10, Req().s(seed).n(shift).n(count)));
    check(r.n() == count, "count", c.desc);
    for (uint32_t i = 0; i < count; i++) {
        Bytes x(seed);
        for (int j = 0; j < 4; j++) x.push_back((uint8_t) (shift >> 8 * j));
        for (int j = 0; j < 4; j++) x.push_back((uint8_t) (i >> 8 * j));
        check(r.s() == ref::shake(256, x, 32), "entry", str("%u", i));
    }
    c.nontrivial();
}
PROP(C14, rust_chain_seeds, 1500, 20000, 30) {
    Bytes seed = c.bytes(c.size(100));
    uint32_t shift = c.choose(3) != 2 ? (uint32_t) c.choose(1ull << (1 + c.choose(32))) : c.pick({0u, 255u, 256u, 65535u, 65536u, 0xFFFFFFFFu});
    uint32_t count = (uint32_t) c.choose(8);
    if (c.choose(30) == 29) count = 254 + (uint32_t) c.choose(10);
    if (c.choose(500) == 499) count = 65530 + (uint32_t) c.choose(12);
    c.note(str("Rust %zu byte seed, shift %u, %u entries", seed.size(), shift, count));
    Rep r = need("chain seeds", rust(10, Req().s(seed).n(shift).n(count)));
    uint64_t got = r.n();
    check(got == count, "count", str("%llu", (unsigned long long) got));
    for (uint32_t i = 0; i < count; i++) {
        Bytes x(seed), y = r.s();
        for (int j = 0; j < 4; j++) x.push_back((uint8_t) (shift >> 8 * j));
        for (int j = 0; j < 4; j++) x.push_back((uint8_t) (i >> 8 * j));
        check(y == ref::shake(256, x, 32), "entry", str("%u", i));
    }
    c.nontrivial(count > 0);
}

// ---------------------------------------------------------------- C15
PROP(C15, rust_random_seeds, 1500, 20000, 30) {
    uint32_t n = (uint32_t) (c.coin() ? c.pick({48, 32, 64, 1, 2, 16}) : c.size(400));
    std::string e = c.choose(4) != 3 ? text(c, 60) : "";
    Bytes os = c.bytes(n + 8);
    c.note(str("Rust %u bytes, entropy %s", n, quote(e).c_str()));
    auto get = [&](const Bytes &source, const std::string &entropy) {
        served = source;
        servedTo = 0;
        serving = true;
        Rep r = rustRaw(9, Req().n(n).t(entropy));
        serving = false;
        check(r.ok(), "refused", r.err());
        Bytes x = r.s();
        check(x.size() == n, "length", str("%zu bytes instead of %u", x.size(), n));
        return x;
    };
    if (n && c.choose(5) == 4) { // a source that fails: an error or a panic, never a seed
        serving = sourceBroken = true;
        Rep r = rustRaw(9, Req().n(n).t(e));
        serving = sourceBroken = false;
        check(!r.ok(), "seed-without-randomness", str("%u bytes", n));
        c.label("broken source");
    }
    Bytes a = get(os, e);
    check(servedTo >= n, "too-little-entropy", str("%zu bytes of the source for a seed of %u", servedTo, n));
    if (n >= 12) { // short seeds may coincide
        for (int k = 0; k < 4; k++) {
            size_t i = k == 0 ? n - 1 : (size_t) c.choose(n);
            Bytes o2(os);
            o2[i] ^= (uint8_t) (1u << c.choose(8));
            check(get(o2, e) != a, "source-byte-ignored", str("byte %zu of the source", i));
        }
        if (!e.empty()) {
            std::string e2 = e;
            size_t i = (size_t) c.choose(e2.size());
            if ((unsigned char) e2[i] < 128) e2[i] = (char) ((e2[i] + 1 + c.choose(126)) % 127); else e2 += "z";
            if (e2 != e) check(get(os, e2) != a, "caller-entropy-ignored", quote(e2));
        }
        check(get(os, e + "q") != a, "caller-entropy-ignored", "appended");
        check(a != Bytes(os.begin(), os.begin() + n), "source-passed-through", "");
    }
    c.nontrivial(n >= 12);
}

// ---------------------------------------------------------------- C18
PROP(C18, rust_construction, 500, 10000, 30) {
    size_t route = c.choose(3); // fast, basic, extended seed
    Cfg g{(int) c.choose(3), 4, route == 2 ? 16 : c.pick({16u, 16u, 4u, 2u})};
    Bytes seed = genSeed(c);
    std::string bad;
    Bytes hd = ref::descriptor(g.hash, 0, g.h, 0);
    if (c.choose(3)) switch (c.choose(route == 2 ? 2 : 3)) {
        case 0: { size_t n = c.coin() ? c.pick<size_t>({0, 1, 47, 49, 51, 96}) : c.size(300); if (n == 48) n = 32; seed = c.bytes(n); bad = str("seed of %zu bytes", n); break; }
        case 1: if (route < 2) { g.h = c.pick<unsigned>({0, 1, 2, 3, 5, 7, 9, 15, 31, 32, 33, 34, 36, 62, 64, 128, 132, 254, 255}); bad = str("height %u", g.h); }
                else { hd[0] = (uint8_t) c.choose(256); hd[1] = (uint8_t) c.choose(256); if (hd[0] <= 2 && hd[1] >= 2 && hd[1] <= 15) hd[1] = c.coin() ? 0x12 : 1; bad = str("header %02x%02x", hd[0], hd[1]); } break;
        default: g.w = badW(c); bad = str("w=%u", g.w);
    }
    c.note(str("Rust route %zu %s %s", route, show(g).c_str(), bad.empty() ? "good" : bad.c_str()));
    Bytes e = hd;
    e.insert(e.end(), seed.begin(), seed.end());
    Rep r = route == 2 ? rust(31, Req().s(e)) : rust(route == 1 ? 32 : 30, Req().s(seed).n(g.h).n((uint64_t) g.hash).n(g.w));
    check(r.ok() == bad.empty(), r.ok() ? "bad-parameter-accepted" : "good-parameters-refused", bad + (r.ok() ? "" : r.err()));
    if (r.ok()) {
        RW w{std::unique_ptr<Obj>(new Obj(r.n())), g, route == 1};
        RInfo i = w.info();
        check(i.desc == ref::descriptor(g.hash, 0, g.h, 0) && i.seed == seed && i.height == g.h && i.index == 0, "descriptor", pbt::hexs(i.desc));
        Bytes m = genMsg(c, 100), s = w.mustSign(m);
        check(rustVerify(m, s, i.pk, g.w), "first-signature-invalid", show(g));
        if (route != 1 && c.coin()) {
            unsigned v = badW(c);
            check(!rust(37, Req().n(w.o->h).n(v)).ok(), "bad-parameter-accepted", str("initialize_tree(%u)", v));
        }
    }
    c.nontrivial();
}

// ---------------------------------------------------------------- C19
PROP(C19, rust_sizes, 60, 1500, 60) {
    Cfg g = genRCfg(c);
    Bytes seed = genSeed(c);
    RW w = mkRust(seed, g, g.h == 4 && c.choose(4) == 3);
    c.note(rnote(w, seed));
    for (unsigned x : {2u, 4u, 16u, 256u}) {
        check(need("signature size", rust(39, Req().n(w.o->h).n(x))).n() == ref::sigSize(g.h, x), "advertised-signature-size", str("w=%u", x));
        check(need("base size", rust(22, Req().n(x))).n() == ref::sigSize(0, x), "base-size", str("w=%u", x));
        for (int k = 0; k < 20; k++) {
            size_t q = (size_t) c.choose(40), n = ref::sigSize((unsigned) q, x) + (c.choose(3) != 2 ? 0 : (size_t) c.choose(40));
            if (c.choose(8) == 7) n = c.choose(3) != 2 ? c.size(20000) : ((size_t) 1 << (31 + c.choose(33))) + ref::sigSize((unsigned) q, x);
            size_t b = ref::sigSize(0, x);
            size_t hh = n >= b && (n - b) % 32 == 0 ? (n - b) / 32 : SIZE_MAX;
            Rep r = rust(21, Req().n(n).n(x));
            if (hh == SIZE_MAX || hh > 30) check(!r.ok(), "no-signature-size-accepted", str("%zu w=%u", n, x));
            else if (hh >= 4 && hh % 2 == 0) check(r.ok() && r.n() == hh, "signature-size-not-inverted", str("%zu w=%u", n, x));
            else if (r.ok()) check(r.n() == hh, "wrong-height", str("%zu w=%u", n, x));
        }
    }
    Rep z = need("sizes", rust(23, Req()));
    check(z.n() == 67 && z.n() == 132 && z.n() == 3, "advertised-key-sizes", "");
    const uint32_t n = 1u << g.h;
    uint32_t cur = 0;
    auto cap = [&] { RInfo i = w.info(); check(i.number == n && i.remaining == n - cur && i.index == cur && i.height == g.h && i.pk.size() == 67 && i.sk.size() == 132, "capacity", str("%llu of %llu at %u", (unsigned long long) i.remaining, (unsigned long long) i.number, cur)); };
    cap();
    for (int i = 0; i < 4 && cur < n; i++) {
        if (c.coin()) { cur += (uint32_t) c.choose(n - cur); w.mustSet(cur); cap(); }
        Bytes s = w.mustSign(genMsg(c, 100));
        cur++;
        check(s.size() == ref::sigSize(g.h, g.w), "signature-size", str("%zu", s.size()));
        cap();
    }
    c.nontrivial();
}

PROP(C19, rust_sizes_at_any_height, 2000, 40000, 30) {
    if (!haveBase()) return;
    Cfg g{(int) c.choose(3), 4 + 2 * (unsigned) c.sweep(14), 16};
    RW w = asWallet(rustBase(genSeed(c), g, Bytes(132, 0)), g);
    c.note("Rust, any height: " + show(g));
    for (unsigned x : {2u, 4u, 16u, 256u}) {
        check(need("signature size", rust(39, Req().n(w.o->h).n(x))).n() == ref::sigSize(g.h, x), "advertised-signature-size", str("w=%u", x));
        Rep r = need("height from size", rust(21, Req().n(ref::sigSize(g.h, x)).n(x)));
        check(r.n() == g.h, "height-from-size", str("w=%u", x));
    }
    const uint32_t n = 1u << g.h;
    for (int k = 0; k < 6; k++) {
        uint32_t at = k == 5 ? n : k ? tallIndex(c, g.h) : 0;
        if (k && !w.set(at).ok()) continue;
        RInfo i = w.info();
        check(i.index == at && sigIndex(i.sk) == at, "index", str("%u, expected %u", i.index, at));
        check(i.number == n && i.remaining == n - at && i.height == g.h, "capacity", str("%llu of %llu at %u of %u", (unsigned long long) i.remaining, (unsigned long long) i.number, at, n));
    }
    c.nontrivial();
}
PROP(C18, rust_legal_heights, 1000, 20000, 30) {
    if (!haveBase()) return;
    Cfg g{(int) c.choose(3), (unsigned) c.sweep(256), 16};
    Bytes seed = genSeed(c);
    size_t n = c.choose(3) != 2 ? 48 : c.size(100);
    if (n != 48) seed = c.bytes(n);
    Bytes e = ref::descriptor(g.hash, 0, g.h & 30, 0);
    e.insert(e.end(), seed.begin(), seed.end());
    c.note(str("Rust, any height: %u, seed of %zu bytes", g.h, n));
    bool good = g.h >= 4 && g.h <= 30 && g.h % 2 == 0 && n == 48;
    Rep a = rustBase(seed, g, Bytes(132, 0)), b = rustBase(e, Bytes(132, 0));
    if (good) check(a.ok() && b.ok(), "good-parameters-refused", c.desc);
    if (n != 48 || g.h > 30) check(!a.ok(), "bad-parameter-accepted", c.desc);
    if (n != 48) check(!b.ok(), "bad-parameter-accepted", c.desc);
    for (Rep *r : {&a, &b}) if (r->ok()) { Cfg x(g); asWallet(*r, x); }
    c.nontrivial();
}

// ---------------------------------------------------------------- C20
namespace {
struct ROp { bool sign; uint32_t arg; Bytes msg; };
Bytes rapply(const RW &w, const ROp &o) {
    Bytes r;
    if (o.sign) { Rep x = w.sign(o.msg); r = x.ok() ? x.s() : Bytes{0xEE}; }
    else { uint32_t cur = w.info().index; Rep x = w.set(o.arg % 7 == 6 ? 1u << w.g.h : cur + o.arg % 5); r = {(uint8_t) x.ok()}; }
    RInfo i = w.info();
    r.insert(r.end(), i.sk.begin(), i.sk.end());
    return r;
}
} // namespace
PROP(C20, rust_wallets_are_isolated, 40, 1000, 120, 120) {
    unsigned k = 2 + (unsigned) c.choose(3);
    std::vector<Cfg> gs(k);
    std::vector<Bytes> seeds(k);
    std::vector<std::vector<ROp>> ops(k);
    std::vector<std::vector<Bytes>> solo(k), got(k);
    Bytes common = genSeed(c);
    for (unsigned i = 0; i < k; i++) {
        gs[i] = genRCfg(c);
        if (gs[i].w == 256) gs[i].w = 4;
        seeds[i] = c.choose(3) != 2 ? genSeed(c) : common;
        for (unsigned j = 2 + (unsigned) c.choose(6); j--;) ops[i].push_back({c.weighted({2, 1}) == 0, (uint32_t) c.choose(1000), c.bytes((size_t) c.choose(80))});
        c.note("Rust " + show(gs[i]) + str(" %zu ops", ops[i].size()));
        RW w = mkRust(seeds[i], gs[i]);
        for (auto &o : ops[i]) solo[i].push_back(rapply(w, o));
    }
    if (c.coin()) {
        std::vector<std::unique_ptr<RW>> ws(k);
        for (;;) {
            std::vector<unsigned> live;
            for (unsigned i = 0; i < k; i++) if (got[i].size() < ops[i].size()) live.push_back(i);
            if (live.empty()) break;
            unsigned i = live[c.choose(live.size())];
            if (!ws[i]) ws[i].reset(new RW(mkRust(seeds[i], gs[i])));
            got[i].push_back(rapply(*ws[i], ops[i][got[i].size()]));
            if (got[i].size() == ops[i].size() && c.coin()) ws[i].reset();
        }
        c.label("Rust interleaved");
    } else {
        std::vector<std::thread> ts;
        std::atomic<int> failed{0};
        for (unsigned i = 0; i < k; i++) ts.emplace_back([&, i] {
            try { RW w = mkRust(seeds[i], gs[i]); for (auto &o : ops[i]) got[i].push_back(rapply(w, o)); }
            catch (...) { failed = 1; }
        });
        for (auto &t : ts) t.join();
        check(!failed, "fails-next-to-other-threads", "");
        c.label("Rust threads");
    }
    for (unsigned i = 0; i < k; i++) for (size_t j = 0; j < solo[i].size(); j++)
        check(got[i][j] == solo[i][j], "other-wallets-change-a-wallet", str("wallet %u, operation %zu: %s", i, j, diff(got[i][j], solo[i][j]).c_str()));
    c.nontrivial();
}
// The functions without state, on threads that go from call to call together.
PROP(C20, rust_queries_on_threads, 40, 800, 120, 120) {
    std::vector<std::pair<uint32_t, Req>> qs;
    for (unsigned w : {16u, 4u, 2u, 256u}) {
        const Genuine a = genGenuine(c);
        Cfg g = a.g;
        g.w = w;
        ref::Virtual v(a.seed, rp(g), a.idx, Bytes{(uint8_t) w});
        const Bytes s = v.sign(a.msg), pk = v.pk();
        Bytes bad = s, m2 = a.msg, ad = ref::address(pk), wrong = ad;
        bad[(size_t) c.choose(bad.size())] ^= 16;
        m2.push_back(1);
        wrong[(size_t) c.choose(39)] ^= 1;
        for (const Bytes *x : std::initializer_list<const Bytes *>{&s, &bad}) qs.push_back({20, Req().s(a.msg).s(*x).s(pk).n(w).n(c.choose(2))});
        qs.push_back({20, Req().s(m2).s(s).s(pk).n(w).n(c.choose(2))});
        qs.push_back({14, Req().s(pk)});
        for (const Bytes *x : std::initializer_list<const Bytes *>{&ad, &wrong}) qs.push_back({15, Req().s(*x)});
        qs.push_back({12, Req().s(pk)});
    }
    for (int i = 0; i < 2; i++) {
        const Bytes b = c.bytes(3 * (1 + (size_t) c.choose(20))), big = c.bytes((size_t) c.choose(500));
        const uint64_t out = 1 + c.choose(400);
        qs.push_back({1, Req().s(big).n(7)});
        qs.push_back({2, Req().t(ref::hex(big))});
        qs.push_back({3, Req().s(b)});
        qs.push_back({4, Req().t(ref::mnemonic(b))});
        qs.push_back({5, Req().n(out).s(big)});
        qs.push_back({6, Req().n(out).s(big)});
        qs.push_back({7, Req().s(big)});
        qs.push_back({8, Req().n(3).s(big)});
    }
    std::vector<std::pair<int, Bytes>> want;
    for (auto &q : qs) { Rep r = rust(q.first, q.second); want.push_back({r.code, r.b}); }
    const unsigned k = 2 + (unsigned) c.choose(4), rounds = 24;
    std::vector<std::vector<size_t>> plan(k);
    for (unsigned r = 0; r < rounds; r++) {
        const size_t same = (size_t) c.choose(qs.size()); // often everyone in the same function
        for (auto &p : plan) {
            size_t q = (size_t) c.choose(qs.size());
            for (unsigned i = 0; i < 8 && qs[q].first != qs[same].first && c.coin(); i++) q = (size_t) c.choose(qs.size());
            p.push_back(q);
        }
    }
    std::atomic<unsigned> in{0};
    std::vector<std::string> wrong(k);
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < k; i++)
        ts.emplace_back([&, i] {
            for (unsigned r = 0; r < rounds; r++) {
                in++;
                while (in < k * (r + 1)) std::this_thread::yield();
                const size_t q = plan[i][r];
                const Rep got = rustRaw(qs[q].first, qs[q].second);
                if ((got.code != want[q].first || got.b != want[q].second) && wrong[i].empty()) wrong[i] = str("operation %u: code %d, alone %d: ", qs[q].first, got.code, want[q].first) + diff(got.b, want[q].second);
            }
        });
    for (auto &t : ts) t.join();
    for (auto &x : wrong) check(x.empty(), "differs-on-a-thread", x);
    c.note(str("%u threads, %u calls each", k, rounds));
    c.nontrivial();
}
