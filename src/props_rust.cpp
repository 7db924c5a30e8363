// C21 C22 C23, and the Rust halves of C24 C25: the Rust implementation next to the C++ one and the model.
#include "rustcall.h"
#include <thread>
#include "long.h"
#include <hashing.h>
#include <map>
#include <misc.h>
#include <qrlDescriptor.h>
#include <qrlHelper.h>
#include <unistd.h>

// ---------------------------------------------------------------- C21
PROP(C21, wallets_agree, 160, 3000, 120) {
    Cfg g;
    g.hash = (int) c.choose(3);
    g.h = c.choose(6) == 5 ? 6 : 4;
    if (c.thorough && c.choose(20) == 19) g.h = 8;
    g.w = c.pick<unsigned>({16, 16, 16, 4, 2, 256});
    if (g.h > 4 && g.w == 256) g.w = 16;
    bool basic = g.h == 4 && c.choose(4) == 3;
    Bytes seed = genSeed(c);
    c.note(std::string(basic ? "basic " : "fast ") + show(g) + ":");
    std::unique_ptr<XmssBase> w;
    bool viaSeed = !basic && g.w == 16 && c.choose(3) == 2;
    if (basic) w = mkBasic(seed, g); else w = mkFast(seed, g);
    Rep made;
    if (viaSeed) made = rust(31, Req().s(w->getExtendedSeed()));
    else if (g.w == 16 && g.hash == 1 && !basic && c.coin()) made = rust(42, Req().s(seed).n(g.h)); // defaults
    else made = rust(basic ? 32 : 30, Req().s(seed).n(g.h).n((uint64_t) g.hash).n(g.w == 16 && c.coin() ? NOW : g.w));
    uint64_t h = need("making a wallet", made).n();
    Obj keep(h);
    sameWallet(h, *w, "at first");
    unsigned ops = 1 + (unsigned) c.choose(basic ? 5 : 9), sigs = 0, refused = 0;
    uint32_t n = w->getNumberSignatures();
    for (unsigned k = 0; k < ops; k++) {
        switch (c.weighted({6, 3, 1})) {
        case 0: {
            Bytes m = genMsg(c, 600), a;
            c.note(str(" sign(%zu)", m.size()));
            bool ok = cpp([&] { a = w->sign(m); });
            Rep r = rust(33, Req().n(h).s(m));
            check(r.ok() == ok, r.ok() ? "refused-by-C++-only" : "refused-by-Rust-only", str("signing at index %u of %u", w->getIndex(), n));
            if (!ok) { refused++; break; }
            Bytes b = r.s();
            check(a == b, "signatures-differ", diff(b, a));
            sigs++;
            Rep v = rust(20, Req().s(m).s(b).s(w->getPK()).n(g.w).n(basic));
            check(v.ok() && verifyW(m, a, w->getPK(), g.w), "own-signature-rejected", v.ok() ? "by C++" : "by Rust: " + v.err());
            uint64_t size = need("signature size", rust(39, Req().n(h).n(g.w))).n();
            check(size == b.size(), "signature-size", str("%llu advertised, %zu made", (unsigned long long) size, b.size()));
            break; }
        case 1: {
            uint32_t cur = w->getIndex(), to;
            switch (c.choose(6)) {
            case 0: to = n - 1 - (uint32_t) c.choose(3); break;
            case 1: to = n + (uint32_t) c.choose(2); break;
            case 2: to = cur ? cur - 1 - (uint32_t) c.choose(std::min(cur, 3u)) : 0; break;
            case 3: to = c.pick({0u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFF00u, 256u, 65536u}); break;
            default: to = cur + (uint32_t) c.choose(4);
            }
            c.note(str(" set(%u)", to));
            uint32_t ra = 0;
            bool ok = cpp([&] { ra = w->setIndex(to); });
            Rep r = rust(34, Req().n(h).n(to));
            check(r.ok() == ok, r.ok() ? "refused-by-C++-only" : "refused-by-Rust-only", str("set index %u at %u of %u", to, cur, n));
            if (ok) check(r.n() == ra, "different", "the index reported after setting it"); else refused++;
            break; }
        default:
            if (!basic) { // the tree again, perhaps with another parameter, perhaps with an unsupported one
                unsigned nw = c.pick({16u, 4u, 2u, 3u, 0u, 8u, g.w});
                if (g.h > 4 && nw == 2) nw = 16;
                c.note(str(" initialize_tree(%u)", nw));
                bool ok = cpp([&] { static_cast<XmssFast &>(*w).initialize_tree(nw); });
                Rep r = rust(37, Req().n(h).n(nw));
                check(r.ok() == ok, r.ok() ? "refused-by-C++-only" : "refused-by-Rust-only", str("tree with w=%u", nw));
                if (ok) g.w = nw; else refused++;
            }
        }
        sameWallet(h, *w, "after an operation");
    }
    if (refused) c.label("refused calls");
    c.label(basic ? "basic" : "fast");
    c.label(str("w=%u", g.w));
    c.count("signatures compared", sigs);
    c.nontrivial(sigs >= 1);
}
// A walk over a whole tree.
PROP(C21, whole_trees, 16, 60, 120) {
    Cfg g{(int) c.choose(3), 4, 16};
    if (c.thorough && c.choose(6) == 5) g.h = 6;
    Bytes seed = genSeed(c), m = genMsg(c, 100);
    c.note(show(g));
    auto w = mkFast(seed, g);
    uint64_t h = need("making a wallet", rust(30, Req().s(seed).n(g.h).n((uint64_t) g.hash).n(NOW))).n();
    Obj keep(h);
    uint32_t n = w->getNumberSignatures();
    for (uint32_t i = 0; i < n; i++) {
        Bytes a = w->sign(m), b = need("sign", rust(33, Req().n(h).s(m))).s();
        check(a == b, "signatures-differ", str("at index %u: %s", i, diff(b, a).c_str()));
    }
    check(!rust(33, Req().n(h).s(m)).ok(), "signs-beyond-the-tree", "");
    check(!cpp([&] { w->sign(m); }), "signs-beyond-the-tree", "C++");
    sameWallet(h, *w, "at the end");
    c.nontrivial();
}
PROP(C21, verification_agrees, 900, 20000, 60) {
    Q q = genQuery(c);
    c.note(q.what);
    bool a = false;
    check(cpp([&] { a = verifyW(q.m, q.s, q.pk, q.w); }), "throws", "C++ verification");
    Rep r = rust(20, Req().s(q.m).s(q.s).s(q.pk).n(q.w == 16 && c.coin() ? NOW : q.w).n(c.choose(2)));
    check(r.ok() == a, r.ok() ? "accepted-by-Rust-only" : "accepted-by-C++-only", q.what + (r.ok() ? "" : ": " + r.err()));
    check(a == ref::verify(q.m, q.s, q.pk, q.w), "both-wrong", q.what);
    if (!r.ok()) // the same refusal for other lengths of the message
        check(!rust(20, Req().s(Bytes()).s(q.s).s(q.pk).n(q.w).n(0)).ok() || verifyW(Bytes(), q.s, q.pk, q.w), "accepted-by-Rust-only", "empty message with " + q.what);
    c.label(a ? "valid" : "invalid");
    c.nontrivial(q.pk.size() == 67 && ref::supportedW(q.w));
}
PROP(C21, long_messages, 4, 40, 120) {
    Cfg g{(int) c.choose(3), 4, 16};
    Bytes seed = genSeed(c), m = c.bytes(longSize(c, c.sweep(20)));
    c.note(str("%s message of %zu bytes", show(g).c_str(), m.size()));
    auto w = mkFast(seed, g);
    uint64_t h = need("wallet", rust(30, Req().s(seed).n(g.h).n((uint64_t) g.hash).n(NOW))).n();
    Obj keep(h);
    uint32_t idx = (uint32_t) c.choose(16);
    if (idx) { w->setIndex(idx); need("set_index", rust(34, Req().n(h).n(idx))); }
    Bytes s = w->sign(m), r = need("sign", rust(33, Req().n(h).s(m))).s();
    check(s == r, "signatures-differ", str("%zu byte message: %s", m.size(), diff(r, s).c_str()));
    for (int k = 0; k < 3; k++) {
        if (k) m[k == 1 ? m.size() - 1 : (size_t) c.choose(m.size())] ^= (uint8_t) (1u << c.choose(8));
        bool cv = verifyW(m, s, w->getPK(), 16), rv = rust(20, Req().s(m).s(s).s(w->getPK()).n(NOW).n(c.choose(2))).ok();
        check(cv == rv, "verifiers-differ", str("%zu byte message, %d bytes changed: C++ %d, Rust %d", m.size(), k, cv, rv));
    }
    c.nontrivial();
}
#ifdef GIANTS
PROP(C21, rust_giant_messages, 0, 3, 2400, 0, false, 1) { // up to 13 GB
    Cfg g{(int) c.sweep(3), 4, 16};
    Bytes seed = genSeed(c);
    const size_t n = giantSize(c);
    const uint64_t k = c.choose(0), idx = c.choose(16);
    c.note(str("%s message of %zu bytes at %llu", show(g).c_str(), n, (unsigned long long) idx));
    Rep r = need("signing and verifying", rust(47, Req().s(seed).n((uint64_t) g.hash).n(n).n(k).n(idx)));
    Bytes s = r.s();
    const uint64_t own = r.n(), changed = r.n(), cut = r.n();
    check(own == 1 && !changed && !cut, "verifiers-differ", str("genuine %llu, changed %llu, cut %llu", (unsigned long long) own, (unsigned long long) changed, (unsigned long long) cut));
    auto w = mkFast(seed, g);
    w->setIndex((uint32_t) idx);
    Bytes e = w->sign(lcgBytes(n, k));
    check(s == e, "signatures-differ", diff(s, e));
    c.nontrivial();
}
PROP(C22, giant_inputs, 0, 1, 2400, 0, false, 1) { // up to 9 GB
    const size_t n = giantSize(c);
    const uint64_t k = c.choose(0);
    c.note(str("%zu bytes in", n));
    Rep r = need("hashing", rust(48, Req().n(n).n(k)));
    Bytes in = lcgBytes(n, k);
    check(r.s() == shake128(40, in), "different", "shake128 of " + c.desc);
    check(r.s() == shake256(40, in), "different", "shake256 of " + c.desc);
    check(r.s() == sha2_256(in), "different", "sha2_256 of " + c.desc);
    c.nontrivial();
}
#endif
PROP(C21, construction_agrees, 1500, 20000, 60) {
    Bytes seed = c.bytes(c.choose(3) != 2 ? 48 : c.size(100));
    unsigned h = c.choose(3) != 2 ? 4 : c.pick<unsigned>({0, 1, 2, 3, 5, 7, 9, 15, 31, 32, 33, 34, 62, 64, 128, 254, 255});
    int hash = (int) c.choose(3);
    unsigned w = c.choose(3) != 2 ? 16 : c.coin() ? badW(c) : c.pick<unsigned>({2, 4});
    bool basic = c.coin();
    bool good = seed.size() == 48 && h == 4 && ref::supportedW(w);
    if (good && c.choose(6)) h = 3, good = false;
    c.note(str("%s: %zu bytes of seed, height %u, w=%u", basic ? "basic" : "fast", seed.size(), h, w));
    Rep r = rust(basic ? 32 : 30, Req().s(seed).n(h).n((uint64_t) hash).n(w));
    check(r.ok() == good, good ? "good-refused" : "bad-accepted", r.ok() ? "" : r.err());
    if (r.ok()) Obj(r.n());
    // extended seeds
    Bytes es{(uint8_t) (c.choose(2) ? c.choose(3) : c.choose(256)), (uint8_t) (c.choose(2) ? 2 : c.choose(256)), (uint8_t) (c.choose(3) != 2 ? 0 : c.choose(256))};
    es.insert(es.end(), seed.begin(), seed.end());
    bool legal = es.size() == 51 && es[0] <= 2 && es[1] >= 2 && es[1] <= 15;
    c.note(" extended " + pbt::hexs(es, 3));
    if (!legal) check(!rust(31, Req().s(es)).ok(), "bad-accepted", "extended seed " + pbt::hexs(es, 3));
    // sizes
    for (int k = 0; k < 20; k++) {
        unsigned sw = c.pick<unsigned>({16, 4, 2, 256, 16, 3, 0, 1, 8, 512});
        size_t hh = (size_t) c.choose(36);
        size_t n = c.choose(3) != 2 ? ref::sigSize((unsigned) hh, ref::supportedW(sw) ? sw : 16) + (c.choose(3) != 2 ? 0 : (size_t) c.choose(40)) : c.size(20000);
        if (c.choose(9) == 8) n = c.pick<size_t>({0, 3, 4, 35, 36, (size_t) 1 << 31, ((size_t) 1 << 32) + 4 + 32 * 71, SIZE_MAX, SIZE_MAX - 27});
        uint8_t a = 0;
        bool ok = cpp([&] { a = XmssBase::getHeightFromSigSize(n, sw); });
        Rep s = rust(21, Req().n(n).n(sw == 16 && c.coin() ? NOW : sw));
        check(s.ok() == ok, s.ok() ? "refused-by-C++-only" : "refused-by-Rust-only", str("height of %zu bytes with w=%u", n, sw));
        if (ok) check(s.n() == a, "different", str("height of %zu bytes with w=%u", n, sw));
        if (ref::supportedW(sw)) check(need("base size", rust(22, Req().n(sw))).n() == XmssBase::calculateSignatureBaseSize(sw), "different", str("base size with w=%u", sw));
    }
    Rep z = need("sizes", rust(23, Req()));
    check(z.n() == 67 && z.n() == 132 && z.n() == 3, "different", "advertised sizes");
    c.nontrivial();
}

// ---------------------------------------------------------------- C22
PROP(C22, hex, 20000, 150000, 30) {
    Bytes b = c.bytes(c.size(400));
    uint32_t wrap = c.coin() ? 0 : c.pick({1u, 2u, 3u, 8u, 16u, 32u, 255u, 0x80000000u, 0xFFFFFFFFu, (uint32_t) b.size(), 1u + (uint32_t) c.choose(40)});
    c.note(str("wrap=%u ", wrap) + pbt::hexs(b));
    std::string h = bin2hstr(b, wrap);
    bothBytes("bin2hstr", rust(1, Req().s(b).n(wrap)), true, Bytes(h.begin(), h.end()), pbt::hexs(b));
    std::string t = text(c, 100);
    std::string th = bin2hstr(t, wrap);
    bothBytes("bin2hstr of a text", rust(17, Req().t(t).n(wrap)), true, Bytes(th.begin(), th.end()), quote(t));
    bothBytes("str2bin", rust(18, Req().t(t)), true, Bytes(t.begin(), t.end()), quote(t));
    for (const std::string &x : {ref::hex(b), damage(c, ref::hex(b)), text(c, 40), damage(c, damage(c, ref::hex(c.bytes(8))))}) {
        Bytes want, d;
        bool ok = cpp([&] { want = hstr2bin(x); });
        check(ok == ref::unhex(x, d) && (!ok || d == want), "C++-wrong", quote(x));
        bothBytes("hstr2bin", rust(2, Req().t(x)), ok, want, quote(x));
    }
    c.nontrivial(!b.empty());
}
PROP(C22, mnemonics, 4000, 60000, 30) {
    const auto &wl = ref::wordlist();
    Bytes b = c.bytes(c.choose(3) != 2 ? 3 * (size_t) c.choose(30) : c.size(200));
    c.note(pbt::hexs(b));
    std::string p;
    bool ok = cpp([&] { p = bin2mnemonic(b); });
    bothBytes("bin2mnemonic", rust(3, Req().s(b)), ok, Bytes(p.begin(), p.end()), pbt::hexs(b));
    if (ok && !b.empty()) check(p == ref::mnemonic(b), "C++-wrong", "bin2mnemonic");
    std::string q;
    size_t n = (size_t) c.choose(9);
    static const char *SEP[] = {" ", " ", " ", "  ", "\t", "\n", "\r\n", "\v", "\f", "\x1c", "\x1f"};
    bool fancy = c.coin();
    for (size_t i = 0; i < n; i++) {
        if (i) { if (fancy && c.choose(3) == 2) utf8(q, c.pick(ODD)); else q += SEP[fancy ? c.choose(11) : 0]; }
        q += c.choose(12) != 11 ? wl[(size_t) c.choose(4096)] : text(c, 8);
    }
    if (fancy && c.choose(3) == 2) q = " " + q + "\n";
    for (const std::string &x : {p, damage(c, p), q, text(c, 60)}) {
        Bytes want;
        bool k = cpp([&] { want = mnemonic2bin(x); });
        bothBytes("mnemonic2bin", rust(4, Req().t(x)), k, want, quote(x));
    }
    c.nontrivial(n >= 2 || b.size() >= 3);
}
// Every word in both positions.
PROP(C22, every_word, 256, 4096, 30) {
    unsigned step = c.thorough ? 1 : 16, base = (unsigned) c.sweep(4096 / step) * step;
    c.note(str("words %u..", base));
    for (unsigned i = base; i < base + step; i++) {
        unsigned o = (unsigned) c.choose(4096);
        for (unsigned v : {i << 12 | o, o << 12 | i}) {
            Bytes b{(uint8_t) (v >> 16), (uint8_t) (v >> 8), (uint8_t) v};
            std::string p = ref::mnemonic(b);
            bothBytes("bin2mnemonic", rust(3, Req().s(b)), true, Bytes(p.begin(), p.end()), pbt::hexs(b));
            if (c.choose(c.thorough ? 1 : 4) == 0) bothBytes("mnemonic2bin", rust(4, Req().t(p)), true, b, p);
        }
    }
    c.nontrivial();
}
PROP(C22, hashes, 6000, 100000, 30) {
    static const int rate[] = {64, 168, 136, 32, 256};
    size_t n = c.coin() ? (size_t) std::max<int64_t>(0, (int64_t) rate[c.choose(5)] * (int64_t) (1 + c.choose(4)) + c.range(-9, 3)) : c.size(3000);
    size_t o = c.coin() ? (size_t) std::max<int64_t>(0, (int64_t) rate[c.choose(5)] * (int64_t) c.choose(4) + c.range(-3, 3)) : c.size(1500);
    Bytes b = c.bytes(n);
    c.note(str("%zu bytes in, %zu out", n, o));
    bothBytes("shake128", rust(5, Req().n(o).s(b)), true, ref::shake(128, b, o), c.desc);
    bothBytes("shake256", rust(6, Req().n(o).s(b)), true, ref::shake(256, b, o), c.desc);
    check(shake128(o, b) == ref::shake(128, b, o) && shake256(o, b) == ref::shake(256, b, o), "C++-wrong", "shake");
    ref::B32 d = ref::sha256(b);
    Bytes db(d.begin(), d.end());
    bothBytes("sha2_256", rust(7, Req().s(b)), true, db, c.desc);
    uint64_t k = c.choose(5);
    Bytes want(db);
    for (uint64_t i = 1; i < k; i++) { d = ref::sha256(want); want.assign(d.begin(), d.end()); }
    bothBytes("sha2_256_n", rust(8, Req().n(k).s(b)), k > 0, want, str("%llu times", (unsigned long long) k));
    bool cok = cpp([&] { check(sha2_256_n(b, k) == want, "C++-wrong", "sha2_256_n"); });
    check(cok == (k > 0), "C++-wrong", "sha2_256_n");
    Bytes seed = c.bytes(c.size(100));
    uint32_t shift = (uint32_t) c.choose(3) != 2 ? (uint32_t) c.choose(1ull << (1 + c.choose(32))) : (uint32_t) c.pick({0u, 255u, 256u, 65535u, 65536u, 0xFFFFFFFFu});
    uint32_t count = (uint32_t) c.choose(5);
    if (c.choose(200) == 199) count = 255 + (uint32_t) c.choose(5);
    Rep r = need("chain seeds", rust(10, Req().s(seed).n(shift).n(count)));
    auto chain = getHashChainSeed(seed, shift, count);
    uint64_t got = r.n();
    check(got == chain.size() && got == count, "different", str("%llu chain seeds instead of %u", (unsigned long long) got, count));
    for (uint32_t i = 0; i < count; i++) {
        Bytes x(seed);
        for (int j = 0; j < 4; j++) x.push_back((uint8_t) (shift >> 8 * j));
        for (int j = 0; j < 4; j++) x.push_back((uint8_t) (i >> 8 * j));
        Bytes y = r.s();
        check(y == chain[i] && y == ref::shake(256, x, 32), "different", str("chain seed %u", i));
    }
    c.nontrivial();
}
PROP(C22, long_inputs, 8, 60, 60) {
    const uint64_t k = c.sweep(20);
    Bytes b = c.bytes(longSize(c, k));
    const size_t o = c.coin() ? longSize(c, 1 + k / 4) : c.size(200);
    c.note(str("%zu bytes in, %zu out", b.size(), o));
    const std::string in = str("%zu bytes", b.size());
    switch ((k + k / 4) % 3) {
    case 0: {
        check(need("shake128", rust(5, Req().n(o).s(b))).s() == shake128(o, b), "different", "shake128 of " + in);
        check(need("shake256", rust(6, Req().n(o).s(b))).s() == shake256(o, b), "different", "shake256 of " + in);
        check(need("sha2_256", rust(7, Req().s(b))).s() == sha2_256(b), "different", "sha2_256 of " + in);
        break; }
    case 1: {
        const uint32_t wrap = c.pick({0u, 65536u, 70001u, 31u});
        std::string h = bin2hstr(b, wrap);
        check(need("bin2hstr", rust(1, Req().s(b).n(wrap))).t() == h, "different", str("bin2hstr, wrap %u, of ", wrap) + in);
        if (wrap) h = bin2hstr(b);
        if (c.coin()) h[c.coin() ? h.size() - 1 : (size_t) c.choose(h.size())] = 'g';
        Bytes want;
        bool ok = cpp([&] { want = hstr2bin(h); });
        bothBytes("hstr2bin", rust(2, Req().t(h)), ok, want, in);
        break; }
    default: {
        b.resize(b.size() / 3 * 3);
        std::string p = bin2mnemonic(b);
        check(need("bin2mnemonic", rust(3, Req().s(b))).t() == p, "different", "bin2mnemonic of " + in);
        if (c.coin()) p[c.coin() ? p.size() - 1 : (size_t) c.choose(p.size())] = '-';
        Bytes want;
        bool ok = cpp([&] { want = mnemonic2bin(p); });
        bothBytes("mnemonic2bin", rust(4, Req().t(p)), ok, want, in);
    } }
    c.nontrivial();
}
PROP(C22, every_descriptor, 256, 256, 60) {
    uint8_t hi = (uint8_t) c.sweep(256);
    c.note(str("descriptors ....%02x", hi));
    Bytes got = need("descriptors", rust(19, Req().n(hi))).s();
    size_t p = 0;
    unsigned decoded = 0;
    for (uint32_t lo = 0; lo < 65536; lo++) {
        Bytes b{(uint8_t) lo, (uint8_t) (lo >> 8), hi};
        bool ok;
        int hash = 0, height = 0;
        Bytes e;
        try { QRLDescriptor d = QRLDescriptor::fromBytes(b); ok = true; hash = (int) d.getHashFunction(); height = d.getHeight(); e = d.getBytes(); }
        catch (const std::exception &) { ok = false; }
        bool rok = got.at(p++);
        check(rok == ok, rok ? "refused-by-C++-only" : "refused-by-Rust-only", "descriptor " + pbt::hexs(b));
        if (!rok) continue;
        decoded++;
        check(got.at(p) == hash && got.at(p + 1) == height && std::equal(e.begin(), e.end(), got.begin() + (long) p + 2), "different", "descriptor " + pbt::hexs(b));
        p += 5;
    }
    c.count("descriptors", 65536);
    c.nontrivial(decoded > 0);
}
PROP(C22, descriptors_and_addresses, 12000, 150000, 30) {
    Bytes b = c.bytes(c.pick<size_t>({3, 67, 51, 39, 0, 2, 4, 50, 52, 66, 68, 38, 40}));
    if (b.size() >= 3 && c.choose(4)) { b[0] = (uint8_t) c.choose(4); b[1] = (uint8_t) c.choose(16); b[2] = c.coin() ? 0 : b[2]; }
    if (b.size() == 39 && c.choose(3)) { ref::B32 d = ref::sha256(b.data(), 35); std::copy(d.end() - 4, d.end(), b.begin() + 35); if (c.choose(3) == 2) b[(size_t) c.choose(39)] ^= (uint8_t) (1u << c.choose(8)); }
    c.note(pbt::hexs(b, 68));
    auto one = [&](unsigned op, const char *what, QRLDescriptor (*f)(const Bytes &)) {
        Rep r = rust(op, Req().s(b));
        try {
            QRLDescriptor d = f(b);
            check(r.ok(), "refused-by-Rust-only", what);
            bool same = r.n() == (uint64_t) d.getHashFunction() && r.n() == (uint64_t) d.getSignatureType() && r.n() == d.getHeight() && r.n() == (uint64_t) d.getAddrFormatType() && r.s() == d.getBytes();
            check(same, "different", what);
        } catch (const std::exception &) { check(!r.ok(), "refused-by-C++-only", what); }
    };
    one(11, "fromBytes", [](const Bytes &x) { return QRLDescriptor::fromBytes(x); });
    one(12, "fromExtendedPK", [](const Bytes &x) { return QRLDescriptor::fromExtendedPK(x); });
    one(13, "fromExtendedSeed", [](const Bytes &x) { return QRLDescriptor::fromExtendedSeed(x); });
    Bytes a;
    bool ok = cpp([&] { a = QRLHelper::getAddress(b); });
    bothBytes("getAddress", rust(14, Req().s(b)), ok, a, pbt::hexs(b, 68));
    bool valid = false;
    ok = cpp([&] { valid = QRLHelper::addressIsValid(b); });
    uint64_t rv = need("address_is_valid", rust(15, Req().s(b))).n();
    check(rv == (ok && valid), "different", str("validity of %s", pbt::hexs(b, 68).c_str()));
    int hash = (int) c.choose(3);
    unsigned h = 2 * (unsigned) c.choose(16);
    Rep r = need("descriptor", rust(16, Req().n((uint64_t) hash).n(h)));
    check((int) r.n() == hash && r.n() == 0 && r.n() == h && r.n() == 0 && r.s() == ref::descriptor(hash, 0, h, 0), "different", str("descriptor of hash %d height %u", hash, h));
    c.label(str("%zu bytes", b.size()));
    c.nontrivial(b.size() == 3 || b.size() == 67 || b.size() == 51 || b.size() == 39);
}
PROP(C22, random_seeds, 2500, 20000, 30) {
    uint32_t n = (uint32_t) (c.coin() ? c.pick({48, 32, 64, 1, 2, 16}) : c.size(200));
    std::string e = c.choose(4) != 3 ? text(c, 40) : "";
    Bytes os = c.bytes(n + 8);
    c.note(str("%u bytes, entropy %s", n, quote(e).c_str()));
    auto get = [&](const Bytes &source, const std::string &entropy) {
        served = source;
        servedTo = 0;
        serving = true;
        Rep r = rust(9, Req().n(n).t(entropy));
        serving = false;
        check(r.ok(), "refused", r.err());
        Bytes x = r.s();
        check(x.size() == n, "length", str("%zu bytes instead of %u", x.size(), n));
        return x;
    };
    Bytes a = get(os, e);
    size_t drawn = servedTo;
    check(drawn >= n, "too-little-entropy", str("%zu bytes of the source for a seed of %u", drawn, n));
    if (n >= 12) { // short seeds may coincide
        for (int k = 0; k < 4; k++) {
            size_t i = (size_t) c.choose(n);
            Bytes o2(os);
            o2[i] ^= (uint8_t) (1u << c.choose(8));
            check(get(o2, e) != a, "source-byte-ignored", str("byte %zu of the source", i));
        }
        std::string e2 = e;
        if (e2.empty() || c.choose(3) == 2) e2 += (char) ('a' + c.choose(26)); else { size_t i = (size_t) c.choose(e2.size()); if ((unsigned char) e2[i] < 128) e2[i] = (char) ((e2[i] + 1 + c.choose(126)) % 127); else e2 += "z"; }
        if (e2 != e) check(get(os, e2) != a, "caller-entropy-ignored", quote(e2));
        Bytes shared(a.begin(), a.end());
        check(shared != Bytes(os.begin(), os.begin() + n), "source-passed-through", "");
    }
    c.nontrivial(n >= 12);
}

// ---------------------------------------------------------------- C23
namespace {
Bytes rustTreeSeed(const Bytes &base, uint64_t idx) {
    std::string t = ref::hex(base) + std::to_string(idx + 1);
    ref::B32 d = ref::sha256((const uint8_t *) t.data(), t.size());
    Bytes s(d.begin(), d.end());
    s.insert(s.end(), d.begin(), d.begin() + 16);
    return s;
}
} // namespace
PROP(C23, sequences, 90, 1500, 240, 240) {
    Bytes base = c.bytes(c.choose(3) != 2 ? 48 : (size_t) c.choose(100));
    unsigned h = c.choose(12) != 11 ? 4 : 6;
    uint64_t start;
    switch (c.choose(3)) {
    case 0: start = c.choose(6); break;
    case 1: start = c.pick({(uint64_t) 8, (uint64_t) 9, (uint64_t) 98, (uint64_t) 99, (uint64_t) 254, (uint64_t) 255, (uint64_t) 998, (uint64_t) 65534, ((uint64_t) 1 << 31) - 2, ((uint64_t) 1 << 32) - 3, (uint64_t) 999999999998ull, (uint64_t) 9999999999999998ull, ((uint64_t) 1 << 63) - 2, ~(uint64_t) 0 - 400}); break;
    default: start = c.choose((uint64_t) 1 << (1 + c.choose(62)));
    }
    size_t cache = (size_t) c.choose(c.choose(4) != 3 ? 4 : 8);
    unsigned n = 1 + (unsigned) c.choose(5);
    c.note(str("base of %zu bytes, h=%u, start=%llu, cache=%zu, %u trees", base.size(), h, (unsigned long long) start, cache, n));
    uint64_t p = need("pool", rust(50, Req().s(base).n(h).n(start).n(cache))).n();
    Obj keep(p);
    auto index = [&] { return need("index", rust(53, Req().n(p))).n(); };
    uint64_t at = start;
    check(index() == at, "current-index", str("%llu at the start", (unsigned long long) index()));
    std::map<uint64_t, Bytes> seen;
    for (unsigned i = 0; i < n; i++) {
        if (c.coin()) { uint64_t av = need("availability", rust(52, Req().n(p))).n(); if (cache == 0) check(!av, "available-without-cache", ""); }
        uint64_t t = need("next tree", rust(51, Req().n(p))).n();
        Obj k2(t);
        Bytes want = rustTreeSeed(base, at);
        if (i == 0 || c.choose(2) == 0) {
            XmssFast w(want, (unsigned char) h);
            sameWallet(t, w, str("of tree %llu", (unsigned long long) at).c_str());
            Bytes m{(uint8_t) i};
            check(need("sign", rust(33, Req().n(t).s(m))).s() == w.sign(m), "signatures-differ", str("tree %llu", (unsigned long long) at));
        } else {
            Rep r = need("reading a tree", rust(36, Req().n(t)));
            check(r.n() == 0, "tree-not-fresh", "");
            check(r.n() == h, "wrong-height", "");
            r.n(); r.n(); r.s(); r.s(); r.s(); r.s();
            check(r.s() == want, "wrong-tree", str("tree %llu", (unsigned long long) at));
        }
        at++;
        check(index() == at, "current-index", str("%llu after handing out tree %llu", (unsigned long long) index(), (unsigned long long) at - 1));
    }
    if (cache && c.choose(4) == 3) {
        bool got = false;
        for (int k = 0; k < 4000 && !got; k++) { got = need("availability", rust(52, Req().n(p))).n(); if (!got) usleep(5000); }
        check(got, "never-available", "no tree was announced in twenty seconds");
    }
    c.label(str("cache=%zu", cache));
    c.count("trees", n);
    c.nontrivial();
}
PROP(C23, large_caches, 6, 80, 240, 240) {
    Bytes base = c.bytes(c.choose(3) != 2 ? 48 : c.pick<size_t>({1000, 70000}));
    static const size_t sizes[] = {17, 33, 65, 130, 20, 48};
    const size_t cache = sizes[c.sweep(6)] + (size_t) c.choose(3);
    const uint64_t start = c.pick<uint64_t>({0, 1, 98, 250, 65530, (1ull << 32) - 20});
    const unsigned n = c.coin() ? (unsigned) cache + 2 : 3 + (unsigned) c.choose(20);
    c.note(str("base of %zu bytes, start=%llu, cache=%zu, %u trees", base.size(), (unsigned long long) start, cache, n));
    uint64_t p = need("pool", rust(50, Req().s(base).n(4).n(start).n(cache))).n();
    Obj keep(p);
    for (unsigned i = 0; i < n; i++) {
        uint64_t t = need("next tree", rust(51, Req().n(p))).n();
        Obj k2(t);
        Rep r = need("reading a tree", rust(36, Req().n(t)));
        check(r.n() == 0, "tree-not-fresh", "");
        check(r.n() == 4, "wrong-height", "");
        r.n(); r.n(); r.s(); r.s(); r.s(); r.s();
        check(r.s() == rustTreeSeed(base, start + i), "wrong-tree", str("tree %llu", (unsigned long long) (start + i)));
        check(need("index", rust(53, Req().n(p))).n() == start + i + 1, "current-index", str("after handing out tree %llu", (unsigned long long) (start + i)));
    }
    c.count("trees", n);
    c.nontrivial();
}
// Several pools, in turn or each on its own thread: what one is asked for does not show in the others.
PROP(C23, pools_side_by_side, 40, 700, 240, 240) {
    struct P { Bytes base; uint64_t start, at, cache, h; uint64_t obj; };
    std::vector<P> ps(2 + (size_t) c.choose(2));
    const Bytes base = c.bytes(48);
    const uint64_t start = c.pick<uint64_t>({0, 0, 8, 98, 255, 65534});
    for (size_t k = 0; k < ps.size(); k++) {
        P &p = ps[k];
        p.base = base;
        if (k && c.choose(3)) { // nearly the same base seed
            const size_t b = (size_t) c.choose(c.choose(3) != 2 ? 384 : 8);
            if (c.choose(4) == 3) p.base.resize((size_t) c.choose(2) ? 47 : 49, 7); else p.base[b / 8] ^= (uint8_t) (1u << (b % 8));
        }
        p.start = p.at = start + c.choose(2) * c.choose(3);
        p.cache = c.choose(3);
        p.h = c.choose(6) == 5 ? 6 : 4;
        c.note(str("pool %zu: base %s, h=%llu, start %llu, cache %llu", k, pbt::hexs(p.base, 4).c_str(), (unsigned long long) p.h, (unsigned long long) p.at, (unsigned long long) p.cache));
    }
    auto make = [](P &p) { p.obj = need("pool", rust(50, Req().s(p.base).n(p.h).n(p.start).n(p.cache))).n(); };
    auto take = [](P &p) { // what is wrong with the next tree
        Obj t(need("next tree", rust(51, Req().n(p.obj))).n());
        Rep r = need("reading a tree", rust(36, Req().n(t.h)));
        if (r.n() != 0) return str("tree %llu is not fresh", (unsigned long long) p.at);
        if (r.n() != p.h) return str("tree %llu has another height", (unsigned long long) p.at);
        r.n(); r.n();
        const Bytes pk = r.s(); r.s(); r.s(); r.s();
        const Bytes want = rustTreeSeed(p.base, p.at);
        if (r.s() != want) return str("tree %llu has another seed", (unsigned long long) p.at);
        if (p.at % 4 == 0 && pk != XmssFast(want, (unsigned char) p.h).getPK()) return str("tree %llu has another key", (unsigned long long) p.at);
        p.at++;
        if (need("index", rust(53, Req().n(p.obj))).n() != p.at) return str("current index after tree %llu", (unsigned long long) p.at - 1);
        return std::string();
    };
    const unsigned n = 2 + (unsigned) c.choose(3);
    if (c.choose(3) == 2) {
        std::vector<std::string> wrong(ps.size());
        std::vector<std::thread> ts;
        for (size_t k = 0; k < ps.size(); k++)
            ts.emplace_back([&, k] {
                try { make(ps[k]); for (unsigned i = 0; i < n && wrong[k].empty(); i++) wrong[k] = take(ps[k]); }
                catch (...) { wrong[k] = "fails next to other threads"; }
            });
        for (auto &t : ts) t.join();
        for (auto &p : ps) Obj done(p.obj);
        for (size_t k = 0; k < ps.size(); k++) check(wrong[k].empty(), "pool-on-a-thread", str("pool %zu: ", k) + wrong[k]);
        c.label("threads");
    } else {
        for (auto &p : ps) make(p);
        std::string wrong;
        for (unsigned i = 0; i < n * ps.size() && wrong.empty(); i++) {
            const size_t k = (size_t) c.choose(ps.size());
            wrong = take(ps[k]);
            for (auto &q : ps) if (wrong.empty() && need("index", rust(53, Req().n(q.obj))).n() != q.at) wrong = "another pool's index moved";
        }
        for (auto &p : ps) Obj done(p.obj);
        check(wrong.empty(), "pools-side-by-side", wrong);
        c.label("in turn");
    }
    c.count("trees", n * ps.size());
    c.nontrivial();
}
PROP(C23, bad_heights_reported, 60, 600, 120, 240) {
    Bytes base = c.bytes(48);
    unsigned h = c.pick<unsigned>({0, 1, 2, 3, 5, 7, 31, 32, 255});
    size_t cache = (size_t) c.choose(3);
    uint64_t start = c.choose(5);
    c.note(str("height %u, cache %zu", h, cache));
    Rep r = rust(50, Req().s(base).n(h).n(start).n(cache));
    if (r.ok()) {
        uint64_t p = r.n();
        Obj keep(p);
        check(!rust(51, Req().n(p)).ok(), "bad-height-accepted", str("%u", h));
    }
    c.nontrivial();
}

// ---------------------------------------------------------------- C24 (Rust)
namespace {
const size_t RPK = 2592, RSK = 4864, RSG = 4595;
size_t wrong(Ctx &c, size_t right) {
    size_t n = c.coin() ? right + (size_t) c.range(-3, 3) : c.pick<size_t>({0, 1, RPK, RSK, RSG, 1184, 2400, 1088, 32, right / 2, right * 2});
    return n == right ? right - 1 : n;
}
} // namespace
PROP(C24, rust_sign_then_open, 2500, 30000, 30) {
    theCounter = c.choose(1u << 20);
    uint64_t a = need("key pair", rust(60, Req())).n(), b = need("key pair", rust(60, Req())).n();
    Obj ka(a), kb(b);
    Rep r = need("keys", rust(62, Req().n(a))), r2 = need("keys", rust(62, Req().n(b)));
    Bytes pk = r.s(), sk = r.s(), pk2 = r2.s();
    check(pk.size() == RPK && sk.size() == RSK && r.n() == RPK && r.n() == RSK, "key-size", "");
    check(pk != pk2, "keys-repeat", "");
    Bytes m = c.coin(1, 5) ? c.bytes(RSG + (size_t) c.range(-2, 2)) : c.bytes(c.size(6000));
    c.note(str("message of %zu bytes", m.size()));
    Bytes sm = need("sign", rust(63, Req().n(a).s(m))).s();
    check(sm.size() == m.size() + RSG, "signed-size", str("%zu for %zu", sm.size(), m.size()));
    Bytes msg = need("extract_message", rust(65, Req().s(sm))).s(), sig = need("extract_signature", rust(66, Req().s(sm))).s();
    check(msg == m, "message-lost", diff(msg, m));
    check(sig == Bytes(sm.begin(), sm.begin() + (long) RSG), "signature-lost", str("%zu bytes", sig.size()));
    check(need("sign_open", rust(64, Req().s(sm).s(pk))).s() == m, "opened-differently", "");
    check(!rust(64, Req().s(sm).s(pk2)).ok(), "wrong-key-accepted", "");
    uint64_t d = need("restored key pair", rust(61, Req().s(pk).s(sk))).n();
    Obj kd(d);
    check(need("sign", rust(63, Req().n(d).s(m))).s() == sm, "restored-differs", "");
    Bytes bad(sm);
    switch (c.choose(3)) {
    case 0: bad[(size_t) c.choose(bad.size())] ^= (uint8_t) (1u << c.choose(8)); break;
    case 1: bad.push_back((uint8_t) c.choose(256)); break;
    default: bad.resize((size_t) c.choose(bad.size()));
    }
    check(!rust(64, Req().s(bad).s(pk)).ok(), "changed-accepted", str("%zu bytes", bad.size()));
    for (unsigned op : {65u, 66u}) check(rust(op, Req().s(bad)).ok() == (bad.size() >= RSG), bad.size() < RSG ? "size-accepted" : "right-size-refused", str("%zu bytes", bad.size()));
    Bytes p3 = c.bytes(wrong(c, RPK)), s3 = c.bytes(wrong(c, RSK));
    check(!rust(61, Req().s(p3).s(sk)).ok() && !rust(61, Req().s(pk).s(s3)).ok() && !rust(61, Req().s(p3).s(s3)).ok(), "size-accepted", "keys");
    size_t n = c.coin() ? (size_t) c.choose(RSG) : c.pick<size_t>({0, 1, RSG - 1});
    Bytes part(sm.begin(), sm.begin() + (long) n);
    check(!rust(65, Req().s(part)).ok() && !rust(66, Req().s(part)).ok() && !rust(64, Req().s(part).s(pk)).ok(), "size-accepted", str("signed message of %zu bytes", n));
    c.nontrivial();
}
PROP(C24, rust_long_messages, 4, 20, 60) {
    theCounter = c.choose(1u << 20);
    uint64_t a = need("key pair", rust(60, Req())).n();
    Obj ka(a);
    Bytes pk = need("keys", rust(62, Req().n(a))).s(), m = c.bytes(longSize(c, c.sweep(20)));
    c.note(str("message of %zu bytes", m.size()));
    Bytes sm = need("sign", rust(63, Req().n(a).s(m))).s();
    check(sm.size() == m.size() + RSG, "signed-size", str("%zu for %zu", sm.size(), m.size()));
    check(need("extract_message", rust(65, Req().s(sm))).s() == m, "message-lost", c.desc);
    check(need("extract_signature", rust(66, Req().s(sm))).s() == Bytes(sm.begin(), sm.begin() + (long) RSG), "signature-lost", c.desc);
    check(need("sign_open", rust(64, Req().s(sm).s(pk))).s() == m, "opened-differently", c.desc);
    sm[c.coin() ? sm.size() - 1 : (size_t) c.choose(sm.size())] ^= (uint8_t) (1u << c.choose(8));
    check(!rust(64, Req().s(sm).s(pk)).ok(), "changed-accepted", c.desc);
    c.nontrivial();
}
// ---------------------------------------------------------------- C25 (Rust)
PROP(C25, rust_parties, 2500, 30000, 30) {
    theCounter = c.choose(1u << 20);
    unsigned n = 2 + (unsigned) c.choose(2);
    std::vector<std::unique_ptr<Obj>> p;
    struct St { Bytes pk, sk, key, ct, from; };
    std::vector<St> st;
    auto read = [&](Rep r) { St s; s.pk = r.s(); s.sk = r.s(); s.key = r.s(); s.ct = r.s(); return s; };
    for (unsigned i = 0; i < n; i++) {
        uint64_t h = need("key pair", rust(70, Req())).n();
        St s = read(need("keys", rust(72, Req().n(h))));
        if (c.coin()) { { Obj drop(h); } h = need("restored", rust(71, Req().s(s.pk).s(s.sk))).n(); St t = read(need("keys", rust(72, Req().n(h)))); check(t.pk == s.pk && t.sk == s.sk, "keys-differ", "restored"); s = t; }
        s.from = s.ct;
        p.emplace_back(new Obj(h));
        st.push_back(s);
    }
    struct Sent { unsigned to; Bytes ct, key; };
    std::vector<Sent> sent;
    unsigned ops = 1 + (unsigned) c.choose(8), agreed = 0;
    c.note(str("%u parties:", n));
    for (unsigned k = 0; k < ops; k++) {
        unsigned who = (unsigned) c.choose(n), to = (unsigned) c.choose(n);
        switch (c.weighted({4, 4, 1, 1})) {
        case 0: {
            c.note(str(" %u encodes to %u", who, to));
            St s = read(need("encode", rust(73, Req().n(p[who]->h).s(st[to].pk))));
            check(s.key.size() == 32 && s.key != st[who].key && s.ct != st[who].ct, "stale-key", "after encoding");
            for (auto &x : sent) check(x.ct != s.ct && x.key != s.key, "encapsulation-repeats", "");
            sent.push_back({to, s.ct, s.key});
            st[who].key = s.key; st[who].ct = s.ct; st[who].from = s.ct;
            break; }
        case 1: {
            if (sent.empty()) break;
            const Sent x = sent[(size_t) c.choose(sent.size())];
            unsigned by = c.coin(2, 3) ? x.to : who;
            c.note(str(" %u decodes for %u", by, x.to));
            St s = read(need("decode", rust(74, Req().n(p[by]->h).s(x.ct))));
            if (by == x.to) { check(s.key == x.key, "keys-differ", ""); agreed++; } else check(s.key != x.key, "wrong-party-agrees", "");
            check(s.key != st[by].key || x.ct == st[by].from, "stale-key", "after decoding");
            st[by].key = s.key; st[by].from = x.ct;
            break; }
        case 2: {
            if (sent.empty()) break;
            Sent x = sent[(size_t) c.choose(sent.size())];
            x.ct[(size_t) c.choose(x.ct.size())] ^= (uint8_t) (1u << c.choose(8));
            St s = read(need("decode", rust(74, Req().n(p[x.to]->h).s(x.ct))));
            check(s.key != x.key, "changed-agrees", "");
            st[x.to].key = s.key; st[x.to].from = x.ct;
            break; }
        default: {
            Bytes a = c.bytes(wrong(c, 1184)), b = c.bytes(wrong(c, 1088));
            check(!rust(73, Req().n(p[who]->h).s(a)).ok() && !rust(74, Req().n(p[who]->h).s(b)).ok(), "size-accepted", str("%zu %zu", a.size(), b.size()));
            check(!rust(71, Req().s(a).s(st[who].sk)).ok() && !rust(71, Req().s(st[who].pk).s(c.bytes(wrong(c, 2400)))).ok(), "size-accepted", "keys");
        } }
        for (unsigned i = 0; i < n; i++) {
            St s = read(need("state", rust(72, Req().n(p[i]->h))));
            check(s.pk == st[i].pk && s.sk == st[i].sk, "keys-changed", "");
            check(s.key == st[i].key, "key-not-the-latest", str("party %u", i));
            check(s.ct == st[i].ct, "cypher-text-not-the-latest", str("party %u", i));
        }
    }
    c.nontrivial(agreed > 0);
}
