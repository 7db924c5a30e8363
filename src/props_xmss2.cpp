// C02 C03 C07 C18 C19 C20: verification, one-time chains, construction, sizes, isolation.
#include "chains.h"
#include "long.h"
#include "genq.h"
#include <atomic>
#include <condition_variable>
#include <functional>
#include <hashing.h>
#include <map>
#include <misc.h>
#include <mutex>
#include <qrlHelper.h>
#include <thread>
using namespace hh;
using pbt::check;
using pbt::fail;
using pbt::str;

// ---------------------------------------------------------------- C02
PROP(C02, mutations_rejected, 2600, 80000, 60) {
    Genuine a = genGenuine(c);
    c.note(showG(a));
    Bytes m = a.msg, s = a.sig, pk = a.pk; // reused objects: state keyed on addresses would show
    check(verifyW(m, s, pk, a.g.w), "genuine-rejected", "before any mutation");
    unsigned n = 3 + (unsigned) c.choose(6), done = 0;
    for (unsigned i = 0; i < n; i++) {
        Mut o;
        if (!mutate(c, a, o)) continue;
        c.note(o.what);
        m = o.m; s = o.s; pk = o.pk;
        check(!verifyW(m, s, pk, o.w), "accepted", o.what + " of " + showG(a));
        done++;
        if (c.choose(3) == 2) {
            m = a.msg; s = a.sig; pk = a.pk;
            check(verifyW(m, s, pk, a.g.w), "genuine-rejected", "after " + o.what);
        }
    }
    check(verifyW(a.msg, a.sig, a.pk, a.g.w), "genuine-rejected", "afterwards");
    c.count("mutations rejected", done);
    c.label(str("h=%u", a.g.h)); c.label(str("w=%u", a.g.w));
    c.nontrivial(done >= 2);
}
// The same over signatures made by real wallets, with splices between indices and messages of one wallet.
PROP(C02, wallet_signatures_bind, 260, 6000, 60) {
    Cfg g = genCfg(c, {6, 1});
    Bytes seed = genSeed(c);
    c.note(show(g));
    auto w = mkFast(seed, g);
    Bytes pk = w->getPK();
    struct T { Bytes m, s; };
    std::vector<T> ts;
    if (c.coin()) w->setIndex((uint32_t) c.choose((1u << g.h) - 4));
    for (int i = 0; i < 3; i++) { Bytes m = c.bytes((size_t) c.choose(60)); ts.push_back({m, w->sign(m)}); }
    const size_t len = ref::wotsParams(g.w).len, at[] = {0, 4, 36, 36 + 32 * len, ts[0].s.size()};
    unsigned done = 0;
    for (int k = 0; k < 10; k++) {
        const T &a = ts[c.choose(3)];
        Bytes m = a.m, s = a.s;
        unsigned parts = 0;
        for (int i = 0; i < 4; i++) {
            const T &b = ts[c.choose(3)];
            std::copy(b.s.begin() + (long) at[i], b.s.begin() + (long) at[i + 1], s.begin() + (long) at[i]);
            parts = parts * 4 + (unsigned) (&b - &ts[0]);
        }
        if (c.coin()) m = ts[c.choose(3)].m;
        bool genuine = false;
        for (auto &t : ts) if (t.m == m && t.s == s) genuine = true;
        bool got = verifyW(m, s, pk, g.w);
        check(got == genuine, genuine ? "genuine-rejected" : "accepted", str("splice %x of three signatures of one wallet", parts));
        if (!genuine) done++;
    }
    c.count("splices rejected", done);
    c.nontrivial(done >= 2);
}

PROP(C02, long_messages_bind, 4, 60, 60) {
    Genuine a = genGenuine(c, false);
    Bytes m = c.bytes(longSize(c, c.sweep(20)));
    c.note(str("message of %zu bytes, ", m.size()) + showG(a));
    Bytes s = a.v.sign(m);
    check(verifyW(m, s, a.pk, a.g.w), "genuine-rejected", c.desc);
    c.count("changed long messages rejected", longChanges(c, m, [&](const std::string &what) { check(!verifyW(m, s, a.pk, a.g.w), "accepted", what + " of " + showG(a)); }));
    check(verifyW(m, s, a.pk, a.g.w), "genuine-rejected", "afterwards");
    c.nontrivial();
}

#ifdef GIANTS
PROP(C02, giant_messages_bind, 0, 3, 2400, 0, false, 1) { // up to 17 GB
    Cfg g{(int) c.sweep(3), 10, 16};
    ref::Virtual v(genSeed(c), rp(g), (uint32_t) c.choose(1024), c.bytes(8));
    Bytes m = lcgBytes(giantSize(c), c.choose(0)), s = v.sign(m), pk = v.pk();
    c.note(str("%s message of %zu bytes", show(g).c_str(), m.size()));
    check(verifyW(m, s, pk, 16), "genuine-rejected", c.desc);
    m.back() ^= 1;
    check(!verifyW(m, s, pk, 16), "accepted", "last byte changed");
    m.back() ^= 1;
    m.resize(m.size() - ((size_t) 1 << 32));
    check(!verifyW(m, s, pk, 16), "accepted", "4 GiB cut off");
    c.nontrivial();
}
#endif
// ---------------------------------------------------------------- C03
namespace {
int tryVerify(const Q &q) { // copies the arguments so that changes to them are seen
    Bytes m = q.m, s = q.s, pk = q.pk;
    bool r;
    try { r = verifyW(m, s, pk, q.w); }
    catch (const std::exception &e) { fail("throws", q.what + ": " + e.what()); }
    catch (...) { fail("throws", q.what); }
    check(m == q.m && s == q.s && pk == q.pk, "arguments-modified", q.what);
    return r;
}
} // namespace
PROP(C03, decides_as_the_scheme_defines, 3000, 90000, 60) {
    unsigned n = 1 + (unsigned) c.choose(4), acc = 0;
    std::vector<Q> qs;
    for (unsigned i = 0; i < n; i++) qs.push_back(genQuery(c));
    std::vector<int> want;
    for (auto &q : qs) {
        c.note(q.what);
        want.push_back(ref::verify(q.m, q.s, q.pk, q.w));
        acc += (unsigned) want.back();
    }
    for (unsigned i = 0; i < n; i++) check(tryVerify(qs[i]) == want[i], want[i] ? "valid-rejected" : "invalid-accepted", qs[i].what);
    for (unsigned i = n; i-- > 0;) // again, in another order: the answer depends on the arguments only
        check(tryVerify(qs[i]) == want[i], "answer-depends-on-history", qs[i].what);
    c.count("queries", n);
    c.count("valid queries", acc);
    c.label(acc ? (acc < n ? "valid and invalid" : "all valid") : "all invalid");
    bool wellFormed = false;
    for (auto &q : qs) if (ref::supportedW(q.w) && q.pk.size() == 67 && q.s.size() >= 36) wellFormed = true;
    c.nontrivial(wellFormed);
}
// Every public-key header and every size near a signature size, with a signature that is genuine for one of them.
PROP(C03, headers_and_sizes, 400, 10000, 60) {
    Genuine a = genGenuine(c);
    c.note(showG(a));
    unsigned seen = 0;
    for (int k = 0; k < 40; k++) {
        Q q{a.msg, a.sig, a.pk, a.g.w, ""};
        uint16_t hd = (uint16_t) c.choose(65536);
        if (c.coin()) { q.pk[0] = (uint8_t) hd; }
        if (c.coin()) { q.pk[1] = (uint8_t) (hd >> 8); }
        if (c.choose(3) == 2) { size_t h2 = (size_t) c.choose(34); q.s.resize(ref::sigSize((unsigned) h2, a.g.w), 0x5A); }
        q.what = str("header %02x%02x, signature of %zu bytes, %s", q.pk[0], q.pk[1], q.s.size(), showG(a).c_str());
        int want = ref::verify(q.m, q.s, q.pk, q.w);
        check(tryVerify(q) == want, want ? "valid-rejected" : "invalid-accepted", q.what);
        seen++;
    }
    c.count("queries", seen);
    c.nontrivial();
}
// Long messages and messages of every length around the block sizes.
PROP(C03, message_lengths, 300, 4000, 60) {
    Genuine a = genGenuine(c, false);
    size_t n = (size_t) c.sweep(420);
    if (c.choose(8) == 7) n = c.pick({(size_t) 1 << 15, (size_t) 1 << 16, (size_t) 100000}) + (size_t) c.choose(3);
    Bytes m = c.bytes(n);
    Q q{m, a.v.sign(m), a.pk, a.g.w, str("message of %zu bytes, %s", n, showG(a).c_str())};
    c.note(q.what);
    check(tryVerify(q) == 1, "valid-rejected", q.what);
    if (n) { q.m[(size_t) c.choose(n)] ^= (uint8_t) (1u << c.choose(8)); check(tryVerify(q) == 0, "invalid-accepted", "one bit changed: " + q.what); }
    q.m = m; q.m.push_back(0);
    check(tryVerify(q) == 0, "invalid-accepted", "zero byte appended: " + q.what);
    c.nontrivial();
}

PROP(C03, long_messages, 4, 60, 60) {
    Genuine a = genGenuine(c, false);
    Bytes m = c.bytes(longSize(c, c.sweep(20)));
    Q q{m, a.v.sign(m), a.pk, a.g.w, str("message of %zu bytes, %s", m.size(), showG(a).c_str())};
    c.note(q.what);
    check(tryVerify(q) == 1, "valid-rejected", q.what);
    for (int k = 0; k < 3; k++) {
        Q x(q);
        switch (c.choose(3)) {
        case 0: x.m[k ? (size_t) c.choose(m.size()) : m.size() - 1] ^= (uint8_t) (1u << c.choose(8)); break;
        case 1: x.m.resize(m.size() - c.pick({(size_t) 1, (size_t) 65536, m.size() % 65536, (size_t) c.choose(m.size())}) % m.size()); break;
        default: x.m.push_back(0);
        }
        int want = x.m == m;
        check(tryVerify(x) == want, want ? "valid-rejected" : "invalid-accepted", "changed: " + q.what);
    }
    c.nontrivial();
}

// Small cheap queries, many of them: one of a few keys, a short message, at most a few bytes changed. Meant for the
// coverage-guided runs, where one query must cost little.
PROP(C03, small_queries, 1500, 60000, 60) {
    static std::map<unsigned, ref::Virtual> cache;
    const unsigned k = (unsigned) c.choose(3), h = 4 + 2 * (unsigned) c.choose(14), w = WS[c.weighted({3, 3, 0, 2})], id = (k * 64 + h) * 512 + w;
    auto it = cache.find(id);
    if (it == cache.end()) {
        Cfg g; g.hash = (int) k; g.h = h; g.w = w;
        Bytes seed(48);
        for (size_t i = 0; i < 48; i++) seed[i] = (uint8_t) (i * 11 + id);
        uint32_t idx = (uint32_t) ((0x9E3779B9u * (id + 1)) & ((1u << h) - 1));
        it = cache.emplace(id, ref::Virtual(seed, rp(g), idx, Bytes(8, (uint8_t) id))).first;
    }
    Q q;
    q.m = c.bytes((size_t) c.choose(40));
    q.s = it->second.sign(q.m); q.pk = it->second.pk(); q.w = w;
    q.what = str("hash=%u h=%u w=%u message=%zu bytes", k, h, w, q.m.size());
    const unsigned ch = (unsigned) c.choose(4);
    for (unsigned i = 0; i < ch; i++) {
        size_t part = c.weighted({2, 2, 2, 1}), at;
        Bytes &b = part == 0 ? q.m : part == 1 ? q.pk : q.s;
        if (b.empty()) continue;
        at = part == 3 ? (size_t) c.choose(36) : (size_t) c.choose(b.size());
        b[at] = (uint8_t) c.choose(256);
        q.what += str(" %s[%zu]=%02x", part == 0 ? "message" : part == 1 ? "key" : "signature", at, b[at]);
    }
    if (c.choose(8) == 1) { q.s.resize(q.s.size() + (size_t) c.choose(65) - 32); q.what += str(" signature of %zu bytes", q.s.size()); }
    c.note(q.what);
    int want = ref::verify(q.m, q.s, q.pk, q.w);
    check(tryVerify(q) == want, want ? "valid-rejected" : "invalid-accepted", q.what);
    if (c.choose(8) == 1) check(tryVerify(q) == want, "answer-depends-on-history", q.what);
    c.count("queries");
    c.nontrivial();
}

// ---------------------------------------------------------------- C07
namespace {
// digest with chosen properties
Bytes genDigest(Ctx &c, unsigned w) {
    Bytes d(32);
    switch (c.choose(6)) {
    case 0: d.assign(32, c.pick({(uint8_t) 0, (uint8_t) 255, (uint8_t) 0x11, (uint8_t) 0xF0})); break;
    case 1: { d.assign(32, c.coin() ? 0 : 255); for (int i = 0; i < 3; i++) d[(size_t) c.choose(32)] = (uint8_t) c.choose(256); break; }
    case 2: { uint8_t top = (uint8_t) c.choose(256); for (auto &x : d) x = (uint8_t) c.choose((uint64_t) top + 1); break; }
    default: d = c.bytes(32);
    }
    (void) w;
    return d;
}
} // namespace
PROP(C07, chains_positioned_by_checksum, 700, 12000, 60) {
    Cfg g{(int) c.choose(3), 4, WS[c.weighted({4, 3, 2, 2})]};
    Bytes seed = genSeed(c);
    uint32_t idx = (uint32_t) c.choose(16);
    Bytes m = genMsg(c, 200), D;
    if (toyFlavour) { D = genDigest(c, g.w); m.assign({'D', 'I', 'G', 'E', 'S', 'T', '!', '!'}); m.insert(m.end(), D.begin(), D.end()); }
    c.note(show(g) + str(" index=%u ", idx) + (D.empty() ? str("message of %zu bytes", m.size()) : "digest " + pbt::hexs(D)));
    std::unique_ptr<XmssBase> w;
    if (c.choose(4) == 3) w = mkBasic(seed, g); else w = mkFast(seed, g);
    w->setIndex(idx);
    Bytes s = w->sign(m), pk = w->getPK(), sk = w->getSK();
    check(sigIndex(s) == idx, "wrong-index", "");
    checkChains(g, idx, m, s, pk, sk);
    c.label(str("w=%u", g.w));
    c.nontrivial();
}
PROP(C07, advanced_chains_are_no_forgery, 900, 30000, 60) {
    if (!toyFlavour) { // crafted digests need the toy hash; advance single chains of real signatures instead
        Genuine a = genGenuine(c, false);
        c.note(showG(a));
        ref::B32 dg = ref::messageDigest(a.g.hash, &a.sig[4], &a.pk[3], a.idx, a.msg);
        auto d = withChecksum(a.g.w, digits(a.g.w, dg.data()));
        unsigned k = 1 + (unsigned) c.choose(4);
        bool changed = false;
        for (unsigned i = 0; i < k; i++) {
            unsigned ch = (unsigned) c.choose(d.size());
            if (d[ch] + 1 >= a.g.w) continue;
            unsigned st = 1 + (unsigned) c.choose(a.g.w - 1 - d[ch]);
            ref::B32 x;
            memcpy(x.data(), &a.sig[36 + 32 * ch], 32);
            x = ref::chain(a.g.hash, x, d[ch], st, &a.pk[35], a.idx, ch);
            memcpy(&a.sig[36 + 32 * ch], x.data(), 32);
            d[ch] += st;
            changed = true;
        }
        if (changed) check(!verifyW(a.msg, a.sig, a.pk, a.g.w), "forgery-accepted", "chains advanced, same message");
        c.nontrivial(changed);
        return;
    }
    Cfg g{(int) c.choose(3), 4, WS[c.weighted({4, 3, 3, 2})]};
    Bytes seed = genSeed(c), D1 = genDigest(c, g.w);
    ref::Wots wp = ref::wotsParams(g.w);
    auto d1 = digits(g.w, D1.data()), d2 = d1;
    // raise message digits by a total that looks innocent to a damaged checksum: a unit, powers of w, or anything
    uint64_t room = 0;
    for (auto x : d1) room += g.w - 1 - x;
    if (!room) { D1[0] = 0; d1 = d2 = digits(g.w, D1.data()); room = 0; for (auto x : d1) room += g.w - 1 - x; }
    uint64_t total;
    switch (c.choose(4)) {
    case 0: total = 1 + c.choose(4); break;
    case 1: total = g.w; break;
    case 2: total = (uint64_t) g.w * (1 + c.choose(16)); break;
    default: total = 1 + c.choose(room); break;
    }
    total = std::max<uint64_t>(1, std::min(total, room));
    uint64_t left = total;
    size_t at = (size_t) c.choose(d2.size());
    bool spread = c.coin();
    for (size_t n = 0; left; n++, at = (at + 1) % d2.size()) {
        unsigned can = g.w - 1 - d2[at];
        unsigned t = (unsigned) std::min<uint64_t>(left, spread && n < 4 * d2.size() ? std::min<unsigned>(can, 1) : can);
        d2[at] += t;
        left -= t;
    }
    Bytes D2(32, 0);
    for (unsigned i = 0; i < wp.len1; i++) for (unsigned b = 0; b < wp.logw; b++) { unsigned bit = i * wp.logw + b; if (d2[i] >> (wp.logw - 1 - b) & 1) D2[bit / 8] |= (uint8_t) (0x80 >> (bit % 8)); }
    auto msgOf = [](const Bytes &d) { Bytes m{'D', 'I', 'G', 'E', 'S', 'T', '!', '!'}; m.insert(m.end(), d.begin(), d.end()); return m; };
    auto w = mkFast(seed, g);
    uint32_t idx = (uint32_t) c.choose(16);
    w->setIndex(idx);
    Bytes s = w->sign(msgOf(D1)), pk = w->getPK();
    check(verifyW(msgOf(D1), s, pk, g.w), "genuine-rejected", "");
    auto f1 = withChecksum(g.w, d1), f2 = withChecksum(g.w, d2);
    bool beyond = false;
    for (unsigned i = 0; i < wp.len; i++) {
        if (f2[i] < f1[i]) { beyond = true; continue; } // this chain cannot be turned back
        if (f2[i] == f1[i]) continue;
        ref::B32 x;
        memcpy(x.data(), &s[36 + 32 * i], 32);
        x = ref::chain(g.hash, x, f1[i], f2[i] - f1[i], &pk[35], idx, i);
        memcpy(&s[36 + 32 * i], x.data(), 32);
    }
    check(beyond, "model", "no chain lies beyond");
    c.note(show(g) + str(" digits raised by %llu in total, first digest %s", (unsigned long long) total, pbt::hexs(D1).c_str()));
    check(!verifyW(msgOf(D2), s, pk, g.w), "forgery-accepted", "a signature made by advancing chains of a genuine one verifies for another digest");
    // the forger may also leave every checksum chain where it is
    Bytes s2 = s, orig;
    c.label(str("w=%u", g.w));
    c.nontrivial();
}

// ---------------------------------------------------------------- C18
namespace {
void checkUsable(Ctx &c, XmssBase &w, const Cfg &g, const Bytes &seed) {
    auto d = w.getDescriptor();
    check(d.getHeight() == g.h && d.getHashFunction() == (eHashFunction) g.hash && d.getSignatureType() == eSignatureType::XMSS && d.getAddrFormatType() == eAddrFormatType::SHA256_2X, "descriptor", show(g));
    Bytes b = w.getDescriptorBytes();
    check(b == ref::descriptor(g.hash, 0, g.h, 0), "descriptor-bytes", show(g) + ": " + pbt::hexs(b));
    auto e = QRLDescriptor::fromBytes(b);
    check(e.getHeight() == g.h && e.getHashFunction() == (eHashFunction) g.hash && e.getAddrFormatType() == eAddrFormatType::SHA256_2X, "descriptor-does-not-decode-back", show(g));
    check(w.getSeed() == seed, "seed", show(g));
    check(w.getHeight() == g.h && w.getIndex() == 0, "fresh-wallet", show(g));
    Bytes m = genMsg(c, 100), pk = w.getPK();
    Bytes s = w.sign(m);
    check(verifyW(m, s, pk, g.w), "first-signature-invalid", show(g));
    check(w.getAddress().size() == 39, "address", show(g));
}
bool supported(unsigned h) { return h >= 4 && h <= 30 && h % 2 == 0; }
// Runs a construction expected to be refused with std::invalid_argument.
template<class F> void refused(const char *what, F f) {
    try { f(); }
    catch (const std::invalid_argument &) { return; }
    catch (const std::exception &e) { fail("wrong-error", std::string(what) + ": " + e.what()); }
    catch (...) { fail("wrong-error", std::string(what) + ": not a std::exception"); }
    fail("bad-parameter-accepted", what);
}
} // namespace
PROP(C18, construction, 900, 20000, 30) {
    size_t route = c.choose(3); // fast, basic, extended seed
    Bytes seed = genSeed(c);
    unsigned h = 4 + 2 * (unsigned) c.weighted({8, 1});
    int hash = (int) c.choose(3), addr = 0;
    uint32_t w = route == 1 ? WS[c.weighted({4, 2, 1, 1})] : 16;
    if (w == 256) h = 4; // slow
    std::string bad;
    if (c.choose(4)) switch (c.choose(5)) { // one bad parameter
    case 0: { size_t n = c.coin() ? c.pick({(size_t) 0, (size_t) 1, (size_t) 16, (size_t) 32, (size_t) 47, (size_t) 49, (size_t) 51, (size_t) 64, (size_t) 96, (size_t) 304, (size_t) 1 << 16}) : c.size(600);
        if (n != 48) { seed = c.bytes(n); bad = str("seed of %zu bytes", n); } break; }
    case 1: { unsigned v = (unsigned) c.sweep(256); if (!supported(v)) { h = v; bad = str("height %u", v); } break; }
    case 2: { int v = c.pick({3, 4, 5, 7, 8, 15, 16, 127, 255, 256, 257, -1, 1 << 16, 0x7FFFFFFF}); hash = v; bad = str("hash function %d", v); break; }
    case 3: { int v = c.pick({1, 2, 3, 15, 16, 127, 255, 256, -1, 0x7FFFFFFF}); addr = v; bad = str("address format %d", v); break; }
    default: if (route == 1) { w = badW(c); bad = str("Winternitz parameter %u", w); }
    }
    static const char *names[] = {"XmssFast(seed)", "XmssBasic(seed)", "XmssFast(extended seed)"};
    c.note(str("%s h=%u hash=%d addr=%d w=%u seed of %zu bytes; %s", names[route], h, hash, addr, w, seed.size(), bad.empty() ? "all good" : bad.c_str()));
    c.label(bad.empty() ? "good" : bad.substr(0, bad.find(' ')));
    Cfg g{hash, h, w};
    auto make = [&]() -> std::unique_ptr<XmssBase> {
        if (route == 0) return std::unique_ptr<XmssBase>(new XmssFast(seed, (unsigned char) h, (eHashFunction) hash, (eAddrFormatType) addr));
        if (route == 1) return std::unique_ptr<XmssBase>(new XmssBasic(seed, (unsigned char) h, (eHashFunction) hash, (eAddrFormatType) addr, w));
        Bytes e{(uint8_t) hash, (uint8_t) (addr << 4 | h / 2), (uint8_t) (c.choose(4) != 3 ? 0 : c.choose(256))};
        e.insert(e.end(), seed.begin(), seed.end());
        return std::unique_ptr<XmssBase>(new XmssFast(e));
    };
    if (route == 2 && !bad.empty() && (hash < 0 || hash > 15 || addr < 0 || addr > 15 || h % 2 || h > 30)) { bad.clear(); return; } // not expressible
    if (bad.empty()) { auto x = make(); checkUsable(c, *x, g, seed); }
    else refused((std::string(names[route]) + ": " + bad).c_str(), make);
    c.nontrivial();
}
// Every header of an extended seed, in order, and wrong lengths.
PROP(C18, legal_heights, 2000, 40000, 30) { // the checks of the base class, which needs no tree
    unsigned h = (unsigned) c.sweep(256);
    int hash = (int) c.choose(3);
    Bytes seed = genSeed(c), ext = ref::descriptor(hash, 0, h & 30, 0);
    ext.insert(ext.end(), seed.begin(), seed.end());
    c.note(str("base class h=%u hash=%d", h, hash));
    if (supported(h)) {
        TallWallet a(seed, h, hash, {}), b(ext, {});
        check(a.getHeight() == h && b.getHeight() == h && a.getSeed() == seed && b.getSeed() == seed, "parameters-not-kept", str("h=%u", h));
        check(a.getExtendedSeed() == ext && b.getExtendedSeed() == ext, "extended-seed", str("h=%u", h));
    } else if (h > 30) refused(str("height %u", h).c_str(), [&] { XmssFast x(seed, (unsigned char) h, (eHashFunction) hash, eAddrFormatType::SHA256_2X); });
    c.nontrivial();
}
PROP(C18, extended_seed_headers, 2048, 16384, 60) {
    Bytes seed = genSeed(c);
    const uint64_t per = c.thorough ? 4 : 32; // the run as a whole walks all 65536 headers
    uint64_t base = c.sweep(65536 / per);
    unsigned ok = 0;
    for (uint64_t k = 0; k < per; k++) {
        uint64_t v = (base * per + k) & 65535;
        uint8_t b0 = (uint8_t) v, b1 = (uint8_t) (v >> 8);
        unsigned h = 2 * (b1 & 15u);
        bool good = (b0 & 15) <= 2 && b0 >> 4 == 0 && b1 >> 4 == 0 && supported(h);
        if (good && h > 4) continue; // built elsewhere or too tall to build here
        Bytes e{b0, b1, 0};
        e.insert(e.end(), seed.begin(), seed.end());
        if (good) { XmssFast x(e); checkUsable(c, x, Cfg{b0 & 15, h, 16}, seed); ok++; }
        else refused(str("extended seed with header %02x%02x", b0, b1).c_str(), [&] { XmssFast x(e); });
    }
    size_t n = c.size(300);
    if (n != 51) { Bytes e = c.bytes(n); if (n > 2) { e[0] = 0; e[1] = 2; } refused(str("extended seed of %zu bytes", n).c_str(), [&] { XmssFast x(e); }); }
    c.note(str("headers from %llu, %u usable; length %zu", (unsigned long long) (base * per), ok, n));
    c.count("headers", per);
    c.nontrivial();
}
PROP(C18, unsupported_winternitz_tree, 60, 1000, 30) {
    Bytes seed = genSeed(c);
    Cfg g{(int) c.choose(3), 4, 16};
    auto w = mkFast(seed, g);
    uint32_t v = c.choose(4) ? badW(c) : (uint32_t) c.choose(1ull << 32);
    if (ref::supportedW(v)) v = 8;
    c.note(show(g) + str(" then initialize_tree(%u)", v));
    refused(str("initialize_tree(%u)", v).c_str(), [&] { w->initialize_tree(v); });
    g.w = WS[c.weighted({3, 2, 0, 2})];
    w->initialize_tree(g.w);
    checkUsable(c, *w, g, seed);
    c.nontrivial();
}

// ---------------------------------------------------------------- C19
PROP(C19, sizes_of_real_wallets, 140, 4000, 60) {
    Cfg g = genCfg(c, {6, 2, 1});
    Bytes seed = genSeed(c);
    c.note(show(g));
    std::unique_ptr<XmssBase> w;
    bool basic = g.h == 4 && c.choose(3) == 2;
    if (basic) w = mkBasic(seed, g); else w = mkFast(seed, g);
    for (unsigned x : WS) {
        unsigned len = ref::wotsParams(x).len;
        check(w->getSignatureSize(x) == 4 + 32 + 32 * (len + g.h), "advertised-signature-size", str("w=%u: %u", x, (unsigned) w->getSignatureSize(x)));
        check(XmssBase::calculateSignatureBaseSize(x) == 4 + 32 + 32 * len, "base-size", str("w=%u: %u", x, (unsigned) XmssBase::calculateSignatureBaseSize(x)));
    }
    check(w->getPublicKeySize() == 67 && w->getPK().size() == 67, "public-key-size", "");
    check(w->getSecretKeySize() == 132 && w->getSK().size() == 132, "secret-key-size", "");
    const uint32_t n = 1u << g.h;
    uint32_t cur = 0;
    auto capacity = [&] {
        check(w->getNumberSignatures() == n, "number-of-signatures", str("%u", w->getNumberSignatures()));
        check(w->getRemainingSignatures() == n - cur, "remaining", str("%u at index %u of %u", w->getRemainingSignatures(), cur, n));
        check(w->getIndex() == cur, "index", str("%u, expected %u", w->getIndex(), cur));
        check(w->getHeight() == g.h, "height", "");
    };
    capacity();
    for (int i = 0; i < 5 && cur < n; i++) {
        if (c.coin()) { cur += (uint32_t) c.choose(c.coin() ? n - cur : std::min<uint32_t>(3, n - cur)); w->setIndex(cur); capacity(); }
        Bytes s = w->sign(genMsg(c, 100));
        cur++;
        check(s.size() == w->getSignatureSize(g.w), "signature-size", str("%zu", s.size()));
        check(XmssBase::getHeightFromSigSize(s.size(), g.w) == g.h, "height-from-size", "");
        capacity();
    }
    if (c.coin()) { // to the end
        if (cur < n - 1) { cur = n - 1; w->setIndex(cur); capacity(); }
        if (cur < n) { w->sign({1}); cur++; capacity(); }
        throws([&] { w->sign({2}); });
        capacity();
    }
    c.nontrivial();
}
PROP(C19, sizes_at_any_height, 3000, 60000, 30) {
    Cfg g{(int) c.choose(3), 4 + 2 * (unsigned) c.sweep(14), WS[c.choose(4)]};
    Bytes seed = genSeed(c);
    TallWallet w(seed, g.h, g.hash, Bytes(132, 0));
    c.note("any height: " + show(g));
    for (unsigned x : WS) {
        uint32_t size = w.getSignatureSize(x);
        check(size == ref::sigSize(g.h, x), "advertised-signature-size", str("w=%u: %u", x, size));
        check(XmssBase::getHeightFromSigSize(size, x) == g.h, "height-from-size", str("w=%u", x));
    }
    check(w.getPublicKeySize() == 67 && w.getSecretKeySize() == 132 && w.getHeight() == g.h, "key-sizes", "");
    const uint32_t n = 1u << g.h;
    check(w.getNumberSignatures() == n, "number-of-signatures", str("%u of %u", w.getNumberSignatures(), n));
    if (w.ready) for (int k = 0; k < 6; k++) {
        uint32_t i = k == 5 ? n : k ? tallIndex(c, g.h) : 0;
        if (k && throws([&] { w.setIndex(i); })) continue;
        check(w.getIndex() == i, "index", str("%u, expected %u", w.getIndex(), i));
        check(w.getRemainingSignatures() == n - i, "remaining", str("%u at index %u of %u", w.getRemainingSignatures(), i, n));
        check(sigIndex(w.getSK()) == i, "index-in-the-key", str("%u, expected %u", sigIndex(w.getSK()), i));
    }
    c.label(str("h=%u", g.h));
    c.nontrivial();
}
PROP(C19, height_from_signature_size, 4000, 100000, 30) {
    unsigned w = WS[c.choose(4)];
    if (w == 16 && c.coin()) check(XmssBase::calculateSignatureBaseSize() == 2180, "default-base-size", "");
    const size_t base = ref::sigSize(0, w);
    for (int k = 0; k < 20; k++) {
        size_t n;
        switch (c.choose(6)) {
        case 0: n = base + 32 * (size_t) c.choose(33); break;
        case 1: n = base + 32 * (size_t) c.choose(33) + (size_t) c.choose(33); break;
        case 2: n = base + 32 * (256 * (size_t) (1 + c.choose(4)) + (size_t) c.choose(33)); break;
        case 3: n = (size_t) c.choose(base + 1); break;
        case 4: n = ((size_t) 1 << (31 + c.choose(33))) + base + 32 * (size_t) c.choose(33); break;
        default: n = c.coin() ? (size_t) c.choose(0) : base + 32 * ((size_t) c.choose(0) >> 8);
        }
        bool refusedIt = false;
        unsigned got = 0;
        try { got = XmssBase::getHeightFromSigSize(n, w); }
        catch (const std::invalid_argument &) { refusedIt = true; }
        size_t q = n >= base && (n - base) % 32 == 0 ? (n - base) / 32 : SIZE_MAX;
        if (k == 0) c.note(str("w=%u size=%zu", w, n));
        if (q == SIZE_MAX || q > 30) check(refusedIt, "no-signature-size-accepted", str("size %zu w=%u gives height %u", n, w, got));
        else if (supported((unsigned) q)) check(!refusedIt && got == q, "signature-size-not-inverted", str("size %zu w=%u: %s %u, expected %zu", n, w, refusedIt ? "refused" : "height", got, q));
        else check(refusedIt || got == q, "wrong-height", str("size %zu w=%u gives %u", n, w, got));
    }
    c.count("sizes", 20);
    c.nontrivial();
}

// ---------------------------------------------------------------- C20
namespace {
struct Op { int kind; uint32_t arg; Bytes msg; };
std::vector<Op> genScript(Ctx &c, unsigned h) {
    std::vector<Op> r;
    unsigned n = 2 + (unsigned) c.choose(6);
    for (unsigned i = 0; i < n; i++) {
        Op o;
        o.kind = (int) c.weighted({5, 2, 1, 1, 1});
        o.arg = (uint32_t) c.choose((1u << h) / 3);
        o.msg = c.bytes((size_t) c.choose(80));
        r.push_back(o);
    }
    return r;
}
// Applies one operation, returns everything observable about it.
Bytes apply(XmssBase &w, const Op &o) {
    Bytes r;
    try {
        switch (o.kind) {
        case 0: r = w.sign(o.msg); break;
        case 1: { uint32_t t = w.getIndex() + o.arg % 5; w.setIndex(t); r = {1}; break; }
        case 2: { w.setIndex(w.getNumberSignatures() + 1 + o.arg); r = {2}; break; }
        case 3: r = w.getPK(); break;
        default: r = w.getAddress();
        }
    } catch (const std::exception &) { r = {0xEE}; }
    Bytes sk = w.getSK();
    r.insert(r.end(), sk.begin(), sk.end());
    return r;
}
std::unique_ptr<XmssFast> mk(const Bytes &seed, const Cfg &g) { return mkFast(seed, g); }
} // namespace
PROP(C20, interleaved_wallets, 130, 4000, 60) {
    unsigned k = 2 + (unsigned) c.choose(3);
    std::vector<Cfg> gs;
    std::vector<Bytes> seeds;
    std::vector<std::vector<Op>> scripts;
    std::vector<std::vector<Bytes>> solo(k);
    Bytes common = genSeed(c);
    for (unsigned i = 0; i < k; i++) {
        Cfg g = genCfg(c, {5, 1});
        if (g.w == 256) g.w = 4;
        gs.push_back(g);
        seeds.push_back(c.choose(3) != 2 ? genSeed(c) : common);
        scripts.push_back(genScript(c, g.h));
        c.note(show(g) + str(" %zu ops", scripts[i].size()));
    }
    for (unsigned i = 0; i < k; i++) { auto w = mk(seeds[i], gs[i]); for (auto &o : scripts[i]) solo[i].push_back(apply(*w, o)); }
    std::vector<std::unique_ptr<XmssFast>> ws(k);
    std::vector<size_t> pos(k, 0);
    std::string order;
    for (;;) {
        std::vector<unsigned> live;
        for (unsigned i = 0; i < k; i++) if (pos[i] < scripts[i].size()) live.push_back(i);
        if (live.empty()) break;
        unsigned i = live[c.choose(live.size())];
        order += (char) ('A' + i);
        if (!ws[i]) ws[i] = mk(seeds[i], gs[i]); // created in the middle of the others' lives
        Bytes r = apply(*ws[i], scripts[i][pos[i]]);
        check(r == solo[i][pos[i]], "interleaving-changes-a-wallet", str("wallet %u, operation %zu (kind %d), order %s: %s", i, pos[i], scripts[i][pos[i]].kind, order.c_str(), diff(r, solo[i][pos[i]]).c_str()));
        pos[i]++;
        if (pos[i] == scripts[i].size() && c.coin()) ws[i].reset();
        if (c.choose(4) == 3) XmssBase::verify({1, 2}, Bytes(ref::sigSize(4, 16), 7), Bytes(67, 1));
    }
    c.note("order " + order);
    c.nontrivial(order.size() >= 4);
}
PROP(C20, copies_are_independent, 220, 5000, 60) {
    Cfg g = genCfg(c, {5, 2});
    if (g.w == 256) g.w = 4;
    Bytes seed = genSeed(c);
    bool basic = g.h == 4 && c.choose(5) == 4;
    std::string log = str("%s %s:", basic ? "basic" : "fast", show(g).c_str());
    ref::Wallet r(seed, rp(g));
    const uint32_t n = 1u << g.h;
    // population of wallets, all descended from one; each has its own model index
    struct E { std::unique_ptr<XmssBase> w; uint32_t idx; };
    std::vector<E> es;
    if (basic) es.push_back({mkBasic(seed, g), 0}); else es.push_back({mkFast(seed, g), 0});
    auto copy = [&](XmssBase &x) -> std::unique_ptr<XmssBase> {
        if (basic) return std::unique_ptr<XmssBase>(new XmssBasic(static_cast<XmssBasic &>(x)));
        switch (c.choose(4)) {
        case 0: { // assign over a wallet with other parameters
            Cfg o = g; o.h = 4 + 2 * (unsigned) c.choose(2); o.hash = (int) c.choose(3); o.w = 16;
            auto t = mkFast(Bytes(48, 1), o);
            *t = static_cast<XmssFast &>(x);
            log += " assign";
            return t; }
        case 1: { // through a growing container
            std::vector<XmssFast> v;
            v.push_back(static_cast<XmssFast &>(x));
            v.push_back(v[0]);
            v.push_back(v[0]);
            log += " container";
            return std::unique_ptr<XmssBase>(new XmssFast(v[1])); }
        case 2: { XmssFast t(static_cast<XmssFast &>(x)); t = *&t; log += " move"; return std::unique_ptr<XmssBase>(new XmssFast(std::move(t))); }
        default: log += " copy"; return std::unique_ptr<XmssBase>(new XmssFast(static_cast<XmssFast &>(x)));
        }
    };
    unsigned ops = 5 + (unsigned) c.choose(12), sigs = 0, copies = 0;
    for (unsigned i = 0; i < ops; i++) {
        size_t k = (size_t) c.choose(es.size());
        switch (c.weighted({5, 2, 2, 1})) {
        case 0: {
            if (es[k].idx >= n) break;
            Bytes m = c.bytes((size_t) c.choose(40)), s = es[k].w->sign(m);
            log += str(" %zu:sign@%u", k, es[k].idx);
            check(s == r.sign(es[k].idx, m), "copy-signs-differently", log + ": " + diff(s, r.sign(es[k].idx, m)));
            es[k].idx++;
            sigs++;
            break; }
        case 1: { if (es[k].idx + 1 >= n) break; uint32_t t = es[k].idx + (uint32_t) c.choose(std::min<uint32_t>(n - es[k].idx, 9)); es[k].w->setIndex(t); es[k].idx = t; log += str(" %zu:jump %u", k, t); break; }
        case 2: if (es.size() < 5) { auto x = copy(*es[k].w); log += str("(%zu)", k); es.push_back({std::move(x), es[k].idx}); copies++; } break;
        default: if (es.size() > 1) { es.erase(es.begin() + (long) k); log += str(" destroy %zu", k); }
        }
        for (auto &e : es) check(e.w->getIndex() == e.idx && e.w->getPK() == r.pk() && e.w->getSeed() == seed, "copy-state", log);
    }
    if (!copies) { auto x = copy(*es[0].w); es.push_back({std::move(x), es[0].idx}); copies++; es.erase(es.begin()); }
    for (auto &e : es) for (int j = 0; j < 2 && e.idx < n; j++) {
        Bytes m{3, (uint8_t) j}, s = e.w->sign(m);
        check(s == r.sign(e.idx, m), "copy-signs-differently", log + str(" then sign@%u: ", e.idx) + diff(s, r.sign(e.idx, m)));
        e.idx++;
        sigs++;
    }
    c.note(log);
    c.count("copies", copies);
    c.nontrivial(sigs >= 2 && copies >= 1);
}
namespace {
struct Barrier { // keeps threads in step, so that what may race does so within a short time
    std::mutex m;
    std::condition_variable cv;
    unsigned n, in = 0, round = 0;
    explicit Barrier(unsigned n) : n(n) {}
    void wait() {
        std::unique_lock<std::mutex> l(m);
        unsigned r = round;
        if (++in == n) { in = 0; round++; cv.notify_all(); }
        else cv.wait(l, [&] { return round != r; });
    }
};
}
// The functions without state, on threads that go from call to call together.
PROP(C20, queries_on_threads, 60, 1000, 240, 200, true, 2) {
    std::vector<std::function<Bytes()>> qs;
    std::vector<std::string> names;
    auto add = [&](const std::string &name, std::function<Bytes()> f) {
        names.push_back(name);
        qs.push_back([f] { try { return f(); } catch (const std::exception &e) { Bytes r{0xEE}; return r; } });
    };
    auto text = [](const std::string &x) { return Bytes(x.begin(), x.end()); };
    for (unsigned w : {16u, 4u, 2u, 256u}) {
        Genuine a = genGenuine(c);
        a.g.w = w;
        a.g.h = 4 + 2 * (unsigned) c.choose(14);
        ref::Virtual v(a.seed, rp(a.g), (uint32_t) c.choose(1u << a.g.h), a.msg);
        Bytes s = v.sign(a.msg), bad = s, pk = v.pk(), m = a.msg;
        bad[(size_t) c.choose(bad.size())] ^= 16;
        add(str("verify w=%u", w), [=] { return Bytes{(uint8_t) verifyW(m, s, pk, w)}; });
        add(str("refuse w=%u", w), [=] { return Bytes{(uint8_t) verifyW(m, bad, pk, w)}; });
        add(str("sizes w=%u", w), [=] { uint32_t b = XmssBase::calculateSignatureBaseSize(w); return Bytes{(uint8_t) b, (uint8_t) (b >> 8), XmssBase::getHeightFromSigSize(s.size(), w)}; });
        add("address", [=] { return QRLHelper::getAddress(pk); });
        Bytes ad = ref::address(pk), wrong = ad;
        wrong[(size_t) c.choose(39)] ^= 1;
        add("valid address", [=] { return Bytes{(uint8_t) QRLHelper::addressIsValid(ad), (uint8_t) QRLHelper::addressIsValid(wrong)}; });
    }
    for (int i = 0; i < 2; i++) {
        Bytes b = c.bytes(3 * (1 + (size_t) c.choose(20))), big = c.bytes((size_t) c.choose(500));
        size_t out = (size_t) c.choose(400);
        add("mnemonic", [=] { return text(bin2mnemonic(b)); });
        std::string words = ref::mnemonic(b), hex = ref::hex(big);
        add("mnemonic2bin", [=] { return mnemonic2bin(words); });
        add("bin2hstr", [=] { return text(bin2hstr(big, 7)); });
        add("hstr2bin", [=] { return hstr2bin(hex); });
        add("shake128", [=] { return shake128(out, big); });
        add("shake256", [=] { return shake256(out, big); });
        add("sha2_256", [=] { return sha2_256(big); });
        add("sha2_256_n", [=] { return sha2_256_n(big, 3); });
        add("hash chain seed", [=] { auto r = getHashChainSeed(b, (uint32_t) out, 3); return r.at(2); });
        add("descriptor", [=] { Bytes x{(uint8_t) (big.size() % 3), (uint8_t) (out % 16), 0}; return QRLDescriptor::fromBytes(x).getBytes(); });
    }
    std::vector<Bytes> want;
    for (auto &q : qs) want.push_back(q());
    const unsigned k = 2 + (unsigned) c.choose(4), rounds = 24;
    std::vector<std::vector<unsigned>> plan(k);
    for (unsigned r = 0; r < rounds; r++) {
        size_t same = (size_t) c.choose(qs.size()); // often everyone in the same function
        for (auto &p : plan) p.push_back((unsigned) (c.coin() ? (same < 20 ? (same % 5 + 5 * c.choose(4)) % 20 : same) : c.choose(qs.size())));
    }
    Barrier bar(k);
    std::vector<std::string> wrong(k);
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < k; i++)
        ts.emplace_back([&, i] {
            for (unsigned q : plan[i]) {
                bar.wait();
                Bytes got = qs[q]();
                if (got != want[q] && wrong[i].empty()) wrong[i] = names[q] + ": " + diff(got, want[q]);
            }
        });
    for (auto &t : ts) t.join();
    for (auto &x : wrong) check(x.empty(), "differs-on-a-thread", x);
    c.note(str("%u threads, %u calls each", k, rounds));
    c.nontrivial();
}
PROP(C20, wallets_on_threads, 40, 600, 240, 200, true, 2) {
    unsigned k = 2 + (unsigned) c.choose(5);
    std::vector<Cfg> gs;
    std::vector<Bytes> seeds;
    std::vector<std::vector<Op>> scripts;
    std::vector<std::vector<Bytes>> solo(k), got(k);
    for (unsigned i = 0; i < k; i++) {
        Cfg g{(int) c.choose(3), 4, c.pick({16u, 16u, 4u, 2u})};
        gs.push_back(g);
        seeds.push_back(genSeed(c));
        scripts.push_back(genScript(c, 4));
    }
    Genuine gen = genGenuine(c, false);
    Bytes badSig = gen.sig;
    badSig[(size_t) c.choose(badSig.size())] ^= 4;
    Bytes codec = c.bytes(51);
    for (unsigned i = 0; i < k; i++) { auto w = mk(seeds[i], gs[i]); for (auto &o : scripts[i]) solo[i].push_back(apply(*w, o)); }
    std::vector<std::thread> ts;
    std::atomic<int> wrongVerify{0};
    Barrier start(k + 2), step(k);
    const bool together = c.coin();
    size_t most = 0;
    for (auto &x : scripts) most = std::max(most, x.size());
    for (unsigned i = 0; i < k; i++)
        ts.emplace_back([&, i] {
            start.wait();
            auto w = mk(seeds[i], gs[i]);
            for (size_t j = 0; j < most; j++) {
                if (together) step.wait();
                if (j < scripts[i].size()) got[i].push_back(apply(*w, scripts[i][j]));
            }
        });
    for (int t = 0; t < 2; t++)
        ts.emplace_back([&] {
            start.wait();
            for (int i = 0; i < 12; i++) {
                if (!verifyW(gen.msg, gen.sig, gen.pk, gen.g.w)) wrongVerify = 1;
                if (verifyW(gen.msg, badSig, gen.pk, gen.g.w)) wrongVerify = 2;
                if (mnemonic2bin(bin2mnemonic(codec)) != codec || hstr2bin(bin2hstr(codec)) != codec) wrongVerify = 3;
            }
        });
    for (auto &t : ts) t.join();
    check(wrongVerify == 0, "concurrent-verification", str("verification or encoding went wrong next to other threads (%d)", (int) wrongVerify));
    for (unsigned i = 0; i < k; i++) for (size_t j = 0; j < solo[i].size(); j++)
        check(j < got[i].size() && got[i][j] == solo[i][j], "thread-changes-a-wallet", str("wallet %u %s, operation %zu: %s", i, show(gs[i]).c_str(), j, diff(got[i][j], solo[i][j]).c_str()));
    c.note(str("%u wallets on threads, 2 verifiers", k));
    c.nontrivial();
}
