// C09 C10 C11 C12 C13 C14: descriptors, addresses, mnemonics, hex, hashes, hash-chain seeds.
#include "h.h"
#include "long.h"
#ifndef NO_INTERNALS
#include <fips202.h>
#endif
#include <hashing.h>
#include <misc.h>
#include <qrlHelper.h>
#include <set>
#ifndef NO_INTERNALS
#include <shasha.h>
#endif
using namespace hh;
using pbt::check;
using pbt::fail;
using pbt::str;

namespace {
// Runs f: 1 returned, 0 refused with a std::exception; anything else fails the case.
template<class F> bool attempt(F f) {
    try { f(); return true; }
    catch (const std::exception &) { return false; }
    catch (...) { fail("wrong-error", "not a std::exception"); }
}
std::string quote(const std::string &s, size_t max = 120) {
    std::string o;
    for (unsigned char ch : s.substr(0, max)) if (ch < 32 || ch > 126) o += str("\\x%02x", ch); else o += (char) ch;
    return "\"" + o + "\"" + (s.size() > max ? str("..(%zu chars)", s.size()) : "");
}
} // namespace

// ---------------------------------------------------------------- C09
// All 2^24 descriptors: one case per value of the last byte and quarter of the headers.
PROP(C09, every_descriptor, 1024, 1024, 120) {
    uint64_t k = c.sweep(1024);
    uint8_t b2 = (uint8_t) (k >> 2);
    c.note(str("headers %llu*16384.. with third byte %02x", (unsigned long long) (k & 3), b2));
    unsigned decoded = 0;
    for (uint32_t v = (uint32_t) (k & 3) * 16384; v < (uint32_t) ((k & 3) + 1) * 16384; v++) {
        uint8_t b0 = (uint8_t) v, b1 = (uint8_t) (v >> 8);
        Bytes b{b0, b1, b2};
        bool supported = (b0 & 15) <= 2 && b0 >> 4 == 0 && b1 >> 4 == 0 && b2 == 0 && (b1 & 15) >= 2;
        try {
            QRLDescriptor d = QRLDescriptor::fromBytes(b);
            decoded++;
            bool same = (int) d.getHashFunction() == (b0 & 15) && (int) d.getSignatureType() == b0 >> 4 && d.getHeight() == 2 * (b1 & 15) && (int) d.getAddrFormatType() == b1 >> 4;
            if (!same) fail("decoded-wrongly", str("%02x%02x%02x decodes to hash %d scheme %d height %d address format %d", b0, b1, b2, (int) d.getHashFunction(), (int) d.getSignatureType(), d.getHeight(), (int) d.getAddrFormatType()));
            if (supported) { Bytes e = d.getBytes(); if (e != b) fail("encoded-differently", pbt::hexs(b) + " becomes " + pbt::hexs(e)); }
        } catch (const std::exception &e) {
            if (supported) fail("supported-refused", str("%02x%02x%02x: %s", b0, b1, b2, e.what()));
        }
    }
    c.count("descriptors", 16384);
    c.count("decoded", decoded);
    c.nontrivial(decoded > 0);
}
PROP(C09, fields_round_trip, 3000, 40000, 30) {
    int hash = (int) c.choose(3);
    unsigned h = 2 * (2 + (unsigned) c.choose(14));
    QRLDescriptor d((eHashFunction) hash, eSignatureType::XMSS, (uint8_t) h, eAddrFormatType::SHA256_2X);
    c.note(str("hash=%d height=%u", hash, h));
    Bytes b = d.getBytes();
    check(b == ref::descriptor(hash, 0, h, 0), "layout", pbt::hexs(b));
    check(b.size() == QRLDescriptor::getSize(), "size", str("%zu", b.size()));
    Bytes rest64 = c.bytes(64), rest48 = c.bytes(48);
    auto same = [&](QRLDescriptor x, const char *what) {
        check((int) x.getHashFunction() == hash && x.getHeight() == h && x.getSignatureType() == eSignatureType::XMSS && x.getAddrFormatType() == eAddrFormatType::SHA256_2X, "round-trip", what);
        check(x.getBytes() == b, "re-encoding", what);
    };
    same(QRLDescriptor::fromBytes(b), "fromBytes");
    Bytes pk(b), es(b);
    pk.insert(pk.end(), rest64.begin(), rest64.end());
    es.insert(es.end(), rest48.begin(), rest48.end());
    same(QRLDescriptor::fromExtendedPK(pk), "fromExtendedPK");
    same(QRLDescriptor::fromExtendedSeed(es), "fromExtendedSeed");
    // a different parameter set has a different encoding
    int hash2 = (int) c.choose(3);
    unsigned h2 = 2 * (2 + (unsigned) c.choose(14));
    if (hash2 != hash || h2 != h) check(QRLDescriptor((eHashFunction) hash2, eSignatureType::XMSS, (uint8_t) h2, eAddrFormatType::SHA256_2X).getBytes() != b, "encodings-collide", str("hash=%d height=%u too", hash2, h2));
    // wrong lengths
    size_t n = c.size(200);
    Bytes x = c.bytes(n);
    if (n) x[0] = (uint8_t) hash;
    if (n > 1) x[1] = (uint8_t) (h / 2);
    if (n != 3) check(!attempt([&] { QRLDescriptor::fromBytes(x); }), "wrong-length-accepted", str("fromBytes of %zu bytes", n));
    if (n != 67) check(!attempt([&] { QRLDescriptor::fromExtendedPK(x); }), "wrong-length-accepted", str("fromExtendedPK of %zu bytes", n));
    if (n != 51) check(!attempt([&] { QRLDescriptor::fromExtendedSeed(x); }), "wrong-length-accepted", str("fromExtendedSeed of %zu bytes", n));
    c.nontrivial();
}
PROP(C09, containers_decode_the_header, 6000, 80000, 30) {
    Bytes b = c.bytes(3), a64 = c.bytes(64), a48 = c.bytes(48);
    if (c.coin()) { b[0] = (uint8_t) (c.choose(4) | (c.choose(4) != 3 ? 0 : c.choose(16) << 4)); b[1] = (uint8_t) (c.choose(16) | (c.choose(4) != 3 ? 0 : c.choose(16) << 4)); }
    if (c.choose(4)) b[2] = 0;
    c.note(pbt::hexs(b));
    Bytes pk(b), es(b);
    pk.insert(pk.end(), a64.begin(), a64.end());
    es.insert(es.end(), a48.begin(), a48.end());
    bool supported = (b[0] & 15) <= 2 && b[0] >> 4 == 0 && b[1] >> 4 == 0 && b[2] == 0 && (b[1] & 15) >= 2;
    auto one = [&](const char *what, QRLDescriptor (*f)(const Bytes &), const Bytes &in) {
        try {
            QRLDescriptor d = f(in);
            check((int) d.getHashFunction() == (b[0] & 15) && (int) d.getSignatureType() == b[0] >> 4 && d.getHeight() == 2 * (b[1] & 15) && (int) d.getAddrFormatType() == b[1] >> 4, "decoded-wrongly", std::string(what) + " of " + pbt::hexs(b));
        } catch (const std::exception &) { check(!supported, "supported-refused", std::string(what) + " of " + pbt::hexs(b)); }
    };
    one("fromBytes", [](const Bytes &x) { return QRLDescriptor::fromBytes(x); }, b);
    one("fromExtendedPK", [](const Bytes &x) { return QRLDescriptor::fromExtendedPK(x); }, pk);
    one("fromExtendedSeed", [](const Bytes &x) { return QRLDescriptor::fromExtendedSeed(x); }, es);
    c.label(supported ? "supported" : "unsupported");
    c.nontrivial();
}

// ---------------------------------------------------------------- C10
namespace {
Bytes genPk(Ctx &c) {
    Bytes pk = c.bytes(67);
    pk[0] = (uint8_t) c.choose(3);
    pk[1] = (uint8_t) (2 + c.choose(14));
    pk[2] = 0;
    return pk;
}
bool judged(const Bytes &a) { return a.size() != 39 || (a[2] == 0 && (a[1] & 15) >= 2) || (a[0] & 15) > 2 || a[0] >> 4 || a[1] >> 4 || !ref::addressValid(a); }
void judge(const Bytes &a, const std::string &what) {
    bool want = ref::addressValid(a);
    if (!judged(a)) return; // a reserved byte or an unusable height in an otherwise valid address: either answer will do
    bool got = false;
    try { got = QRLHelper::addressIsValid(a); } catch (const std::exception &e) { fail("validation-throws", what + ": " + e.what()); }
    check(got == want, want ? "valid-address-rejected" : "invalid-address-accepted", what + " " + pbt::hexs(a));
}
} // namespace
PROP(C10, addresses_of_keys, 12000, 200000, 30) {
    Bytes pk = genPk(c);
    c.note(pbt::hexs(pk, 67));
    Bytes a = QRLHelper::getAddress(pk);
    check(a == ref::address(pk), "address", diff(a, ref::address(pk)));
    check(QRLHelper::addressIsValid(a), "own-address-invalid", pbt::hexs(a));
    Bytes p2 = pk;
    size_t bit = (size_t) c.choose(64 * 8);
    p2[3 + bit / 8] ^= (uint8_t) (1u << (bit % 8));
    check(QRLHelper::getAddress(p2) != a, "addresses-collide", str("bit %zu of the key", bit));
    // every kind of damage to the address
    for (int k = 0; k < 12; k++) {
        Bytes x = a;
        std::string what;
        switch (c.choose(6)) {
        case 0: case 1: { size_t i = (size_t) c.choose(39); x[i] ^= (uint8_t) (1 + c.choose(255)); what = str("byte %zu", i); break; }
        case 2: { size_t i = 35 + (size_t) c.choose(4), j = (size_t) c.choose(39); x[i] ^= (uint8_t) (1u << c.choose(8)); if (c.coin()) x[j] ^= 1; what = "checksum"; break; }
        case 3: { size_t n = (size_t) c.choose(45); x.resize(n, (uint8_t) c.choose(256)); what = str("%zu bytes", n); break; }
        case 4: { // another header with a checksum that fits
            x[0] = (uint8_t) (c.coin() ? c.choose(3) : c.choose(256)); x[1] = (uint8_t) (c.coin() ? 2 + c.choose(14) : c.choose(256));
            ref::B32 h = ref::sha256(x.data(), 35); std::copy(h.end() - 4, h.end(), x.begin() + 35); what = "header with fitting checksum"; break; }
        default: { size_t i = (size_t) c.choose(39), j = (size_t) c.choose(39); std::swap(x[i], x[j]); what = str("bytes %zu and %zu swapped", i, j); }
        }
        judge(x, what);
    }
    c.nontrivial();
}
PROP(C10, arbitrary_bytes, 20000, 400000, 30) {
    Bytes a = c.bytes(c.coin() ? 39 : c.size(300));
    if (a.size() >= 2 && c.coin()) { a[0] = (uint8_t) c.choose(3); a[1] = (uint8_t) c.choose(16); }
    if (a.size() == 39 && c.choose(3) == 2) { a[2] = 0; ref::B32 h = ref::sha256(a.data(), 35); std::copy(h.end() - 4, h.end(), a.begin() + 35); }
    c.note(pbt::hexs(a));
    judge(a, "arbitrary");
    Bytes pk = c.bytes(c.coin() ? 67 : c.size(300));
    if (pk.size() >= 2 && c.coin()) { pk[0] = (uint8_t) c.choose(3); pk[1] = (uint8_t) c.choose(16); }
    bool good = pk.size() == 67 && (pk[0] & 15) <= 2 && pk[0] >> 4 == 0 && pk[1] >> 4 == 0;
    bool sure = good && (pk[1] & 15) >= 2;
    Bytes out;
    bool ok = attempt([&] { out = QRLHelper::getAddress(pk); });
    if (!good) check(!ok, "unsupported-key-accepted", pbt::hexs(pk, 6));
    else if (sure) { check(ok, "supported-key-refused", pbt::hexs(pk, 6)); if (pk[2] == 0) check(out == ref::address(pk), "address", diff(out, ref::address(pk))); else check(QRLHelper::addressIsValid(out), "own-address-invalid", pbt::hexs(out)); }
    c.label(ref::addressValid(a) ? "valid address" : "invalid address");
    c.nontrivial(a.size() == 39);
}
PROP(C10, addresses_at_any_height, 3000, 60000, 30) {
    unsigned h = 4 + 2 * (unsigned) c.sweep(14);
    int hash = (int) c.choose(3);
    Bytes sk = c.bytes(132);
    TallWallet w(genSeed(c), h, hash, sk);
    c.note(str("any height: h=%u hash=%d key %s", h, hash, pbt::hexs(sk).c_str()));
    if (!w.ready) return;
    Bytes pk = w.getPK(), d = ref::descriptor(hash, 0, h, 0);
    check(pk.size() == 67 && std::equal(d.begin(), d.end(), pk.begin()), "descriptor-of-the-key", pbt::hexs(pk));
    check(w.getAddress() == ref::address(pk), "wallet-address", pbt::hexs(w.getAddress()));
    check(QRLHelper::addressIsValid(w.getAddress()), "own-address-invalid", pbt::hexs(w.getAddress()));
    c.nontrivial();
}
PROP(C10, wallet_addresses, 60, 900, 60) {
    Cfg g = genCfg(c, {8, 1}, false);
    Bytes seed = genSeed(c);
    c.note(show(g));
    std::unique_ptr<XmssBase> w;
    if (g.h == 4 && c.choose(3) == 2) w = mkBasic(seed, g); else w = mkFast(seed, g);
    Bytes a = w->getAddress();
    check(a == ref::address(w->getPK()) && a == QRLHelper::getAddress(w->getPK()), "wallet-address", pbt::hexs(a));
    w->sign({1});
    check(w->getAddress() == a, "address-changes", "");
    check(QRLHelper::addressIsValid(a), "own-address-invalid", "");
    c.nontrivial();
}

// ---------------------------------------------------------------- C11
namespace {
const char *SEPS[] = {" ", " ", " ", " ", "  ", "\t", "\n", "\r\n", " \t ", "\v", "\f"};
std::string genWordish(Ctx &c) { // something like a word, usually not in the list
    const auto &wl = ref::wordlist();
    std::string w = wl[(size_t) c.choose(4096)];
    switch (c.choose(9)) {
    case 0: w[0] = (char) toupper(w[0]); break;
    case 1: for (auto &ch : w) ch = (char) toupper(ch); break;
    case 2: w.pop_back(); break;
    case 3: w += (char) ('a' + c.choose(26)); break;
    case 4: w = w.substr(1); break;
    case 5: w += "\xc2\xa0"; break;
    case 6: { Bytes b = c.bytes(1 + (size_t) c.choose(10)); w.assign(b.begin(), b.end()); for (auto &ch : w) if (isspace((unsigned char) ch)) ch = 'x'; break; }
    case 7: w = "\xef\xbb\xbf" + w; break;
    default: w[(size_t) c.choose(w.size())] ^= (char) (1 + c.choose(15)); if (isspace((unsigned char) w[0])) w = "?"; break;
    }
    std::string o;
    for (char ch : w) if (!isspace((unsigned char) ch)) o += ch;
    return o.empty() ? "?" : o;
}
std::vector<std::string> splitWords(const std::string &s) {
    std::vector<std::string> r;
    std::string cur;
    for (char ch : s) {
        if (ch == ' ' || (ch >= '\t' && ch <= '\r')) { if (!cur.empty()) r.push_back(cur); cur.clear(); }
        else cur += ch;
    }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
void judgePhrase(const std::string &p) {
    Bytes want, got;
    auto words = splitWords(p);
    bool good = ref::unmnemonic(words, want);
    bool ok = attempt([&] { got = mnemonic2bin(p); });
    if (good && words.empty()) { check(!ok || got.empty(), "decodes-nothing-to-something", quote(p)); return; }
    check(ok == good, good ? "phrase-refused" : words.size() % 2 ? "odd-number-of-words-accepted" : "unknown-word-accepted", quote(p));
    if (good) check(got == want, "decoded-wrongly", quote(p) + ": " + diff(got, want));
}
} // namespace
PROP(C11, bytes_round_trip, 9000, 150000, 30) {
    size_t n = 3 * (1 + c.size(60));
    if (c.choose(60) == 59) n = 3 * (size_t) (2000 + c.choose(3000));
    Bytes b = c.bytes(n);
    c.note(pbt::hexs(b));
    std::string p = bin2mnemonic(b);
    check(p == ref::mnemonic(b), "encoded-wrongly", quote(p));
    check(mnemonic2bin(p) == b, "round-trip", quote(p));
    check(splitWords(p).size() == 2 * n / 3, "word-count", "");
    size_t m = c.size(200);
    if (m % 3) check(!attempt([&] { bin2mnemonic(c.bytes(m)); }), "other-length-accepted", str("%zu bytes", m));
    c.nontrivial();
}
// Every word in both positions of its three-byte group.
PROP(C11, every_word, 512, 4096, 30) {
    unsigned step = c.thorough ? 1 : 8, base = (unsigned) c.sweep(4096 / step) * step;
    for (unsigned i = base; i < base + step; i++) {
        unsigned o = (unsigned) c.choose(4096);
        for (int pos = 0; pos < 2; pos++) {
            unsigned v = pos ? o << 12 | i : i << 12 | o;
            Bytes b{(uint8_t) (v >> 16), (uint8_t) (v >> 8), (uint8_t) v};
            std::string p = bin2mnemonic(b), want = pos ? ref::wordlist()[o] + " " + ref::wordlist()[i] : ref::wordlist()[i] + " " + ref::wordlist()[o];
            check(p == want, "encoded-wrongly", pbt::hexs(b) + " gives " + quote(p) + ", the list has " + quote(want));
            check(mnemonic2bin(want) == b, "decoded-wrongly", quote(want));
        }
    }
    c.note(str("words %u..%u", base, base + step - 1));
    c.count("words", step);
    c.nontrivial();
}
PROP(C11, phrases, 9000, 150000, 30) {
    const auto &wl = ref::wordlist();
    size_t n = c.choose(20) == 19 ? (size_t) c.choose(300) : (size_t) c.choose(40);
    std::string p;
    size_t bad = c.choose(3) != 2 ? SIZE_MAX : (size_t) c.choose(n + 1);
    bool fancy = c.choose(3) == 2;
    if (fancy && c.coin()) p += c.pick({" ", "\n", "\t ", "   "});
    for (size_t i = 0; i < n; i++) {
        if (i) p += fancy ? SEPS[c.choose(11)] : " ";
        p += i == bad ? genWordish(c) : wl[(size_t) c.choose(4096)];
    }
    if (fancy && c.coin()) p += c.pick({" ", "\n", "\t ", "   "});
    c.note(quote(p));
    judgePhrase(p);
    c.label(n % 2 ? "odd" : "even"); if (bad < n) c.label("unknown word"); if (fancy) c.label("unusual spacing");
    c.nontrivial(n >= 2);
}
PROP(C11, arbitrary_text, 9000, 150000, 30) {
    Bytes b = c.bytes(c.size(300));
    if (c.coin()) for (auto &x : b) x = (uint8_t) (x % 8 == 0 ? ' ' : 'a' + x % 26);
    std::string p(b.begin(), b.end());
    if (c.coin()) { p += " " + ref::wordlist()[(size_t) c.choose(4096)] + " " + ref::wordlist()[(size_t) c.choose(4096)]; if (c.coin()) p = p.substr(p.find(' ')); }
    c.note(quote(p));
    judgePhrase(p);
    c.nontrivial(splitWords(p).size() >= 1);
}

PROP(C11, long_phrases, 1, 40, 60) {
    size_t n = longSize(c, c.sweep(20)) / 3 * 3;
    Bytes b = c.bytes(n);
    c.note(str("%zu bytes", n));
    std::string p = bin2mnemonic(b);
    check(p == ref::mnemonic(b), "encoded-wrongly", str("%zu bytes", n));
    check(mnemonic2bin(p) == b, "round-trip", str("%zu bytes", n));
    size_t at = c.coin() ? p.size() - 1 : (size_t) c.choose(p.size());
    p[at] = p[at] == ' ' ? '-' : '?';
    check(!attempt([&] { mnemonic2bin(p); }), "unknown-word-accepted", str("character %zu of %zu", at, p.size()));
    c.nontrivial();
}
#ifdef GIANTS
PROP(C11, giant_phrase, 0, 1, 2400, 0, false, 1) { // 2^31 nibbles and more; 16 GB
    const auto &wl = ref::wordlist();
    Bytes b = lcgBytes((((size_t) 1 << 30) / 3 + 1 + (size_t) c.choose(100)) * 3, c.choose(0));
    c.note(str("%zu bytes", b.size()));
    std::string p = bin2mnemonic(b);
    size_t at = 0;
    for (size_t i = 0; i < b.size(); i += 3) {
        const unsigned v = (unsigned) b[i] << 16 | (unsigned) b[i + 1] << 8 | b[i + 2];
        for (unsigned w : {v >> 12, v & 4095}) {
            if (at) { if (at >= p.size() || p[at] != ' ') fail("encoded-wrongly", str("character %zu", at)); at++; }
            if (p.compare(at, wl[w].size(), wl[w])) fail("encoded-wrongly", str("character %zu", at));
            at += wl[w].size();
        }
    }
    check(at == p.size(), "encoded-wrongly", str("%zu characters instead of %zu", p.size(), at));
    check(mnemonic2bin(p) == b, "round-trip", c.desc);
    c.nontrivial();
}
#endif
// ---------------------------------------------------------------- C12
PROP(C12, bytes_round_trip, 20000, 400000, 30) {
    Bytes b = c.bytes(c.choose(200) != 199 ? c.size(400) : (size_t) c.choose(70000));
    uint32_t wrap = c.coin() ? 0 : c.pick({1u, 2u, 3u, 4u, 8u, 16u, 32u, 64u, 255u, 256u, 1000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, (uint32_t) b.size(), (uint32_t) b.size() - 1, (uint32_t) b.size() + 1, 1u + (uint32_t) c.choose(40)});
    c.note(str("wrap=%u ", wrap) + pbt::hexs(b));
    std::string want;
    for (size_t i = 0; i < b.size(); i++) {
        if (wrap && i && i % wrap == 0) want += '\n';
        want += "0123456789abcdef"[b[i] >> 4];
        want += "0123456789abcdef"[b[i] & 15];
    }
    std::string got = bin2hstr(b, wrap);
    check(got == want, "encoded-wrongly", quote(got) + " instead of " + quote(want));
    if (!wrap) check(bin2hstr(b) == want, "default-wrap", quote(want));
    std::string text(b.begin(), b.end());
    check(bin2hstr(text, wrap) == want, "text-encoded-wrongly", quote(text));
    check(str2bin(text) == b, "text-to-bytes", quote(text));
    std::string flat;
    for (char ch : got) if (ch != '\n') flat += ch;
    check(hstr2bin(flat) == b, "round-trip", quote(flat));
    for (auto &ch : flat) if (c.coin()) ch = (char) toupper(ch);
    check(hstr2bin(flat) == b, "round-trip-mixed-case", quote(flat));
    c.label(wrap ? "wrapped" : "flat");
    c.nontrivial(!b.empty());
}
PROP(C12, strings, 30000, 500000, 30) {
    size_t n = c.size(120);
    std::string s;
    for (size_t i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[c.choose(22)];
    size_t damage = c.choose(4);
    if (damage == 1 && n) {
        static const char bad[] = {'g', 'G', '/', ':', '@', '`', ' ', '\n', '\t', '\0', 'x', 'X', '-', '+', '.', (char) 0x80, (char) 0xFF, (char) 0xB2, (char) 0xC1, 'z'};
        size_t k = 1 + (size_t) c.choose(2);
        for (size_t i = 0; i < k; i++) s[c.choose(3) == 2 ? s.size() - 1 - (size_t) c.choose(std::min<size_t>(s.size(), 2)) : (size_t) c.choose(s.size())] = bad[c.choose(sizeof bad)];
    } else if (damage == 2 && n) { s[(size_t) c.choose(n)] = (char) c.choose(256); }
    else if (damage == 3 && c.coin()) { s = "0x" + s; }
    c.note(quote(s));
    Bytes want, got;
    bool good = ref::unhex(s, want);
    bool ok = attempt([&] { got = hstr2bin(s); });
    check(ok == good, good ? "hex-refused" : "non-hex-accepted", quote(s));
    if (good) check(got == want, "decoded-wrongly", quote(s));
    if (good) { std::string l; for (char ch : s) l += (char) tolower(ch); check(bin2hstr(got) == l, "re-encoding", quote(s)); }
    c.label(good ? "hex" : s.size() % 2 ? "odd" : "bad digit");
    c.nontrivial(n > 0);
}
PROP(C12, long_strings, 1, 20, 60) {
    Bytes b = c.bytes(longSize(c, c.sweep(20)));
    uint32_t wrap = c.pick({0u, 65535u, 65536u, 70001u, 1u << 24, 31u});
    c.note(str("%zu bytes, wrap=%u", b.size(), wrap));
    std::string flat = ref::hex(b), want;
    for (size_t i = 0; wrap && i < b.size(); i += wrap) { if (i) want += '\n'; want.append(flat, 2 * i, 2 * (size_t) wrap); }
    check(bin2hstr(b, wrap) == (wrap ? want : flat), "encoded-wrongly", c.desc);
    std::string text(b.begin(), b.end());
    check(bin2hstr(text, wrap) == (wrap ? want : flat), "text-encoded-wrongly", c.desc);
    check(str2bin(text) == b, "text-to-bytes", c.desc);
    for (size_t i = 0; i < 50; i++) { char &ch = flat[(size_t) c.choose(flat.size())]; ch = (char) toupper(ch); }
    check(hstr2bin(flat) == b, "round-trip", c.desc);
    const size_t at = c.choose(3) != 2 ? flat.size() - 1 - (size_t) c.choose(2) : (size_t) c.choose(flat.size());
    const char was = flat[at];
    flat[at] = c.pick({'g', ' ', '\n', '@', (char) 0x80});
    check(!attempt([&] { hstr2bin(flat); }), "non-hex-accepted", str("character %zu of %zu", at, flat.size()));
    flat[at] = was;
    flat.pop_back();
    check(!attempt([&] { hstr2bin(flat); }), "non-hex-accepted", str("%zu characters", flat.size()));
    c.nontrivial();
}
#ifdef GIANTS
PROP(C12, giant_strings, 0, 2, 1200, 0, false, 1) { // 2^31 characters and more; 6 GB
    Bytes b = lcgBytes(((size_t) 1 << 30) + (size_t) c.choose(400), c.choose(0));
    c.note(str("%zu bytes", b.size()));
    std::string h = bin2hstr(b);
    check(h.size() == 2 * b.size(), "encoded-wrongly", str("%zu characters", h.size()));
    for (size_t i = 0; i < b.size(); i++) if (h[2 * i] != "0123456789abcdef"[b[i] >> 4] || h[2 * i + 1] != "0123456789abcdef"[b[i] & 15]) fail("encoded-wrongly", str("byte %zu", i));
    check(hstr2bin(h) == b, "round-trip", c.desc);
    h.back() = 'g';
    check(!attempt([&] { hstr2bin(h); }), "non-hex-accepted", "last character");
    h.pop_back();
    check(!attempt([&] { hstr2bin(h); }), "non-hex-accepted", str("%zu characters", h.size()));
    c.nontrivial();
}
#endif
// every pair of characters
PROP(C12, every_pair, 256, 256, 30) {
    char a = (char) c.sweep(256);
    for (int k = 0; k < 256; k++) {
        std::string s{a, (char) k};
        Bytes want, got;
        bool good = ref::unhex(s, want), ok = attempt([&] { got = hstr2bin(s); });
        check(ok == good && (!good || got == want), good ? "hex-refused" : "non-hex-accepted", quote(s));
        std::string t = "00" + s + "ff";
        good = ref::unhex(t, want);
        ok = attempt([&] { got = hstr2bin(t); });
        check(ok == good && (!good || got == want), good ? "hex-refused" : "non-hex-accepted", quote(t));
    }
    c.note(str("first character %02x", (uint8_t) a));
    c.count("pairs", 256);
    c.nontrivial();
}

// ---------------------------------------------------------------- C13
PROP(C13, digests, 14000, 250000, 30) {
    int bits = c.coin() ? 128 : 256;
    size_t rate = bits == 128 ? 168 : 136;
    size_t n, out;
    switch (c.choose(5)) {
    case 0: n = (size_t) std::max<int64_t>(0, (int64_t) rate * (int64_t) c.choose(6) + c.range(-10, 10)); break;
    case 1: n = 64 * (size_t) c.choose(8) + 48 + (size_t) c.choose(20); break;
    case 2: n = c.size(5000); break;
    default: n = c.size(700);
    }
    switch (c.choose(4)) {
    case 0: out = 32; break;
    case 1: out = (size_t) std::max<int64_t>(0, (int64_t) rate * (int64_t) c.choose(5) + c.range(-9, 9)); break;
    default: out = c.size(900);
    }
    Bytes in = c.bytes(n);
    c.note(str("shake%d out=%zu in=", bits, out) + pbt::hexs(in, 24));
    Bytes want = ref::shake(bits, in, out);
    Bytes got = bits == 128 ? shake128(out, in) : shake256(out, in);
    check(got == want, "shake-wrapper", str("shake%d of %zu bytes, %zu bytes out: %s", bits, n, out, diff(got, want).c_str()));
#ifndef NO_INTERNALS
    // the raw function, between canaries and possibly unaligned
    size_t off = 16 + (size_t) c.choose(8), ioff = (size_t) c.choose(8);
    uint8_t can = (uint8_t) c.choose(256);
    Bytes buf(off + out + 32, can), ib(ioff + n + 8, 0x77);
    std::copy(in.begin(), in.end(), ib.begin() + (long) ioff);
    Bytes ib0 = ib;
    if (bits == 128) shake128(buf.data() + off, out, ib.data() + ioff, n); else shake256(buf.data() + off, out, ib.data() + ioff, n);
    check(Bytes(buf.begin() + (long) off, buf.begin() + (long) (off + out)) == want, "shake", str("shake%d of %zu bytes, %zu bytes out", bits, n, out));
    for (size_t i = 0; i < buf.size(); i++) if (i < off || i >= off + out) check(buf[i] == can, "writes-outside", str("byte %lld of a %zu byte output", (long long) i - (long long) off, out));
    check(ib == ib0, "input-modified", str("shake%d of %zu bytes", bits, n));
#endif
    size_t shorter = out ? (size_t) c.choose(out) : 0;
    Bytes sh = bits == 128 ? shake128(shorter, in) : shake256(shorter, in);
    check(std::equal(sh.begin(), sh.end(), want.begin()) && sh.size() == shorter, "no-prefix", str("%zu of %zu bytes", shorter, out));
    // SHA-256
    ref::B32 h = ref::sha256(in);
    Bytes hv(h.begin(), h.end());
    check(sha2_256(in) == hv, "sha256-wrapper", str("%zu bytes", n));
#ifndef NO_INTERNALS
    Bytes hb(64, can);
    sha2_256(hb.data() + 16, ib.data() + ioff, n);
    check(Bytes(hb.begin() + 16, hb.begin() + 48) == hv, "sha256", str("%zu bytes", n));
    for (size_t i = 0; i < 64; i++) if (i < 16 || i >= 48) check(hb[i] == can, "writes-outside", "sha2_256");
    check(ib == ib0, "input-modified", "sha2_256");
#endif
    c.nontrivial();
}
PROP(C13, every_length, 1300, 5200, 30) {
    size_t n = (size_t) c.sweep(1300);
    Bytes in = c.bytes(n);
    c.note(str("%zu bytes", n));
    for (size_t out : {(size_t) 0, (size_t) 1, (size_t) 8, (size_t) 31, (size_t) 32, (size_t) 33, (size_t) 64, (size_t) 96, (size_t) 135, (size_t) 136, (size_t) 137, (size_t) 167, (size_t) 168, (size_t) 169, (size_t) 200, (size_t) 272, (size_t) 336, n}) {
        check(shake128(out, in) == ref::shake(128, in, out), "shake128", str("%zu bytes in, %zu bytes out", n, out));
        check(shake256(out, in) == ref::shake(256, in, out), "shake256", str("%zu bytes in, %zu bytes out", n, out));
    }
    ref::B32 h = ref::sha256(in);
    check(sha2_256(in) == Bytes(h.begin(), h.end()), "sha256", str("%zu bytes", n));
    c.nontrivial();
}
PROP(C13, iterated_sha256, 3000, 40000, 30) {
    Bytes in = c.bytes(c.size(300));
    size_t k = c.choose(10) != 9 ? c.size(20) : (size_t) c.choose(3000);
    c.note(str("%zu times %zu bytes", k, in.size()));
    if (k == 0) {
        check(!attempt([&] { sha2_256_n(in, 0); }), "zero-count-accepted", "");
    } else {
        Bytes x = in;
        for (size_t i = 0; i < k; i++) { ref::B32 h = ref::sha256(x); x.assign(h.begin(), h.end()); }
        Bytes copy = in;
        check(sha2_256_n(in, k) == x, "iterated-sha256", str("%zu times", k));
        check(in == copy, "input-modified", "");
    }
    c.nontrivial(k > 1);
}
PROP(C13, many_iterations, 10, 60, 120) { // counts that need more than two bytes
    Bytes in = c.bytes(c.size(100));
    size_t k = c.pick({(size_t) 65535, (size_t) 65536, (size_t) 65537, (size_t) 65538, (size_t) 131072, (size_t) 200000}) + (size_t) c.choose(3);
    if (c.thorough && c.choose(10) == 9) k = ((size_t) 1 << 24) + (size_t) c.choose(3);
    c.note(str("%zu times %zu bytes", k, in.size()));
    ref::B32 h = ref::sha256(in);
    for (size_t i = 1; i < k; i++) h = ref::sha256(h.data(), 32);
    check(sha2_256_n(in, k) == Bytes(h.begin(), h.end()), "iterated-sha256", str("%zu times", k));
    c.nontrivial();
}
PROP(C13, long_inputs, 24, 200, 60) {
    size_t n = c.pick({(size_t) 65535, (size_t) 65536, (size_t) 65537, (size_t) 1 << 20, ((size_t) 1 << 20) + 1}) + (size_t) c.choose(200);
    Bytes in = c.bytes(n);
    size_t out = c.pick({(size_t) 32, (size_t) 4096, (size_t) 70000});
    c.note(str("%zu bytes in, %zu out", n, out));
    check(shake128(out, in) == ref::shake(128, in, out), "shake128", "long input");
    check(shake256(out, in) == ref::shake(256, in, out), "shake256", "long input");
    ref::B32 h = ref::sha256(in);
    check(sha2_256(in) == Bytes(h.begin(), h.end()), "sha256", "long input");
    c.nontrivial();
}

PROP(C13, longer_still, 1, 8, 60) {
    const uint64_t k = c.sweep(20);
    size_t n = longSize(c, k), o = longSize(c, 1 + (k / 4) * 2 + k / 5);
    if (c.choose(3) == 2) std::swap(n, o);
    if (c.choose(3) == 2) (c.coin() ? n : o) = c.size(300);
    Bytes in = c.bytes(n);
    c.note(str("%zu bytes in, %zu out", n, o));
    check(shake128(o, in) == ref::shake(128, in, o), "shake128", c.desc);
    check(shake256(o, in) == ref::shake(256, in, o), "shake256", c.desc);
    ref::B32 h = ref::sha256(in), h2 = ref::sha256(h.data(), 32);
    check(sha2_256(in) == Bytes(h.begin(), h.end()), "sha256", c.desc);
    check(sha2_256_n(in, 2) == Bytes(h2.begin(), h2.end()), "iterated-sha256", c.desc);
    c.nontrivial();
}
#ifdef GIANTS
PROP(C13, giant_digests, 0, 1, 2400, 0, false, 1) { // 9 GB
    {
        Bytes in = lcgBytes(giantSize(c), c.choose(0));
        c.note(str("%zu bytes in", in.size()));
        check(shake128(40, in) == ref::shake(128, in, 40), "shake128", c.desc);
        check(shake256(40, in) == ref::shake(256, in, 40), "shake256", c.desc);
        ref::B32 h = ref::sha256(in);
        check(sha2_256(in) == Bytes(h.begin(), h.end()), "sha256", c.desc);
    }
    Bytes in = c.bytes(40);
    const size_t o = giantSize(c);
    c.note(str("%zu bytes out", o));
    check(shake128(o, in) == ref::shake(128, in, o), "shake128", c.desc);
    check(shake256(o, in) == ref::shake(256, in, o), "shake256", c.desc);
    c.nontrivial();
}
#endif
// ---------------------------------------------------------------- C14
PROP(C14, long_seeds, 1, 20, 60) {
    Bytes seed = c.bytes(longSize(c, c.sweep(20)));
    uint32_t shift = (uint32_t) c.choose(1ull << 32), count = 1 + (uint32_t) c.choose(3);
    c.note(str("seed of %zu bytes, shift %u, count %u", seed.size(), shift, count));
    auto r = getHashChainSeed(seed, shift, count);
    check(r.size() == count, "number-of-seeds", str("%zu of %u", r.size(), count));
    for (int j = 0; j < 4; j++) seed.push_back((uint8_t) (shift >> (8 * j)));
    seed.resize(seed.size() + 4);
    for (uint32_t i = 0; i < count; i++) {
        seed[seed.size() - 4] = (uint8_t) i;
        check(r[i] == ref::shake(256, seed, 32), "entry", str("entry %u of %u, seed of %zu bytes", i, count, seed.size() - 8));
    }
    c.nontrivial();
}
PROP(C14, many_entries, 0, 1, 1200, 0, false, 1) { // indices of more than 24 bits; 2 GB
    Bytes seed = c.bytes(48);
    uint32_t shift = (uint32_t) c.choose(1ull << 32), count = (1u << 24) + 5;
    c.note(str("%u entries", count));
    auto r = getHashChainSeed(seed, shift, count);
    check(r.size() == count, "number-of-seeds", str("%zu of %u", r.size(), count));
    for (int j = 0; j < 4; j++) seed.push_back((uint8_t) (shift >> (8 * j)));
    seed.resize(56);
    for (unsigned k = 0; k < 200000; k++) {
        uint32_t i = k < 20 ? count - 1 - k : (uint32_t) ((k * (uint64_t) 2654435761u) % count);
        for (int j = 0; j < 4; j++) seed[52 + (size_t) j] = (uint8_t) (i >> (8 * j));
        check(r[i] == ref::shake(256, seed, 32), "entry", str("entry %u of %u", i, count));
    }
    c.nontrivial();
}
PROP(C14, entries, 4000, 80000, 60) {
    Bytes seed = c.bytes(c.size(300));
    uint32_t shift = c.coin() ? (uint32_t) c.choose(1ull << 32) : c.pick({0u, 1u, 255u, 256u, 257u, 65535u, 65536u, 0x01000000u, 0x80000000u, 0xFFFFFFFFu, 0x01020304u});
    uint32_t count = c.choose(8) != 7 ? (uint32_t) c.size(40) : 250 + (uint32_t) c.choose(300);
    if (c.choose(200) == 199 && !c.fz) count = 65530 + (uint32_t) c.choose(20);
    c.note(str("seed of %zu bytes, shift %u, count %u", seed.size(), shift, count));
    Bytes copy = seed;
    auto r = getHashChainSeed(seed, shift, count);
    check(r.size() == count, "number-of-seeds", str("%zu of %u", r.size(), count));
    check(copy == seed, "input-modified", "");
    Bytes in(seed);
    in.resize(seed.size() + 8);
    for (int j = 0; j < 4; j++) in[seed.size() + (size_t) j] = (uint8_t) (shift >> (8 * j));
    for (uint32_t i = 0; i < count; i++) {
        check(r[i].size() == 32, "seed-size", str("entry %u has %zu bytes", i, r[i].size()));
        for (int j = 0; j < 4; j++) in[seed.size() + 4 + (size_t) j] = (uint8_t) (i >> (8 * j));
        Bytes want = ref::shake(256, in, 32);
        check(r[i] == want, "entry", str("entry %u of %u, shift %u, seed of %zu bytes", i, count, shift, seed.size()));
    }
    if (count > 1) {
        uint32_t less = (uint32_t) c.choose(count);
        auto s = getHashChainSeed(seed, shift, less);
        check(s.size() == less && std::equal(s.begin(), s.end(), r.begin()), "shorter-list-is-no-prefix", str("%u and %u", less, count));
        std::set<Bytes> all(r.begin(), r.end());
        check(all.size() == count, "entries-collide", "");
        auto t = getHashChainSeed(seed, shift ^ (1u << c.choose(32)), 1);
        check(t[0] != r[0], "shifts-collide", str("shift %u", shift));
    }
    c.count("entries", count);
    c.nontrivial(count > 0);
}
