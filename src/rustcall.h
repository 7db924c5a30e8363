// Calls into the Rust library (rust/src/lib.rs).
#pragma once
#include "genq.h"

extern "C" {
int qr_call(uint32_t op, const uint8_t *in, size_t inlen, uint8_t **out, size_t *outlen);
void qr_free(uint8_t *, size_t);
extern uint64_t theCounter;      // of the generator of the stand-in crates
extern bool serving;             // the system's randomness is served from `served`
extern bool sourceBroken;        // ... or fails
extern ref::Bytes served;
extern size_t servedTo;
}

namespace {
struct Req {
    Bytes b;
    Req &n(uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((uint8_t) (v >> 8 * i)); return *this; }
    Req &s(const Bytes &x) { n(x.size()); b.insert(b.end(), x.begin(), x.end()); return *this; }
    Req &t(const std::string &x) { n(x.size()); b.insert(b.end(), x.begin(), x.end()); return *this; }
};
const uint64_t NOW = UINT64_MAX; // no Winternitz parameter given
struct Rep {
    int code = 0;
    Bytes b;
    size_t pos = 0;
    bool ok() const { return code == 0; }
    std::string err() const { return std::string(b.begin(), b.end()); }
    uint64_t n() { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t) b.at(pos++) << 8 * i; return v; }
    Bytes s() { size_t k = n(); Bytes r(b.begin() + (long) pos, b.begin() + (long) (pos + k)); pos += k; return r; }
    std::string t() { Bytes x = s(); return std::string(x.begin(), x.end()); }
};
Rep rustRaw(uint32_t op, const Req &r) { // code 2: a panic
    Rep o;
    uint8_t *p = nullptr;
    size_t n = 0;
    o.code = qr_call(op, r.b.data(), r.b.size(), &p, &n);
    o.b.assign(p, p + n);
    qr_free(p, n);
    return o;
}
Rep rust(uint32_t op, const Req &r) {
    Rep o = rustRaw(op, r);
    if (o.code == 2) {
        std::string why = o.err();
        if (why.compare(0, 8, "harness:") == 0) { fprintf(stderr, "%s\n", why.c_str()); abort(); }
        fail("panic", str("operation %u: %s", op, why.c_str()));
    }
    if (o.code == 1 && o.err() == "MESSAGE CHANGED") fail("arguments-modified", "verify changed the message");
    return o;
}
Rep need(const char *what, Rep r) {
    if (!r.ok()) fail("refused-by-rust", std::string(what) + ": " + r.err());
    return r;
}
// Runs the C++ side: true when it returned.
template<class F> bool cpp(F f) {
    try { f(); return true; }
    catch (const std::exception &) { return false; }
}
std::string quote(const std::string &s, size_t max = 160) {
    std::string o;
    for (unsigned char ch : s.substr(0, max)) if (ch < 32 || ch > 126) o += str("\\x%02x", ch); else o += (char) ch;
    return "\"" + o + "\"";
}
void bothBytes(const char *what, Rep r, bool ok, const Bytes &want, const std::string &in) {
    check(r.ok() == ok, r.ok() ? "refused-by-C++-only" : "refused-by-Rust-only", str("%s of %s", what, in.c_str()) + (r.ok() ? "" : ": " + r.err()));
    if (!ok) return;
    Bytes got = r.s();
    check(got == want, "different", str("%s of %s: %s", what, in.c_str(), diff(got, want).c_str()));
}
void utf8(std::string &s, uint32_t cp) {
    if (cp < 0x80) s += (char) cp;
    else if (cp < 0x800) { s += (char) (0xC0 | cp >> 6); s += (char) (0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char) (0xE0 | cp >> 12); s += (char) (0x80 | (cp >> 6 & 63)); s += (char) (0x80 | (cp & 63)); }
    else { s += (char) (0xF0 | cp >> 18); s += (char) (0x80 | (cp >> 12 & 63)); s += (char) (0x80 | (cp >> 6 & 63)); s += (char) (0x80 | (cp & 63)); }
}
const std::vector<uint32_t> ODD = {0x85, 0xA0, 0x130, 0x131, 0x1680, 0x2000, 0x200B, 0x2028, 0x202F, 0x205F, 0x3000, 0xFEFF, 0x660, 0xFF11, 0xFF21, 0x212A, 0x1D7CE, 0x1F600, 0x7F, 0x1C, 0x1F, 0xE9, 0};
std::string text(Ctx &c, size_t max) { // always valid UTF-8
    std::string s;
    size_t n = c.size(max);
    for (size_t i = 0; i < n; i++) {
        switch (c.choose(4)) {
        case 0: s += (char) c.choose(128); break;
        case 1: s += "0123456789abcdefABCDEF gG"[c.choose(25)]; break;
        case 2: utf8(s, c.pick(ODD)); break;
        default: { uint32_t cp = (uint32_t) c.choose(0x110000); if (cp >= 0xD800 && cp < 0xE000) cp = 'x'; utf8(s, cp); }
        }
    }
    return s;
}
std::string damage(Ctx &c, const std::string &text) { // by whole characters: stays UTF-8
    std::vector<std::string> s;
    for (char ch : text)
        if (s.empty() || ((uint8_t) ch & 0xc0) != 0x80) s.emplace_back(1, ch);
        else s.back() += ch;
    auto odd = [&] { std::string x; utf8(x, c.pick(ODD)); return x; };
    switch (c.choose(8)) {
    case 0: if (!s.empty()) s.pop_back(); break;
    case 1: s.push_back(c.coin() ? "0" : "00"); break;
    case 2: if (!s.empty()) s[(size_t) c.choose(s.size())] = std::string(1, "gGxX -_.\n\t/:@`"[c.choose(14)]); break;
    case 3: if (!s.empty()) s[(size_t) c.choose(s.size())] = std::string(1, "0123456789abcdefABCDEF"[c.choose(22)]); break;
    case 4: for (auto &x : s) if (x.size() == 1) x[0] = (char) toupper((unsigned char) x[0]); break;
    case 5: { size_t at = (size_t) c.choose(s.size() + 1); s.insert(s.begin() + (long) at, odd()); break; }
    case 6: { size_t at = s.empty() ? 0 : (size_t) c.choose(s.size()); std::string x = odd(); // keeps the number of bytes if it can
              s.erase(s.begin() + (long) at, s.begin() + (long) std::min(s.size(), at + x.size())); s.insert(s.begin() + (long) at, x); break; }
    default: if (!s.empty()) { size_t at = (size_t) c.choose(s.size()); s.erase(s.begin() + (long) at, s.begin() + (long) std::min(s.size(), at + 1 + (size_t) c.choose(3))); }
    }
    std::string r;
    for (auto &x : s) r += x;
    return r;
}
struct Obj { // a Rust object, released at the end
    uint64_t h;
    explicit Obj(uint64_t h) : h(h) {}
    Obj(const Obj &) = delete;
    ~Obj() { uint8_t *p; size_t n; Req r; r.n(h); qr_call(38, r.b.data(), r.b.size(), &p, &n); qr_free(p, n); }
};
// Everything a wallet tells about itself.
void sameWallet(uint64_t h, XmssBase &w, const char *when) {
    Rep r = need("reading a wallet", rust(36, Req().n(h)));
    auto eqn = [&](const char *what, uint64_t want) { uint64_t got = r.n(); check(got == want, "wallets-differ", str("%s %s: %llu in Rust, %llu in C++", what, when, (unsigned long long) got, (unsigned long long) want)); };
    auto eqb = [&](const char *what, const Bytes &want) { Bytes got = r.s(); check(got == want, "wallets-differ", str("%s %s: %s", what, when, diff(got, want).c_str())); };
    eqn("index", w.getIndex());
    eqn("height", w.getHeight());
    eqn("number of signatures", w.getNumberSignatures());
    uint64_t rem = r.n();
    if (w.getIndex() <= w.getNumberSignatures()) check(rem == w.getRemainingSignatures(), "wallets-differ", str("remaining %s", when));
    eqb("public key", w.getPK());
    eqb("secret key", w.getSK());
    eqb("address", w.getAddress());
    eqb("extended seed", w.getExtendedSeed());
    eqb("seed", w.getSeed());
    eqb("root", w.getRoot());
    eqb("public seed", w.getPKSeed());
    eqb("secret seed", w.getSKSeed());
    eqb("secret PRF seed", w.getSKPRF());
    eqb("descriptor", w.getDescriptorBytes());
}
} // namespace

