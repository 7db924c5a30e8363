// Generators of genuine, changed and arbitrary verification queries (C02, C03, C21).
#pragma once
#include "h.h"
using namespace hh;
using pbt::check;
using pbt::fail;
using pbt::str;

namespace {
const unsigned WS[] = {16, 4, 256, 2};
struct Genuine { Cfg g; uint32_t idx; Bytes seed, msg, sig, pk; ref::Virtual v; };
// A genuine signature at any height and index, made by the model around one real leaf.
Genuine genGenuine(Ctx &c, bool tall = true) {
    Cfg g;
    g.hash = (int) c.choose(3);
    g.w = WS[c.weighted({8, 3, 1, 2})];
    g.h = tall ? 4 + 2 * (unsigned) c.choose(14) : 4;
    uint32_t n = 1u << g.h;
    uint32_t idx = c.choose(3) == 2 ? c.pick({0u, 1u, n - 1, n - 2, n / 2, n / 2 - 1}) : (uint32_t) c.choose(n);
    Bytes seed = genSeed(c), ps = c.bytes(8);
    ref::Virtual v(seed, rp(g), idx, ps);
    Bytes m = genAnyMsg(c, 700);
    Genuine r{g, idx, seed, m, v.sign(m), v.pk(), v};
    return r;
}
struct Mut { std::string what; Bytes m, s, pk; unsigned w; };
// One change of a genuine triple. Returns false when nothing changed.
bool mutate(Ctx &c, const Genuine &a, Mut &o) {
    o.m = a.msg; o.s = a.sig; o.pk = a.pk; o.w = a.g.w;
    const size_t nb = (a.sig.size() - 4) / 32, len = ref::wotsParams(a.g.w).len;
    switch (c.weighted({6, 3, 4, 2, 3, 2, 5, 1, 3})) {
    case 0: { // one bit of one part of the signature
        size_t part = c.choose(4), bit;
        if (part == 0) bit = (size_t) c.choose(32);
        else if (part == 1) bit = 32 + (size_t) c.choose(256);
        else if (part == 2) bit = (36 + 32 * (size_t) c.choose(len)) * 8 + (size_t) c.choose(256);
        else bit = (36 + 32 * (len + (size_t) c.choose(a.g.h))) * 8 + (size_t) c.choose(256);
        static const char *names[] = {"index", "randomiser", "chain", "path"};
        o.s[bit / 8] ^= (uint8_t) (1u << (bit % 8));
        o.what = str("%s bit %zu", names[part], bit);
        c.label(str("bit of the %s", names[part]));
        break; }
    case 1: { // the message
        size_t k = c.choose(5);
        if (k == 0 && !o.m.empty()) { size_t bit = c.choose(3) != 2 ? (size_t) c.choose(o.m.size() * 8) : o.m.size() * 8 - 1 - (size_t) c.choose(std::min<size_t>(o.m.size(), 9) * 8); o.m[bit / 8] ^= (uint8_t) (1u << (bit % 8)); o.what = str("message bit %zu", bit); }
        else if (k == 1 && !o.m.empty()) { o.m.pop_back(); o.what = "message truncated"; }
        else if (k == 2) { o.m.insert(o.m.begin(), (uint8_t) c.choose(256)); o.what = "byte prepended to the message"; }
        else if (k == 3 && !o.m.empty()) { o.m.clear(); o.what = "message emptied"; }
        else { o.m.push_back(0); o.what = "zero appended to the message"; }
        c.label("message");
        break; }
    case 2: { // the public key; byte 2 carries no information and is left alone
        size_t k = c.choose(6);
        if (k == 0) { size_t bit = (size_t) c.choose(256); o.pk[3 + bit / 8] ^= (uint8_t) (1u << (bit % 8)); o.what = str("root bit %zu", bit); }
        else if (k == 1) { size_t bit = (size_t) c.choose(256); o.pk[35 + bit / 8] ^= (uint8_t) (1u << (bit % 8)); o.what = str("public seed bit %zu", bit); }
        else if (k == 2) { uint8_t h = (uint8_t) c.choose(16); if (h == (o.pk[0] & 15)) return false; o.pk[0] = (uint8_t) ((o.pk[0] & 0xF0) | h); o.what = str("hash function %u", h); }
        else if (k == 3) { uint8_t h = (uint8_t) c.choose(16); if (h == (o.pk[1] & 15)) return false; o.pk[1] = (uint8_t) ((o.pk[1] & 0xF0) | h); o.what = str("height nibble %u", h); }
        else if (k == 4) { o.pk[0] = (uint8_t) ((o.pk[0] & 15) | (1 + c.choose(15)) << 4); o.what = str("signature scheme %u", o.pk[0] >> 4); }
        else { o.pk[1] = (uint8_t) ((o.pk[1] & 15) | (1 + c.choose(15)) << 4); o.what = str("address format %u", o.pk[1] >> 4); }
        c.label("public key");
        break; }
    case 3: { // length
        size_t k = c.choose(4), n = c.pick({(size_t) 1, (size_t) 4, (size_t) 31, (size_t) 32, (size_t) 64, (size_t) 33});
        if (k == 0) { o.s.resize(o.s.size() - n); o.what = str("signature %zu shorter", n); }
        else if (k == 1) { Bytes x = c.bytes(n); o.s.insert(o.s.end(), x.begin(), x.end()); o.what = str("signature %zu longer", n); }
        else if (k == 2) { o.pk.resize(67 - std::min<size_t>(n, 67)); o.what = "public key shorter"; }
        else { o.pk.resize(67 + n); o.what = "public key longer"; }
        c.label("length");
        break; }
    case 4: { // 32-byte blocks swapped, copied or cleared
        size_t i = (size_t) c.choose(nb), j = (size_t) c.choose(nb), k = c.choose(3);
        uint8_t *p = &o.s[4 + 32 * i], *q = &o.s[4 + 32 * j];
        if (k == 0) std::swap_ranges(p, p + 32, q);
        else if (k == 1) memmove(p, q, 32);
        else memset(p, 0, 32);
        o.what = str("blocks %zu %zu %s", i, j, k == 0 ? "swapped" : k == 1 ? "copied" : "cleared");
        c.label("blocks");
        break; }
    case 5: { // another Winternitz parameter
        o.w = c.coin() ? badW(c) : c.pick({2u, 4u, 16u, 256u});
        if (o.w == a.g.w) return false;
        o.what = str("w=%u", o.w);
        c.label("Winternitz parameter");
        break; }
    case 6: { // parts of another genuine signature
        size_t k = c.choose(3);
        Bytes m2 = a.msg, s2;
        if (k == 0) { m2.push_back(1); s2 = a.v.sign(m2); }
        else if (k == 1) { uint32_t i2 = (a.idx + 1 + (uint32_t) c.choose((1ull << a.g.h) - 1)) & (uint32_t) ((1ull << a.g.h) - 1); ref::Virtual v(a.seed, rp(a.g), i2, c.bytes(8)); s2 = v.sign(m2); }
        else { Bytes sd = a.seed; sd[(size_t) c.choose(48)] ^= 1; ref::Virtual v(sd, rp(a.g), a.idx, c.bytes(8)); s2 = v.sign(m2); if (c.choose(3) == 2) o.pk = v.pk(); }
        unsigned parts = 1 + (unsigned) c.choose(15);
        size_t at[] = {0, 4, 36, 36 + 32 * len, a.sig.size()};
        for (int i = 0; i < 4; i++) if (parts >> i & 1) std::copy(s2.begin() + (long) at[i], s2.begin() + (long) at[i + 1], o.s.begin() + (long) at[i]);
        if (c.choose(4) == 3) o.m = m2;
        if (o.m == m2 && o.s == s2 && (o.pk != a.pk || k != 2)) return false; // the other genuine triple (or could be)
        o.what = str("parts %x of another signature (%s)", parts, k == 0 ? "other message" : k == 1 ? "other index" : "other wallet");
        c.label("splice");
        break; }
    case 7: std::swap_ranges(o.pk.begin() + 3, o.pk.begin() + 35, o.pk.begin() + 35); o.what = "root and public seed swapped"; c.label("public key"); break;
    default: { // a signature whose chains and path lead to the real root, made for a key whose root differs a little
        ref::Virtual v(a.v);
        size_t bit = (size_t) c.choose(256);
        v.rootv[bit / 8] ^= (uint8_t) (1u << (bit % 8));
        if (c.choose(4) == 3) { size_t b2 = (size_t) c.choose(256); v.rootv[b2 / 8] ^= (uint8_t) (1u << (b2 % 8)); }
        o.pk = v.pk();
        o.s = v.sign(o.m);
        o.what = str("signature for a key whose root differs in bit %zu", bit);
        c.label("near root");
        }
    }
    return !(o.m == a.msg && o.s == a.sig && o.pk == a.pk && o.w == a.g.w);
}
std::string showG(const Genuine &a) { return show(a.g) + str(" index=%u message=%zu bytes", a.idx, a.msg.size()); }
} // namespace
namespace {
struct Q { Bytes m, s, pk; unsigned w; std::string what; };
unsigned genW(Ctx &c) {
    switch (c.weighted({8, 2, 2, 1})) {
    case 0: return 16;
    case 1: return WS[c.choose(4)];
    case 2: return badW(c);
    default: return (uint32_t) c.choose(1ull << 32);
    }
}
Q genQuery(Ctx &c) {
    Q q;
    size_t kind = c.weighted({4, 4, 3, 3});
    if (kind <= 1) {
        Genuine a = genGenuine(c);
        Mut o;
        if (kind == 0 || !mutate(c, a, o)) { q.m = a.msg; q.s = a.sig; q.pk = a.pk; q.w = a.g.w; q.what = "genuine " + showG(a); }
        else { q.m = o.m; q.s = o.s; q.pk = o.pk; q.w = o.w; q.what = o.what + " of " + showG(a); }
        if (kind == 0 && c.choose(4) == 3) { q.pk[2] = (uint8_t) c.choose(256); q.what += " with reserved byte set"; }
        return q;
    }
    q.w = genW(c);
    q.m = genAnyMsg(c, 500);
    unsigned w = ref::supportedW(q.w) ? q.w : 16;
    unsigned h = (unsigned) c.choose(32);
    if (kind == 2) { // right shape, arbitrary content
        q.pk = c.bytes(67);
        q.pk[0] = c.choose(4) != 3 ? (uint8_t) c.choose(3) : (uint8_t) c.choose(256);
        q.pk[1] = (uint8_t) (c.choose(4) != 3 ? h / 2 : c.choose(256));
        q.s = c.bytes(ref::sigSize(c.choose(4) != 3 ? 2 * (q.pk[1] & 15u) : h, w) + (c.choose(6) != 5 ? 0 : (size_t) c.choose(65)));
        q.what = str("arbitrary content w=%u pk[0]=%02x pk[1]=%02x sig=%zu", q.w, q.pk[0], q.pk[1], q.s.size());
    } else { // arbitrary shape
        q.pk = c.bytes(c.choose(3) != 2 ? (size_t) c.choose(140) : 67);
        size_t n;
        switch (c.choose(5)) {
        case 0: n = (size_t) c.choose(100); break;
        case 1: n = c.size(12000); break;
        case 2: n = ref::sigSize(h, w); break;
        case 3: n = ref::sigSize(h, w) + 256 * 32; break;
        default: n = (size_t) std::max<int64_t>(0, (int64_t) ref::sigSize(h, w) + c.range(-40, 40));
        }
        q.s = c.bytes(n);
        if (q.pk.size() == 67 && c.coin()) { q.pk[0] = (uint8_t) c.choose(3); q.pk[1] = (uint8_t) (h / 2); }
        q.what = str("arbitrary bytes w=%u pk=%zu sig=%zu", q.w, q.pk.size(), q.s.size());
    }
    return q;
}
} // namespace
