// Shared generators and adapters for the properties over the C++ library.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <memory>
#include <stdexcept>
#include <xmssBase.h>
#include <xmssBasic.h>
#include <xmssFast.h>

namespace hh {
using pbt::Bytes;
using pbt::Ctx;
struct Cfg { int hash; unsigned h, w; };
inline std::string show(const Cfg &g) { return pbt::str("hash=%d h=%u w=%u", g.hash, g.h, g.w); }
inline ref::Params rp(const Cfg &g) { return ref::Params{g.hash, g.h, g.w}; }
extern bool toyFlavour; // set in the toy build

inline Cfg genCfg(Ctx &c, std::initializer_list<unsigned> hweights = {12, 2}, bool allW = true) {
    Cfg g;
    g.hash = (int) c.choose(3);
    g.h = 4 + 2 * (unsigned) c.weighted(hweights);
    static const unsigned ws[] = {16, 4, 256, 2};
    g.w = allW ? ws[c.weighted({6, 3, 1, 1})] : 16;
    if (g.w == 256 && g.h > 4 && !toyFlavour) g.w = 16;
    return g;
}
inline Bytes genSeed(Ctx &c) { return c.bytes(48); }
// Message lengths favour the block boundaries of the hash functions around the 128-byte prefix.
inline Bytes genMsg(Ctx &c, size_t max = 3000) {
    size_t n;
    switch (c.choose(4)) {
    case 0: n = (size_t) c.choose(40); break;
    case 1: {
        static const int rate[] = {64, 168, 136, 32, 256};
        int64_t v = (int64_t) rate[c.choose(5)] * (int64_t) (1 + c.choose(6)) - (c.coin() ? 128 : 0) + c.range(-9, 1);
        n = v < 0 ? 0 : (size_t) v;
        break; }
    default: n = c.size(max);
    }
    if (n > max) n = max;
    return c.bytes(n);
}
// Now and then one past 64 KiB, rarely a megabyte.
inline Bytes genAnyMsg(Ctx &c, size_t max) {
    if (c.choose(40)) return genMsg(c, max);
    size_t n = c.choose(12) != 11 ? (size_t) (65536 - 130 + (int64_t) c.choose(400)) : ((size_t) 1 << 20) - 130 + (size_t) c.choose(400);
    return c.bytes(n);
}
inline std::unique_ptr<XmssFast> mkFast(const Bytes &seed, const Cfg &g) {
    std::unique_ptr<XmssFast> p(new XmssFast(seed, (unsigned char) g.h, (eHashFunction) g.hash, eAddrFormatType::SHA256_2X));
    if (g.w != 16) p->initialize_tree(g.w);
    return p;
}
inline std::unique_ptr<XmssBasic> mkBasic(const Bytes &seed, const Cfg &g) {
    return std::unique_ptr<XmssBasic>(new XmssBasic(seed, (unsigned char) g.h, (eHashFunction) g.hash, eAddrFormatType::SHA256_2X, g.w));
}
// A wallet of any height without a tree: what the base class says about sizes, counts, descriptors and keys.
// The key bytes are filled in where the class still keeps them in _sk; otherwise ready is false.
struct TallWallet : XmssBase {
    bool ready = false;
    TallWallet(const Bytes &seed, unsigned h, int hash, const Bytes &sk) : XmssBase(seed, (uint8_t) h, (eHashFunction) hash, eAddrFormatType::SHA256_2X) { fill(sk); }
    TallWallet(const Bytes &ext, const Bytes &sk) : XmssBase(ext) { fill(sk); }
    Bytes sign(const Bytes &) override { throw std::logic_error("no tree"); }
    template<class T> static auto put(T *t, const Bytes &b, int) -> decltype(t->_sk = b, bool()) { t->_sk = b; return true; }
    template<class T> static bool put(T *, const Bytes &, ...) { return false; }
    void fill(const Bytes &sk) { ready = put(this, sk, 0) && getSK() == sk; }
};
// A Winternitz parameter nothing supports, also ones that a narrower integer would turn into a supported one.
inline uint32_t badW(Ctx &c) {
    uint32_t w;
    switch (c.choose(4)) {
    case 0: case 1: w = c.pick({0u, 1u, 3u, 5u, 6u, 7u, 8u, 12u, 15u, 17u, 31u, 32u, 64u, 100u, 128u, 255u, 257u, 512u, 1024u, 4096u, 65535u, 65536u, 1u << 20, 1u << 24, 1u << 31, 0x7FFFFFFFu, 0xFFFFFFFEu, 0xFFFFFFFFu}); break;
    case 2: { uint32_t s = c.pick({16u, 4u, 256u, 2u}); w = c.choose(4) != 3 ? s + (1u << c.pick({8, 16, 24, 31})) : 0u - s; break; }
    default: w = (uint32_t) c.choose(1ull << 32);
    }
    return ref::supportedW(w) ? w + 1 : w;
}
inline uint32_t tallIndex(Ctx &c, unsigned h) {
    uint32_t n = 1u << h;
    switch (c.choose(3)) {
    case 0: return n - 1 - (uint32_t) c.choose(3);
    case 1: { uint32_t b = 1u << c.choose(h), d = (uint32_t) c.choose(3); return b + 1 >= d ? std::min(b + 1 - d, n - 1) : 0; }
    default: return (uint32_t) c.choose(n);
    }
}
inline uint32_t sigIndex(const Bytes &s) { return (uint32_t) s.at(0) << 24 | (uint32_t) s.at(1) << 16 | (uint32_t) s.at(2) << 8 | s.at(3); }
// Runs f; true when it threw something derived from std::exception.
template<class F> bool throws(F f) {
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
template<class F> bool throwsInvalid(F f) {
    try { f(); } catch (const std::invalid_argument &) { return true; }
    return false;
}
inline std::string diff(const Bytes &a, const Bytes &b) {
    if (a.size() != b.size()) return pbt::str("sizes %zu and %zu", a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return pbt::str("first difference at byte %zu: %02x and %02x", i, a[i], b[i]);
    return "equal";
}
inline bool verifyW(const Bytes &m, const Bytes &s, const Bytes &pk, unsigned w) {
    return XmssBase::verify(m, s, pk, w);
}
} // namespace hh
