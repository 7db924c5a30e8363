// The positions of one-time chains in a signature (C07).
#pragma once
#include "h.h"
using namespace hh;
using pbt::check;
using pbt::str;

namespace {
std::vector<unsigned> digits(unsigned w, const uint8_t *d) { // base-w digits of the digest, most significant first
    unsigned lg = ref::wotsParams(w).logw, n = 256 / lg;
    std::vector<unsigned> r;
    for (unsigned i = 0; i < n; i++) {
        unsigned v = 0;
        for (unsigned b = 0; b < lg; b++) { unsigned bit = i * lg + b; v = v << 1 | ((d[bit / 8] >> (7 - bit % 8)) & 1u); }
        r.push_back(v);
    }
    return r;
}
std::vector<unsigned> withChecksum(unsigned w, std::vector<unsigned> d) {
    ref::Wots wp = ref::wotsParams(w);
    uint64_t sum = 0;
    for (auto x : d) sum += w - 1 - x;
    std::vector<unsigned> cs(wp.len2);
    for (unsigned i = wp.len2; i-- > 0;) { cs[i] = (unsigned) (sum % w); sum /= w; }
    check(sum == 0, "model", "the checksum does not fit");
    d.insert(d.end(), cs.begin(), cs.end());
    return d;
}
// Every chain value of a signature is where the encoding of digest and checksum puts it.
void checkChains(const Cfg &g, uint32_t idx, const Bytes &m, const Bytes &s, const Bytes &pk, const Bytes &sk) {
    check(s.size() >= 36 && sigIndex(s) == idx, "wrong-index", "");
    ref::B32 dg = ref::messageDigest(g.hash, &s[4], &pk[3], idx, m);
    ref::Wots wp = ref::wotsParams(g.w);
    auto want = withChecksum(g.w, digits(g.w, dg.data()));
    check(s.size() == 36 + 32 * (wp.len + g.h), "signature-size", "");
    auto start = ref::wotsSk(g.hash, wp, &sk[4], idx);
    for (unsigned i = 0; i < wp.len; i++) {
        ref::B32 x = start[i];
        int pos = -1;
        for (unsigned j = 0; j < g.w; j++) {
            if (memcmp(x.data(), &s[36 + 32 * i], 32) == 0) { pos = (int) j; break; }
            if (j + 1 < g.w) x = ref::chain(g.hash, x, j, 1, &pk[35], idx, i);
        }
        check(pos >= 0, "value-not-on-its-chain", str("chain %u", i));
        check((unsigned) pos == want[i], i < wp.len1 ? "message-chain-position" : "checksum-chain-position", str("chain %u of %u is at %d, the encoding has %u", i, wp.len, pos, want[i]));
    }
}
} // namespace
