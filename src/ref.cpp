#include "ref.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <thread>
#include <unistd.h>

namespace ref {
bool useToy = false, stubLeaves = false;

// ------------------------------------------------------------------ Keccak
static inline uint64_t rol(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static void permute(uint64_t A[25]) {
    static const uint64_t RC[24] = {
        0x0000000000000001ULL, 0x0000000000008082ULL, 0x800000000000808aULL, 0x8000000080008000ULL, 0x000000000000808bULL,
        0x0000000080000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL, 0x000000000000008aULL, 0x0000000000000088ULL,
        0x0000000080008009ULL, 0x000000008000000aULL, 0x000000008000808bULL, 0x800000000000008bULL, 0x8000000000008089ULL,
        0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL, 0x000000000000800aULL, 0x800000008000000aULL,
        0x8000000080008081ULL, 0x8000000000008080ULL, 0x0000000080000001ULL, 0x8000000080008008ULL};
#define TH(x) C##x = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20]
    for (int r = 0; r < 24; r++) {
        uint64_t C0, C1, C2, C3, C4;
        TH(0); TH(1); TH(2); TH(3); TH(4);
        uint64_t D0 = C4 ^ rol(C1, 1), D1 = C0 ^ rol(C2, 1), D2 = C1 ^ rol(C3, 1), D3 = C2 ^ rol(C4, 1), D4 = C3 ^ rol(C0, 1);
        uint64_t B[25];
        // B[y][2x+3y] = rot(A[x][y]); index = x + 5y
        B[0] = A[0] ^ D0;            B[10] = rol(A[1] ^ D1, 1);   B[20] = rol(A[2] ^ D2, 62);  B[5] = rol(A[3] ^ D3, 28);   B[15] = rol(A[4] ^ D4, 27);
        B[16] = rol(A[5] ^ D0, 36);  B[1] = rol(A[6] ^ D1, 44);   B[11] = rol(A[7] ^ D2, 6);   B[21] = rol(A[8] ^ D3, 55);  B[6] = rol(A[9] ^ D4, 20);
        B[7] = rol(A[10] ^ D0, 3);   B[17] = rol(A[11] ^ D1, 10); B[2] = rol(A[12] ^ D2, 43);  B[12] = rol(A[13] ^ D3, 25); B[22] = rol(A[14] ^ D4, 39);
        B[23] = rol(A[15] ^ D0, 41); B[8] = rol(A[16] ^ D1, 45);  B[18] = rol(A[17] ^ D2, 15); B[3] = rol(A[18] ^ D3, 21);  B[13] = rol(A[19] ^ D4, 8);
        B[14] = rol(A[20] ^ D0, 18); B[24] = rol(A[21] ^ D1, 2);  B[9] = rol(A[22] ^ D2, 61);  B[19] = rol(A[23] ^ D3, 56); B[4] = rol(A[24] ^ D4, 14);
        for (int y = 0; y < 25; y += 5) {
            A[y] = B[y] ^ (~B[y + 1] & B[y + 2]);
            A[y + 1] = B[y + 1] ^ (~B[y + 2] & B[y + 3]);
            A[y + 2] = B[y + 2] ^ (~B[y + 3] & B[y + 4]);
            A[y + 3] = B[y + 3] ^ (~B[y + 4] & B[y]);
            A[y + 4] = B[y + 4] ^ (~B[y] & B[y + 1]);
        }
        A[0] ^= RC[r];
    }
}
Bytes shake(int bits, const uint8_t *in, size_t inlen, size_t outlen) {
    const size_t rate = bits == 128 ? 168 : 136;
    uint64_t A[25] = {0};
    auto xorByte = [&](size_t i, uint8_t b) { A[i / 8] ^= (uint64_t) b << (8 * (i % 8)); };
    size_t pos = 0;
    for (size_t i = 0; i < inlen; i++) {
        xorByte(pos++, in[i]);
        if (pos == rate) { permute(A); pos = 0; }
    }
    xorByte(pos, 0x1F);
    xorByte(rate - 1, 0x80);
    permute(A);
    Bytes out(outlen);
    pos = 0;
    for (size_t i = 0; i < outlen; i++) {
        if (pos == rate) { permute(A); pos = 0; }
        out[i] = (uint8_t) (A[pos / 8] >> (8 * (pos % 8)));
        pos++;
    }
    return out;
}

// ------------------------------------------------------------------ SHA-256
// Constants are derived (square and cube roots of primes) rather than copied.
static uint32_t K256[64], H256[8];
static bool initConst() {
    int n = 0;
    for (unsigned c = 2; n < 64; c++) {
        bool prime = true;
        for (unsigned d = 2; d * d <= c; d++) if (c % d == 0) { prime = false; break; }
        if (!prime) continue;
        // floor(cbrt(c) * 2^32) and floor(sqrt(c) * 2^32) by integer search
        typedef unsigned __int128 u128;
        uint64_t lo = 0, hi = (uint64_t) 8 << 32;
        while (hi - lo > 1) { // cube root: m^3 <= c * 2^96
            uint64_t m = lo + (hi - lo) / 2;
            u128 sq = (u128) m * m; // < 2^70
            // compare sq * m with c << 96, using 192-bit arithmetic by splitting
            u128 lowp = (sq & (((u128) 1 << 64) - 1)) * m;
            u128 highp = (sq >> 64) * m + (lowp >> 64);
            uint64_t low = (uint64_t) lowp;
            u128 target = (u128) c << 32; // compare high 128 bits (value >> 64)
            bool le = highp < target || (highp == target && low == 0);
            if (le) lo = m; else hi = m;
        }
        K256[n] = (uint32_t) lo;
        if (n < 8) {
            uint64_t l2 = 0, h2 = (uint64_t) 8 << 32;
            while (h2 - l2 > 1) {
                uint64_t m = l2 + (h2 - l2) / 2;
                if ((u128) m * m <= ((u128) c << 64)) l2 = m; else h2 = m;
            }
            H256[n] = (uint32_t) l2;
        }
        n++;
    }
    return true;
}
static bool constReady = initConst();
static inline uint32_t ror(uint32_t x, unsigned n) { return (x >> n) | (x << (32 - n)); }
static void compress(uint32_t st[8], const uint8_t *p) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) { uint32_t v; memcpy(&v, p + 4 * i, 4); w[i] = __builtin_bswap32(v); }
    for (int i = 16; i < 64; i++)
        w[i] = (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
    uint32_t s[8];
    memcpy(s, st, 32);
    for (int i = 0; i < 64; i++) {
        uint32_t ch = s[6] ^ (s[4] & (s[5] ^ s[6]));
        uint32_t mj = (s[0] & (s[1] | s[2])) | (s[1] & s[2]);
        uint32_t t = s[7] + (ror(s[4], 6) ^ ror(s[4], 11) ^ ror(s[4], 25)) + ch + K256[i] + w[i];
        uint32_t u = (ror(s[0], 2) ^ ror(s[0], 13) ^ ror(s[0], 22)) + mj;
        s[7] = s[6]; s[6] = s[5]; s[5] = s[4]; s[4] = s[3] + t; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = t + u;
    }
    for (int i = 0; i < 8; i++) st[i] += s[i];
}
B32 sha256(const uint8_t *in, size_t n) {
    uint32_t st[8];
    memcpy(st, H256, 32);
    size_t full = n / 64;
    for (size_t i = 0; i < full; i++) compress(st, in + 64 * i);
    uint8_t tail[128] = {0};
    size_t r = n - full * 64;
    if (r) memcpy(tail, in + full * 64, r);
    tail[r] = 0x80;
    size_t t = r < 56 ? 64 : 128;
    uint64_t bits = (uint64_t) n * 8;
    for (int i = 0; i < 8; i++) tail[t - 1 - i] = (uint8_t) (bits >> (8 * i));
    compress(st, tail);
    if (t == 128) compress(st, tail + 64);
    B32 o;
    for (int i = 0; i < 8; i++) { uint32_t v = __builtin_bswap32(st[i]); memcpy(&o[4 * i], &v, 4); }
    return o;
}

// ------------------------------------------------------------------ toy hash
void toyHash(int domain, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) {
    // A message "DIGEST!!" + 32 bytes has exactly these bytes as its digest, whatever the key.
    if (outlen == 32 && inlen == 32 + 96 + 8 + 32 && in[31] == 2 && memcmp(in + 128, "DIGEST!!", 8) == 0) { memcpy(out, in + 136, 32); return; }
    const uint64_t M = 0x9E3779B97F4A7C15ULL;
    uint64_t a = 0x243F6A8885A308D3ULL ^ (uint64_t) domain * M, b = 0x13198A2E03707344ULL ^ inlen * 0xD6E8FEB86659FD93ULL;
    size_t i = 0;
    for (; i + 8 <= inlen; i += 8) {
        uint64_t v;
        memcpy(&v, in + i, 8);
        a = (a ^ v) * M;
        a ^= a >> 29;
        b = rol(b ^ a, 23) * 0xC2B2AE3D27D4EB4FULL;
    }
    uint64_t v = 0x80;
    for (; i < inlen; i++) v = v << 8 | in[i];
    a = (a ^ v) * M; a ^= a >> 31;
    b = rol(b + a, 27) * 0xC2B2AE3D27D4EB4FULL;
    for (size_t o = 0; o < outlen; o += 8) {
        a = (a + M) ^ b; uint64_t z = a; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z ^= z >> 27; b = rol(b, 17) + z;
        memcpy(out + o, &z, outlen - o < 8 ? outlen - o : 8);
    }
}

// ------------------------------------------------------------------ XMSS
static void rawHash(int hash, uint8_t *out, size_t outlen, const uint8_t *in, size_t n) {
    if (useToy) { toyHash(hash, out, outlen, in, n); return; }
    if (hash == 0) { B32 o = sha256(in, n); memcpy(out, o.data(), 32); return; }
    Bytes o = shake(hash == 1 ? 128 : 256, in, n, outlen);
    memcpy(out, o.data(), outlen);
}
B32 coreHash(int hash, unsigned type, const uint8_t *key, size_t klen, const uint8_t *in, size_t ilen) {
    B32 o;
    uint8_t small[256];
    Bytes big;
    uint8_t *b = small;
    size_t n = 32 + klen + ilen;
    if (n > sizeof small) { big.resize(n); b = big.data(); }
    memset(b, 0, 32);
    b[31] = (uint8_t) type;
    memcpy(b + 32, key, klen);
    if (ilen) memcpy(b + 32 + klen, in, ilen);
    if (!useToy && hash != 0 && n <= 135) { // one-block fast path
        const size_t rate = hash == 1 ? 168 : 136;
        uint64_t A[25] = {0};
        uint8_t blk[168] = {0};
        memcpy(blk, b, n);
        blk[n] = 0x1F;
        blk[rate - 1] |= 0x80;
        memcpy(A, blk, rate);
        permute(A);
        memcpy(o.data(), A, 32);
        return o;
    }
    rawHash(hash, o.data(), 32, b, n);
    return o;
}
struct Adrs {
    uint32_t w[8] = {0};
    void bytes(uint8_t *b) const {
        for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) b[4 * i + j] = (uint8_t) (w[i] >> (24 - 8 * j));
    }
};
static B32 PRF(int hash, const uint8_t *key, const uint8_t *m32) { return coreHash(hash, 3, key, 32, m32, 32); }
static B32 PRFa(int hash, const uint8_t *key, Adrs a, uint32_t km) {
    a.w[7] = km;
    uint8_t b[32];
    a.bytes(b);
    return PRF(hash, key, b);
}
Wots wotsParams(unsigned w) {
    Wots p;
    p.w = w;
    p.logw = 0;
    while ((1u << p.logw) < w) p.logw++;
    p.len1 = 256 / p.logw;
    unsigned maxsum = p.len1 * (w - 1);
    p.len2 = 0;
    while (maxsum) { p.len2++; maxsum >>= p.logw; } // number of base-w digits of the largest checksum
    p.len = p.len1 + p.len2;
    return p;
}
std::vector<unsigned> wotsDigits(const Wots &wp, const uint8_t *d) {
    std::vector<unsigned> r;
    for (unsigned i = 0; i < wp.len1; i++) {
        unsigned bit = i * wp.logw; // msb first
        r.push_back((d[bit / 8] >> (8 - wp.logw - bit % 8)) & (wp.w - 1));
    }
    unsigned sum = 0;
    for (unsigned x : r) sum += wp.w - 1 - x;
    for (unsigned i = 0; i < wp.len2; i++) r.push_back((sum >> (wp.logw * (wp.len2 - 1 - i))) & (wp.w - 1));
    return r;
}
B32 wotsSeed(int hash, const uint8_t *skseed, uint32_t idx) {
    Adrs a;
    a.w[4] = idx;
    return PRFa(hash, skseed, a, 0);
}
B32 chain(int hash, const B32 &x, unsigned start, unsigned steps, const uint8_t *pubseed, uint32_t ots, uint32_t ch) {
    B32 cur = x;
    Adrs a;
    a.w[4] = ots;
    a.w[5] = ch;
    for (unsigned i = start; i < start + steps; i++) {
        a.w[6] = i;
        B32 key = PRFa(hash, pubseed, a, 0), mask = PRFa(hash, pubseed, a, 1);
        for (int j = 0; j < 32; j++) cur[j] ^= mask[j];
        cur = coreHash(hash, 0, key.data(), 32, cur.data(), 32);
    }
    return cur;
}
std::vector<B32> wotsSk(int hash, const Wots &wp, const uint8_t *skseed, uint32_t idx) {
    B32 s = wotsSeed(hash, skseed, idx);
    std::vector<B32> r(wp.len);
    for (unsigned i = 0; i < wp.len; i++) {
        uint8_t ctr[32] = {0};
        ctr[30] = (uint8_t) (i >> 8);
        ctr[31] = (uint8_t) i;
        r[i] = PRF(hash, s.data(), ctr);
    }
    return r;
}
std::vector<B32> wotsPk(int hash, const Wots &wp, const uint8_t *skseed, const uint8_t *pubseed, uint32_t idx) {
    auto r = wotsSk(hash, wp, skseed, idx);
    for (unsigned i = 0; i < wp.len; i++) r[i] = chain(hash, r[i], 0, wp.w - 1, pubseed, idx, i);
    return r;
}
B32 hashH(int hash, const B32 &l, const B32 &r, const uint8_t *pubseed, unsigned type, uint32_t word4, uint32_t height, uint32_t index) {
    Adrs a;
    a.w[3] = type;
    a.w[4] = word4;
    a.w[5] = height;
    a.w[6] = index;
    B32 key = PRFa(hash, pubseed, a, 0), m0 = PRFa(hash, pubseed, a, 1), m1 = PRFa(hash, pubseed, a, 2);
    uint8_t b[64];
    for (int i = 0; i < 32; i++) { b[i] = l[i] ^ m0[i]; b[32 + i] = r[i] ^ m1[i]; }
    return coreHash(hash, 1, key.data(), 32, b, 64);
}
B32 ltree(int hash, std::vector<B32> pk, const uint8_t *pubseed, uint32_t idx) {
    unsigned height = 0;
    while (pk.size() > 1) {
        std::vector<B32> up;
        for (size_t i = 0; i + 1 < pk.size(); i += 2) up.push_back(hashH(hash, pk[i], pk[i + 1], pubseed, 1, idx, height, (uint32_t) (i / 2)));
        if (pk.size() & 1) up.push_back(pk.back());
        pk.swap(up);
        height++;
    }
    return pk[0];
}
static void stub(int domain, uint8_t *out, int hash, const uint8_t *a32, const uint8_t *b32, const uint32_t *addr) {
    uint8_t b[32 + 32 + 24];
    memcpy(b, a32, 32);
    memcpy(b + 32, b32, 32);
    memcpy(b + 64, addr, 20); // layer, tree, type and leaf; the other words belong to chains and nodes
    uint32_t h = (uint32_t) hash;
    memcpy(b + 84, &h, 4);
    toyHash(domain, out, 32, b, sizeof b);
}
void stubPk(uint8_t *pk, int hash, const uint8_t *sk, const uint8_t *pubseed, const uint32_t *addr) { stub(8, pk, hash, sk, pubseed, addr); }
void stubLeaf(uint8_t *l, int hash, const uint8_t *pk, const uint8_t *pubseed, const uint32_t *addr) { stub(9, l, hash, pk, pubseed, addr); }
B32 leaf(int hash, unsigned w, const uint8_t *skseed, const uint8_t *pubseed, uint32_t idx) {
    if (stubLeaves) {
        B32 s = wotsSeed(hash, skseed, idx), l;
        uint32_t a[8] = {0, 0, 0, 0, idx, 0, 0, 0};
        stubPk(s.data(), hash, s.data(), pubseed, a);
        a[3] = 1;
        stubLeaf(l.data(), hash, s.data(), pubseed, a);
        return l;
    }
    return ltree(hash, wotsPk(hash, wotsParams(w), skseed, pubseed, idx), pubseed, idx);
}
B32 rootFromPath(int hash, const B32 &lf, uint32_t idx, const std::vector<B32> &path, const uint8_t *pubseed) {
    B32 cur = lf;
    for (size_t lv = 0; lv < path.size(); lv++) {
        bool right = (idx >> lv) & 1;
        uint32_t node = lv + 1 < 32 ? idx >> (lv + 1) : 0;
        cur = right ? hashH(hash, path[lv], cur, pubseed, 2, 0, (uint32_t) lv, node) : hashH(hash, cur, path[lv], pubseed, 2, 0, (uint32_t) lv, node);
    }
    return cur;
}
B32 messageDigest(int hash, const uint8_t *R, const uint8_t *root, uint32_t idx, const Bytes &msg) {
    uint8_t key[96] = {0};
    memcpy(key, R, 32);
    memcpy(key + 32, root, 32);
    for (int i = 0; i < 4; i++) key[92 + i] = (uint8_t) (idx >> (24 - 8 * i));
    return coreHash(hash, 2, key, 96, msg.data(), msg.size());
}
B32 randomizer(int hash, const uint8_t *skprf, uint32_t idx) {
    uint8_t b[32] = {0};
    for (int i = 0; i < 4; i++) b[28 + i] = (uint8_t) (idx >> (24 - 8 * i));
    return PRF(hash, skprf, b);
}
static void expandSeed(const Bytes &seed, Bytes &a, Bytes &b, Bytes &c) {
    Bytes e(96);
    if (useToy) toyHash(2, e.data(), 96, seed.data(), seed.size());
    else e = shake(256, seed, 96);
    a.assign(e.begin(), e.begin() + 32);
    b.assign(e.begin() + 32, e.begin() + 64);
    c.assign(e.begin() + 64, e.end());
}
size_t sigSize(unsigned h, unsigned w) { return 4 + 32 + 32 * (size_t) (wotsParams(w).len + h); }

Bytes assemble(const Params &p, uint32_t idx, const uint8_t *R, const uint8_t *skseed, const uint8_t *pubseed,
               const uint8_t *root, const std::vector<B32> &auth, const Bytes &msg) {
    Wots wp = wotsParams(p.w);
    Bytes s;
    for (int i = 0; i < 4; i++) s.push_back((uint8_t) (idx >> (24 - 8 * i)));
    s.insert(s.end(), R, R + 32);
    B32 d = messageDigest(p.hash, R, root, idx, msg);
    auto dig = wotsDigits(wp, d.data());
    auto sk = wotsSk(p.hash, wp, skseed, idx);
    for (unsigned i = 0; i < wp.len; i++) {
        B32 c = chain(p.hash, sk[i], 0, dig[i], pubseed, idx, i);
        s.insert(s.end(), c.begin(), c.end());
    }
    for (auto &a : auth) s.insert(s.end(), a.begin(), a.end());
    return s;
}
Wallet::Wallet(const Bytes &seed48, Params pp, unsigned threads) : p(pp), seed(seed48) {
    expandSeed(seed, skseed, skprf, pubseed);
    size_t n = (size_t) 1 << p.h;
    nodes.emplace_back(n);
    if (threads <= 1) for (size_t i = 0; i < n; i++) nodes[0][i] = leaf(p.hash, p.w, skseed.data(), pubseed.data(), (uint32_t) i);
    else {
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; t++)
            ts.emplace_back([&, t] { for (size_t i = t; i < n; i += threads) nodes[0][i] = leaf(p.hash, p.w, skseed.data(), pubseed.data(), (uint32_t) i); });
        for (auto &t : ts) t.join();
    }
    for (unsigned lv = 0; lv < p.h; lv++) {
        std::vector<B32> up(nodes[lv].size() / 2);
        for (size_t i = 0; i < up.size(); i++) up[i] = hashH(p.hash, nodes[lv][2 * i], nodes[lv][2 * i + 1], pubseed.data(), 2, 0, lv, (uint32_t) i);
        nodes.push_back(std::move(up));
    }
}
Bytes Wallet::pk() const {
    Bytes r = descriptor(p.hash, 0, p.h, 0);
    r.insert(r.end(), root().begin(), root().end());
    r.insert(r.end(), pubseed.begin(), pubseed.end());
    return r;
}
Bytes Wallet::sk(uint32_t idx) const {
    Bytes r;
    for (int i = 0; i < 4; i++) r.push_back((uint8_t) (idx >> (24 - 8 * i)));
    r.insert(r.end(), skseed.begin(), skseed.end());
    r.insert(r.end(), skprf.begin(), skprf.end());
    r.insert(r.end(), pubseed.begin(), pubseed.end());
    r.insert(r.end(), root().begin(), root().end());
    return r;
}
std::vector<B32> Wallet::path(uint32_t idx) const {
    std::vector<B32> r;
    for (unsigned lv = 0; lv < p.h; lv++) r.push_back(nodes[lv][(idx >> lv) ^ 1]);
    return r;
}
Bytes Wallet::sign(uint32_t idx, const Bytes &msg) const {
    B32 R = randomizer(p.hash, skprf.data(), idx);
    return assemble(p, idx, R.data(), skseed.data(), pubseed.data(), root().data(), path(idx), msg);
}
Bytes Wallet::extendedSeed() const {
    Bytes r = descriptor(p.hash, 0, p.h, 0);
    r.insert(r.end(), seed.begin(), seed.end());
    return r;
}
Virtual::Virtual(const Bytes &seed48, Params pp, uint32_t i, const Bytes &pathSeed) : p(pp), idx(i) {
    expandSeed(seed48, skseed, skprf, pubseed);
    Bytes a(32 * p.h);
    toyHash(7, a.data(), a.size(), pathSeed.data(), pathSeed.size());
    for (unsigned lv = 0; lv < p.h; lv++) { B32 b; memcpy(b.data(), &a[32 * lv], 32); auth.push_back(b); }
    rootv = rootFromPath(p.hash, leaf(p.hash, p.w, skseed.data(), pubseed.data(), idx), idx, auth, pubseed.data());
}
Bytes Virtual::pk() const {
    Bytes r = descriptor(p.hash, 0, p.h, 0);
    r.insert(r.end(), rootv.begin(), rootv.end());
    r.insert(r.end(), pubseed.begin(), pubseed.end());
    return r;
}
Bytes Virtual::sign(const Bytes &msg, const uint8_t *R) const {
    B32 r = randomizer(p.hash, skprf.data(), idx);
    return assemble(p, idx, R ? R : r.data(), skseed.data(), pubseed.data(), rootv.data(), auth, msg);
}
bool verifyCore(int hash, unsigned h, unsigned w, const Bytes &msg, const Bytes &sig, const uint8_t *root, const uint8_t *pubseed) {
    Wots wp = wotsParams(w);
    if (sig.size() != sigSize(h, w)) return false;
    uint32_t idx = (uint32_t) sig[0] << 24 | (uint32_t) sig[1] << 16 | (uint32_t) sig[2] << 8 | sig[3];
    B32 d = messageDigest(hash, &sig[4], root, idx, msg);
    auto dig = wotsDigits(wp, d.data());
    std::vector<B32> pk(wp.len);
    size_t off = 36;
    for (unsigned i = 0; i < wp.len; i++, off += 32) {
        B32 x;
        memcpy(x.data(), &sig[off], 32);
        pk[i] = chain(hash, x, dig[i], w - 1 - dig[i], pubseed, idx, i);
    }
    B32 lf = ltree(hash, pk, pubseed, idx);
    std::vector<B32> path(h);
    for (unsigned i = 0; i < h; i++, off += 32) memcpy(path[i].data(), &sig[off], 32);
    B32 r = rootFromPath(hash, lf, idx, path, pubseed);
    return memcmp(r.data(), root, 32) == 0;
}
bool verify(const Bytes &msg, const Bytes &sig, const Bytes &epk, uint64_t w) {
    if (epk.size() != 67 || !supportedW(w)) return false;
    int hash = epk[0] & 15, st = epk[0] >> 4;
    unsigned h = (epk[1] & 15u) * 2;
    if (hash > 2 || st != 0 || epk[1] >> 4 || h < 4) return false;
    if (sig.size() != sigSize(h, (unsigned) w)) return false;
    return verifyCore(hash, h, (unsigned) w, msg, sig, &epk[3], &epk[35]);
}

// ------------------------------------------------------------------ formats
Bytes descriptor(int hash, int sigtype, unsigned height, int addrfmt) {
    return {(uint8_t) (sigtype << 4 | hash), (uint8_t) (addrfmt << 4 | height / 2), 0};
}
Bytes address(const Bytes &epk) {
    Bytes a(epk.begin(), epk.begin() + 3);
    a[2] = 0;
    B32 h = sha256(epk);
    a.insert(a.end(), h.begin(), h.end());
    B32 h2 = sha256(a);
    a.insert(a.end(), h2.end() - 4, h2.end());
    return a;
}
bool addressValid(const Bytes &a) {
    if (a.size() != 39) return false;
    if ((a[0] & 15) > 2 || a[0] >> 4 || a[1] >> 4) return false;
    B32 h2 = sha256(a.data(), 35);
    return memcmp(&a[35], &h2[28], 4) == 0;
}
std::string hex(const Bytes &b) {
    std::string s;
    for (uint8_t x : b) { s += "0123456789abcdef"[x >> 4]; s += "0123456789abcdef"[x & 15]; }
    return s;
}
bool unhex(const std::string &s, Bytes &out) {
    out.clear();
    if (s.size() % 2) return false;
    auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (size_t i = 0; i < s.size(); i += 2) {
        int a = v(s[i]), b = v(s[i + 1]);
        if (a < 0 || b < 0) return false;
        out.push_back((uint8_t) (a * 16 + b));
    }
    return true;
}
const std::vector<std::string> &wordlist() {
    static std::vector<std::string> w = [] {
        std::vector<std::string> r;
        std::ifstream f(VERIF_DIR "/golden/wordlist.txt");
        std::string s;
        while (f >> s) r.push_back(s);
        if (r.size() != 4096) { fprintf(stderr, "golden/wordlist.txt is missing or damaged\n"); _exit(3); }
        return r;
    }();
    return w;
}
std::string mnemonic(const Bytes &b) {
    std::string s;
    for (size_t i = 0; i + 2 < b.size(); i += 3) {
        unsigned v = (unsigned) b[i] << 16 | (unsigned) b[i + 1] << 8 | b[i + 2];
        if (i) s += " ";
        s += wordlist()[v >> 12] + " " + wordlist()[v & 4095];
    }
    return s;
}
bool unmnemonic(const std::vector<std::string> &words, Bytes &out) {
    static const std::unordered_map<std::string, unsigned> m = [] {
        std::unordered_map<std::string, unsigned> r;
        for (unsigned i = 0; i < 4096; i++) r[wordlist()[i]] = i;
        return r;
    }();
    out.clear();
    if (words.size() % 2) return false;
    for (size_t i = 0; i < words.size(); i += 2) {
        auto a = m.find(words[i]), b = m.find(words[i + 1]);
        if (a == m.end() || b == m.end()) return false;
        unsigned v = a->second << 12 | b->second;
        out.push_back((uint8_t) (v >> 16));
        out.push_back((uint8_t) (v >> 8));
        out.push_back((uint8_t) v);
    }
    return true;
}
static void need(bool ok, const char *what) {
    if (!ok) { fprintf(stderr, "reference model self-check failed: %s\n", what); _exit(3); }
}
void selfCheck() {
    auto B = [](const char *s) { return Bytes(s, s + strlen(s)); };
    B32 h = sha256(B("abc"));
    need(hex(Bytes(h.begin(), h.end())) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256(abc)");
    need(hex(shake(128, Bytes(), 32)) == "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26", "shake128()");
    // addresses of the all-zero seed at height 4, published in the project's own tests
    static const char *addr[] = {"00020096e5c065cf961565169e795803c1e60f521af7a3ea0326b42aa40c0e75390e5d8f4336de",
        "01020095f03f084bcb29b96b0529c17ce92c54c1e8290193a93803812ead95e8e6902506b67897",
        "0202000f9ec8efa448051a110686084a47b3ff2c497067edd68b91f36f18c1d7a78498e49b0750"};
    for (int i = 0; i < 3; i++) need(hex(address(Wallet(Bytes(48, 0), Params{i, 4, 16}).pk())) == addr[i], "address of the zero seed");
    need(hex(shake(256, Bytes(), 32)) == "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f", "shake256()");
}
} // namespace ref
