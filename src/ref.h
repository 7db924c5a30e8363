// Independent reference model: SHA-256, SHAKE, XMSS (WOTS+, L-tree, Merkle tree), descriptors, addresses,
// hex and mnemonic codecs. Shares no code with /repo; written from FIPS 180-4, FIPS 202, RFC 8391 and the
// documented QRL formats. The hash used by the XMSS part can be switched to a cheap non-cryptographic
// "toy" hash (see toy.cpp) for structural testing of large trees.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef std::array<uint8_t, 32> B32;

// ---- hashes
Bytes shake(int bits /*128|256*/, const uint8_t *in, size_t inlen, size_t outlen);
inline Bytes shake(int bits, const Bytes &in, size_t outlen) { return shake(bits, in.data(), in.size(), outlen); }
B32 sha256(const uint8_t *in, size_t n);
inline B32 sha256(const Bytes &b) { return sha256(b.data(), b.size()); }
// The toy hash: domain 0 = SHA2-256 slot, 1 = SHAKE-128 slot, 2 = SHAKE-256 slot.
void toyHash(int domain, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
extern bool stubLeaves; // leaves are one hash of the one-time key's seed and addresses (the build for tall trees)
void stubPk(uint8_t *pk32, int hash, const uint8_t *sk, const uint8_t *pubseed, const uint32_t *addr);
void stubLeaf(uint8_t *leaf, int hash, const uint8_t *pk32, const uint8_t *pubseed, const uint32_t *addr);
extern bool useToy; // XMSS part of the reference uses toyHash instead of the real functions

// ---- XMSS
struct Params { int hash; unsigned h; unsigned w; };
struct Wots { unsigned w, logw, len1, len2, len; };
Wots wotsParams(unsigned w);
inline bool supportedW(uint64_t w) { return w == 2 || w == 4 || w == 16 || w == 256; }

B32 coreHash(int hash, unsigned type, const uint8_t *key, size_t klen, const uint8_t *in, size_t ilen);
// digits of a 32-byte digest followed by checksum digits
std::vector<unsigned> wotsDigits(const Wots &wp, const uint8_t *digest);
B32 wotsSeed(int hash, const uint8_t *skseed, uint32_t idx);
B32 chain(int hash, const B32 &x, unsigned start, unsigned steps, const uint8_t *pubseed, uint32_t ots, uint32_t chain);
// private chain start values
std::vector<B32> wotsSk(int hash, const Wots &wp, const uint8_t *skseed, uint32_t idx);
std::vector<B32> wotsPk(int hash, const Wots &wp, const uint8_t *skseed, const uint8_t *pubseed, uint32_t idx);
B32 ltree(int hash, std::vector<B32> pk, const uint8_t *pubseed, uint32_t idx);
B32 hashH(int hash, const B32 &l, const B32 &r, const uint8_t *pubseed, unsigned type, uint32_t word4, uint32_t height, uint32_t index);
B32 leaf(int hash, unsigned w, const uint8_t *skseed, const uint8_t *pubseed, uint32_t idx);
B32 rootFromPath(int hash, const B32 &leaf, uint32_t idx, const std::vector<B32> &path, const uint8_t *pubseed);
B32 messageDigest(int hash, const uint8_t *R, const uint8_t *root, uint32_t idx, const Bytes &msg);
B32 randomizer(int hash, const uint8_t *skprf, uint32_t idx);

// A complete tree, all nodes kept: for small and toy-hash heights.
struct Wallet {
    Params p; Bytes seed; Bytes skseed, skprf, pubseed;
    std::vector<std::vector<B32>> nodes; // nodes[level][i]
    Wallet(const Bytes &seed48, Params p, unsigned threads = 1);
    const B32 &root() const { return nodes.back()[0]; }
    Bytes pk() const;      // 67 bytes
    Bytes sk(uint32_t idx) const; // 132 bytes
    std::vector<B32> path(uint32_t idx) const;
    Bytes sign(uint32_t idx, const Bytes &msg) const;
    Bytes extendedSeed() const;
};
// A tree of which only one leaf is real and the authentication path is arbitrary: a valid public key and
// signature for any height and index.
struct Virtual {
    Params p; Bytes skseed, skprf, pubseed; uint32_t idx; std::vector<B32> auth; B32 rootv;
    Virtual(const Bytes &seed48, Params p, uint32_t idx, const Bytes &pathSeed);
    Bytes pk() const;
    Bytes sign(const Bytes &msg, const uint8_t *R = nullptr) const; // R == nullptr: the deterministic one
};
Bytes assemble(const Params &p, uint32_t idx, const uint8_t *R, const uint8_t *skseed, const uint8_t *pubseed,
               const uint8_t *root, const std::vector<B32> &auth, const Bytes &msg);
// The verification equations for well-formed inputs.
bool verifyCore(int hash, unsigned h, unsigned w, const Bytes &msg, const Bytes &sig, const uint8_t *root, const uint8_t *pubseed);
// Full decision for arbitrary bytes. A supported height is an even number from 4 to 30.
bool verify(const Bytes &msg, const Bytes &sig, const Bytes &epk, uint64_t w);
size_t sigSize(unsigned h, unsigned w);

// ---- QRL formats
Bytes descriptor(int hash, int sigtype, unsigned height, int addrfmt);
Bytes address(const Bytes &epk);
bool addressValid(const Bytes &a);
std::string hex(const Bytes &b);
bool unhex(const std::string &s, Bytes &out);
extern const std::vector<std::string> &wordlist(); // loaded from golden/wordlist.txt
std::string mnemonic(const Bytes &b);
bool unmnemonic(const std::vector<std::string> &words, Bytes &out);
void selfCheck(); // aborts when the model does not reproduce the golden vectors
} // namespace ref
