// Stand-in for deps/PicoSHA2 (an empty submodule here): the same public API, SHA-256 written from FIPS 180-4.
#ifndef PICOSHA2_H
#define PICOSHA2_H
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <sstream>
#include <string>
#include <vector>

namespace picosha2 {
typedef unsigned long word_t;
typedef unsigned char byte_t;
static const size_t k_digest_size = 32;

namespace detail {
inline uint32_t rotr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static const uint32_t K[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
inline void block(uint32_t *h, const uint8_t *p) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++)
        w[i] = (uint32_t) p[4 * i] << 24 | (uint32_t) p[4 * i + 1] << 16 | (uint32_t) p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; i++) {
        uint32_t s0 = rotr(w[i - 15], 7) ^ rotr(w[i - 15], 18) ^ (w[i - 15] >> 3);
        uint32_t s1 = rotr(w[i - 2], 17) ^ rotr(w[i - 2], 19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = hh + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
        uint32_t t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
        hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
} // namespace detail

template<typename InIter>
void output_hex(InIter first, InIter last, std::ostream &os) {
    os.setf(std::ios::hex, std::ios::basefield);
    while (first != last) {
        os.width(2);
        os.fill('0');
        os << static_cast<unsigned int>(static_cast<unsigned char>(*first));
        ++first;
    }
    os.setf(std::ios::dec, std::ios::basefield);
}

template<typename InIter>
std::string bytes_to_hex_string(InIter first, InIter last) {
    std::ostringstream oss;
    output_hex(first, last, oss);
    return oss.str();
}
template<typename C>
std::string bytes_to_hex_string(const C &bytes) { return bytes_to_hex_string(bytes.begin(), bytes.end()); }

class hash256_one_by_one {
public:
    hash256_one_by_one() { init(); }
    void init() {
        static const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
        std::memcpy(h_, iv, sizeof iv);
        n_ = 0; total_ = 0; done_ = false;
    }
    template<typename It>
    void process(It first, It last) {
        for (; first != last; ++first) {
            buf_[n_++] = static_cast<uint8_t>(*first);
            total_++;
            if (n_ == 64) { detail::block(h_, buf_); n_ = 0; }
        }
    }
    void finish() {
        uint64_t bits = total_ * 8;
        buf_[n_++] = 0x80;
        if (n_ > 56) { while (n_ < 64) buf_[n_++] = 0; detail::block(h_, buf_); n_ = 0; }
        while (n_ < 56) buf_[n_++] = 0;
        for (int i = 0; i < 8; i++) buf_[56 + i] = (uint8_t) (bits >> (8 * (7 - i)));
        detail::block(h_, buf_);
        done_ = true;
    }
    template<typename OutIter>
    void get_hash_bytes(OutIter first, OutIter last) const {
        for (int i = 0; i < 8; i++)
            for (int j = 3; j >= 0 && first != last; j--)
                *(first++) = static_cast<byte_t>((h_[i] >> (8 * j)) & 0xff);
    }
private:
    uint32_t h_[8];
    uint8_t buf_[64];
    size_t n_;
    uint64_t total_;
    bool done_;
};

inline void get_hash_hex_string(const hash256_one_by_one &hasher, std::string &hex_str) {
    byte_t hash[k_digest_size];
    hasher.get_hash_bytes(hash, hash + k_digest_size);
    hex_str = bytes_to_hex_string(hash, hash + k_digest_size);
}
inline std::string get_hash_hex_string(const hash256_one_by_one &hasher) {
    std::string s; get_hash_hex_string(hasher, s); return s;
}

template<typename InIter, typename OutIter>
void hash256(InIter first, InIter last, OutIter first2, OutIter last2, int = 0) {
    hash256_one_by_one hasher;
    hasher.process(first, last);
    hasher.finish();
    hasher.get_hash_bytes(first2, last2);
}
template<typename InIter, typename OutContainer>
void hash256(InIter first, InIter last, OutContainer &dst) { hash256(first, last, dst.begin(), dst.end()); }
template<typename InContainer, typename OutIter>
void hash256(const InContainer &src, OutIter first, OutIter last) { hash256(src.begin(), src.end(), first, last); }
template<typename InContainer, typename OutContainer>
void hash256(const InContainer &src, OutContainer &dst) { hash256(src.begin(), src.end(), dst.begin(), dst.end()); }
template<typename InIter>
void hash256_hex_string(InIter first, InIter last, std::string &hex_str) {
    byte_t hashed[k_digest_size];
    hash256(first, last, hashed, hashed + k_digest_size);
    hex_str = bytes_to_hex_string(hashed, hashed + k_digest_size);
}
template<typename InIter>
std::string hash256_hex_string(InIter first, InIter last) { std::string s; hash256_hex_string(first, last, s); return s; }
inline std::string hash256_hex_string(const std::string &src) { return hash256_hex_string(src.begin(), src.end()); }
template<typename InContainer>
std::string hash256_hex_string(const InContainer &src) { return hash256_hex_string(src.begin(), src.end()); }
} // namespace picosha2
#endif
