// Models of the signature and KEM primitives behind /repo's Dilithium and Kyber wrappers (their sources are
// empty submodules). They read and write every byte the real API contract lets them touch, so that a wrapper
// passing a short buffer is seen by AddressSanitizer, and they satisfy exactly the contract the wrappers rely
// on: open(sign(m, sk), pk) == m for a key pair, rejection of anything else, decapsulation agreement.
#include <dilithium/ref/api.h>
#include <kyber/ref/api.h>
#include "mock_pq.h"
#include "ref.h"

namespace mock {
uint64_t counter = 0;      // drives key generation and encapsulation randomness; set by the harness
uint64_t calls = 0;
static ref::Bytes expand(const char *dom, const ref::Bytes &in, size_t n) {
    ref::Bytes b(dom, dom + strlen(dom));
    b.insert(b.end(), in.begin(), in.end());
    return ref::shake(128, b, n);
}
static ref::Bytes fresh(const char *dom) {
    ref::Bytes b(8);
    counter++;
    memcpy(b.data(), &counter, 8);
    return expand(dom, b, 32);
}
static ref::Bytes dilPk(const ref::Bytes &sk) { return expand("dpk", sk, CRYPTO_PUBLICKEYBYTES); }
static ref::Bytes dilSig(const ref::Bytes &pk, const uint8_t *m, size_t n) {
    ref::Bytes b(pk);
    b.insert(b.end(), m, m + n);
    return expand("sig", b, CRYPTO_BYTES);
}
static ref::Bytes kybPk(const ref::Bytes &sk) { return expand("kpk", sk, KYBER_PUBLICKEYBYTES); }
} // namespace mock
using namespace mock;

int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
    calls++;
    ref::Bytes s = expand("dsk", fresh("d"), CRYPTO_SECRETKEYBYTES), p = dilPk(s);
    memcpy(sk, s.data(), s.size());
    memcpy(pk, p.data(), p.size());
    return 0;
}
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *msg, unsigned long long len, const unsigned char *sk) {
    calls++;
    ref::Bytes s(sk, sk + CRYPTO_SECRETKEYBYTES), p = dilPk(s), g = dilSig(p, msg, len);
    if (len) memmove(sm + CRYPTO_BYTES, msg, len);
    memcpy(sm, g.data(), g.size());
    *smlen = len + CRYPTO_BYTES;
    return 0;
}
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk) {
    calls++;
    ref::Bytes p(pk, pk + CRYPTO_PUBLICKEYBYTES);
    bool ok = smlen >= CRYPTO_BYTES;
    if (ok) {
        ref::Bytes g = dilSig(p, sm + CRYPTO_BYTES, smlen - CRYPTO_BYTES);
        ok = memcmp(g.data(), sm, CRYPTO_BYTES) == 0;
    }
    if (!ok) { // as the reference code: clears the output and reports failure
        *mlen = (unsigned long long) -1;
        for (unsigned long long i = 0; i < smlen; i++) m[i] = 0;
        return -1;
    }
    *mlen = smlen - CRYPTO_BYTES;
    ref::Bytes msg(sm + CRYPTO_BYTES, sm + smlen);
    for (unsigned long long i = 0; i < smlen; i++) m[i] = 0xA5; // the buffer is a playground
    for (size_t i = 0; i < msg.size(); i++) m[i] = msg[i];
    return 0;
}
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) {
    calls++;
    ref::Bytes s = expand("ksk", fresh("k"), KYBER_SECRETKEYBYTES), p = kybPk(s);
    memcpy(sk, s.data(), s.size());
    memcpy(pk, p.data(), p.size());
    return 0;
}
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) {
    calls++;
    ref::Bytes p(pk, pk + KYBER_PUBLICKEYBYTES), m = fresh("m");
    ref::Bytes pad = expand("pad", p, 32), c(KYBER_CIPHERTEXTBYTES);
    for (int i = 0; i < 32; i++) c[i] = m[i] ^ pad[i];
    ref::Bytes t(p);
    t.insert(t.end(), m.begin(), m.end());
    ref::Bytes rest = expand("tag", t, KYBER_CIPHERTEXTBYTES - 32);
    memcpy(&c[32], rest.data(), rest.size());
    ref::Bytes u(m);
    u.insert(u.end(), c.begin(), c.end());
    ref::Bytes k = expand("key", u, 32);
    memcpy(ct, c.data(), c.size());
    memcpy(ss, k.data(), 32);
    return 0;
}
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) {
    calls++;
    ref::Bytes s(sk, sk + KYBER_SECRETKEYBYTES), p = kybPk(s), c(ct, ct + KYBER_CIPHERTEXTBYTES), m(32);
    ref::Bytes pad = expand("pad", p, 32);
    for (int i = 0; i < 32; i++) m[i] = c[i] ^ pad[i];
    ref::Bytes t(p);
    t.insert(t.end(), m.begin(), m.end());
    ref::Bytes rest = expand("tag", t, KYBER_CIPHERTEXTBYTES - 32);
    bool ok = memcmp(rest.data(), &c[32], rest.size()) == 0;
    ref::Bytes u(ok ? m : s); // implicit rejection: a key depending on the secret
    u.insert(u.end(), c.begin(), c.end());
    ref::Bytes k = expand("key", u, 32);
    memcpy(ss, k.data(), 32);
    return ok ? 0 : -1;
}
