// Stand-in for deps/kyber/ref/api.h. The model behind it is in src/mock_pq.cpp.
#ifndef STUB_KYB_API_H
#define STUB_KYB_API_H
#define KYBER_SYMBYTES 32
#define KYBER_PUBLICKEYBYTES 1088
#define KYBER_SECRETKEYBYTES 2400
#define KYBER_CIPHERTEXTBYTES 1152
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
#endif
