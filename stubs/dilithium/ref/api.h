// Stand-in for deps/dilithium/ref/api.h: the sizes and entry points of the reference signature API.
// The model behind it is in src/mock_pq.cpp.
#ifndef STUB_DIL_API_H
#define STUB_DIL_API_H
#define CRYPTO_PUBLICKEYBYTES 1472U
#define CRYPTO_SECRETKEYBYTES 3504U
#define CRYPTO_BYTES 2701U
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *msg, unsigned long long len, const unsigned char *sk);
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk);
#endif
