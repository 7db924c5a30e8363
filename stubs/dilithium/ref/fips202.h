// Stand-in for deps/dilithium/ref/fips202.h (an empty submodule here); resolved by /repo/src/xmss-alt/fips202.c.
#ifndef STUB_DIL_FIPS202_H
#define STUB_DIL_FIPS202_H
void shake128(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen);
#endif
