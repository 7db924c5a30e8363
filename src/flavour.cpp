// What differs between the builds: with the toy hash the library's hash entry points are replaced (linker
// option --wrap) so that structural properties can be explored on trees too large for real hashing.
#include "h.h"
#include <cstdio>
#include <cstring>
namespace hh {
#if defined FLAVOUR_TOY || defined FLAVOUR_TALL || defined FLAVOUR_TFUZZ
#define TOY 1
bool toyFlavour = true;
#else
bool toyFlavour = false;
#endif
}
#ifdef TOY
extern "C" {
void __wrap__Z8shake128PhyPKhy(unsigned char *o, unsigned long long n, const unsigned char *in, unsigned long long k) { ref::toyHash(1, o, n, in, k); }
void __wrap__Z8shake256PhyPKhy(unsigned char *o, unsigned long long n, const unsigned char *in, unsigned long long k) { ref::toyHash(2, o, n, in, k); }
}
#endif

#ifdef TOY
extern "C" void __real_sha2_256(uint8_t *, const uint8_t *, size_t);
extern "C" void __wrap_sha2_256(uint8_t *o, const uint8_t *in, size_t n) { ref::toyHash(0, o, 32, in, n); }
#ifdef FLAVOUR_TALL
// Leaves without chains: what remains of building and traversing a tree is cheap enough for millions of leaves.
// Nothing verifies in this build; signatures are compared with the model, whose leaves are the same.
extern "C" void __wrap__Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj(int hash, uint8_t *pk, const uint8_t *sk, const void *, const uint8_t *pubseed, uint32_t *addr) {
    uint8_t o[32];
    ref::stubPk(o, hash, sk, pubseed, addr);
    memcpy(pk, o, 32);
}
extern "C" void __wrap__Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj(int hash, const void *, uint8_t *leaf, uint8_t *pk, const uint8_t *pubseed, uint32_t *addr) {
    uint8_t o[32];
    ref::stubLeaf(o, hash, pk, pubseed, addr);
    memcpy(leaf, o, 32);
}
static const bool verifies = false;
#else
static const bool verifies = true;
#endif
// The toy build is only an amplifier: it is used when a small wallet of it agrees with the model, so that a
// library calling its hash functions by another route is never mistaken for a broken one. (The other builds
// run the same properties with the real hash functions.)
static bool agree() {
    ref::useToy = true;
    ref::stubLeaves = !verifies;
    try {
        for (int h = 0; h < 3; h++) {
            hh::Cfg g{h, 4, 16};
            ref::Bytes seed(48, (uint8_t) (3 + h)), m(70, 9);
            ref::Wallet r(seed, hh::rp(g));
            XmssFast w(seed, 4, (eHashFunction) h, eAddrFormatType::SHA256_2X);
            if (w.getPK() != r.pk()) return false;
            ref::Bytes s = w.sign(m);
            if (s != r.sign(0, m) || (verifies && !XmssBase::verify(m, s, r.pk()))) return false;
        }
    } catch (const std::exception &) { return false; }
    return true;
}
static bool init() {
    pbt::preflight = [] {
        bool ok = agree();
        if (!ok) fprintf(stderr, "the toy-hash build does not agree with the model: not used\n");
        return ok;
    };
    return true;
}
#elif defined FLAVOUR_RTALL
bool rustAgrees(); // props_rtall.cpp
static bool init() {
    pbt::preflight = [] {
        ref::selfCheck();
        ref::useToy = ref::stubLeaves = true;
        bool ok = false;
        try { ok = rustAgrees(); } catch (...) {}
        if (!ok) fprintf(stderr, "the tall Rust build does not agree with the model: not used\n");
        return ok;
    };
    return true;
}
#else
static bool init() {
    pbt::preflight = [] { ref::selfCheck(); return true; };
    return true;
}
#endif
static bool done = init();

#ifdef FLAVOUR_TOY
// Locks of the library and the harness now and then give way to other threads, so that more schedules occur.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
static void giveWay() {
    static thread_local uint64_t s = 0;
    if (!s) s = (uint64_t) (uintptr_t) &s ^ (uint64_t) getpid() << 20;
    s = pbt::mix(s);
    if (s % 3 == 0) sched_yield();
    else if (s % 64 == 1) usleep((unsigned) (s >> 8) % 200);
}
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { giveWay(); return __real_pthread_mutex_lock(m); }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); giveWay(); return r; }
#endif
