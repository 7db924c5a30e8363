// Injected failures of the environment: memory for large blocks, starting threads. Include in one file of a group.
#pragma once
#include <cstddef>
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(PBT_FUZZ)
#define FAULTS
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
namespace faults {
inline std::atomic<size_t> blockFrom{0}; // blocks of at least this size are refused ...
inline std::atomic<int> blocksLeft{0};   // ... after this many more
inline std::atomic<bool> blocks{false};
inline std::atomic<int> threadsLeft{-1}; // starting a thread fails after this many more; -1: never
inline std::atomic<int> blocksRefused{0}, threadsRefused{0};
}
#ifdef FAULT_BLOCKS
void *operator new(size_t n) {
    if (faults::blocks && n >= faults::blockFrom && faults::blocksLeft-- <= 0) { faults::blocksRefused++; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
#endif
#ifdef FAULT_THREADS
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)) dlsym(RTLD_NEXT, "pthread_create");
    int left = faults::threadsLeft.load();
    while (left >= 0) {
        if (left == 0) { faults::threadsRefused++; return EAGAIN; }
        if (faults::threadsLeft.compare_exchange_weak(left, left - 1)) break;
    }
    return real(t, a, f, arg);
}
#endif
#endif
