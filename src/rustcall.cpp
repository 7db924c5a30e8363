// What the Rust library takes from outside: primitives of the stand-in crates and the system's randomness.
#include "ref.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
int qr_call(uint32_t op, const uint8_t *in, size_t inlen, uint8_t **out, size_t *outlen);
void qr_free(uint8_t *, size_t);
uint64_t theCounter = 0;
uint64_t qr_counter() { return ++theCounter; }
void qr_expand(const uint8_t *dom, size_t domlen, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen) {
    ref::Bytes b(dom, dom + domlen);
    b.insert(b.end(), in, in + inlen);
    ref::Bytes o = ref::shake(128, b, outlen);
    memcpy(out, o.data(), outlen);
}
// The operating system's randomness, served from a fixed text while `serving`.
bool serving = false, sourceBroken = false;
ref::Bytes served;
size_t servedTo = 0;
static ssize_t serve(void *b, size_t n) {
    if (sourceBroken && n) { errno = EIO; return -1; }
    for (size_t i = 0; i < n; i++, servedTo++) ((uint8_t *) b)[i] = servedTo < served.size() ? served[servedTo] : (uint8_t) (servedTo * 37 + 11);
    return (ssize_t) n;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (serving) return serve(b, n);
    return ((ssize_t (*)(void *, size_t, unsigned)) dlsym(RTLD_NEXT, "getrandom"))(b, n, f);
}
long syscall(long nr, ...) {
    va_list a;
    va_start(a, nr);
    long x[6];
    for (auto &v : x) v = va_arg(a, long);
    va_end(a);
    if (nr == SYS_getrandom && serving) return serve((void *) x[0], (size_t) x[1]);
    return ((long (*)(long, ...)) dlsym(RTLD_NEXT, "syscall"))(nr, x[0], x[1], x[2], x[3], x[4], x[5]);
}
}

