// C15: random seeds, with the operating system's randomness source substituted.
#include "h.h"
#include "long.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <misc.h>
#include <unistd.h>
using namespace hh;
using pbt::check;
using pbt::fail;
using pbt::str;

namespace src { // the substituted source
enum Mode { REAL, FILE_, MISSING, BROKEN };
Mode mode = REAL;
std::string path;      // fixture standing for /dev/urandom
int opened = 0;
ref::Bytes data;       // its content, also served through getrandom()
size_t served = 0;
int lastfd = -1;
bool isSource(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
// the name to open instead, or nullptr to fail
const char *subst(const char *p) {
    if (mode == REAL || !isSource(p)) return p;
    opened++;
    if (mode == MISSING) { errno = ENOENT; return nullptr; }
    if (mode == BROKEN) return "/"; // opens, but cannot be read
    return path.c_str();
}
ssize_t serve(void *b, size_t n) {
    opened++;
    if (mode == MISSING || mode == BROKEN) { errno = EIO; return -1; }
    size_t k = std::min(n, data.size() - std::min(served, data.size()));
    if (k == 0 && n) { errno = EIO; return -1; }
    memcpy(b, data.data() + served, k);
    served += k;
    return (ssize_t) k;
}
} // namespace src
template<class F> static F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" {
FILE *fopen(const char *p, const char *m) { const char *q = src::subst(p); return q ? real<FILE *(*)(const char *, const char *)>("fopen")(q, m) : nullptr; }
FILE *fopen64(const char *p, const char *m) { const char *q = src::subst(p); return q ? real<FILE *(*)(const char *, const char *)>("fopen64")(q, m) : nullptr; }
int open(const char *p, int f, ...) { va_list a; va_start(a, f); unsigned m = va_arg(a, unsigned); va_end(a); const char *q = src::subst(p); return q ? real<int (*)(const char *, int, ...)>("open")(q, f, m) : -1; }
int open64(const char *p, int f, ...) { va_list a; va_start(a, f); unsigned m = va_arg(a, unsigned); va_end(a); const char *q = src::subst(p); return q ? real<int (*)(const char *, int, ...)>("open64")(q, f, m) : -1; }
int openat(int d, const char *p, int f, ...) { va_list a; va_start(a, f); unsigned m = va_arg(a, unsigned); va_end(a); const char *q = src::subst(p); return q ? real<int (*)(int, const char *, int, ...)>("openat")(d, q, f, m) : -1; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (src::mode == src::REAL) return real<ssize_t (*)(void *, size_t, unsigned)>("getrandom")(b, n, f); return src::serve(b, n); }
int getentropy(void *b, size_t n) { if (src::mode == src::REAL) return real<int (*)(void *, size_t)>("getentropy")(b, n); return src::serve(b, n) == (ssize_t) n ? 0 : -1; }
}

namespace {
struct Call { bool threw; Bytes out; size_t served; int opened; };
Call call(uint32_t n, const std::string &entropy, const Bytes &content, src::Mode m) {
    src::mode = src::REAL;
    src::path = std::string(getenv("PBT_SCRATCH")) + str("/urandom.%d", (int) getpid());
    FILE *f = fopen(src::path.c_str(), "wb");
    if (!f || fwrite(content.data(), 1, content.size(), f) != content.size() || fclose(f)) { perror("fixture"); _exit(3); }
    src::data = content;
    src::served = 0;
    src::opened = 0;
    src::mode = m;
    Call r;
    r.threw = false;
    try { r.out = getRandomSeed(n, entropy); } catch (const std::exception &) { r.threw = true; }
    src::mode = src::REAL;
    r.opened = src::opened;
    unlink(src::path.c_str());
    return r;
}
} // namespace
PROP(C15, healthy_source, 2500, 40000, 60) {
    uint32_t n = c.coin() ? c.pick({48u, 32u, 16u, 1u, 51u}) : (uint32_t) c.size(600);
    if (c.choose(25) == 24) n = (uint32_t) (c.choose(4) != 3 ? 600 + c.choose(5000) : c.choose(200000));
    Bytes e = c.bytes(c.choose(8) != 7 ? c.size(300) : c.choose(4) != 3 ? (size_t) c.choose(6000) : (size_t) c.choose(80000));
    std::string ent(e.begin(), e.end());
    Bytes content = c.bytes(n + 4096);
    c.note(str("%u bytes, entropy of %zu bytes", n, ent.size()));
    Call a = call(n, ent, content, src::FILE_);
    check(!a.threw, "healthy-source-fails", str("%u bytes", n));
    check(a.out.size() == n, "wrong-size", str("%zu instead of %u", a.out.size(), n));
    if (n == 0) return;
    check(a.opened > 0, "source-not-used", "the operating system's randomness was not asked for");
    Call b = call(n, ent, content, src::FILE_);
    check(!b.threw && b.out == a.out, "not-a-function-of-source-and-entropy", "");
    const bool tiny = n < 12; // small outputs collide by chance
    unsigned flips = 0;
    for (int k = 0; k < 6 && !tiny; k++) {
        Bytes d = content;
        std::string x = ent, what;
        switch (c.choose(k == 0 ? 2 : 6)) {
        case 0: { size_t i = k == 0 ? n - 1 : (size_t) c.choose(n); d[i] ^= (uint8_t) (1u << c.choose(8)); what = str("byte %zu of the source", i); break; }
        case 1: { if (x.empty()) { x = "a"; what = "entropy added"; break; } size_t i = k == 0 ? x.size() - 1 : (size_t) c.choose(x.size()); x[i] = (char) (x[i] ^ (1 << c.choose(8))); what = str("byte %zu of the entropy", i); break; }
        case 2: { size_t i = (size_t) c.choose(n), j = (size_t) c.choose(n); if (d[i] == d[j]) continue; std::swap(d[i], d[j]); what = str("bytes %zu and %zu of the source swapped", i, j); break; }
        case 3: { size_t i = (size_t) c.choose(n), j = (size_t) c.choose(n); if (i == j) continue; uint8_t v = (uint8_t) (1 + c.choose(255)); d[i] ^= v; d[j] ^= v; what = str("bytes %zu and %zu of the source changed alike", i, j); break; }
        case 4: x += (char) c.choose(256); what = "entropy lengthened"; break;
        default: { if (x.size() < 2) continue; size_t i = (size_t) c.choose(x.size()), j = (size_t) c.choose(x.size()); if (x[i] == x[j]) continue; std::swap(x[i], x[j]); what = str("bytes %zu and %zu of the entropy swapped", i, j); }
        }
        Call f = call(n, x, d, src::FILE_);
        check(!f.threw && f.out.size() == n, "healthy-source-fails", what);
        check(f.out != a.out, "no-influence", what + str(", %u bytes requested, entropy of %zu bytes", n, ent.size()));
        flips++;
    }
    c.count("influence checks", flips);
    c.nontrivial(flips > 0 || tiny);
}
// Sizes and entropies beyond counters of 16 and 24 bits.
PROP(C15, long_requests, 1, 8, 60) {
    const uint64_t k = c.sweep(20);
    const bool longSeed = c.coin();
    uint32_t n = longSeed ? (uint32_t) longSize(c, k) : 48;
    Bytes e = c.bytes(longSeed && c.coin() ? c.size(300) : longSize(c, k + 1)), content = c.bytes(n + 4096);
    std::string ent(e.begin(), e.end());
    c.note(str("%u bytes, entropy of %zu bytes", n, ent.size()));
    Call a = call(n, ent, content, src::FILE_);
    check(!a.threw, "healthy-source-fails", c.desc);
    check(a.out.size() == n, "wrong-size", str("%zu instead of %u", a.out.size(), n));
    for (int t = 0; t < 4; t++) {
        const uint8_t v = (uint8_t) (1u << c.choose(8));
        const bool inSource = t == 0 || (t > 1 && c.coin());
        const size_t m = inSource ? n : ent.size();
        if (!m) continue;
        const size_t i = t < 2 ? m - 1 : (size_t) c.choose(m);
        if (inSource) content[i] ^= v; else ent[i] = (char) (ent[i] ^ v);
        const std::string what = str("byte %zu of the %s", i, inSource ? "source" : "entropy");
        Call f = call(n, ent, content, src::FILE_);
        check(!f.threw && f.out.size() == n, "healthy-source-fails", what);
        check(f.out != a.out, "no-influence", what + str(", %u bytes requested, entropy of %zu bytes", n, ent.size()));
        a = f;
    }
    Call s = call(n, ent, Bytes(content.begin(), content.begin() + (long) n - 1), src::FILE_);
    check(s.threw, "seed-without-randomness", "one byte missing");
    c.nontrivial();
}
PROP(C15, failing_source, 2500, 40000, 60) {
    uint32_t n = c.coin() ? c.pick({48u, 32u, 16u, 1u, 51u}) : 1 + (uint32_t) c.size(6000);
    Bytes e = c.bytes(c.size(100));
    std::string ent(e.begin(), e.end());
    size_t k = c.choose(4);
    Bytes content;
    src::Mode m = src::FILE_;
    std::string what;
    if (k == 0) { m = src::MISSING; what = "missing"; }
    else if (k == 1) { m = src::BROKEN; what = "unreadable"; }
    else { size_t have = c.coin() ? n - 1 : (size_t) c.choose(n); content = c.bytes(have); what = str("short (%zu of %u bytes)", have, n); }
    c.note(str("%u bytes, entropy of %zu bytes, source ", n, ent.size()) + what);
    Call a = call(n, ent, content, m);
    check(a.threw, "seed-without-randomness", "a seed was returned although the source is " + what);
    c.label(k == 0 ? "missing" : k == 1 ? "unreadable" : "short");
    c.nontrivial();
}
// The real source: sizes, and no repetition.
PROP(C15, real_source, 200, 4000, 60) {
    uint32_t n = 16 + (uint32_t) c.size(200);
    Bytes e = c.bytes(c.size(40));
    std::string ent(e.begin(), e.end());
    c.note(str("%u bytes", n));
    Bytes a = getRandomSeed(n, ent), b = getRandomSeed(n, ent);
    check(a.size() == n && b.size() == n, "wrong-size", "");
    check(a != b, "repeats", "two seeds are equal");
    c.nontrivial();
}
