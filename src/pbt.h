// A small property-based testing library: every random choice of a case is drawn from one recorded choice
// sequence, so a failing case is a list of integers that can be shrunk and replayed.
// Cases run in forked workers, so a crash, a sanitizer report or an endless loop is a failing case too.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {
typedef std::vector<uint8_t> Bytes;

struct Failure { std::string kind, msg; };

struct Ctx {
    // --- choices
    uint64_t choose(uint64_t n);                       // uniform in [0,n); n == 0: any 64-bit value
    uint64_t sweep(uint64_t n);                        // walks 0..n-1 over the cases of a run (recorded as a choice)
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) choose((uint64_t) (hi - lo) + 1); }
    bool coin(unsigned num = 1, unsigned den = 2) { return choose(den) >= den - num; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose(v.size())); }
    size_t weighted(std::initializer_list<unsigned> w);
    Bytes bytes(size_t n);                             // mostly pseudo-random, sometimes constant, shrinks to zeros
    Bytes bytesUpTo(size_t max) { return bytes((size_t) range(0, (int64_t) max)); }
    size_t size(size_t max);                           // log-uniform-ish size, favours small values and boundaries
    // --- reporting
    void note(const std::string &s);                   // human-readable description of the case
    void label(const std::string &s) { labels.insert(s); }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void excluded(const std::string &id) { labels.insert("excluded known finding " + id); }
    void count(const std::string &what, uint64_t n = 1) { counters[what] += n; }

    // --- state
    uint64_t index = 0;      // case number
    bool replaying = false;
    bool thorough = false;
    uint64_t rng = 0;
    const std::vector<uint64_t> *in = nullptr;
    const uint8_t *fz = nullptr; // coverage-guided runs: choices are read from these bytes
    size_t fzn = 0;
    size_t pos = 0;
    std::string desc;
    bool nontriv = false;
    std::set<std::string> labels;
    std::map<std::string, uint64_t> counters;
};

[[noreturn]] void fail(const std::string &kind, const std::string &msg);
inline void check(bool ok, const char *kind, const std::string &msg) { if (!ok) fail(kind, msg); }
#define CHECK_KIND(kind, cond, msg) do { if (!(cond)) ::pbt::fail(kind, std::string(#cond) + ": " + (msg)); } while (0)

struct Opt {
    uint64_t quick = 100, thorough = 1000;
    unsigned cpu = 60;        // seconds of CPU time after which a case counts as not terminating
    unsigned wall = 0;        // same for wall-clock time (deadlocks); 0: none
    bool schedule = false;    // the outcome may depend on the thread schedule
    unsigned jobs = 8;
};
struct Prop { const char *check, *name; void (*fn)(Ctx &); Opt opt; };
std::vector<Prop> &registry();
struct Reg { Reg(const char *c, const char *n, void (*f)(Ctx &), Opt o) { registry().push_back({c, n, f, o}); } };
#define PROP(CHECK, NAME, ...) \
    static void prop_##CHECK##_##NAME(::pbt::Ctx &c); \
    static ::pbt::Reg reg_##CHECK##_##NAME(#CHECK, #NAME, prop_##CHECK##_##NAME, ::pbt::Opt{__VA_ARGS__}); \
    static void prop_##CHECK##_##NAME(::pbt::Ctx &c)

std::string hexs(const Bytes &b, size_t max = 48);
std::string str(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t mix(uint64_t x);
// Runs before the properties of a process; returns false to skip everything (prints why).
extern std::function<bool()> preflight;
} // namespace pbt
