#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
std::function<bool()> preflight;
static const size_t MAXREC = 1 << 16;
struct Shared { // one per worker / child, survives a crash of it
    volatile uint64_t index;
    volatile uint64_t started;   // wall clock second the case began
    volatile int state;          // 0 running, 1 pass, 2 fail, 3 finished all
    volatile size_t nrec;
    uint64_t rec[MAXREC];
    char kind[64];
    char msg[4096];
    char desc[8192];
};
static Shared *cur = nullptr;
static volatile int *stopFlag = nullptr;
static const char *FLAVOUR = "default";

std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
void fail(const std::string &k, const std::string &m) { throw Failure{k, m}; }
std::string str(const char *fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
std::string hexs(const Bytes &b, size_t max) {
    std::string s;
    for (size_t i = 0; i < b.size() && i < max; i++) s += str("%02x", b[i]);
    if (b.size() > max) s += str("..(%zu bytes)", b.size());
    return s;
}
static void record(uint64_t v) {
    if (cur && cur->nrec < MAXREC) { cur->rec[cur->nrec] = v; cur->nrec = cur->nrec + 1; }
}
uint64_t Ctx::choose(uint64_t n) {
    uint64_t v;
    if (fz) {
        size_t k = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= 0x100000000ULL ? 4 : 8;
        v = 0;
        for (size_t i = 0; i < k && fzn; i++, fzn--) v |= (uint64_t) *fz++ << (8 * i);
        if (n) v %= n;
    } else if (replaying) { v = pos < in->size() ? (*in)[pos] : 0; pos++; if (n) v %= n; }
    else { rng += 0x9E3779B97F4A7C15ULL; v = mix(rng); if (n) v = (uint64_t) (((unsigned __int128) v * n) >> 64); }
    record(v);
    return v;
}
uint64_t Ctx::sweep(uint64_t n) {
    if (replaying || fz) return choose(n);
    uint64_t v = index % n;
    record(v);
    return v;
}
size_t Ctx::weighted(std::initializer_list<unsigned> w) {
    uint64_t t = 0;
    for (auto x : w) t += x;
    uint64_t v = choose(t);
    size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return w.size() - 1;
}
Bytes Ctx::bytes(size_t n) {
    Bytes b(n, 0);
    if (!n) return b;
    uint64_t mode = fz && n <= 4096 ? 4 : 0;
    if (mode) record(mode); else mode = choose(16);
    if (mode == 4 && n > 4096) mode = 5;
    switch (mode) {
    case 4: for (auto &x : b) x = (uint8_t) choose(256); break;
    case 0: break;
    case 1: { uint8_t v = (uint8_t) choose(256); std::fill(b.begin(), b.end(), v); break; }
    case 2: { // few set bytes
        uint64_t k = choose(4) + 1;
        for (uint64_t i = 0; i < k; i++) { size_t p = (size_t) choose(n); b[p] = (uint8_t) choose(256); }
        break; }
    case 3: std::fill(b.begin(), b.end(), 0xFF); break;
    default: {
        uint64_t s = choose(0);
        for (size_t i = 0; i < n; i += 8) { s = mix(s + i); memcpy(&b[i], &s, n - i < 8 ? n - i : 8); }
    } }
    return b;
}
size_t Ctx::size(size_t max) {
    if (max == 0) return 0;
    switch (choose(4)) {
    case 0: return (size_t) choose(std::min<size_t>(max, 8) + 1);
    case 1: return (size_t) choose(std::min<size_t>(max, 300) + 1);
    case 2: { int64_t base = (int64_t) choose(max / 8 + 1) * 8 + (int64_t) choose(3) - 1; return (size_t) std::max<int64_t>(0, std::min<int64_t>((int64_t) max, base)); }
    default: return (size_t) choose(max + 1);
    }
}
void Ctx::note(const std::string &s) {
    if (desc.size() < 6000) { if (!desc.empty()) desc += "; "; desc += s; }
    if (cur) { strncpy(cur->desc, desc.c_str(), sizeof cur->desc - 1); }
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
static void *shm(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}
static void arm(const Prop &p, unsigned scale) {
#ifdef PBT_FUZZ
    return;
#endif
    itimerval it{};
    it.it_value.tv_sec = (time_t) (p.opt.cpu * scale);
    setitimer(ITIMER_PROF, &it, nullptr);
    if (p.opt.wall) alarm(p.opt.wall * scale);
}
static unsigned timeScale() { const char *s = getenv("PBT_TIME_SCALE"); return s ? (unsigned) atoi(s) : 1; }
static void disarm() { itimerval it{}; setitimer(ITIMER_PROF, &it, nullptr); alarm(0); }

// Runs one case in this process. Returns true when it passed; otherwise fills cur->kind/msg.
static bool runCase(const Prop &p, Ctx &c) {
    cur->nrec = 0;
    cur->state = 0;
    cur->desc[0] = cur->kind[0] = cur->msg[0] = 0;
    cur->index = c.index;
    std::string kind, msg;
    arm(p, timeScale());
    try {
        p.fn(c);
        disarm();
        cur->state = 1;
        return true;
    } catch (const Failure &f) { kind = f.kind; msg = f.msg; }
    catch (const std::exception &e) { kind = "unexpected-exception"; msg = e.what(); }
    catch (...) { kind = "unexpected-exception"; msg = "unknown type"; }
    disarm();
    strncpy(cur->kind, kind.c_str(), sizeof cur->kind - 1);
    cur->kind[sizeof cur->kind - 1] = 0;
    strncpy(cur->msg, msg.c_str(), sizeof cur->msg - 1);
    cur->msg[sizeof cur->msg - 1] = 0;
    cur->state = 2;
    return false;
}

struct Outcome { bool failed = false; std::string kind, msg, desc, err; std::vector<uint64_t> rec; };
static std::string tail(const std::string &path, size_t n) {
    std::ifstream f(path);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    return s.size() > n ? s.substr(0, n) : s;
}
static std::string statusKind(int st) {
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF || sg == SIGALRM) return "does-not-terminate";
        return str("crash-signal-%d", sg);
    }
    return str("crash-exit-%d", WEXITSTATUS(st));
}
static std::string scratch;
// Runs a choice sequence in a fresh child.
static Outcome runChild(const Prop &p, const std::vector<uint64_t> &choices, bool thorough, uint64_t index) {
    static Shared *sh = (Shared *) shm(sizeof(Shared));
    std::string errf = scratch + "/child.err";
    memset((void *) sh, 0, offsetof(Shared, rec));
    sh->desc[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        cur = sh;
        Ctx c;
        c.replaying = true;
        c.in = &choices;
        c.thorough = thorough;
        c.index = index;
        bool ok = runCase(p, c);
        _exit(ok ? 0 : 101);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 101) { o.kind = sh->kind; o.msg = sh->msg; }
    else { o.kind = statusKind(st); o.err = tail(errf, 6000); o.msg = "the process ended abnormally while running the case"; }
    o.desc = sh->desc;
    o.rec.assign(sh->rec, sh->rec + sh->nrec);
    return o;
}
static uint64_t propSeed(const Prop &p, uint64_t seed) {
    uint64_t h = mix(seed);
    for (const char *s = p.name; *s; s++) h = mix(h ^ (uint8_t) *s);
    for (const char *s = p.check; *s; s++) h = mix(h ^ (uint8_t) *s);
    for (const char *s = FLAVOUR; *s; s++) h = mix(h ^ (uint8_t) *s);
    return h;
}
static uint64_t caseRng(uint64_t hseed, uint64_t i) { return mix(hseed + i * 0x2545F4914F6CDD1DULL); }
// Runs several generated cases one after the other in one fresh child: what fails may depend on what ran before.
static Outcome runHistory(const Prop &p, const std::vector<uint64_t> &cases, uint64_t hseed, bool thorough) {
    static Shared *sh = (Shared *) shm(sizeof(Shared));
    std::string errf = scratch + "/child.err";
    memset((void *) sh, 0, offsetof(Shared, rec));
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        cur = sh;
        for (uint64_t i : cases) {
            Ctx c;
            c.thorough = thorough;
            c.index = i;
            c.rng = caseRng(hseed, i);
            if (!runCase(p, c)) _exit(101);
        }
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 101) { o.kind = sh->kind; o.msg = sh->msg; }
    else { o.kind = statusKind(st); o.err = tail(errf, 6000); o.msg = "the process ended abnormally while running the case"; }
    o.msg += str(" (case %llu, after others in the same process)", (unsigned long long) sh->index);
    o.desc = sh->desc;
    return o;
}
static std::string family(const std::string &k) { return k.rfind("crash", 0) == 0 ? "crash" : k; }

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, Outcome &bo, bool thorough, uint64_t index, double budget) {
    double end = now() + budget;
    int tries = 0;
    const int MAXTRY = 600;
    std::string fam = family(bo.kind);
    auto attempt = [&](const std::vector<uint64_t> &cand) {
        if (cand == best) return false;
        tries++;
        Outcome o = runChild(p, cand, thorough, index);
        if (o.failed && family(o.kind) == fam) {
            best = o.rec.size() && o.rec.size() < MAXREC ? o.rec : cand;
            bo = o;
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && tries < MAXTRY && now() < end) {
        improved = false;
        for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
            for (size_t i = 0; i + len <= best.size() && tries < MAXTRY && now() < end;) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
                if (attempt(c)) improved = true; else i += len;
            }
        for (size_t i = 0; i < best.size() && tries < MAXTRY && now() < end; i++) {
            if (!best[i]) continue;
            std::vector<uint64_t> c(best);
            c[i] = 0;
            if (attempt(c)) { improved = true; continue; }
            for (int k = 0; k < 12 && i < best.size() && best[i] > 1; k++) {
                c = best;
                c[i] = best[i] / 2;
                if (attempt(c)) improved = true; else break;
            }
            for (int k = 0; k < 3 && i < best.size() && best[i] > 0; k++) {
                c = best;
                c[i] = best[i] - 1;
                if (attempt(c)) improved = true; else break;
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) o += str("\\u%04x", ch);
        else o += (char) ch;
    }
    return o + "\"";
}
struct Merge {
    uint64_t evals = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, counters;
    std::vector<std::string> samples;
};

// A replay file: "key value" lines, choices last.
static void writeReplay(const std::string &path, const Prop &p, const Outcome &o, const std::vector<uint64_t> &ch, uint64_t seed, uint64_t index, bool thorough, const std::vector<uint64_t> &history = {}) {
    std::ofstream f(path);
    f << "property " << p.check << "\nflavour " << FLAVOUR << "\nprop " << p.name << "\nseed " << seed << "\nindex " << index << "\nthorough " << thorough << "\nkind " << o.kind << "\n";
    f << "message " << jstr(o.msg) << "\ncase " << jstr(o.desc) << "\n";
    if (!o.err.empty()) f << "stderr " << jstr(o.err) << "\n";
    if (!history.empty()) { f << "history"; for (auto v : history) f << " " << v; f << "\n"; }
    f << "choices";
    for (auto v : ch) f << " " << v;
    f << "\n";
}

static int runProp(const Prop &p, uint64_t seed, bool thorough, const std::string &replayDir, std::ostream &js, uint64_t casesOverride, double scale, double wallCap) {
    uint64_t N = casesOverride ? casesOverride : (uint64_t) ((double) (thorough ? p.opt.thorough : p.opt.quick) * scale + 0.999);
    unsigned W = (unsigned) std::min<uint64_t>(p.opt.jobs, N);
    if (!W) W = 1;
    uint64_t hseed = propSeed(p, seed);
    double t0 = now();
    std::vector<Shared *> sh;
    for (unsigned w = 0; w < W; w++) { sh.push_back((Shared *) shm(sizeof(Shared))); sh[w]->index = ~0ULL; }
    volatile int *stop = (volatile int *) shm(4096);
    stopFlag = stop;
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (unsigned w = 0; w < W; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            std::string errf = scratch + str("/w%u.err", w);
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            cur = sh[w];
            std::ofstream out(scratch + str("/w%u.out", w));
            std::map<std::string, uint64_t> labels, counters;
            uint64_t evals = 0, nsamples = 0;
            int code = 0;
            for (uint64_t i = w; i < N && !*stop; i += W) {
                if (now() - t0 > wallCap) { labels["stopped at the time cap"]++; break; }
                Ctx c;
                c.index = i;
                c.thorough = thorough;
                c.rng = caseRng(hseed, i);
                if (!runCase(p, c)) { *stop = 1; code = 101; break; }
                evals++;
                for (auto &l : c.labels) labels[l]++;
                for (auto &l : c.counters) counters[l.first] += l.second;
                if (c.nontriv) {
                    uint64_t h = 1469598103934665603ULL;
                    for (size_t k = 0; k < cur->nrec; k++) h = mix(h ^ cur->rec[k]);
                    out << "H " << h << "\n";
                    if (nsamples < 2 && !c.desc.empty()) { nsamples++; out << "S " << jstr(c.desc.substr(0, 700)) << "\n"; }
                }
            }
            out << "E " << evals << "\n";
            for (auto &l : labels) out << "L " << l.second << " " << l.first << "\n";
            for (auto &l : counters) out << "K " << l.second << " " << l.first << "\n";
            out.flush();
            cur->state = code ? 2 : 3;
            _exit(code);
        }
        pids.push_back(pid);
    }
    int failedWorker = -1, failStatus = 0;
    for (unsigned done = 0; done < W; done++) {
        int st;
        pid_t pid;
        while ((pid = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
        unsigned w = (unsigned) (std::find(pids.begin(), pids.end(), pid) - pids.begin());
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (failedWorker < 0 || sh[w]->index < sh[(unsigned) failedWorker]->index) { failedWorker = (int) w; failStatus = st; }
            *stop = 1;
        }
    }
    Merge m;
    for (unsigned w = 0; w < W; w++) {
        std::ifstream f(scratch + str("/w%u.out", w));
        std::string line;
        while (std::getline(f, line)) {
            if (line.size() < 3) continue;
            std::string rest = line.substr(2);
            if (line[0] == 'H') m.distinct.insert(strtoull(rest.c_str(), nullptr, 10));
            else if (line[0] == 'E') m.evals += strtoull(rest.c_str(), nullptr, 10);
            else if (line[0] == 'S') { if (m.samples.size() < 3) m.samples.push_back(rest); }
            else {
                char *e;
                uint64_t v = strtoull(rest.c_str(), &e, 10);
                (line[0] == 'L' ? m.labels : m.counters)[*e ? e + 1 : ""] += v;
            }
        }
    }
    int rc = 0;
    std::string viol;
    if (failedWorker >= 0) {
        Shared *s = sh[(unsigned) failedWorker];
        uint64_t index = s->index;
        Outcome o;
        o.failed = true;
        o.rec.assign(s->rec, s->rec + s->nrec);
        o.desc = s->desc;
        if (WIFEXITED(failStatus) && WEXITSTATUS(failStatus) == 101) { o.kind = s->kind; o.msg = s->msg; }
        else { o.kind = statusKind(failStatus); o.msg = "the process ended abnormally while running the case"; o.err = tail(scratch + str("/w%d.err", failedWorker), 6000); }
        fprintf(stderr, "[%s/%s] case %llu failed: %s: %s\n", p.check, p.name, (unsigned long long) index, o.kind.c_str(), o.msg.c_str());
        std::vector<uint64_t> ch = o.rec;
        // reproduce in a fresh process, shrink, then replay
        bool hang = o.kind == "does-not-terminate";
        int need = hang ? 1 : 3, tries = hang ? 2 : p.opt.schedule ? 40 : 10, hits = 0;
        auto confirm = [&](const std::vector<uint64_t> &c2) {
            hits = 0;
            int wanted = p.opt.schedule ? 1 : need;
            for (int i = 0; i < tries && hits < wanted; i++) {
                Outcome r = runChild(p, c2, thorough, index);
                if (r.failed) { hits++; if (family(r.kind) == family(o.kind)) { r.rec = c2; o = r; } }
            }
            return hits >= wanted;
        };
        bool ok = confirm(ch);
        if (ok && !hang && !p.opt.schedule) {
            Outcome so = o;
            std::vector<uint64_t> sc = shrink(p, ch, so, thorough, index, getenv("PBT_NO_SHRINK") ? 0 : 90);
            Outcome keep = o;
            if (confirm(sc)) ch = sc; else { o = keep; confirm(ch); }
        }
        std::vector<uint64_t> history;
        if (!ok && !p.opt.schedule && !hang) { // perhaps it takes the cases that ran before it in the same process
            std::vector<uint64_t> all;
            for (uint64_t i = (uint64_t) failedWorker; i <= index; i += W) all.push_back(i);
            double end = now() + 120;
            auto fails = [&](const std::vector<uint64_t> &h) {
                for (int i = 0; i < 2; i++) {
                    Outcome r = runHistory(p, h, hseed, thorough);
                    if (!r.failed) return false;
                    o = r;
                }
                return true;
            };
            if (all.size() > 1 && fails(all)) {
                for (size_t k = 2; k < all.size() && now() < end; k *= 2) { // the shortest recent stretch, then single cases
                    std::vector<uint64_t> t(all.end() - (long) k, all.end());
                    if (fails(t)) { all = t; break; }
                }
                for (size_t i = 0; i + 1 < all.size() && now() < end && all.size() <= 64;) {
                    std::vector<uint64_t> t(all);
                    t.erase(t.begin() + (long) i);
                    if (fails(t)) all = t; else i++;
                }
                fails(all);
                history = all;
                ok = true;
            }
        }
        if (ok || p.opt.schedule) {
            std::string path = replayDir + "/" + p.check + "-" + FLAVOUR + "-" + p.name + ".replay";
            writeReplay(path, p, o, ch, seed, index, thorough, history);
            fprintf(stderr, "[%s/%s] %s: %s\n  case: %s\n", p.check, p.name, o.kind.c_str(), o.msg.c_str(), o.desc.c_str());
            if (!o.err.empty()) fprintf(stderr, "%s\n", o.err.substr(0, 3000).c_str());
            viol = path;
            rc = 1;
        } else {
            fprintf(stderr, "[%s/%s] the failure did not reproduce (%d of %d replays): not reported\n", p.check, p.name, hits, tries);
            m.labels["failures that did not reproduce"]++;
        }
    }
    js << "{\"prop\":" << jstr(p.name) << ",\"flavour\":" << jstr(FLAVOUR) << ",\"planned\":" << N << ",\"evaluations\":" << m.evals << ",\"distinct_nontrivial\":" << m.distinct.size() << ",\"wall_s\":" << (now() - t0);
    js << ",\"labels\":{";
    bool first = true;
    for (auto &l : m.labels) { js << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    js << "},\"counters\":{";
    first = true;
    for (auto &l : m.counters) { js << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
    js << "},\"samples\":[";
    first = true;
    for (auto &s : m.samples) { js << (first ? "" : ",") << s; first = false; }
    js << "],\"violation\":" << (viol.empty() ? "null" : jstr(viol)) << "}";
    for (auto *s : sh) munmap(s, sizeof(Shared));
    munmap((void *) stop, 4096);
    stopFlag = nullptr;
    return rc;
}
// A replay file read back.
struct Saved {
    std::string name, chk, kind;
    std::vector<uint64_t> ch, history;
    uint64_t index = 0, seed = 1;
    bool thorough = false;
    const Prop *prop = nullptr;
    explicit Saved(const std::string &path) {
        std::ifstream f(path);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "prop") is >> name;
            else if (k == "property") is >> chk;
            else if (k == "index") is >> index;
            else if (k == "thorough") is >> thorough;
            else if (k == "seed") is >> seed;
            else if (k == "history") { uint64_t v; while (is >> v) history.push_back(v); }
            else if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
        }
        for (auto &p : registry()) if (name == p.name && chk == p.check) prop = &p;
    }
};
} // namespace pbt

using namespace pbt;
#ifdef PBT_FUZZ
// libFuzzer drives the choices of one property (PBT_CHECK, PBT_PROP). With PBT_DUMP the input is run in a child and
// its choices are written there as a replay file.
static const Prop *target;
static std::set<uint64_t> seenCases;
static uint64_t ran, nontrivialRuns;
static std::vector<std::string> fuzzSamples;
static void writeStats() {
    const char *o = getenv("PBT_STATS");
    if (!o) return;
    std::ofstream f(o);
    f << "{\"prop\":" << jstr(target->name) << ",\"flavour\":\"fuzz\",\"planned\":0,\"evaluations\":" << ran << ",\"distinct_nontrivial\":" << seenCases.size() << ",\"samples\":[";
    for (size_t i = 0; i < fuzzSamples.size(); i++) f << (i ? "," : "") << jstr(fuzzSamples[i]);
    f << "]}\n";
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *c = getenv("PBT_CHECK"), *n = getenv("PBT_PROP");
    for (auto &p : registry()) if (c && n && !strcmp(c, p.check) && !strcmp(n, p.name)) target = &p;
    if (!target || (preflight && !preflight())) _exit(0);
    cur = (Shared *) shm(sizeof(Shared));
    atexit(writeStats);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Ctx c;
    c.fz = d;
    c.fzn = n;
    c.index = 999;
    if (const char *path = getenv("PBT_DUMP")) {
        pid_t pid = fork();
        if (pid == 0) _exit(runCase(*target, c) ? 0 : 101);
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        Outcome o;
        o.kind = cur->kind; o.msg = cur->msg; o.desc = cur->desc;
        FLAVOUR = getenv("PBT_FLAVOUR");
        writeReplay(path, *target, o, std::vector<uint64_t>(cur->rec, cur->rec + cur->nrec), 1, 999, false);
        _exit(0);
    }
    if (!runCase(*target, c)) { fprintf(stderr, "%s: %s\n  case: %s\n", cur->kind, cur->msg, cur->desc); abort(); }
    ran++;
    if (c.nontriv) {
        uint64_t h = 1469598103934665603ULL;
        for (size_t k = 0; k < cur->nrec; k++) h = mix(h ^ cur->rec[k]);
        if (seenCases.size() < 2000000) seenCases.insert(h);
        nontrivialRuns++;
        if (fuzzSamples.size() < 3 && (nontrivialRuns & (nontrivialRuns - 1)) == 0 && nontrivialRuns > 1000) fuzzSamples.push_back(c.desc.substr(0, 700));
    }
    return 0;
}
#else
int main(int argc, char **argv) {
    std::string check, only, out, replayDir = ".", replay;
    uint64_t seed = 1, cases = 0;
    double cap = 1e9, scale = 1;
    bool thorough = false, list = false, confirmOnly = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--check") check = next();
        else if (a == "--only") only = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--out") out = next();
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--cases") cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--scale") scale = atof(next().c_str());
        else if (a == "--replay") replay = next();
        else if (a == "--confirm") { replay = next(); confirmOnly = true; }
        else if (a == "--flavour") FLAVOUR = strdup(next().c_str());
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    scratch = tmpl;
    setenv("PBT_SCRATCH", tmpl, 1);
    int rc = 0;
    if (list) { for (auto &p : registry()) printf("%s %s %llu %llu\n", p.check, p.name, (unsigned long long) p.opt.quick, (unsigned long long) p.opt.thorough); }
    else if (!replay.empty()) {
        Saved sv(replay);
        if (preflight) preflight();
        auto run = [&](const std::vector<uint64_t> &ch) { return sv.history.empty() ? runChild(*sv.prop, ch, sv.thorough, sv.index) : runHistory(*sv.prop, sv.history, propSeed(*sv.prop, sv.seed), sv.thorough); };
        if (!sv.prop) rc = 2;
        else if (confirmOnly) { // found by the fuzzer: does it fail here, three times over? Then shrink it.
            Outcome o;
            int hits = 0;
            for (int i = 0; i < 3; i++) { Outcome r = run(sv.ch); if (r.failed) { hits++; o = r; } }
            if (hits == 3) {
                Outcome so = o;
                std::vector<uint64_t> sc = o.kind == "does-not-terminate" ? sv.ch : shrink(*sv.prop, sv.ch, so, sv.thorough, sv.index, getenv("PBT_NO_SHRINK") ? 0 : 90);
                Outcome r = run(sc);
                if (r.failed) o = r; else sc = sv.ch;
                writeReplay(replay, *sv.prop, o, sc, sv.seed, sv.index, sv.thorough);
                fprintf(stderr, "[%s/%s] %s: %s\n  case: %s\n%s\n", sv.prop->check, sv.prop->name, o.kind.c_str(), o.msg.c_str(), o.desc.c_str(), o.err.substr(0, 3000).c_str());
                rc = 1;
            }
        } else {
            int tries = sv.prop->opt.schedule ? 40 : 1;
            for (int i = 0; i < tries && !rc; i++) {
                Outcome o = run(sv.ch);
                if (o.failed) { printf("FAIL %s: %s\n  case: %s\n%s\n", o.kind.c_str(), o.msg.c_str(), o.desc.c_str(), o.err.c_str()); rc = 1; }
            }
            if (!rc) printf("PASS\n");
        }
    } else {
        std::ofstream js;
        if (!out.empty()) js.open(out);
        js << "[";
        bool first = true, skip = preflight && !preflight();
        if (!skip)
            for (auto &p : registry()) {
                if (check != p.check || (!only.empty() && std::string(p.name).find(only) == std::string::npos)) continue;
                if (!first) js << ",\n";
                first = false;
                double t = now();
                int r = runProp(p, seed, thorough, replayDir, js, cases, scale, cap);
                fprintf(stderr, "  %s/%s (%s): %s %.1fs\n", p.check, p.name, FLAVOUR, r ? "VIOLATED" : "ok", now() - t);
                if (r) { rc = 1; break; }
            }
        js << "]\n";
    }
    std::string cmd = "rm -rf " + scratch; // scratch is a directory made by mkdtemp above
    if (scratch.rfind("/tmp/pbt.", 0) == 0 && system(cmd.c_str())) {}
    return rc;
}
#endif
