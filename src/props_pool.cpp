// C16 C17: pools of precomputed trees.
#include "h.h"
#include "long.h"
#define FAULT_THREADS
#include "faults.h"
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
#include <xmssPool.h>
using namespace hh;
using pbt::check;
using pbt::fail;
using pbt::str;

namespace {
Bytes treeSeed(const Bytes &base, uint64_t index) {
    Bytes b(base);
    for (uint64_t v = index + 1; v; v >>= 8) b.push_back((uint8_t) (v & 255));
    if (ref::useToy) { Bytes o(48); ref::toyHash(2, o.data(), 48, b.data(), b.size()); return o; }
    return ref::shake(256, b, 48);
}
uint64_t genStart(Ctx &c) {
    switch (c.choose(4)) {
    case 0: return c.choose(6);
    case 1: return c.pick({(uint64_t) 250, (uint64_t) 254, (uint64_t) 255, (uint64_t) 256, (uint64_t) 65533, (uint64_t) 65534, (uint64_t) 65535, (uint64_t) 65536, ((uint64_t) 1 << 24) - 2, ((uint64_t) 1 << 32) - 3, ((uint64_t) 1 << 32) + 7, ((uint64_t) 1 << 40) - 2, ((uint64_t) 1 << 48) - 3, ((uint64_t) 1 << 56) - 2, ((uint64_t) 1 << 63) - 1, ~(uint64_t) 0 - 400});
    case 2: return c.choose((uint64_t) 1 << (1 + c.choose(62)));
    default: return c.choose(1000);
    }
}
void checkTree(const std::shared_ptr<XmssFast> &t, const Bytes &base, uint64_t idx, unsigned h, bool full) {
    check(t != nullptr, "no-tree", str("tree %llu", (unsigned long long) idx));
    Bytes want = treeSeed(base, idx);
    check(t->getSeed() == want, "wrong-tree", str("tree %llu: seed %s, expected %s", (unsigned long long) idx, pbt::hexs(t->getSeed(), 8).c_str(), pbt::hexs(want, 8).c_str()));
    check(t->getHeight() == h, "wrong-height", str("tree %llu has height %d, the pool %u", (unsigned long long) idx, t->getHeight(), h));
    check(t->getIndex() == 0, "tree-not-fresh", str("tree %llu starts at %u", (unsigned long long) idx, t->getIndex()));
    Bytes m{1, (uint8_t) idx};
    if (full) { // the wallet it should be, in every respect
        XmssFast w(want, (unsigned char) h);
        check(t->getPK() == w.getPK() && t->getExtendedSeed() == w.getExtendedSeed() && t->getSK() == w.getSK(), "wrong-tree", str("tree %llu has other keys than its seed gives", (unsigned long long) idx));
        Bytes s = t->sign(m);
        check(s == w.sign(m), "wrong-tree", str("tree %llu signs differently", (unsigned long long) idx));
    }
}
} // namespace

// ---------------------------------------------------------------- C16
PROP(C16, sequences, 220, 4000, 120, 300) {
    Bytes base = c.bytes(c.choose(3) != 2 ? 48 : (size_t) c.choose(100));
    unsigned h = 4 + 2 * (unsigned) c.weighted({9, 1});
    uint64_t start = genStart(c);
    size_t cache = (size_t) c.choose(c.choose(4) != 3 ? 4 : 9);
    unsigned n = 1 + (unsigned) c.choose(5);
    c.note(str("base of %zu bytes, h=%u, start=%llu, cache=%zu, %u trees", base.size(), h, (unsigned long long) start, cache, n));
    std::unique_ptr<XmssPool> pool(new XmssPool(base, (unsigned char) h, start, cache));
    XmssPool &p = *pool;
    std::vector<std::pair<std::shared_ptr<XmssFast>, uint64_t>> kept;
    check(p.getCurrentIndex() == start, "current-index", str("%zu at the start", p.getCurrentIndex()));
    std::unique_ptr<XmssPool> other;
    uint64_t at = start, oat = 0;
    if (c.choose(4) == 3) { oat = start + c.choose(4); other.reset(new XmssPool(base, (unsigned char) h, oat, (size_t) c.choose(3))); c.label("two pools"); }
    for (unsigned i = 0; i < n; i++) {
        unsigned q = (unsigned) c.choose(3);
        for (unsigned k = 0; k < q; k++) {
            if (c.coin()) p.isAvailable();
            check(p.getCurrentIndex() == at, "current-index", str("%zu, the next tree is %llu", p.getCurrentIndex(), (unsigned long long) at));
        }
        if (cache == 0) check(!p.isAvailable(), "available-without-cache", "");
        auto tree = p.getNextTree();
        checkTree(tree, base, at, h, i == 0 || c.choose(3) == 2);
        for (auto &k : kept) check(k.first != tree, "tree-handed-out-twice", str("trees %llu and %llu are one object", (unsigned long long) k.second, (unsigned long long) at));
        kept.emplace_back(tree, at);
        at++;
        check(p.getCurrentIndex() == at, "current-index", str("%zu after handing out %llu", p.getCurrentIndex(), (unsigned long long) at - 1));
        if (other && c.coin()) { checkTree(other->getNextTree(), base, oat, h, false); oat++; check(other->getCurrentIndex() == oat, "current-index", "second pool"); }
    }
    if (cache && c.choose(4) == 3) { // a prepared tree is announced eventually
        bool got = false;
        for (int k = 0; k < 4000 && !got; k++) { got = p.isAvailable(); if (!got) std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
        check(got, "never-available", "no tree was announced in twenty seconds");
        c.label("availability awaited");
    }
    if (c.choose(3) == 2) { // the trees are the user's: neither the pool's end nor each other's use shows in them
        if (c.coin()) pool.reset();
        for (size_t k = kept.size(); k-- > 0;) {
            XmssFast &t = *kept[k].first;
            const uint32_t i = t.getIndex();
            XmssFast w(treeSeed(base, kept[k].second), (unsigned char) h);
            if (i) w.setIndex(i);
            const Bytes m{(uint8_t) k, 9};
            check(t.sign(m) == w.sign(m) && t.getIndex() == i + 1, "tree-changed-later", str("tree %llu", (unsigned long long) kept[k].second));
        }
        c.label("trees used at the end");
    }
    c.label(str("cache=%zu", cache));
    if (start + n >= 255) c.label("multi-byte index");
    c.count("trees", n);
    c.nontrivial();
}
PROP(C16, large_caches, 10, 150, 120, 300) {
    Bytes base = c.bytes(c.choose(3) != 2 ? 48 : c.pick<size_t>({1000, 70000, 1u << 20}));
    static const size_t sizes[] = {17, 33, 65, 130, 257, 20, 48};
    const size_t cache = sizes[c.sweep(7)] + (size_t) c.choose(3);
    const uint64_t start = c.coin() ? genStart(c) : c.pick<uint64_t>({0, 1, 250, 65530, (1ull << 32) - 20});
    const unsigned n = c.coin() ? (unsigned) cache + 2 : 3 + (unsigned) c.choose(20);
    c.note(str("base of %zu bytes, start=%llu, cache=%zu, %u trees", base.size(), (unsigned long long) start, cache, n));
    XmssPool p(base, 4, start, cache);
    for (unsigned i = 0; i < n; i++) {
        if (c.choose(8) == 7) p.isAvailable();
        checkTree(p.getNextTree(), base, start + i, 4, false);
        check(p.getCurrentIndex() == start + i + 1, "current-index", str("%zu after handing out %llu", p.getCurrentIndex(), (unsigned long long) start + i));
    }
    c.label(str("cache>%d", cache > 128 ? 128 : cache > 64 ? 64 : cache > 32 ? 32 : 16));
    c.count("trees", n);
    c.nontrivial();
}
// The same trees whatever the cache size and the starting point.
PROP(C16, cache_and_start_do_not_matter, 90, 1500, 120, 300) {
    Bytes base = c.bytes(48);
    uint64_t first = genStart(c);
    unsigned n = 2 + (unsigned) c.choose(3);
    c.note(str("trees %llu..+%u", (unsigned long long) first, n));
    std::map<uint64_t, Bytes> seen;
    unsigned pools = 2 + (unsigned) c.choose(2);
    for (unsigned k = 0; k < pools; k++) {
        uint64_t start = first + c.choose(n);
        size_t cache = (size_t) c.choose(5);
        XmssPool p(base, 4, start, cache);
        for (uint64_t i = start; i < first + n; i++) {
            auto t = p.getNextTree();
            checkTree(t, base, i, 4, false);
            Bytes pk = t->getPK();
            if (seen.count(i)) check(seen[i] == pk, "tree-depends-on-the-pool", str("tree %llu", (unsigned long long) i));
            for (auto &o : seen) if (o.first != i) check(o.second != pk, "trees-repeat", str("trees %llu and %llu", (unsigned long long) o.first, (unsigned long long) i));
            seen[i] = pk;
        }
    }
    c.nontrivial();
}
// Pools side by side: what one is asked for does not show in the others.
PROP(C16, pools_side_by_side, 120, 2000, 120, 300) {
    struct P { Bytes base; unsigned h; uint64_t at; std::unique_ptr<XmssPool> p; };
    std::vector<P> ps(2 + (size_t) c.choose(2));
    Bytes base = c.bytes(48);
    uint64_t start = genStart(c);
    bool caches = c.coin();
    for (size_t k = 0; k < ps.size(); k++) {
        P &p = ps[k];
        p.base = base;
        if (k && c.choose(3)) { // nearly the same base seed
            size_t b = (size_t) c.choose(c.choose(3) != 2 ? 384 : 8);
            if (c.choose(4) == 3) p.base.resize((size_t) c.choose(2) ? 47 : 49, 7); else p.base[b / 8] ^= (uint8_t) (1u << (b % 8));
        }
        p.h = toyFlavour ? 4 + 2 * (unsigned) c.choose(3) : 4 + 2 * (unsigned) c.weighted({6, 1});
        p.at = start + c.choose(2) * c.choose(3);
        p.p.reset(new XmssPool(p.base, (unsigned char) p.h, p.at, caches ? (size_t) c.choose(3) : 0));
        c.note(str("pool %zu: base %s, h=%u, start %llu", k, pbt::hexs(p.base, 4).c_str(), p.h, (unsigned long long) p.at));
    }
    unsigned n = 3 + (unsigned) c.choose(5);
    for (unsigned i = 0; i < n; i++) {
        P &p = ps[(size_t) c.choose(ps.size())];
        checkTree(p.p->getNextTree(), p.base, p.at, p.h, c.choose(3) == 2);
        p.at++;
        for (auto &q : ps) check(q.p->getCurrentIndex() == q.at, "current-index", str("%zu, expected %llu", q.p->getCurrentIndex(), (unsigned long long) q.at));
    }
    c.count("trees", n);
    c.nontrivial();
}

// A height no wallet has: the request is refused, and no other tree is handed out instead.
PROP(C16, heights_without_trees, 60, 600, 60, 240) {
    static const unsigned bad[] = {0, 1, 2, 3, 5, 7, 9, 11, 31, 32, 33, 63, 64, 66, 127, 128, 132, 136, 255};
    const unsigned h = bad[c.sweep(19)];
    const Bytes base = c.bytes(48);
    const size_t cache = (size_t) c.choose(4);
    c.note(str("h=%u cache=%zu", h, cache));
    try {
        XmssPool p(base, (unsigned char) h, genStart(c), cache);
        for (unsigned k = 0; k < 3; k++) {
            if (c.coin()) p.isAvailable();
            bool refused = false;
            try { p.getNextTree(); } catch (const std::invalid_argument &) { refused = true; }
            check(refused, "impossible-tree", str("a tree of height %u", h));
        }
    } catch (const std::invalid_argument &) { c.label("refused at once"); }
    c.nontrivial();
}
#ifdef FAULTS
// Trees cannot be prepared ahead because no thread can be started: a call may fail for that, but loses no tree.
PROP(C16, threads_run_short, 150, 3000, 60, 240) {
    const Bytes base = c.bytes(48);
    const uint64_t start = genStart(c);
    const size_t cache = 1 + (size_t) c.choose(4);
    c.note(str("start=%llu cache=%zu", (unsigned long long) start, cache));
    struct Off { ~Off() { faults::threadsLeft = -1; } } off;
    const auto arm = [&] { const int left = (int) c.choose(8); faults::threadsLeft = left < 5 ? left : -1; return left < 5 ? left : -1; };
    const int before = faults::threadsRefused;
    std::unique_ptr<XmssPool> p;
    std::string route = str("threads %d", arm());
    try { p.reset(new XmssPool(base, 4, start, cache)); } catch (const std::system_error &) { c.label("no pool"); return; }
    uint64_t at = start;
    const unsigned n = 2 + (unsigned) c.choose(7);
    for (unsigned i = 0; i < n; i++) {
        if (c.coin()) route += str(", threads %d", arm());
        if (c.coin()) p->isAvailable();
        std::shared_ptr<XmssFast> t;
        try { t = p->getNextTree(); } catch (const std::system_error &) {}
        faults::threadsLeft = -1;
        route += t ? str(", took %llu", (unsigned long long) at) : ", failed";
        c.note(route);
        if (t) { checkTree(t, base, at, 4, c.choose(3) == 2); at++; }
        check(p->getCurrentIndex() == at, "current-index", str("%zu, the next tree is %llu: %s", p->getCurrentIndex(), (unsigned long long) at, route.c_str()));
    }
    c.count("threads refused", (uint64_t) (faults::threadsRefused - before));
    c.nontrivial(faults::threadsRefused > before && at > start);
}
#endif

// ---------------------------------------------------------------- C17
PROP(C17, concurrent_users, 70, 1500, 240, 240, true, 2) {
    Bytes base = c.bytes(48);
    uint64_t start = genStart(c);
    size_t cache = (size_t) c.choose(5);
    unsigned users = 2 + (unsigned) c.choose(5), each = 1 + (unsigned) c.choose(4), watchers = (unsigned) c.choose(3);
    c.note(str("start=%llu cache=%zu, %u threads taking %u trees each, %u watching", (unsigned long long) start, cache, users, each, watchers));
    std::mutex mu;
    std::map<uint64_t, int> byIndex;
    std::vector<std::string> problems;
    std::map<Bytes, uint64_t> expected;
    for (uint64_t i = 0; i < users * each + 8; i++) expected[treeSeed(base, start + i)] = start + i;
    std::atomic<int> ready{0};
    std::atomic<bool> done{false};
    {
        XmssPool p(base, 4, start, cache);
        std::vector<std::thread> ts;
        for (unsigned u = 0; u < users; u++)
            ts.emplace_back([&] {
                ready++;
                while (ready < (int) users) std::this_thread::yield();
                uint64_t last = 0;
                for (unsigned i = 0; i < each; i++) {
                    std::string bad;
                    uint64_t idx = 0;
                    bool have = false;
                    try {
                        auto t = p.getNextTree();
                        if (!t) bad = "no tree";
                        else {
                            auto it = expected.find(t->getSeed());
                            if (it == expected.end()) bad = "a tree that is not of this pool's next ones";
                            else {
                                idx = it->second;
                                have = true;
                                if (i && idx <= last) bad = "one thread got an earlier tree after a later one";
                                last = idx;
                                Bytes m{7}, s = t->sign(m);
                                if (!XmssBase::verify(m, s, t->getPK())) bad = "a tree whose signature does not verify";
                            }
                        }
                        if (p.getCurrentIndex() < idx + 1) bad = "current index behind a tree already handed out";
                    } catch (const std::exception &e) { bad = std::string("exception: ") + e.what(); }
                    std::lock_guard<std::mutex> l(mu);
                    if (have) byIndex[idx]++;
                    if (!bad.empty()) problems.push_back(bad);
                }
            });
        for (unsigned k = 0; k < watchers; k++)
            ts.emplace_back([&] {
                size_t last = start;
                while (!done) {
                    size_t now = p.getCurrentIndex();
                    p.isAvailable();
                    if (now < last || now > start + users * each) { std::lock_guard<std::mutex> l(mu); problems.push_back("current index out of order"); break; }
                    last = now;
                    std::this_thread::yield();
                }
            });
        for (unsigned u = 0; u < users; u++) ts[u].join();
        done = true;
        for (size_t k = users; k < ts.size(); k++) ts[k].join();
        check(problems.empty(), "concurrent-use", problems.empty() ? "" : problems[0]);
        check(p.getCurrentIndex() == start + users * each, "final-index", str("%zu, expected %llu", p.getCurrentIndex(), (unsigned long long) (start + users * each)));
    } // destroyed while trees may still be in preparation
    check(byIndex.size() == users * each, "tree-skipped-or-repeated", str("%zu different trees for %u requests", byIndex.size(), users * each));
    for (auto &b : byIndex) {
        check(b.second == 1, "tree-handed-out-twice", str("tree %llu", (unsigned long long) b.first));
        check(b.first < start + users * each, "tree-skipped", str("tree %llu was handed out of %u from %llu", (unsigned long long) b.first, users * each, (unsigned long long) start));
    }
    c.label(str("cache=%zu", cache)); c.label(str("%u threads", users));
    c.count("trees", users * each);
    c.nontrivial(users * each > 2);
}
#ifdef FAULTS
// The same while starting threads fails now and then.
PROP(C17, users_while_threads_run_short, 60, 1500, 240, 240, true, 2) {
    const Bytes base = c.bytes(48);
    const uint64_t start = genStart(c);
    const size_t cache = 1 + (size_t) c.choose(4);
    const unsigned users = 2 + (unsigned) c.choose(4), each = 1 + (unsigned) c.choose(4);
    const int left = (int) c.choose(8), again = (int) c.choose(4);
    c.note(str("start=%llu cache=%zu, %u threads taking %u trees each, %d threads can be started, then %d", (unsigned long long) start, cache, users, each, left, again));
    struct Off { ~Off() { faults::threadsLeft = -1; } } off;
    const int before = faults::threadsRefused;
    std::mutex mu;
    std::map<Bytes, int> got;
    std::vector<std::string> problems;
    std::atomic<bool> go{false};
    {
        XmssPool p(base, 4, start, cache);
        std::vector<std::thread> ts;
        for (unsigned u = 0; u < users; u++)
            ts.emplace_back([&] {
                while (!go) std::this_thread::yield();
                for (unsigned i = 0, tries = 0; i < each && tries < 200; tries++) {
                    std::string bad;
                    try {
                        auto t = p.getNextTree();
                        i++;
                        std::lock_guard<std::mutex> l(mu);
                        got[t->getSeed()]++;
                    } catch (const std::system_error &) { // may be said, and the call repeated
                        if (tries > 20) faults::threadsLeft = again ? again : -1;
                    } catch (const std::exception &e) { bad = std::string("exception: ") + e.what(); i++; }
                    std::lock_guard<std::mutex> l(mu);
                    if (!bad.empty()) problems.push_back(bad);
                }
            });
        faults::threadsLeft = left;
        go = true;
        for (auto &t : ts) t.join();
        faults::threadsLeft = -1;
        check(problems.empty(), "concurrent-use", problems.empty() ? "" : problems[0]);
        check(p.getCurrentIndex() == start + users * each, "final-index", str("%zu, expected %llu", p.getCurrentIndex(), (unsigned long long) (start + users * each)));
    }
    for (uint64_t i = 0; i < users * each; i++) {
        const Bytes s = treeSeed(base, start + i);
        check(got.count(s) && got[s] == 1, got.count(s) ? "tree-handed-out-twice" : "tree-skipped", str("tree %llu of %u from %llu", (unsigned long long) (start + i), users * each, (unsigned long long) start));
    }
    c.count("threads refused", (uint64_t) (faults::threadsRefused - before));
    c.nontrivial(faults::threadsRefused > before);
}
#endif
PROP(C17, early_destruction, 50, 1000, 240, 240, true, 2) {
    Bytes base = c.bytes(48);
    size_t cache = (size_t) c.choose(9);
    unsigned taken = (unsigned) c.choose(4);
    c.note(str("cache=%zu, %u trees taken, then destroyed", cache, taken));
    std::vector<std::shared_ptr<XmssFast>> kept;
    {
        XmssPool p(base, (unsigned char) (4 + 2 * c.choose(2)), 3, cache);
        for (unsigned i = 0; i < taken; i++) kept.push_back(p.getNextTree());
        if (c.coin()) p.isAvailable();
    }
    for (auto &t : kept) { Bytes m{1}, s = t->sign(m); check(XmssBase::verify(m, s, t->getPK()), "tree-unusable-after-its-pool", ""); } // outlives the pool
    for (unsigned i = 0; i < taken; i++) check(kept[i]->getSeed() == treeSeed(base, 3 + i), "wrong-tree", str("tree %u", 3 + i));
    c.nontrivial(cache > 0);
}
