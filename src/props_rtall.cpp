// C01 C05 C06 C08 C19 C20 C21 on Rust wallets with hundreds of thousands of leaves. The crate this build links has its
// hash functions and the one-time key below each leaf replaced (check.py, TALL_RUST), as the tall build does for C++.
#include "rustwallet.h"
#include "giant.h"

extern "C" void tall_hash(int32_t domain, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen) { ref::toyHash(domain, out, outlen, in, inlen); }
extern "C" void tall_stub(int32_t which, int32_t hash, uint8_t *out, const uint8_t *a, const uint8_t *pubseed, const uint32_t *addr) {
    uint8_t o[32];
    (which == 0 ? ref::stubPk : ref::stubLeaf)(o, hash, a, pubseed, addr);
    memcpy(out, o, 32);
}
bool rustAgrees() {
    for (int h = 0; h < 3; h++) {
        Cfg g{h, 4, 16};
        Bytes seed(48, (uint8_t) (3 + h)), m(70, 9);
        ref::Wallet r(seed, rp(g));
        for (bool basic : {false, true}) {
            RW w = mkRust(seed, g, basic);
            if (w.info().pk != r.pk() || w.mustSign(m) != r.sign(0, m)) return false;
        }
    }
    return true;
}

namespace {
// A history of signing, jumps (legal or not) and failing signatures.
void rhistory(Ctx &c, bool illegal, bool basic) {
    Cfg g = tallCfg(c, true);
    if (basic && g.h > 14 && c.index % 3) g.h = 12;
    Tall t(c, g);
    RW w = mkRust(t.seed, g, basic);
    c.note(rnote(w, t.seed));
    RInfo i0 = w.info();
    t.root = i0.root;
    check(i0.number == t.n && i0.height == g.h, "number-of-signatures", str("%llu", (unsigned long long) i0.number));
    uint32_t cur = 0;
    int64_t last = -1;
    unsigned sigs = 0, refused = 0, ops = basic ? 3 : 8 + (unsigned) c.choose(12);
    if (c.coin() || basic) { cur = c.choose(3) == 2 ? t.n - 1 - (uint32_t) c.choose(4) : ahead(c, 0, t.n); w.mustSet(cur); c.note(str("start at %u", cur)); }
    for (unsigned k = 0; k < ops; k++) {
        Bytes before = w.info().sk;
        if (basic || c.choose(3)) {
            Bytes m = genMsg(c, 60);
            Rep r = w.sign(m);
            if (cur >= t.n) { check(!r.ok(), "signs-when-exhausted", str("at %u of %u", cur, t.n)); refused++; }
            else {
                check(r.ok(), "refuses-legal-signature", str("index %u of %u: %s", cur, t.n, r.ok() ? "" : r.err().c_str()));
                Bytes s = r.s();
                c.note(str("sign %u", cur));
                check((int64_t) sigIndex(s) > last || basic, "index-reused", str("issued %u after %lld", sigIndex(s), (long long) last));
                t.valid(s, cur, m, "signature-differs");
                last = cur++;
                sigs++;
                before.clear();
            }
        } else {
            uint32_t x = cur < t.n ? ahead(c, cur, t.n) : 0;
            if (illegal && c.coin()) x = c.coin() && cur ? c.pick({cur - 1, cur >> 1, cur & 0xFFFFu, (uint32_t) c.choose(cur), 0u}) : c.pick({t.n, t.n + 1, cur | 0x80000000u, 0xFFFFFFFFu, t.n << 1 | cur, cur + 0x1000000u});
            bool legal = x >= cur && x < t.n;
            if (!legal && !illegal) continue;
            Rep r = w.set(x);
            c.note(str("set %u%s", x, legal ? "" : " (illegal)"));
            if (legal) { check(r.ok(), "refuses-legal-jump", str("%u at %u of %u", x, cur, t.n)); cur = x; before.clear(); }
            else { check(!r.ok(), x < cur ? "rewinds" : "jumps-beyond-the-tree", str("set_index(%u) at %u of %u was accepted", x, cur, t.n)); refused++; }
        }
        RInfo i = w.info();
        if (!before.empty()) check(i.sk == before, "failed-call-changed-state", "");
        check(i.index == cur, "index-disagrees", str("reports %u, the history says %u", i.index, cur));
        check(i.number == t.n && (cur > t.n || i.remaining == t.n - cur), "remaining", str("%llu at index %u of %u", (unsigned long long) i.remaining, cur, t.n));
    }
    c.label(str("Rust h=%u", g.h));
    c.count("Rust signatures", sigs);
    c.nontrivial(sigs >= 1 && (sigs >= 2 || refused || basic));
}
}
PROP(C01, rust_tall_wallets, 12, 100, 200) { rhistory(c, false, false); }
PROP(C05, rust_tall_histories, 16, 150, 200) { rhistory(c, true, false); }
PROP(C06, rust_tall_routes, 16, 150, 200) { rhistory(c, false, false); }
PROP(C06, rust_tall_basic, 9, 60, 200) { rhistory(c, false, true); }
PROP(C19, rust_tall_counts, 8, 60, 200) { rhistory(c, true, false); }
PROP(C21, rust_tall_histories, 16, 150, 200) { rhistory(c, true, c.index % 4 == 3); }
// The paths along a tree beyond 65536 leaves (all of them when thorough); keys of all heights.
PROP(C06, rust_tall_walk, 3, 12, 600) {
    Cfg g{(int) (c.sweep(3) + c.choose(3)) % 3, c.index == 0 ? 18u : c.pick({12u, 14u}), 4u};
    Tall t(c, g);
    ref::Wallet r(t.seed, rp(g));
    RW w = mkRust(t.seed, g);
    c.note("every index, " + rnote(w, t.seed));
    check(w.info().pk == r.pk(), "public-key", "");
    uint64_t seen = 0;
    for (uint32_t i = 0; i < t.n; i++) {
        if (t.n > 65536 && !c.thorough && i % 65536 == 1000) w.mustSet(i = i - 1000 + 64536); // around the places that matter
        Bytes s = w.mustSign({7});
        seen++;
        check(sigIndex(s) == i, "wrong-index", str("%u for %u", sigIndex(s), i));
        auto path = r.path(i);
        for (unsigned lv = 0; lv < g.h; lv++)
            check(memcmp(&s[s.size() - 32 * (g.h - lv)], path[lv].data(), 32) == 0, "authentication-path", str("index %u level %u", i, lv));
    }
    c.count("Rust paths compared", seen);
    c.label(str("Rust h=%u", g.h));
    c.nontrivial();
}
PROP(C04, rust_tall_keys, 8, 60, 300) {
    Cfg g = tallCfg(c);
    Tall t(c, g);
    ref::Wallet r(t.seed, rp(g));
    bool basic = c.choose(3) == 2;
    RW w = mkRust(t.seed, g, basic);
    c.note(rnote(w, t.seed));
    RInfo i = w.info();
    check(i.pk == r.pk(), "public-key", diff(i.pk, r.pk()));
    check(i.sk == r.sk(0), "secret-key", diff(i.sk, r.sk(0)));
    c.label(str("Rust h=%u", g.h));
    c.nontrivial();
}

// ---------------------------------------------------------------- in the middle of trees of height 24 to 30
namespace {
struct RGiant {
    std::unique_ptr<Obj> o;
    RGiant(Cfg g, const Bytes &key) : o(new Obj(need("an empty state", rust(44, Req().n(g.h).n((uint64_t) g.hash).n(g.w).s(key).n(ref::sigSize(g.h, g.w)))).n())) {}
    Bytes sign(const Bytes &m) { return need("sign", rust(33, Req().n(o->h).s(m))).s(); }
    bool jump(uint32_t i) { return rust(34, Req().n(o->h).n(i)).ok(); }
    Bytes key() const { return need("key", rust(36, Req().n(o->h))).s(); }
};
void rgiant(Ctx &c, bool illegal) { giant<RGiant>(c, illegal); }
}
PROP(C01, rust_giant_trees, 200, 8000, 60) { rgiant(c, false); }
PROP(C05, rust_giant_histories, 200, 8000, 60) { rgiant(c, true); }
PROP(C06, rust_giant_trees, 200, 8000, 60) { rgiant(c, false); }
PROP(C21, rust_giant_trees, 200, 8000, 60) { rgiant(c, true); }
PROP(C06, rust_giant_basic, 0, 1, 1200, 0, false, 1) {
    giantBasic(c, 26, [](const Cfg &g, Bytes &sk, const Bytes &m) {
        Rep r = need("sign", rust(45, Req().n(g.h).n((uint64_t) g.hash).n(g.w).s(sk).n(ref::sigSize(g.h, g.w)).s(m)));
        Bytes s = r.s();
        sk = r.s();
        return s;
    });
}
