// A Rust wallet behind the C interface.
#pragma once
#include "rustcall.h"
namespace {
struct RInfo { uint32_t index, height; uint64_t number, remaining; Bytes pk, sk, addr, ext, seed, root, pkSeed, skSeed, prf, desc; };
struct RW { // a Rust wallet
    std::unique_ptr<Obj> o;
    Cfg g;
    bool basic = false;
    RInfo info() const {
        Rep r = need("reading a wallet", rust(36, Req().n(o->h)));
        RInfo i;
        i.index = (uint32_t) r.n(); i.height = (uint32_t) r.n(); i.number = r.n(); i.remaining = r.n();
        i.pk = r.s(); i.sk = r.s(); i.addr = r.s(); i.ext = r.s(); i.seed = r.s(); i.root = r.s(); i.pkSeed = r.s(); i.skSeed = r.s(); i.prf = r.s(); i.desc = r.s();
        return i;
    }
    Rep sign(const Bytes &m) const { return rust(33, Req().n(o->h).s(m)); }
    Rep set(uint32_t i) const { return rust(34, Req().n(o->h).n(i)); }
    Bytes mustSign(const Bytes &m) const { return need("sign", sign(m)).s(); }
    void mustSet(uint32_t i) const { Rep r = need("set_index", set(i)); check(r.n() == i, "index-after-jump", str("set_index(%u)", i)); }
};
RW mkRust(const Bytes &seed, const Cfg &g, bool basic = false) {
    Rep r = rust(basic ? 32 : 30, Req().s(seed).n(g.h).n((uint64_t) g.hash).n(g.w));
    return RW{std::unique_ptr<Obj>(new Obj(need("making a wallet", r).n())), g, basic};
}
std::string rnote(const RW &w, const Bytes &seed) { return std::string("Rust ") + (w.basic ? "basic " : "fast ") + show(w.g) + " seed=" + pbt::hexs(seed, 8); }
} // namespace
