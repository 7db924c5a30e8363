// C26: the JavaScript bindings, compiled natively against a recording binding layer (stubs/emscripten).
#include "h.h"
#include "mock_pq.h"
#include <dilithium.h>
#include <emscripten/bind.h>
#include <hashing.h>
#include <kyber.h>
#include <misc.h>
#include <qrlDescriptor.h>
#include <qrlHelper.h>
using namespace hh;
using emscripten::Args;
using emscripten::Value;
using pbt::check;
using pbt::fail;
using pbt::str;

// ---- the registry behind the stub
namespace emscripten {
std::map<std::string, Module> &modules() { static std::map<std::string, Module> m; return m; }
static Module *cur = nullptr;
Module &currentModule() { return *cur; }
ModuleScope::ModuleScope(const char *file, void (*f)()) {
    std::string n(file);
    n = n.substr(n.rfind('/') + 1);
    cur = &modules()[n.find("dil") != std::string::npos ? "dil" : n.find("kyb") != std::string::npos ? "kyb" : "qrl"];
    f();
}
} // namespace emscripten

namespace {
struct Out {
    bool ok = false;
    Value v;
    std::string why;
};
std::string show(const Out &o) {
    if (!o.ok) return "refused (" + o.why + ")";
    switch (o.v.kind) {
    case Value::NUM: return str("%g", o.v.num);
    case Value::STR: return str("\"%s\" (%zu chars)", o.v.str.substr(0, 60).c_str(), o.v.str.size());
    case Value::VEC: return pbt::hexs(o.v.vec);
    default: return o.v.kind == Value::OBJ ? "an object" : "nothing";
    }
}
template<class F> Out run(F f) {
    Out o;
    try { o.v = f(); o.ok = true; }
    catch (const emscripten::BindingError &e) { fail("binding", e.what()); }
    catch (const std::exception &e) { o.why = e.what(); }
    catch (...) { fail("wrong-error", "not a std::exception"); }
    return o;
}
bool same(const Out &a, const Out &b) {
    if (a.ok != b.ok) return false;
    if (!a.ok) return true;
    if (a.v.kind != b.v.kind) return false;
    return a.v.num == b.v.num && a.v.str == b.v.str && a.v.vec == b.v.vec;
}
emscripten::Module &mod(const char *m) {
    auto i = emscripten::modules().find(m);
    if (i == emscripten::modules().end()) fail("module-missing", m);
    return i->second;
}
Out fn(const char *m, const char *name, const Args &a) {
    auto &t = mod(m).functions;
    auto i = t.find(name);
    if (i == t.end()) fail("export-missing", str("%s.%s", m, name));
    return run([&] { return i->second(a); });
}
emscripten::ClassRec &cls(const char *m, const char *c) {
    auto i = mod(m).classes.find(c);
    if (i == mod(m).classes.end()) fail("export-missing", str("%s.%s", m, c));
    return i->second;
}
Out st(const char *m, const char *c, const char *name, const Args &a) {
    auto &t = cls(m, c).statics;
    auto i = t.find(name);
    if (i == t.end()) fail("export-missing", str("%s.%s.%s", m, c, name));
    return run([&] { return i->second(a); });
}
Out me(const char *m, const char *c, const Value &self, const char *name, const Args &a = {}) {
    auto &t = cls(m, c).methods;
    auto i = t.find(name);
    if (i == t.end()) fail("export-missing", str("%s.%s#%s", m, c, name));
    return run([&] { return i->second(self, a); });
}
void agree(const char *what, const Out &js, const Out &core, const std::string &in = "") {
    if (!same(js, core)) fail(js.ok && !core.ok ? "malformed-accepted" : !js.ok && core.ok ? "good-refused" : "different", std::string(what) + " gives " + show(js) + ", the core " + show(core) + (in.empty() ? "" : " for " + in));
}
Out good(const char *what, Out o) {
    if (!o.ok) fail("good-refused", std::string(what) + ": " + o.why);
    return o;
}
void expect(const char *what, const Out &js, const Value &v) {
    Out w;
    w.ok = true;
    w.v = v;
    agree(what, js, w);
}
Out refused() { return Out(); }
std::string quote(const std::string &s) {
    std::string o;
    for (unsigned char ch : s.substr(0, 160)) if (ch < 32 || ch > 126) o += str("\\x%02x", ch); else o += (char) ch;
    return "\"" + o + "\"";
}
// Damages a string in one of many ways.
std::string damage(Ctx &c, std::string s) {
    switch (c.choose(9)) {
    case 0: if (!s.empty()) s.pop_back(); break;
    case 1: s += c.coin() ? "0" : "00"; break;
    case 2: if (!s.empty()) s[(size_t) c.choose(s.size())] = "gGxX -_.\n\t\x80\xff/:@`"[c.choose(16)]; break;
    case 3: if (!s.empty()) s[(size_t) c.choose(s.size())] = "0123456789abcdefABCDEF"[c.choose(22)]; break;
    case 4: s.resize((size_t) c.choose(s.size() + 1)); break;
    case 5: for (auto &ch : s) ch = (char) toupper(ch); break;
    case 6: s.insert((size_t) c.choose(s.size() + 1), c.coin() ? "0x" : " "); break;
    case 7: if (!s.empty()) s.erase(0, 1 + (size_t) c.choose(3)); break;
    default: if (s.size() > 1) std::swap(s[(size_t) c.choose(s.size())], s[(size_t) c.choose(s.size())]);
    }
    return s;
}
std::string text(Ctx &c, size_t max) {
    Bytes b = c.bytes(c.size(max));
    return std::string(b.begin(), b.end());
}
Bytes genPk(Ctx &c) {
    Bytes pk = c.bytes(67);
    pk[0] = (uint8_t) c.choose(3);
    pk[1] = (uint8_t) (2 + c.choose(14));
    pk[2] = 0;
    return pk;
}
std::string up(std::string s) { for (auto &ch : s) ch = (char) toupper(ch); return s; }
} // namespace

// ---- codecs and hashes
PROP(C26, codecs_and_hashes, 15000, 200000, 30) {
    Bytes b = c.bytes(c.size(400));
    std::string h = ref::hex(b);
    c.note(pbt::hexs(b));
    for (const char *m : {"qrl", "dil", "kyb"}) expect((std::string(m) + ".bin2hstr").c_str(), fn(m, "bin2hstr", {b}), h);
    expect("hstr2bin", fn("qrl", "hstr2bin", {c.coin() ? h : up(h)}), b);
    std::string bad = c.coin(3, 4) ? damage(c, h) : text(c, 60);
    Bytes dec;
    Out want;
    want.ok = ref::unhex(bad, dec);
    want.v = dec;
    agree("hstr2bin", fn("qrl", "hstr2bin", {bad}), want, quote(bad));
    std::string t = text(c, 200);
    expect("str2bin", fn("qrl", "str2bin", {t}), Bytes(t.begin(), t.end()));
    ref::B32 s2 = ref::sha256(b);
    expect("sha2_256", fn("qrl", "sha2_256", {b}), Bytes(s2.begin(), s2.end()));
    size_t n = c.size(500);
    expect("shake128", fn("qrl", "shake128", {(unsigned) n, b}), ref::shake(128, b, n));
    // mnemonics
    Bytes mb = c.bytes(3 * (size_t) c.choose(20));
    std::string mn = ref::mnemonic(mb);
    expect("bin2mnemonic", fn("qrl", "bin2mnemonic", {mb}), mn);
    expect("mnemonic2bin", fn("qrl", "mnemonic2bin", {mn}), mb);
    Out a = fn("qrl", "bin2mnemonic", {b}), k = run([&] { return Value(bin2mnemonic(b)); });
    agree("bin2mnemonic", a, k, pbt::hexs(b));
    if (b.size() % 3) check(!a.ok, "malformed-accepted", str("bin2mnemonic of %zu bytes", b.size()));
    std::string bm = c.coin(3, 4) ? damage(c, mn) : text(c, 60);
    agree("mnemonic2bin", fn("qrl", "mnemonic2bin", {bm}), run([&] { return Value(mnemonic2bin(bm)); }), quote(bm));
    c.nontrivial(!b.empty());
}

// ---- addresses
PROP(C26, addresses, 25000, 300000, 30) {
    Bytes pk = genPk(c), ad = ref::address(pk);
    std::string hex = ref::hex(ad), q = std::string(1, c.coin(3, 4) ? 'Q' : "q0 Z"[c.choose(4)]) + hex;
    c.note(q);
    expect("getAddress", fn("qrl", "getAddress", {ref::hex(pk)}), hex);
    expect("getAddressRaw", fn("qrl", "getAddressRaw", {pk}), ad);
    expect("validateAddressRaw", fn("qrl", "validateAddressRaw", {ad}), 1);
    std::string qq = c.coin(1, 4) ? q[0] + up(hex) : q;
    expect("validateAddress", fn("qrl", "validateAddress", {qq}), 1);
    expect("getHashFunction", fn("qrl", "getHashFunction", {qq}), (int) pk[0]);
    expect("getSignatureType", fn("qrl", "getSignatureType", {qq}), 0);
    expect("getHeight", fn("qrl", "getHeight", {qq}), 2 * (int) pk[1]);
    // any string at all
    std::string s;
    switch (c.choose(6)) {
    case 0: s = text(c, 100); break;
    case 1: s = "Q" + ref::hex(c.bytes(c.size(60))); break;
    case 2: { Bytes h = c.bytes(39); h[0] = (uint8_t) (c.choose(4) | (c.coin() ? 0 : c.choose(16) << 4)); h[1] = (uint8_t) c.choose(256); if (c.coin()) { h[1] &= 15; h[2] = 0; }
        if (c.coin()) { ref::B32 d = ref::sha256(h.data(), 35); std::copy(d.end() - 4, d.end(), h.begin() + 35); }
        s = "Q" + ref::hex(h); break; }
    case 3: s = q.substr(0, (size_t) c.choose(12)); break;
    default: s = damage(c, q);
    }
    c.note(" and " + quote(s));
    Bytes dec;
    bool readable = s.size() >= 7 && ref::unhex(s.substr(1), dec);
    Out valid = fn("qrl", "validateAddress", {s});
    if (!readable) agree("validateAddress", valid, refused(), quote(s));
    else agree("validateAddress", valid, run([&] { return Value(QRLHelper::addressIsValid(dec)); }), quote(s));
    if (valid.ok && !ref::addressValid(dec)) check(valid.v.num == 0, "invalid-address-accepted", quote(s));
    auto field = [&](const char *name, int (*get)(QRLDescriptor)) {
        Out js = fn("qrl", name, {s});
        if (!readable || dec.size() < 3) return agree(name, js, refused(), quote(s));
        Bytes d3(dec.begin(), dec.begin() + 3);
        agree(name, js, run([&] { return Value(get(QRLDescriptor::fromBytes(d3))); }), quote(s));
    };
    field("getHashFunction", [](QRLDescriptor d) { return (int) d.getHashFunction(); });
    field("getSignatureType", [](QRLDescriptor d) { return (int) d.getSignatureType(); });
    field("getHeight", [](QRLDescriptor d) { return (int) d.getHeight(); });
    Bytes x = c.coin() ? dec : c.bytes(c.size(80));
    agree("validateAddressRaw", fn("qrl", "validateAddressRaw", {x}), run([&] { return Value(QRLHelper::addressIsValid(x)); }), pbt::hexs(x));
    agree("getAddressRaw", fn("qrl", "getAddressRaw", {x}), run([&] { return Value(QRLHelper::getAddress(x)); }), pbt::hexs(x));
    // addresses of malformed keys
    std::string e = c.coin(3, 4) ? damage(c, ref::hex(pk)) : text(c, 150);
    Bytes eb;
    Out want;
    if (ref::unhex(e, eb) && eb.size() == 67) want = run([&] { return Value(ref::hex(QRLHelper::getAddress(eb))); });
    agree("getAddress", fn("qrl", "getAddress", {e}), want, quote(e));
    c.nontrivial();
}

// ---- XMSS wallets
namespace {
void walk(Ctx &c, const char *klass, const Value &w, XmssBase &core, uint32_t w_, const ref::Wallet *model, unsigned ops) {
    bool basic = std::string(klass) == "XmssBasic";
    auto look = [&] {
        expect("getIndex", me("qrl", klass, w, "getIndex"), core.getIndex());
        expect("getHeight", me("qrl", klass, w, "getHeight"), (int) core.getHeight());
        expect("getPK", me("qrl", klass, w, "getPK"), ref::hex(core.getPK()));
        expect("getHexSeed", me("qrl", klass, w, "getHexSeed"), ref::hex(core.getExtendedSeed()));
        if (!basic) {
            expect("getPKRaw", me("qrl", klass, w, "getPKRaw"), core.getPK());
            expect("getAddressRaw", me("qrl", klass, w, "getAddressRaw"), core.getAddress());
            expect("getAddress", me("qrl", klass, w, "getAddress"), "Q" + ref::hex(core.getAddress()));
            expect("getMnemonic", me("qrl", klass, w, "getMnemonic"), ref::mnemonic(core.getExtendedSeed()));
        }
    };
    look();
    if (model) {
        expect("getPK", me("qrl", klass, w, "getPK"), ref::hex(model->pk()));
        expect("getHexSeed", me("qrl", klass, w, "getHexSeed"), ref::hex(model->extendedSeed()));
        if (!basic) expect("getAddress", me("qrl", klass, w, "getAddress"), "Q" + ref::hex(ref::address(model->pk())));
    }
    for (unsigned k = 0; k < ops; k++) {
        if (c.choose(3)) {
            Bytes m = genMsg(c, 400);
            c.note(str(" sign(%zu)", m.size()));
            Out a = me("qrl", klass, w, "sign", {m}), b = run([&] { return Value(core.sign(m)); });
            agree("sign", a, b);
            if (!a.ok) continue;
            Bytes sig = a.v.vec, pk = core.getPK(), pk2(pk), sig2(sig), m2(m);
            if (model) check(sig == model->sign(sigIndex(sig), m), "signature", "differs from the model");
            auto ver = [&](const Bytes &m, const Bytes &s, const Bytes &p) { return basic ? st("qrl", klass, "verify", {m, s, p, w_}) : st("qrl", klass, "verify", {m, s, p}); };
            expect("verify", ver(m, sig, pk), 1);
            switch (c.choose(4)) {
            case 0: sig2[(size_t) c.choose(sig2.size())] ^= (uint8_t) (1u << c.choose(8)); break;
            case 1: if (m2.empty()) m2.push_back(1); else m2[(size_t) c.choose(m2.size())] ^= 1; break;
            case 2: pk2[3 + (size_t) c.choose(64)] ^= (uint8_t) (1u << c.choose(8)); break;
            default: sig2.resize((size_t) c.choose(sig2.size()));
            }
            Out v = ver(m2, sig2, pk2);
            Out cv = run([&] { return Value(verifyW(m2, sig2, pk2, basic ? w_ : 16)); });
            agree("verify", v, cv);
            check(!v.ok || v.v.num == 0, "changed-accepted", "verify");
            if (basic) { // the parameter counts
                uint32_t o = c.coin() ? c.pick<uint32_t>({2, 4, 16, 256}) : badW(c);
                if (o != w_) agree("verify", st("qrl", klass, "verify", {m, sig, pk, o}), run([&] { return Value(verifyW(m, sig, pk, o)); }));
            }
        } else {
            uint32_t i = (uint32_t) (c.choose(4) != 3 ? core.getIndex() + c.choose(6) : c.pick<uint32_t>({0, 1u << core.getHeight(), (1u << core.getHeight()) - 1, 0xffffffffu, 0x80000000u}));
            c.note(str(" setIndex(%u)", i));
            agree("setIndex", me("qrl", klass, w, "setIndex", {i}), run([&] { return Value(core.setIndex(i)); }));
        }
        look();
    }
}
} // namespace
PROP(C26, xmss_wallets, 110, 1500, 60) {
    Cfg g;
    g.hash = (int) c.choose(3);
    g.h = c.choose(8) == 7 ? 6 : 4;
    g.w = 16;
    Bytes seed = genSeed(c);
    ref::Wallet model(seed, rp(g));
    auto core = mkFast(seed, g);
    Out w;
    switch (c.choose(3)) {
    case 0: c.note("from parameters " + show(g)); w = st("qrl", "Xmss", "fromParameters", {seed, g.h, g.hash}); break;
    case 1: c.note("from hex " + show(g)); { std::string s = ref::hex(model.extendedSeed()); w = st("qrl", "Xmss", "fromHexSeed", {c.coin() ? s : up(s)}); } break;
    default: c.note("from mnemonic " + show(g)); w = st("qrl", "Xmss", "fromMnemonic", {ref::mnemonic(model.extendedSeed())});
    }
    good("making a wallet", w);
    walk(c, "Xmss", w.v, *core, 16, &model, 1 + (unsigned) c.choose(5));
    c.nontrivial();
}
#ifndef __SANITIZE_ADDRESS__
PROP(C26, larger_wallets, 2, 30, 120) { // indices of more than a byte
    Cfg g{(int) c.choose(3), 10, 16};
    Bytes seed = genSeed(c);
    c.note(show(g));
    auto core = mkFast(seed, g);
    Out w = good("Xmss.fromParameters", st("qrl", "Xmss", "fromParameters", {seed, g.h, g.hash}));
    for (int k = 0; k < 2; k++) {
        uint32_t i = std::min<uint32_t>(1023, core->getIndex() + 230 + (uint32_t) c.choose(150));
        c.note(str("setIndex(%u)", i));
        agree("setIndex", me("qrl", "Xmss", w.v, "setIndex", {i}), run([&] { return Value(core->setIndex(i)); }));
        walk(c, "Xmss", w.v, *core, 16, nullptr, 1);
    }
    c.nontrivial();
}
#endif
PROP(C26, xmss_basic_wallets, 70, 900, 60) {
    Cfg g;
    g.hash = (int) c.choose(3);
    g.h = 4;
    g.w = c.pick<unsigned>({16, 4, 2, 16, 4, 256});
    Bytes seed = genSeed(c);
    c.note(show(g));
    ref::Wallet model(seed, rp(g));
    auto core = mkBasic(seed, g);
    Out w = good("XmssBasic.fromParameters", st("qrl", "XmssBasic", "fromParameters", {seed, g.h, g.hash, 0, g.w}));
    walk(c, "XmssBasic", w.v, *core, g.w, &model, 1 + (unsigned) c.choose(3));
    c.nontrivial();
}
PROP(C26, malformed_wallets, 15000, 200000, 60) {
    Bytes seed = c.bytes(c.choose(3) != 2 ? 48 : c.size(100));
    unsigned h = c.choose(3) != 2 ? 4 : (unsigned) c.pick<unsigned>({0, 1, 2, 3, 5, 7, 9, 31, 32, 34, 64, 255});
    int hash = c.choose(3) != 2 ? (int) c.choose(3) : (int) c.pick<int>({3, 4, 15, 16, 255});
    bool bad = seed.size() != 48 || h != 4 || hash > 2;
    Bytes es{(uint8_t) hash, (uint8_t) (h / 2), 0};
    es.insert(es.end(), seed.begin(), seed.end());
    if (bad) {
        c.note(str("%zu bytes of seed, height %u, hash %d", seed.size(), h, hash));
        unsigned w = c.coin() ? c.pick<unsigned>({16, 4, 2, 256}) : badW(c);
        check(!st("qrl", "Xmss", "fromParameters", {seed, h, hash}).ok, "malformed-accepted", "Xmss.fromParameters");
        check(!st("qrl", "XmssBasic", "fromParameters", {seed, h, hash, 0, w}).ok, "malformed-accepted", "XmssBasic.fromParameters");
    }
    else if (c.choose(4) == 3) {
        uint32_t w = badW(c);
        c.note(str("Winternitz parameter %u", w));
        check(!st("qrl", "XmssBasic", "fromParameters", {seed, h, hash, 0, w}).ok, "malformed-accepted", str("XmssBasic.fromParameters, w=%u", w));
        Out v = st("qrl", "XmssBasic", "verify", {c.bytes(c.size(40)), c.bytes(ref::sigSize(4, 16)), c.bytes(67), w});
        check(!v.ok || v.v.num == 0, "malformed-accepted", str("XmssBasic.verify, w=%u", w));
    }
    // texts: a backup that is damaged, cut or no backup at all
    Bytes ok{(uint8_t) c.choose(3), 2, 0}, tail = c.bytes(48);
    ok.insert(ok.end(), tail.begin(), tail.end());
    std::string hx, mn;
    switch (c.choose(5)) {
    case 0: { Bytes x = c.bytes(c.pick<size_t>({0, 1, 2, 3, 48, 50, 52, 54, 102})); hx = ref::hex(x); x.resize(x.size() / 3 * 3); mn = x.size() == 51 ? "" : ref::mnemonic(x); break; }
    case 1: hx = text(c, 120); mn = text(c, 300); break;
    case 2: { Bytes x(ok); // a descriptor nothing supports
        switch (c.choose(4)) { case 0: x[0] = (uint8_t) (3 + c.choose(13)); break; case 1: x[0] |= (uint8_t) (16 + 16 * c.choose(15)); break; case 2: x[1] = (uint8_t) c.choose(2); break; default: x[1] |= (uint8_t) (16 + 16 * c.choose(15)); }
        hx = ref::hex(x); mn = ref::mnemonic(x); break; }
    default: hx = damage(c, ref::hex(ok)); mn = damage(c, ref::mnemonic(ok));
    }
    auto legal = [](const Bytes &x) { return x.size() == 51 && x[0] <= 2 && x[1] >= 2 && x[1] <= 15; }; // the third byte is reserved
    auto slow = [](const Bytes &x) { return x.size() == 51 && x[1] > 2; };
    Bytes hb, mb;
    bool hok = ref::unhex(hx, hb) && legal(hb);
    c.note(" hex " + quote(hx) + " phrase " + quote(mn));
    if (!hok) check(!st("qrl", "Xmss", "fromHexSeed", {hx}).ok, "malformed-accepted", "fromHexSeed " + quote(hx));
    else if (!slow(hb) && c.choose(8) == 7) good("fromHexSeed", st("qrl", "Xmss", "fromHexSeed", {hx}));
    Out m = run([&] { return Value(mnemonic2bin(mn)); });
    bool mok = m.ok && legal(m.v.vec);
    if (!mok) check(!st("qrl", "Xmss", "fromMnemonic", {mn}).ok, "malformed-accepted", "fromMnemonic " + quote(mn));
    else if (!slow(m.v.vec) && c.choose(8) == 7) good("fromMnemonic", st("qrl", "Xmss", "fromMnemonic", {mn}));
    c.nontrivial(bad || !hok || !mok);
}
// Several wallets at once, through the bindings.
PROP(C26, wallets_apart, 30, 400, 60) {
    std::vector<Value> js;
    std::vector<std::unique_ptr<XmssFast>> core;
    unsigned n = 2 + (unsigned) c.choose(2);
    for (unsigned i = 0; i < n; i++) {
        Cfg g{(int) c.choose(3), 4, 16};
        Bytes seed = genSeed(c);
        core.push_back(mkFast(seed, g));
        js.push_back(good("fromParameters", st("qrl", "Xmss", "fromParameters", {seed, g.h, g.hash})).v);
    }
    c.note(str("%u wallets:", n));
    unsigned ops = 2 + (unsigned) c.choose(8);
    for (unsigned k = 0; k < ops; k++) {
        unsigned i = (unsigned) c.choose(n);
        Bytes m = genMsg(c, 100);
        c.note(str(" %u", i));
        if (c.choose(4) == 3) { uint32_t x = core[i]->getIndex() + (uint32_t) c.choose(4); agree("setIndex", me("qrl", "Xmss", js[i], "setIndex", {x}), run([&] { return Value(core[i]->setIndex(x)); })); }
        agree("sign", me("qrl", "Xmss", js[i], "sign", {m}), run([&] { return Value(core[i]->sign(m)); }));
    }
    for (unsigned i = 0; i < n; i++) expect("getIndex", me("qrl", "Xmss", js[i], "getIndex"), core[i]->getIndex());
    c.nontrivial();
}
PROP(C26, constants, 3, 3, 10) {
    c.note("enumerations");
    auto &e = mod("qrl").enums;
    auto val = [&](const char *t, const char *n, int v) {
        if (!e.count(t) || !e[t].count(n)) fail("export-missing", str("%s.%s", t, n));
        check(e[t][n] == v, "different", str("%s.%s is %d", t, n, e[t][n]));
    };
    val("eHashFunction", "SHA2_256", 0);
    val("eHashFunction", "SHAKE_128", 1);
    val("eHashFunction", "SHAKE_256", 2);
    val("eSignatureType", "XMSS", 0);
    val("eAddrFormatType", "SHA256_2X", 0);
    check(good("getString", fn("dil", "getString", {})).v.kind == Value::STR, "different", "getString");
    check(good("getString", fn("kyb", "getString", {})).v.kind == Value::STR, "different", "getString");
    c.excluded("crypto_sign_keypair / crypto_kem_keypair recurse without end");
    c.nontrivial();
}

// ---- Dilithium
PROP(C26, dilithium, 6000, 60000, 30) {
    mock::counter = c.choose(1u << 20);
    const size_t SG = CRYPTO_BYTES;
    const char *K = "Dilithium";
    Value a = good("empty", st("dil", K, "empty", {})).v, b = good("empty", st("dil", K, "empty", {})).v;
    std::string pk = good("getPK", me("dil", K, a, "getPK")).v.str, sk = good("getSK", me("dil", K, a, "getSK")).v.str, pkb = good("getPK", me("dil", K, b, "getPK")).v.str;
    Bytes pkr = good("getPKRaw", me("dil", K, a, "getPKRaw")).v.vec, skr = good("getSKRaw", me("dil", K, a, "getSKRaw")).v.vec;
    check(pkr.size() == CRYPTO_PUBLICKEYBYTES && skr.size() == CRYPTO_SECRETKEYBYTES, "key-size", "");
    check(pk == ref::hex(pkr) && sk == ref::hex(skr), "keys-differ", "raw and hexadecimal");
    check(pk != pkb, "keys-repeat", "");
    Bytes m = c.coin(1, 6) ? c.bytes(SG + (size_t) c.range(-1, 1)) : c.bytes(c.size(3000));
    std::string mh = ref::hex(m);
    c.note(str("message of %zu bytes", m.size()));
    std::string sm = good("sign", me("dil", K, a, "sign", {c.coin(1, 4) ? up(mh) : mh})).v.str;
    Dilithium core(pkr, skr);
    Bytes smr = core.sign(m);
    check(sm == ref::hex(smr), "signed-differently", "the core signs differently");
    Value r = good("fromKeys", st("dil", K, "fromKeys", {pk, sk})).v;
    expect("getPK", me("dil", K, r, "getPK"), pk);
    expect("getSK", me("dil", K, r, "getSK"), sk);
    expect("sign", me("dil", K, r, "sign", {mh}), sm);
    expect("extract_message", st("dil", K, "extract_message", {sm}), mh);
    std::string scratch = c.coin() ? "" : text(c, 100);
    Out o = good("sign_open", st("dil", K, "sign_open", {scratch, sm, pk}));
    check(o.v.str.substr(0, mh.size()) == mh, "opened-differently", show(o));
    Bytes buf(scratch.begin(), scratch.end());
    Dilithium::sign_open(buf, smr, pkr);
    check(o.v.str == ref::hex(buf) || o.v.str == mh, "opened-differently", show(o));
    check(!st("dil", K, "sign_open", {scratch, sm, pkb}).ok, "wrong-key-accepted", "");
    // malformed and changed strings
    std::string x = damage(c, sm), y = damage(c, pk), z = damage(c, sk), mm = damage(c, mh);
    Bytes d;
    bool xr = ref::unhex(x, d);
    if (!xr || d != smr) check(!st("dil", K, "sign_open", {scratch, x, pk}).ok, "changed-accepted", "signed message");
    Out want;
    want.ok = xr && d.size() >= SG;
    if (want.ok) want.v = ref::hex(Bytes(d.begin() + (long) SG, d.end()));
    agree("extract_message", st("dil", K, "extract_message", {x}), want);
    std::string shorter = sm.substr(0, (size_t) c.choose(2 * SG + 2));
    want.ok = shorter.size() == 2 * SG;
    want.v = std::string();
    agree("extract_message", st("dil", K, "extract_message", {shorter}), want);
    bool yr = ref::unhex(y, d) && d.size() == CRYPTO_PUBLICKEYBYTES;
    if (!yr || d != pkr) check(!st("dil", K, "sign_open", {scratch, sm, y}).ok, "changed-accepted", "public key");
    bool kr = yr;
    Out f = st("dil", K, "fromKeys", {y, sk});
    check(f.ok == kr, kr ? "good-refused" : "malformed-accepted", "fromKeys, public key");
    kr = ref::unhex(z, d) && d.size() == CRYPTO_SECRETKEYBYTES;
    check(st("dil", K, "fromKeys", {pk, z}).ok == kr, kr ? "good-refused" : "malformed-accepted", "fromKeys, secret key");
    bool mr = ref::unhex(mm, d);
    check(me("dil", K, a, "sign", {mm}).ok == mr, mr ? "good-refused" : "malformed-accepted", "sign " + quote(mm));
    c.nontrivial();
}
// ---- Kyber
PROP(C26, kyber, 6000, 60000, 30) {
    mock::counter = c.choose(1u << 20);
    const char *K = "Kyber";
    unsigned n = 2 + (unsigned) c.choose(2);
    std::vector<Value> p;
    std::vector<std::string> pk, sk, key(n), ct(n);
    for (unsigned i = 0; i < n; i++) {
        Value v = good("empty", st("kyb", K, "empty", {})).v;
        pk.push_back(good("getPK", me("kyb", K, v, "getPK")).v.str);
        sk.push_back(good("getSK", me("kyb", K, v, "getSK")).v.str);
        check(pk[i] == ref::hex(good("getPKRaw", me("kyb", K, v, "getPKRaw")).v.vec) && sk[i] == ref::hex(good("getSKRaw", me("kyb", K, v, "getSKRaw")).v.vec), "keys-differ", "raw and hexadecimal");
        check(pk[i].size() == 2 * KYBER_PUBLICKEYBYTES && sk[i].size() == 2 * KYBER_SECRETKEYBYTES, "key-size", "");
        if (c.coin()) v = good("fromKeys", st("kyb", K, "fromKeys", {pk[i], sk[i]})).v;
        expect("getPK", me("kyb", K, v, "getPK"), pk[i]);
        expect("getSK", me("kyb", K, v, "getSK"), sk[i]);
        p.push_back(v);
        key[i] = good("getMyKey", me("kyb", K, v, "getMyKey")).v.str;
        ct[i] = good("getCypherText", me("kyb", K, v, "getCypherText")).v.str;
    }
    unsigned ops = 1 + (unsigned) c.choose(5);
    c.note(str("%u parties:", n));
    for (unsigned k = 0; k < ops; k++) {
        unsigned a = (unsigned) c.choose(n), b = (unsigned) c.choose(n);
        c.note(str(" %u to %u", a, b));
        expect("kem_encode", me("kyb", K, p[a], "kem_encode", {c.coin(1, 4) ? up(pk[b]) : pk[b]}), 1);
        std::string ka = good("getMyKey", me("kyb", K, p[a], "getMyKey")).v.str, t = good("getCypherText", me("kyb", K, p[a], "getCypherText")).v.str;
        check(ka != key[a] && t != ct[a], "stale", "after kem_encode");
        check(ka.size() == 2 * KYBER_SYMBYTES && t.size() == 2 * KYBER_CIPHERTEXTBYTES, "length", "");
        expect("kem_decode", me("kyb", K, p[b], "kem_decode", {t}), 1);
        expect("getMyKey", me("kyb", K, p[b], "getMyKey"), ka);
        key[a] = key[b] = ka;
        ct[a] = t;
        Bytes tb;
        ref::unhex(t, tb);
        Bytes pb, sb;
        ref::unhex(pk[b], pb);
        ref::unhex(sk[b], sb);
        Kyber core(pb, sb);
        core.kem_decode(tb);
        check(ref::hex(core.getMyKey()) == ka, "keys-differ", "from the core's");
        for (unsigned i = 0; i < n; i++) if (i != b && i != a) {
            expect("kem_decode", me("kyb", K, p[i], "kem_decode", {t}), 0);
            std::string ki = good("getMyKey", me("kyb", K, p[i], "getMyKey")).v.str;
            check(ki != ka, "wrong-party-agrees", "");
            key[i] = ki;
        }
        // malformed strings
        std::string x = damage(c, t), y = damage(c, pk[b]), z = damage(c, sk[b]);
        Bytes d;
        bool r = ref::unhex(x, d) && d.size() == KYBER_CIPHERTEXTBYTES;
        Out o = me("kyb", K, p[b], "kem_decode", {x});
        check(o.ok == r, r ? "good-refused" : "malformed-accepted", "kem_decode");
        if (r) {
            std::string kb = good("getMyKey", me("kyb", K, p[b], "getMyKey")).v.str;
            if (d != tb) check(o.v.num == 0 && kb != ka, "changed-agrees", "kem_decode");
            key[b] = kb;
        }
        r = ref::unhex(y, d) && d.size() == KYBER_PUBLICKEYBYTES;
        if (!r) check(!me("kyb", K, p[a], "kem_encode", {y}).ok, "malformed-accepted", "kem_encode");
        check(st("kyb", K, "fromKeys", {y, sk[b]}).ok == r, r ? "good-refused" : "malformed-accepted", "fromKeys, public key");
        r = ref::unhex(z, d) && d.size() == KYBER_SECRETKEYBYTES;
        check(st("kyb", K, "fromKeys", {pk[b], z}).ok == r, r ? "good-refused" : "malformed-accepted", "fromKeys, secret key");
    }
    c.nontrivial();
}
