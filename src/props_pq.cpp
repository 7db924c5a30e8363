// C24 C25: the Dilithium and Kyber wrappers, over models of the primitives (mock_pq.cpp).
#include "h.h"
#include "long.h"
#include "mock_pq.h"
#include <dilithium.h>
// the two wrappers' headers may be included together: they declare different primitives
#include <kyber.h>
using namespace hh;
using pbt::check;
using pbt::fail;
using pbt::str;

namespace {
const size_t PK = CRYPTO_PUBLICKEYBYTES, SK = CRYPTO_SECRETKEYBYTES, SG = CRYPTO_BYTES;
// A size that is not `right`, often next to it or to another size in use.
size_t wrongSize(Ctx &c, size_t right) {
    size_t n;
    switch (c.choose(4)) {
    case 0: n = (size_t) c.choose(4); break;
    case 1: n = right + (size_t) c.range(-3, 3); break;
    case 2: n = c.pick<size_t>({PK, SK, SG, KYBER_PUBLICKEYBYTES, KYBER_SECRETKEYBYTES, KYBER_CIPHERTEXTBYTES, KYBER_SYMBYTES, right / 2, right * 2}); break;
    default: n = c.size(6000);
    }
    return n == right ? right - 1 : n;
}
Bytes resized(Ctx &c, const Bytes &b, size_t n) { // the right bytes, cut or continued
    Bytes r(b.begin(), b.begin() + std::min(n, b.size()));
    if (r.size() < n) { Bytes x = c.bytes(n - r.size()); r.insert(r.end(), x.begin(), x.end()); }
    return r;
}
Bytes msgFor(Ctx &c) {
    switch (c.choose(5)) {
    case 0: return Bytes();
    case 1: return c.bytes(SG + (size_t) c.range(-2, 2));
    case 2: return c.bytes((size_t) c.choose(3));
    default: return c.bytes(c.size(9000));
    }
}
struct Open { bool ok; Bytes out; };
Open openIt(Ctx &c, const Bytes &sm, const Bytes &pk) {
    Open o;
    o.out = c.bytes(c.pick<size_t>({0, 1, sm.size(), sm.size() + 40})); // whatever the caller left in the buffer
    Bytes sm2(sm), pk2(pk);
    o.ok = Dilithium::sign_open(o.out, sm, pk);
    check(sm == sm2 && pk == pk2, "input-changed", "sign_open changed its input");
    return o;
}
void mutate(Ctx &c, Bytes &b) {
    switch (b.empty() ? 1 : c.choose(5)) {
    case 0: case 4: b[(size_t) c.choose(b.size())] ^= (uint8_t) (1u << c.choose(8)); break;
    case 1: { Bytes x = c.bytes(1 + (size_t) c.choose(4)); b.insert(b.end(), x.begin(), x.end()); break; }
    case 2: b.resize(b.size() - 1 - (size_t) c.choose(std::min<size_t>(b.size(), 4))); break;
    default: b.erase(b.begin() + (size_t) c.choose(b.size()));
    }
}
} // namespace

// ---------------------------------------------------------------- C24
PROP(C24, sign_then_open, 6000, 60000, 30) {
    mock::counter = c.choose(1u << 20);
    unsigned n = 1 + (unsigned) c.choose(3);
    std::vector<Dilithium> d;
    for (unsigned i = 0; i < n; i++) {
        Dilithium x;
        if (c.coin()) x = Dilithium(x.getPK(), x.getSK()); // restored from its keys
        check(x.getPK().size() == PK && x.getSK().size() == SK, "key-size", str("%zu %zu", x.getPK().size(), x.getSK().size()));
        check(x.getPublicKeySize() == PK && x.getSecretKeySize() == SK, "advertised-size", str("%u %u", x.getPublicKeySize(), x.getSecretKeySize()));
        for (auto &y : d) check(y.getPK() != x.getPK(), "keys-repeat", "two fresh key pairs are equal");
        d.push_back(x);
    }
    struct Signed { unsigned who; Bytes msg, sm; };
    std::vector<Signed> all;
    unsigned ops = 1 + (unsigned) c.choose(5);
    c.note(str("%u parties:", n));
    for (unsigned k = 0; k < ops; k++) {
        unsigned who = (unsigned) c.choose(n);
        Bytes m = msgFor(c);
        Bytes m0(m), pk0 = d[who].getPK(), sk0 = d[who].getSK();
        Bytes sm = d[who].sign(m);
        c.note(str("%u signs %zu bytes;", who, m.size()));
        check(m == m0, "input-changed", "sign changed the message");
        check(d[who].getPK() == pk0 && d[who].getSK() == sk0, "keys-changed", "signing changed the keys");
        check(sm.size() == m.size() + SG, "signed-size", str("%zu for a message of %zu", sm.size(), m.size()));
        check(Dilithium::extract_message(sm) == m, "message-lost", str("extract_message of %zu bytes", m.size()));
        Bytes sig = Dilithium::extract_signature(sm);
        check(sig.size() == SG, "signature-size", str("%zu", sig.size()));
        Bytes joined(sig);
        joined.insert(joined.end(), m.begin(), m.end());
        check(joined == sm, "parts", "signature and message are not the parts of the signed message");
        check(Dilithium(pk0, sk0).sign(m) == sm, "restored-differs", "the restored key pair signs differently");
        all.push_back({who, m, sm});
    }
    for (auto &s : all) {
        Open o = openIt(c, s.sm, d[s.who].getPK());
        check(o.ok, "genuine-refused", str("message of %zu bytes", s.msg.size()));
        check(o.out.size() >= s.msg.size() && std::equal(s.msg.begin(), s.msg.end(), o.out.begin()), "opened-differently", str("%zu bytes out for %zu", o.out.size(), s.msg.size()));
        check(o.out.size() == s.msg.size() || o.out.size() == s.sm.size(), "opened-size", str("%zu bytes out for %zu", o.out.size(), s.msg.size()));
        for (unsigned i = 0; i < n; i++) if (i != s.who) check(!openIt(c, s.sm, d[i].getPK()).ok, "wrong-key-accepted", str("party %u", i));
        for (unsigned t = 0; t < 3; t++) {
            Bytes bad(s.sm), pk = d[s.who].getPK();
            if (c.coin(1, 4)) pk[(size_t) c.choose(PK)] ^= (uint8_t) (1u << c.choose(8)); else mutate(c, bad);
            if (bad == s.sm && pk == d[s.who].getPK()) continue;
            check(!openIt(c, bad, pk).ok, "changed-accepted", str("%zu bytes", bad.size()));
            c.count("changed signed messages refused");
        }
    }
    if (all.size() > 1) { // parts of two signed messages
        const Signed &a = all[0], &b = all.back();
        if (a.msg != b.msg || a.who != b.who) {
            Bytes x(a.sm.begin(), a.sm.begin() + SG);
            x.insert(x.end(), b.msg.begin(), b.msg.end());
            if (x != b.sm && x != a.sm) check(!openIt(c, x, d[b.who].getPK()).ok, "spliced-accepted", "");
        }
    }
    c.nontrivial(true);
}
PROP(C24, long_messages, 1, 8, 60) {
    mock::counter = c.choose(1u << 20);
    Dilithium d;
    Bytes m = c.bytes(longSize(c, c.sweep(20)));
    c.note(str("message of %zu bytes", m.size()));
    Bytes sm = d.sign(m), pk = d.getPK();
    check(sm.size() == m.size() + SG, "signed-size", str("%zu for a message of %zu", sm.size(), m.size()));
    check(Dilithium::extract_message(sm) == m, "message-lost", c.desc);
    check(Dilithium::extract_signature(sm) == Bytes(sm.begin(), sm.begin() + (long) SG), "signature-lost", c.desc);
    Open o = openIt(c, sm, pk);
    check(o.ok, "genuine-refused", c.desc);
    check(o.out.size() >= m.size() && std::equal(m.begin(), m.end(), o.out.begin()), "opened-differently", str("%zu bytes out for %zu", o.out.size(), m.size()));
    check(o.out.size() == m.size() || o.out.size() == sm.size(), "opened-size", str("%zu bytes out for %zu", o.out.size(), m.size()));
    for (int k = 0; k < 3; k++) {
        Bytes bad(sm);
        if (k == 0) bad.back() ^= (uint8_t) (1u << c.choose(8)); else mutate(c, bad);
        if (bad != sm) check(!openIt(c, bad, pk).ok, "changed-accepted", str("%zu bytes", bad.size()));
    }
    c.nontrivial();
}
#ifdef GIANTS
PROP(C24, giant_messages, 0, 1, 2400, 0, false, 1) { // 18 GB
    mock::counter = c.choose(1u << 20);
    Dilithium d;
    Bytes m = lcgBytes(giantSize(c), c.choose(0));
    c.note(str("message of %zu bytes", m.size()));
    Bytes sm = d.sign(m), pk = d.getPK();
    check(sm.size() == m.size() + SG, "signed-size", str("%zu for a message of %zu", sm.size(), m.size()));
    check(Dilithium::extract_message(sm) == m, "message-lost", c.desc);
    check(Dilithium::extract_signature(sm) == Bytes(sm.begin(), sm.begin() + (long) SG), "signature-lost", c.desc);
    Bytes out;
    check(Dilithium::sign_open(out, sm, pk), "genuine-refused", c.desc);
    check(out.size() >= m.size() && std::equal(m.begin(), m.end(), out.begin()), "opened-differently", str("%zu bytes out for %zu", out.size(), m.size()));
    sm.back() ^= 1;
    check(!Dilithium::sign_open(out, sm, pk), "changed-accepted", "last byte");
    c.nontrivial();
}
#endif
PROP(C24, wrong_sizes, 12000, 100000, 30) {
    mock::counter = c.choose(1u << 20);
    Dilithium d;
    Bytes m = c.bytes((size_t) c.choose(100)), sm = d.sign(m);
    switch (c.choose(5)) {
    case 0: {
        size_t n = wrongSize(c, PK);
        c.note(str("key pair with a public key of %zu bytes", n));
        check(throwsInvalid([&] { Dilithium x(resized(c, d.getPK(), n), d.getSK()); }), "size-accepted", str("public key of %zu bytes", n));
        break; }
    case 1: {
        size_t n = wrongSize(c, SK);
        c.note(str("key pair with a secret key of %zu bytes", n));
        check(throwsInvalid([&] { Dilithium x(d.getPK(), resized(c, d.getSK(), n)); }), "size-accepted", str("secret key of %zu bytes", n));
        break; }
    case 2: {
        size_t n = wrongSize(c, PK);
        c.note(str("opening with a public key of %zu bytes", n));
        Bytes out, pk = resized(c, d.getPK(), n);
        check(throwsInvalid([&] { Dilithium::sign_open(out, sm, pk); }), "size-accepted", str("public key of %zu bytes", n));
        break; }
    case 3: {
        size_t n = c.coin() ? (size_t) c.choose(SG) : c.pick<size_t>({0, 1, SG - 1, SG - 2, SG / 2});
        c.note(str("%zu bytes as a signed message", n));
        Bytes part(sm.begin(), sm.begin() + n);
        bool refused = false, ok = false;
        Bytes out;
        try { ok = Dilithium::sign_open(out, part, d.getPK()); } catch (const std::invalid_argument &) { refused = true; }
        check(!ok, "truncated-accepted", str("%zu bytes", n));
        Bytes p1(part), p2(part);
        check(throwsInvalid([&] { Dilithium::extract_message(p1); }), "size-accepted", str("message of %zu bytes", n));
        check(throwsInvalid([&] { Dilithium::extract_signature(p2); }), "size-accepted", str("signature of %zu bytes", n));
        break; }
    default: {
        size_t a = c.coin() ? PK : wrongSize(c, PK), b = a == PK ? wrongSize(c, SK) : c.coin() ? SK : wrongSize(c, SK);
        c.note(str("key pair of %zu and %zu bytes", a, b));
        check(throwsInvalid([&] { Dilithium x(c.bytes(a), c.bytes(b)); }), "size-accepted", str("keys of %zu and %zu bytes", a, b));
    } }
    // the right sizes are still accepted
    check(!throws([&] { Dilithium x(c.bytes(PK), c.bytes(SK)); }), "right-size-refused", "");
    c.nontrivial(true);
}

// ---------------------------------------------------------------- C25
PROP(C25, parties, 6000, 60000, 30) {
    mock::counter = c.choose(1u << 20);
    unsigned n = 2 + (unsigned) c.choose(3);
    std::vector<Kyber> p(n);
    struct Want { Bytes key, ct, from; }; // from: the cipher text the key belongs to
    std::vector<Want> want(n); // what each party must report
    struct Sent { unsigned to; Bytes ct, key; };
    std::vector<Sent> sent;
    for (unsigned i = 0; i < n; i++) {
        if (c.coin()) p[i] = Kyber(p[i].getPK(), p[i].getSK());
        check(p[i].getPK().size() == KYBER_PUBLICKEYBYTES && p[i].getSK().size() == KYBER_SECRETKEYBYTES, "key-size", "");
        for (unsigned j = 0; j < i; j++) check(p[j].getPK() != p[i].getPK(), "keys-repeat", "");
        want[i] = {p[i].getMyKey(), p[i].getCypherText(), p[i].getCypherText()};
    }
    unsigned ops = 1 + (unsigned) c.choose(12), agreed = 0;
    c.note(str("%u parties:", n));
    for (unsigned k = 0; k < ops; k++) {
        unsigned who = (unsigned) c.choose(n);
        switch (c.weighted({4, 4, 2, 2, 1, 1})) {
        case 0: { // encapsulate to someone (possibly to itself)
            unsigned to = (unsigned) c.choose(n);
            Bytes pk = p[to].getPK();
            c.note(str("%u encodes to %u;", who, to));
            check(p[who].kem_encode(pk), "encode-failed", "");
            Bytes key = p[who].getMyKey(), ct = p[who].getCypherText();
            check(key.size() == KYBER_SYMBYTES, "key-length", str("%zu", key.size()));
            check(ct.size() == KYBER_CIPHERTEXTBYTES, "cypher-text-length", str("%zu", ct.size()));
            for (auto &s : sent) check(s.ct != ct && s.key != key, "encapsulation-repeats", "an older cipher text or key was reported");
            sent.push_back({to, ct, key});
            want[who] = {key, ct, ct};
            break; }
        case 1: case 2: { // decapsulate, by the addressee or someone else
            if (sent.empty()) break;
            const Sent s = c.coin() ? sent.back() : sent[(size_t) c.choose(sent.size())];
            bool right = c.coin(2, 3);
            unsigned by = right ? s.to : (unsigned) c.choose(n);
            c.note(str("%u decodes a text for %u;", by, s.to));
            bool ok = p[by].kem_decode(s.ct);
            Bytes key = p[by].getMyKey();
            check(key.size() == KYBER_SYMBYTES, "key-length", str("%zu", key.size()));
            if (by == s.to) {
                check(ok, "decode-failed", "by the addressee");
                check(key == s.key, "keys-differ", diff(key, s.key));
                agreed++;
            } else {
                check(key != s.key, "wrong-party-agrees", str("%u for %u", by, s.to));
                check(!ok, "failure-unreported", "by another party");
            }
            check(key != want[by].key || s.ct == want[by].from, "stale-key", "the key before the decapsulation is still reported");
            want[by].key = key;
            want[by].from = s.ct;
            break; }
        case 3: { // a changed cipher text
            if (sent.empty()) break;
            const Sent &s = sent[(size_t) c.choose(sent.size())];
            Bytes ct(s.ct);
            ct[(size_t) c.choose(ct.size())] ^= (uint8_t) (1u << c.choose(8));
            c.note(str("%u decodes a changed text;", s.to));
            bool ok = p[s.to].kem_decode(ct);
            check(!ok, "failure-unreported", "of a changed cipher text");
            check(p[s.to].getMyKey() != s.key, "changed-agrees", "");
            check(p[s.to].getMyKey() != want[s.to].key || ct == want[s.to].from, "stale-key", "the key before the decapsulation is still reported");
            want[s.to].key = p[s.to].getMyKey();
            want[s.to].from = ct;
            break; }
        case 4: { // refused calls change nothing
            size_t a = wrongSize(c, KYBER_PUBLICKEYBYTES), b = wrongSize(c, KYBER_CIPHERTEXTBYTES);
            c.note(str("%u is given %zu and %zu bytes;", who, a, b));
            check(throwsInvalid([&] { p[who].kem_encode(c.bytes(a)); }), "size-accepted", str("public key of %zu bytes", a));
            check(throwsInvalid([&] { p[who].kem_decode(c.bytes(b)); }), "size-accepted", str("cipher text of %zu bytes", b));
            break; }
        default: { // a copy goes on independently
            Kyber q(p[who]);
            q.kem_encode(p[who].getPK());
            sent.push_back({who, q.getCypherText(), q.getMyKey()});
        } }
        for (unsigned i = 0; i < n; i++) {
            check(p[i].getMyKey() == want[i].key, "key-not-the-latest", str("party %u: %s", i, diff(p[i].getMyKey(), want[i].key).c_str()));
            check(p[i].getCypherText() == want[i].ct, "cypher-text-not-the-latest", str("party %u", i));
        }
    }
    c.nontrivial(agreed > 0);
}
PROP(C25, wrong_sizes, 12000, 100000, 30) {
    mock::counter = c.choose(1u << 20);
    Kyber k;
    switch (c.choose(4)) {
    case 0: {
        size_t a = c.coin() ? (size_t) KYBER_PUBLICKEYBYTES : wrongSize(c, KYBER_PUBLICKEYBYTES);
        size_t b = a == KYBER_PUBLICKEYBYTES ? wrongSize(c, KYBER_SECRETKEYBYTES) : c.coin() ? (size_t) KYBER_SECRETKEYBYTES : wrongSize(c, KYBER_SECRETKEYBYTES);
        c.note(str("key pair of %zu and %zu bytes", a, b));
        check(throwsInvalid([&] { Kyber x(resized(c, k.getPK(), a), resized(c, k.getSK(), b)); }), "size-accepted", str("keys of %zu and %zu bytes", a, b));
        break; }
    case 1: {
        size_t n = wrongSize(c, KYBER_PUBLICKEYBYTES);
        c.note(str("encoding to %zu bytes", n));
        Bytes pk = resized(c, k.getPK(), n);
        check(throwsInvalid([&] { k.kem_encode(pk); }), "size-accepted", str("public key of %zu bytes", n));
        break; }
    case 2: {
        size_t n = wrongSize(c, KYBER_CIPHERTEXTBYTES);
        c.note(str("decoding %zu bytes", n));
        k.kem_encode(k.getPK());
        Bytes ct = resized(c, k.getCypherText(), n);
        check(throwsInvalid([&] { k.kem_decode(ct); }), "size-accepted", str("cipher text of %zu bytes", n));
        break; }
    default: {
        c.note("arbitrary bytes of the right sizes");
        check(!throws([&] {
            Kyber x(c.bytes(KYBER_PUBLICKEYBYTES), c.bytes(KYBER_SECRETKEYBYTES));
            x.kem_encode(c.bytes(KYBER_PUBLICKEYBYTES));
            x.kem_decode(c.bytes(KYBER_CIPHERTEXTBYTES));
            check(x.getMyKey().size() == KYBER_SYMBYTES && x.getCypherText().size() == KYBER_CIPHERTEXTBYTES, "length", "");
        }), "right-size-refused", "");
    } }
    c.nontrivial(true);
}
