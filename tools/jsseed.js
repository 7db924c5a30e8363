// C27: runs getRandomSeed.js in generated environments. usage: jsseed.js REPO run SEED CASES | REPO replay FILE
'use strict';
const fs = require('fs'), vm = require('vm'), path = require('path'), crypto = require('crypto');
const [,, REPO, MODE, A, B] = process.argv;
const SRC = fs.readFileSync(path.join(REPO, 'src/jswrapper/getRandomSeed.js'), 'utf8');

// ---- choices
let state = 1n;
function next() { state = (state * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; let x = state; x ^= x >> 33n; x = (x * 0xff51afd7ed558ccdn) & 0xffffffffffffffffn; return Number(x >> 33n); }
const pick = a => a[next() % a.length];
const SHAPES = ['globalThis', 'self', 'window', 'no-globalThis-self', 'no-globalThis-window', 'globalThis+self', 'missing', 'null', 'no-method', 'not-a-function', 'getter-throws', 'empty-self'];
const HEALTHY = new Set(SHAPES.slice(0, 6));
// Sizes are written as {t, v} so that they survive JSON.
function genSize() {
    switch (next() % 12) {
    case 0: return { t: 'undefined' };
    case 1: return { t: 'number', v: pick([0, -1, -0.5, -48, -4294967248]) };
    case 2: return { t: pick(['nan', 'infinity', '-infinity', 'null', 'false', 'object', 'text', 'empty', 'emptyarray']) };
    case 3: return { t: 'number', v: pick([0.5, 1.5, 15.5, 16.5, 47.5, 47.999, 48.1]) };
    case 4: return pick([{ t: 'array', v: 48 }, { t: 'array', v: 16 }, { t: 'true' }, { t: 'string', v: '48' }, { t: 'string', v: '16' }, { t: 'valueOf', v: 48 }, { t: 'typed', v: 16 }]);
    case 5: return { t: 'number', v: pick([15, 16, 17, 47, 48, 49]) };
    case 6: return { t: 'number', v: pick([65535, 65536, 65537, 70000, 131072]) };
    case 7: case 8: return { t: 'number', v: 1 + next() % 24 };
    default: return { t: 'number', v: 1 + next() % 400 };
    }
}
function sizeArg(s) {
    switch (s.t) {
    case 'undefined': return undefined;
    case 'nan': return NaN; case 'infinity': return Infinity; case '-infinity': return -Infinity;
    case 'null': return null; case 'false': return false; case 'true': return true; case 'object': return {};
    case 'text': return 'abc'; case 'empty': return ''; case 'emptyarray': return [];
    case 'array': return [s.v]; case 'valueOf': return { valueOf: () => s.v }; case 'typed': return Uint8Array.of(s.v);
    default: return s.v;
    }
}
function gen() {
    const n = 1 + next() % 4, calls = [];
    for (let i = 0; i < n; i++) calls.push({
        size: genSize(),
        fill: pick(['random', 'random', 'random', 'zero', 'one', 'one', 'late', 'ff', 'low']), // what the generator delivers
        at: next() % 4 === 0 ? pick([0, 1, 14, 15, 16, 31, 46, 47, -1]) : next() % 400, // where 'one' has its nonzero byte; -1: last
        salt: next(),
        gen: pick(['ok', 'ok', 'ok', 'ok', 'ok', 'ok', 'ok', 'throw', 'quota', 'undefined']),
    });
    return { shape: next() % 3 ? pick(['globalThis', 'self', 'window', 'no-globalThis-self', 'no-globalThis-window', 'globalThis+self']) : pick(SHAPES), calls };
}
function deliver(call, n) { // the first n bytes the generator produces in this call
    const b = Buffer.alloc(n);
    const rnd = () => crypto.createHash('shake256', { outputLength: Math.max(n, 1) }).update(String(call.salt)).digest().copy(b);
    if (call.fill === 'random') rnd();
    else if (call.fill === 'low') { rnd(); for (let i = 0; i < n; i++) b[i] &= 1; }
    else if (call.fill === 'ff') b.fill(255);
    else if (call.fill === 'late') { rnd(); b.fill(0, 0, Math.min(n, 16)); }
    else if (call.fill === 'one' && n) b[call.at < 0 ? n - 1 : call.at % n] = 1 + call.salt % 255;
    return b;
}
// A call that asks for (or pushes) more than LIMIT bytes, or runs for TIMEOUT ms, does not end in any useful sense.
const go = new vm.Script('__call(__args)');
const LIMIT = 4e6, TIMEOUT = 20000;
// ---- one case; returns null or what is wrong
function check(cs) {
    let call = null, stream = null, used = 0, other = null, endless = false, pushed = 0;
    function generator() {
        return { getRandomValues(a) {
            if (this !== me) throw new TypeError('Illegal invocation');
            if (!ArrayBuffer.isView(a) || /Float|DataView/.test(Object.prototype.toString.call(a))) throw new TypeError('integer typed array expected');
            if (call.gen === 'throw') throw new Error('generator failed');
            if (call.gen === 'quota' && a.byteLength > 65536) throw new Error('QuotaExceededError');
            const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
            if (used + b.length > LIMIT) { endless = true; throw new Error('limit of the harness'); }
            for (let i = 0; i < b.length; i++) { b[i] = used < stream.length ? stream[used] : (used * 31 + 7) % 255 + 1; used++; }
            return call.gen === 'undefined' ? undefined : a;
        }, randomUUID() { other = 'randomUUID'; return '00000000-0000-4000-8000-000000000000'; }, subtle: {} };
    }
    let me = generator();
    const g = {}, s = {}, w = {};
    let G = g, S = s, W = w;
    switch (cs.shape) {
    case 'globalThis': g.crypto = me; S = W = undefined; break;
    case 'self': s.crypto = me; W = undefined; break;
    case 'window': w.crypto = me; S = undefined; break;
    case 'no-globalThis-self': G = undefined; s.crypto = me; W = undefined; break;
    case 'no-globalThis-window': G = S = undefined; w.crypto = me; break;
    case 'globalThis+self': g.crypto = s.crypto = w.crypto = me; break;
    case 'null': g.crypto = null; break;
    case 'no-method': g.crypto = { subtle: {} }; S = W = undefined; break;
    case 'not-a-function': g.crypto = { getRandomValues: 'native' }; S = W = undefined; break;
    case 'getter-throws': Object.defineProperty(g, 'crypto', { get() { throw new Error('SecurityError'); } }); S = W = undefined; break;
    case 'empty-self': G = undefined; s.crypto = undefined; w.crypto = 0; break;
    }
    const ctx = vm.createContext({});
    // every other source of numbers is watched
    const wrap = vm.runInContext('(function(Module, globalThis, self, window, require, process, Date, performance, crypto){' + SRC + '\n;return Module;})', ctx);
    vm.runInContext('Math', ctx).random = () => { other = 'Math.random'; return 0.25; };
    class Vec {
        constructor() { this.a = []; vecs.push(this); }
        push_back(v) { if (++pushed > LIMIT) { endless = true; throw new Error('limit of the harness'); } if (!Number.isInteger(v) || v < 0 || v > 255) bad = 'an element of ' + String(v); this.a.push(v); }
        resize(n, v) { if (!(n <= LIMIT)) { endless = n > LIMIT; throw new RangeError('length'); } while (this.a.length > n) this.a.pop(); while (this.a.length < n) this.push_back(v); }
        set(i, v) { if (i >= 0 && i < this.a.length) { if (!Number.isInteger(v) || v < 0 || v > 255) bad = 'an element of ' + String(v); this.a[i] = v; } return true; }
        get(i) { return this.a[i]; }
        size() { return this.a.length; }
        delete() {}
    }
    let vecs = [], bad = null;
    const fakeCrypto = { randomBytes: n => { other = 'require'; return Buffer.alloc(n, 7); }, randomFillSync: b => { other = 'require'; return b.fill(7); }, webcrypto: { getRandomValues: b => { other = 'require'; return b.fill(7); } } };
    const M = wrap({ Uint8Vector: Vec }, G, S, W, () => fakeCrypto, { hrtime: () => { other = 'process'; return [1, 2]; } },
        class { static now() { other = 'Date'; return 5; } constructor() { other = 'Date'; } getTime() { return 5; } },
        { now() { other = 'performance'; return 1.5; } }, G && cs.shape !== 'getter-throws' ? G.crypto : undefined);
    if (typeof M.getRandomSeed !== 'function') return 'not exported';
    ctx.__call = a => M.getRandomSeed(...a);
    const timed = a => { ctx.__args = a; return go.runInContext(ctx, { timeout: TIMEOUT }); };
    const seen = new Set();
    for (let k = 0; k < cs.calls.length; k++) {
        call = cs.calls[k];
        const arg = sizeArg(call.size);
        const n = arg === undefined ? 48 : Number(arg);
        const can = Number.isInteger(n) && n > 0 && n < 1e7;
        const plan = stream = can ? deliver(call, n) : Buffer.alloc(0);
        used = 0; pushed = 0; other = null; bad = null;
        let r, threw = null;
        try { r = call.size.t === 'undefined' && call.salt % 2 ? timed([]) : timed([arg]); } catch (e) { threw = e; }
        const where = 'call ' + (k + 1) + ' (' + JSON.stringify(call.size) + ', generator ' + call.gen + ' delivering ' + call.fill + ', ' + cs.shape + '): ';
        if (endless || (threw && threw.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT')) return where + 'does not end';
        const healthy = HEALTHY.has(cs.shape) && call.gen !== 'throw';
        const dead = can && n >= 16 && plan.every(x => x === 0);
        if (threw === null) {
            if (!can) return where + 'returned ' + (r && r.a ? r.a.length + ' bytes' : typeof r) + ' for a size that is no positive integer';
            if (!healthy) return where + 'returned although the generator is missing or failed';
            if (dead) return where + 'returned all zeroes';
            if (!(r instanceof Vec)) return where + 'returned something else than a Uint8Vector';
            if (bad) return where + bad;
            if (r.a.length !== n) return where + 'returned ' + r.a.length + ' bytes';
            for (let i = 0; i < n; i++) if (r.a[i] !== plan[i]) return where + 'byte ' + i + ' is ' + r.a[i] + ', the generator delivered ' + plan[i];
            if (seen.has(r)) return where + 'returned the vector of an earlier call';
            seen.add(r);
        } else if (can && healthy && !dead && (arg === undefined || typeof arg === 'number') && !(call.gen === 'quota' && n > 65536))
            return where + 'threw ' + threw;
        if (other) return where + 'used another source: ' + other;
    }
    return null;
}
const text = cs => cs.shape + ': ' + cs.calls.map(c => JSON.stringify(c.size) + ' ' + c.fill + '@' + c.at + ' ' + c.gen).join('; ');
function shrink(cs) {
    let why = check(cs), again = true;
    const until = Date.now() + 60000; // a smaller reproduction is not worth more
    while (again) {
        again = false;
        const tries = [];
        for (let i = 0; i < cs.calls.length; i++) if (cs.calls.length > 1) tries.push({ ...cs, calls: cs.calls.filter((_, j) => j !== i) });
        if (cs.shape !== 'globalThis') tries.push({ ...cs, shape: 'globalThis' });
        cs.calls.forEach((c, i) => {
            const alt = x => tries.push({ ...cs, calls: cs.calls.map((d, j) => j === i ? { ...d, ...x } : d) });
            if (c.gen !== 'ok') alt({ gen: 'ok' });
            if (c.fill !== 'random' && c.fill !== 'zero') { alt({ fill: 'random' }); alt({ fill: 'zero' }); }
            if (c.salt) alt({ salt: 0 });
            if (c.at) { alt({ at: 0 }); alt({ at: c.at >> 1 }); }
            if (typeof c.size.v === 'number' && Number.isInteger(c.size.v) && c.size.v > 1) for (const v of [1, 16, c.size.v >> 1, c.size.v - (c.size.v >> 2), c.size.v - (c.size.v >> 5), c.size.v - (c.size.v >> 8), c.size.v - 1]) if (v < c.size.v) alt({ size: { ...c.size, v } });
        });
        for (const t of tries) { if (Date.now() > until) { again = false; break; } const r = check(t); if (r) { cs = t; why = r; again = true; break; } }
    }
    return [cs, why];
}
if (MODE === 'replay') {
    const cs = JSON.parse(fs.readFileSync(A, 'utf8')).case, why = check(cs);
    console.log(why ? 'still fails: ' + why : 'passes');
    process.exit(why ? 1 : 0);
}
const seed = BigInt(A), cases = Number(B), distinct = new Set(), samples = [], labels = {};
let violation = null, done = 0, nontriv = 0;
for (let i = 0; i < cases; i++) {
    state = (seed * 0x9e3779b97f4a7c15n + BigInt(i) * 0xd1342543de82ef95n + 77n) & 0xffffffffffffffffn;
    next();
    const cs = gen();
    done++;
    labels[cs.shape] = (labels[cs.shape] || 0) + 1;
    const why = check(cs);
    const t = text(cs);
    if (!distinct.has(t)) { distinct.add(t); if (cs.calls.some(c => c.size.t === 'undefined' || c.size.t === 'number')) nontriv++; }
    if (samples.length < 6 && i % 7 === 3) samples.push(t);
    if (why) { const [c2, w2] = shrink(cs); violation = { case: c2, why: w2 }; break; }
}
console.log(JSON.stringify({ evaluations: done, distinct_nontrivial: nontriv, samples, labels, violation }));
