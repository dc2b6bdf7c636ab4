#!/usr/bin/env node
// The JavaScript half of the wire encoding, run as it is shipped (wasm_run.js) and as it is written (src_js/*.ts put
// together by esbuild), over a stand-in for the browser and for the WebAssembly module.  Values are written and read
// by an encoder and a decoder of the documented layout in this file.  Bounded; see DESIGN.md.
import fs from 'node:fs';
import { execFileSync } from 'node:child_process';

const REPO = process.env.VX_REPO || '/repo';
const D = REPO + '/crates/vertigo/src/driver_module/';
const ESBUILD = '/opt/veriftools/node/node_modules/.bin/esbuild';

// ---- the documented layout
const f64bytes = (h) => Buffer.from(h, 'hex');
const str = (s) => { const b = Buffer.from(s, 'utf8'); return Buffer.concat([u32(b.length), b]); };
const u16 = (n) => { const b = Buffer.alloc(2); b.writeUInt16BE(n); return b; };
const u32 = (n) => { const b = Buffer.alloc(4); b.writeUInt32BE(n); return b; };
const tag = (n) => Buffer.from([n]);
const encode = (v) => {
    const [k, a] = v;
    switch (k) {
        case 'u32': return Buffer.concat([tag(1), u32(a)]);
        case 'i32': { const b = Buffer.alloc(4); b.writeInt32BE(a); return Buffer.concat([tag(2), b]); }
        case 'u64': { const b = Buffer.alloc(8); b.writeBigUInt64BE(BigInt(a)); return Buffer.concat([tag(3), b]); }
        case 'i64': { const b = Buffer.alloc(8); b.writeBigInt64BE(BigInt(a)); return Buffer.concat([tag(4), b]); }
        case 'f64': return Buffer.concat([tag(5), f64bytes(a)]);
        case 'true': return tag(6);
        case 'false': return tag(7);
        case 'null': return tag(8);
        case 'undef': return tag(9);
        case 'vec': { const b = Buffer.from(a, 'hex'); return Buffer.concat([tag(10), u32(b.length), b]); }
        case 'str': return Buffer.concat([tag(11), str(a)]);
        case 'list': return Buffer.concat([tag(12), u32(a.length), ...a.map(encode)]);
        case 'obj': return Buffer.concat([tag(13), u16(a.length), ...a.flatMap(([k, x]) => [str(k), encode(x)])]);
        case 'json': return Buffer.concat([tag(14), encodeJson(a)]);
    }
    throw Error('bad case ' + k);
};
const encodeJson = ([k, a]) => {
    switch (k) {
        case 'true': return tag(1);
        case 'false': return tag(2);
        case 'null': return tag(3);
        case 'str': return Buffer.concat([tag(4), str(a)]);
        case 'num': return Buffer.concat([tag(5), f64bytes(a)]);
        case 'list': return Buffer.concat([tag(6), u32(a.length), ...a.map(encodeJson)]);
        case 'obj': return Buffer.concat([tag(7), u16(a.length), ...a.flatMap(([k, x]) => [str(k), encodeJson(x)])]);
    }
    throw Error('bad json case ' + k);
};
class Rd {
    constructor(b) { this.b = b; this.p = 0; }
    n(n) { if (this.p + n > this.b.length) throw Error('the encoding is cut short'); const r = this.b.subarray(this.p, this.p + n); this.p += n; return r; }
    u16() { return this.n(2).readUInt16BE(); }
    u32() { return this.n(4).readUInt32BE(); }
    str() { return this.n(this.u32()).toString('utf8'); }
    list(f) { const n = this.u32(), o = []; for (let i = 0; i < n; i++) o.push(f()); return o; }
    obj(f) { const n = this.u16(), o = []; for (let i = 0; i < n; i++) { const k = this.str(); o.push([k, f()]); } return o; }
    value() {
        const t = this.n(1)[0];
        switch (t) {
            case 1: return ['u32', this.u32()];
            case 2: return ['i32', this.n(4).readInt32BE()];
            case 3: return ['u64', String(this.n(8).readBigUInt64BE())];
            case 4: return ['i64', String(this.n(8).readBigInt64BE())];
            case 5: return ['f64', this.n(8).toString('hex')];
            case 6: return ['true'];
            case 7: return ['false'];
            case 8: return ['null'];
            case 9: return ['undef'];
            case 10: return ['vec', this.n(this.u32()).toString('hex')];
            case 11: return ['str', this.str()];
            case 12: return ['list', this.list(() => this.value())];
            case 13: return ['obj', this.obj(() => this.value())];
            case 14: return ['json', this.json()];
        }
        throw Error('no value begins with ' + t);
    }
    json() {
        const t = this.n(1)[0];
        switch (t) {
            case 1: return ['true'];
            case 2: return ['false'];
            case 3: return ['null'];
            case 4: return ['str', this.str()];
            case 5: return ['num', this.n(8).toString('hex')];
            case 6: return ['list', this.list(() => this.json())];
            case 7: return ['obj', this.obj(() => this.json())];
        }
        throw Error('no JSON value begins with ' + t);
    }
}
// ---- the plain JavaScript value a wire value stands for
const num = (h) => f64bytes(h).readDoubleBE();
const hexOf = (x) => { const b = Buffer.alloc(8); b.writeDoubleBE(x); return b.toString('hex'); };
const record = (pairs) => { const o = {}; for (const [k, v] of pairs) Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true }); return o; };
const plain = ([k, a]) => {
    switch (k) {
        case 'u32': case 'i32': return a;
        case 'u64': case 'i64': return BigInt(a);
        case 'f64': return num(a);
        case 'true': return true;
        case 'false': return false;
        case 'null': return null;
        case 'undef': return undefined;
        case 'vec': return new Uint8Array(Buffer.from(a, 'hex'));
        case 'str': return a;
        case 'list': return a.map(plain);
        case 'obj': return record(a.map(([k, x]) => [k, plain(x)]));
        case 'json': return plainJson(a);
    }
};
const plainJson = ([k, a]) => {
    switch (k) {
        case 'true': return true;
        case 'false': return false;
        case 'null': return null;
        case 'str': return a;
        case 'num': return num(a);
        case 'list': return a.map(plainJson);
        case 'obj': return record(a.map(([k, x]) => [k, plainJson(x)]));
    }
};
const same = (a, b) => {
    if (Object.is(a, b)) return true;
    if (typeof a !== typeof b || typeof a !== 'object' || a === null || b === null) return false;
    if (a instanceof Uint8Array || b instanceof Uint8Array)
        return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]);
    if (Array.isArray(a) || Array.isArray(b))
        return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
    const ka = Object.keys(a), kb = Object.keys(b);
    return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && same(a[k], b[k]));
};
// wire values, keys of objects in any order, all NaNs alike
const canon = (v) => {
    const [k, a] = v;
    if (k === 'list') return [k, a.map(canon)];
    if (k === 'obj') return [k, a.map(([n, x]) => [n, canon(x)]).sort(([x], [y]) => (x < y ? -1 : x > y ? 1 : 0))];
    if (k === 'json') return [k, canon(a)];
    if ((k === 'f64' || k === 'num') && Number.isNaN(num(a))) return [k, 'nan'];
    return v;
};
const show = (v) => JSON.stringify(v, (_k, x) => (typeof x === 'bigint' ? x + 'n' : x))?.slice(0, 300);

// ---- the library over a stand-in browser
const load = async (code) => {
    let buffer = new ArrayBuffer(1 << 16);
    let top = 16;
    const given = new Map();
    const freed = [];
    class Memory { get buffer() { return buffer; } }
    const alloc = (n) => {
        const p = top;
        top += n + 1 + (top % 5);
        // the module's memory grows: what was seen of it before is no longer the module's memory
        if (top > buffer.byteLength || top % 3 === 0) {
            const next = new ArrayBuffer(Math.max(buffer.byteLength, top * 2));
            new Uint8Array(next).set(new Uint8Array(buffer));
            buffer = next;
        }
        given.set(p, n);
        return p;
    };
    const st = { calls: [], answer: null, fetch: null };
    const exports = {
        memory: new Memory(), alloc,
        free: (p) => { freed.push(p); given.delete(p); },
        wasm_callback: (id, ptr) => { st.calls.push([id, ptr === 0 ? ['undef'] : read(ptr)]); return st.answer ? st.answer() : 0n; },
        vertigo_entry_function: () => {},
    };
    const read = (ptr) => {
        if (!given.has(ptr)) throw Error('memory at ' + ptr + ' was never given');
        const n = given.get(ptr);
        const rd = new Rd(Buffer.from(new Uint8Array(buffer).slice(ptr, ptr + n)));
        const v = rd.value();
        if (rd.p !== n) throw Error(`${n} bytes are asked for and ${rd.p} are written`);
        given.delete(ptr);
        return v;
    };
    let imports = null;
    const heard = {};
    const target = () => ({ childNodes: [], addEventListener: (n, f) => { heard[n] = f; }, removeEventListener: () => {}, getAttribute: () => 'x.wasm', setAttribute() {} });
    const document = Object.assign(target(), { documentElement: target(), head: target(), body: target(), cookie: '', querySelectorAll: () => [target()] });
    const quiet = { log() {}, info() {}, warn() {}, error() {}, debug() {} };
    const window = Object.assign(target(), { location: { hash: '', pathname: '/', search: '' } });
    const WA = { Memory, instantiateStreaming: async (_s, im) => { imports = im; return { instance: { exports } }; } };
    const fetchStub = async (...a) => (st.fetch ? st.fetch(...a) : {});
    new Function('window', 'document', 'fetch', 'WebAssembly', 'setTimeout', 'console', 'location', 'history', code)(
        window, document, fetchStub, WA, () => 0, quiet, window.location, { pushState() {} });
    await heard.load();
    for (let i = 0; i < 20 && !(imports && window.$vertigoApi); i++) await null;
    if (!imports) throw Error('the module was not asked for');
    const write = (v) => { const b = encode(v); const p = alloc(b.length); new Uint8Array(buffer).set(b, p); given.delete(p); return [p, b.length]; };
    const access = (path) => { const [p, n] = write(['list', path]); return imports.mod.dom_access(p, n); };
    return { st, window, document, write, read, access, freed, reset: () => { top = 16; given.clear(); freed.length = 0; st.calls = []; st.answer = null; st.fetch = null; } };
};
const S = (s) => ['str', s];
const root = ['list', [S('root'), S('window')]];

let counter = 0;
const check = async (lib, c) => {
    lib.reset();
    if (c.op === 'set') {
        const r = lib.access([root, ['list', [S('set'), S('vxVal'), c.v]]]);
        if (r !== 0) return `setting a value answers ${r}`;
        const want = plain(c.v);
        if (!same(lib.window.vxVal, want)) return `${show(c.v)} is read as ${show(lib.window.vxVal)}`;
    } else if (c.op === 'call') {
        let got = null;
        lib.window.vxFn = (...a) => { got = a; };
        const r = lib.access([root, ['list', [S('call'), S('vxFn'), ...c.v]]]);
        if (r !== 0) return `a call without an answer answers ${r}`;
        if (!got || !same(got, c.v.map(plain))) return `called with ${show(c.v)}, which is read as ${show(got)}`;
    } else if (c.op === 'get') {
        lib.window.vxVal = plain(c.v);
        const r = lib.access([root, ['list', [S('get'), S('vxVal')]]]);
        if (c.v[0] === 'undef') return r === 0 ? null : `nothing is answered as ${r}`;
        if (!r) return `${show(c.v)} is not answered`;
        const got = lib.read(r);
        if (show2(canon(got)) !== show2(canon(c.v))) return `${show(c.v)} is written as ${show(got)}`;
    } else if (c.op === 'answer') {
        // what the module answers to an event is read by the page, and its memory is given back
        const [p, n] = lib.write(c.v);
        lib.st.answer = () => (BigInt(p) << 32n) | BigInt(n);
        let prevented = 0;
        const old = globalThis.KeyboardEvent;
        globalThis.KeyboardEvent = class {};
        try {
            const ev = Object.assign(new globalThis.KeyboardEvent(), { key: c.key, code: 'c', altKey: true, ctrlKey: false, shiftKey: true, metaKey: false, preventDefault() { prevented++; }, stopPropagation() {} });
            let heard = null;
            lib.document.addEventListener = (n, f) => { if (n === 'keydown') heard = f; };
            const id = String(900000 + counter++);
            lib.access([['list', [S('api')]], ['list', [S('get'), S('dom')]], ['list', [S('call'), S('dom_bulk_update'),
                ['json', ['list', [['obj', [['type', ['str', 'callback_add']], ['id', ['num', hexOf(1)]], ['event_name', ['str', 'hook_keydown']], ['callback_id', ['num', hexOf(Number(id))]]]]]]]]]]);
            if (!heard) return 'no listener is added';
            heard(ev);
            const want = ['list', [S(c.key), S('c'), ['true'], ['false'], ['true'], ['false']]];
            const call = lib.st.calls[0];
            if (lib.st.calls.length !== 1 || String(call[0]) !== id || show2(call[1]) !== show2(want)) return `a key is reported as ${show(lib.st.calls)}`;
            if ((prevented === 1) !== (c.v[0] === 'true')) return `the answer ${show(c.v)} is taken for ${prevented}`;
            if (lib.freed.length !== 1 || lib.freed[0] !== p) return `the answer's memory at ${p} is not given back: ${lib.freed}`;
        } finally {
            globalThis.KeyboardEvent = old;
        }
    } else if (c.op === 'fetch') {
        const type = { json: 'application/json', str: 'text/plain', vec: 'image/png' }[c.v[0]];
        lib.st.fetch = async () => ({ status: c.status, headers: { get: () => type }, json: async () => plain(c.v), text: async () => plain(c.v), arrayBuffer: async () => plain(c.v).buffer });
        const id = 5n;
        lib.access([['list', [S('api')]], ['list', [S('get'), S('fetch')]], ['list', [S('call'), S('fetch_send_request'), ['u64', '5'], S('get'), S('/x'), ['obj', []], ['undef']]]]);
        for (let i = 0; i < 30 && !lib.st.calls.length; i++) await null;
        const want = ['list', [['true'], ['u32', c.status], c.v]];
        const call = lib.st.calls[0];
        if (lib.st.calls.length !== 1 || call[0] !== id || show2(canon(call[1])) !== show2(canon(want))) return `an answer to a request is reported as ${show(lib.st.calls)} and not as ${show(want)}`;
    }
    return null;
};
const show2 = (v) => JSON.stringify(v);

// ---- cases
let seed = 1n;
const rnd = (n) => { seed = (seed * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; return Number((seed >> 33n) % BigInt(n)); };
const pick = (a) => a[rnd(a.length)];
const STR = ['', 'a', 'type', 'value', 'length', '0', '12', 'é', '€', '😀', 'a\u0000b', '\u007f', 'żółw 漢字', '\n"\\', 'constructor', 'toString', 'x'.repeat(127), 'ü'.repeat(128), 'e'.repeat(255), 'k'.repeat(256), '漢'.repeat(22000), 'z'.repeat(65536)];
const F64 = [0.5, -0.5, 1.5e300, 5e-324, Infinity, -Infinity, NaN, 2147483648, -2147483649, 4294967295, 9007199254740993, 1e21, 0.1, -0];
const rstr = () => (rnd(3) ? pick(STR.slice(0, 16)) : rnd(40) ? pick(STR.slice(0, 20)) : pick(STR));
const ri = () => pick([0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2147483647, -2147483648, -128, -129, rnd(1 << 30), -rnd(1 << 30)]);
const ru = () => pick([0, 1, 127, 128, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967294, rnd(1 << 30) * 3]);
const rU = () => String(pick([0n, 1n, 255n, (1n << 31n), (1n << 32n) - 1n, 1n << 32n, (1n << 53n) + 1n, (1n << 63n) - 1n, 1n << 63n, (1n << 64n) - 1n, seed]));
const rI = () => String(pick([0n, 1n, -1n, (1n << 31n), -(1n << 31n) - 1n, (1n << 53n) + 1n, (1n << 63n) - 1n, -(1n << 63n), BigInt.asIntN(64, seed)]));
const rf = () => hexOf(rnd(3) ? pick(F64) : (rnd(1 << 30) - (1 << 29)) / (1 + rnd(1000)));
const keys = (n) => { const s = new Set(); for (let i = 0; i < n; i++) s.add(rnd(4) ? 'k' + rnd(50) : rstr()); return [...s]; };
const bytes = () => Buffer.from(Array.from({ length: pick([0, 1, 2, 7, 255, 256, 257, rnd(300)]) }, () => rnd(256))).toString('hex');
const rj = (d) => {
    switch (rnd(d > 0 ? 8 : 5)) {
        case 0: return ['true'];
        case 1: return ['false'];
        case 2: return ['null'];
        case 3: return ['str', rstr()];
        case 4: return ['num', rf()];
        case 5: case 6: return ['list', Array.from({ length: rnd(4) }, () => rj(d - 1))];
        default: return ['obj', keys(rnd(4)).map((k) => [k, rj(d - 1)])];
    }
};
const rv = (d) => {
    switch (rnd(d > 0 ? 15 : 11)) {
        case 0: return ['u32', ru()];
        case 1: return ['i32', ri()];
        case 2: return ['u64', rU()];
        case 3: return ['i64', rI()];
        case 4: return ['f64', rf()];
        case 5: return ['true'];
        case 6: return ['false'];
        case 7: return ['null'];
        case 8: return ['undef'];
        case 9: return ['vec', bytes()];
        case 10: return ['str', rstr()];
        case 11: case 12: return ['list', Array.from({ length: rnd(5) }, () => rv(d - 1))];
        case 13: return ['obj', keys(rnd(5)).map((k) => [k, rv(d - 1)])];
        default: return ['json', rj(3)];
    }
};
// values which the page side can hand over; their kind on the wire is told by what they are
const rout = () => {
    const f = () => { for (;;) { const h = rf(), x = num(h); if (x !== (x | 0)) return ['f64', h]; } };
    const leaf = () => pick([() => ['str', rstr()], () => ['true'], () => ['false'], () => ['null'], () => ['undef'], () => ['i32', ri()], f, () => ['i64', rI()], () => ['vec', bytes()]])();
    switch (rnd(4)) {
        case 0: { const j = rj(3); return j[0] === 'list' || j[0] === 'obj' ? ['json', j] : leaf(); }
        case 1: return ['obj', [['big', ['i64', rI()]], ...keys(rnd(4)).filter((k) => k !== 'big').map((k) => [k, leaf()])]];
        default: return leaf();
    }
};
const fixed = () => {
    const out = [];
    for (const s of STR) out.push({ op: 'set', v: S(s) }, { op: 'get', v: S(s) }, { op: 'set', v: ['obj', [[s, S(s)]]] }, { op: 'set', v: ['json', ['obj', [[s, ['str', s]]]]] }, { op: 'get', v: ['json', ['obj', [[s, ['str', s]]]]] });
    for (const x of F64) out.push({ op: 'set', v: ['f64', hexOf(x)] }, { op: 'set', v: ['json', ['num', hexOf(x)]] }, { op: 'get', v: ['json', ['list', [['num', hexOf(x)]]]] });
    for (const k of ['true', 'false', 'null', 'undef']) out.push({ op: 'set', v: [k] }, { op: 'get', v: [k] }, { op: 'answer', v: [k], key: 'Enter' });
    for (const n of [0, 1, 2, 255, 256, 257, 65535, 65536, 70001]) {
        const b = Buffer.alloc(n, 'xyz').toString('hex');
        out.push({ op: 'set', v: ['vec', b] }, { op: 'get', v: ['vec', b] }, { op: 'fetch', status: 200, v: ['vec', b] });
        out.push({ op: 'set', v: ['list', Array.from({ length: n }, (_x, i) => (i % 2 ? ['true'] : ['u32', i]))] });
        const list = ['list', Array.from({ length: n }, (_x, i) => ['num', hexOf(i)])];
        out.push({ op: 'set', v: ['json', list] }, { op: 'get', v: ['json', list] });
        if (n < 65536) {
            const pairs = Array.from({ length: n }, (_x, i) => ['k' + i, ['num', hexOf(i)]]);
            out.push({ op: 'set', v: ['json', ['obj', pairs]] }, { op: 'get', v: ['json', ['obj', pairs]] });
            out.push({ op: 'set', v: ['obj', pairs.map(([k], i) => [k, ['u32', i]])] });
            if (n) out.push({ op: 'get', v: ['obj', pairs.map(([k], i) => [k, i ? ['true'] : ['i64', '5']])] });
        }
    }
    for (const s of [0, 100, 200, 404, 599, 70000]) out.push({ op: 'fetch', status: s, v: ['json', ['obj', [['a', ['num', hexOf(1)]]]]] }, { op: 'fetch', status: s, v: S('é' + s) });
    // recorded in known-findings.txt
    out.push({ op: 'set', v: S('\ufeffabc'), known: 'js-bom' }, { op: 'set', v: ['json', ['obj', [['__proto__', ['true']]]]], known: 'js-proto' });
    return out;
};
const random = () => {
    switch (rnd(8)) {
        case 0: case 1: case 2: return { op: 'set', v: rv(4) };
        case 3: return { op: 'call', v: Array.from({ length: rnd(5) }, () => rv(3)) };
        case 4: case 5: return { op: 'get', v: rout() };
        case 6: return { op: 'answer', v: rv(2), key: rstr() };
        default: return { op: 'fetch', status: rnd(600), v: pick([() => ['json', rj(3)], () => S(rstr()), () => ['vec', bytes()]])() };
    }
};
const arg = (n, d) => { const i = process.argv.indexOf(n); return i < 0 ? d : process.argv[i + 1]; };

const libs = [];
libs.push(['wasm_run.js', await load(fs.readFileSync(D + 'wasm_run.js', 'utf8'))]);
try {
    const built = execFileSync(ESBUILD, [D + 'src_js/index.ts', '--bundle', '--format=iife', '--log-level=error', '--target=es2022'], { encoding: 'utf8', maxBuffer: 1 << 26 });
    libs.push(['src_js', await load(built)]);
} catch (e) {
    console.error('the TypeScript sources cannot be put together: ' + e.message);
}
const one = async (c) => {
    for (const [name, lib] of libs) {
        let m = null;
        try { m = await check(lib, c); } catch (e) { m = String(e && e.message); }
        if (m) return `${name}: ${m}`;
    }
    return null;
};
const replay = arg('--replay', null);
if (replay) {
    const m = await one(JSON.parse(fs.readFileSync(replay, 'utf8')));
    console.log(m ? 'FAIL ' + m : 'PASS');
    process.exit(m ? 1 : 0);
}
const tier = arg('--tier', 'quick'), secs = Number(arg('--secs', '10')), known = arg('--known', '').split(',');
seed = BigInt(arg('--seed', '1')) * 0x9e3779b97f4a7c15n & 0xffffffffffffffffn;
const t0 = Date.now(), max = tier === 'quick' ? 6000 : 300000, first = fixed(), hit = {}, seen = new Set();
let cases = 0, fail = null, truncated = false;
for (let i = 0; i < first.length + max; i++) {
    if (Date.now() - t0 > secs * 1000) { truncated = true; break; }
    const c = i < first.length ? first[i] : random();
    cases++;
    const text = JSON.stringify(c);
    if (text.length < 4000) seen.add(text);
    const m = await one(c);
    if (m && c.known && known.includes(c.known)) { hit[c.known] = m; continue; }
    if (m) { fail = { input: text, message: m }; break; }
}
console.log('HARNESS ' + JSON.stringify({ cases, distinct: seen.size, truncated, wall_s: (Date.now() - t0) / 1000, known: hit, fail }));
