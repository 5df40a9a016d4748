// Replays behaviours of BridgeGen/BridgeMC: values exchanged between the application and the objects of the page (B01).
// usage: run_bridge.mjs RIG.wasm RUN.js OPTS FILE
import fs from 'node:fs';
import { Browser, settle } from './browser.mjs';
import { one } from './nettable.mjs';

const [wasm, script, , file] = process.argv.slice(2);
const J = JSON.stringify;
const resolve = (v) => typeof v === 'string' ? one(v) : Array.isArray(v) ? v.map(resolve) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, resolve(x)])) : v;
/** A value of the page from its description. */
function make(d) {
    switch (d[0]) {
        case 'num': return Number(d[1]);
        case 'big': return BigInt(d[1]);
        case 'bool': case 'str': return d[1];
        case 'null': return null;
        case 'undef': return undefined;
        case 'bytes': return Uint8Array.from(d[1]);
        case 'bytesn': return Uint8Array.from({ length: d[1] }, (_, i) => i % 251);
        case 'strn': return d[2].repeat(d[1]);
        case 'list': return d[1].map(make);
        case 'listn': return Array.from({ length: d[1] }, () => make(d[2]));
        case 'obj': return Object.fromEntries(d[1].map(([k, v]) => [k, make(v)]));
        case 'objn': return Object.fromEntries(Array.from({ length: d[1] }, (_, i) => ['k' + i, make(d[2])]));
    }
    throw new Error('host: value ' + J(d));
}
const num = (x) => { const n = x === 'inf' ? Infinity : x === '-inf' ? -Infinity : Number(x); return Object.is(n, -0) ? '0' : String(n); };
/** A description in which equal values look equal. */
function canon(d) {
    switch (d[0]) {
        case 'num': return ['num', num(d[1])];
        case 'list': return ['list', d[1].map(canon)];
        case 'obj': return ['obj', d[1].map(([k, v]) => [k, canon(v)]).sort((x, y) => x[0] < y[0] ? -1 : 1)];
        case 'bytesn': case 'strn': case 'listn': case 'objn': return describe(make(d));
        default: return d;
    }
}
/** What a value of the page is. */
function describe(v) {
    if (v === null) return ['null'];
    switch (typeof v) {
        case 'undefined': return ['undef'];
        case 'boolean': return ['bool', v];
        case 'number': return ['num', num(v)];
        case 'bigint': return ['big', String(v)];
        case 'string': return ['str', v];
        case 'object':
            if (v instanceof Uint8Array) return ['bytes', [...v]];
            if (Array.isArray(v)) return ['list', Array.from(v, describe)];
            if ([Object.prototype, null].includes(Object.getPrototypeOf(v))) return ['obj', Object.entries(v).map(([k, x]) => [k, describe(x)]).sort((x, y) => x[0] < y[0] ? -1 : 1)];
    }
    return ['other', String(v)];
}
const cut = (x) => { const s = J(x); return s.length > 400 ? s.slice(0, 400) + '...' : x; };

async function replay(sc) {
    const bad = [];
    let step = -1, act = null, seen = 0;
    const report = (what, expected, got) => bad.push({ step, act: cut(act), what, expected: cut(expected), got: cut(got) });
    const b = new Browser({ wasm, script, prelude: [{ m: 'bridge', do: 'on' }] });
    const problems = () => { const p = b.problems(); for (; seen < p.length; seen++) report('problem', 'none', p[seen]); };
    const same = (what, want, got) => { const w = canon(want), g = canon(got); if (J(w) !== J(g)) report(what, w, g); };
    try {
        await b.start();
        if (!b.inst) { report('application did not start', '', b.problems()); return { bad, b }; }
        b.call({ m: 'log' });
        const roots = { w: b.window, d: b.document, e: b.document.body._c.find(n => n.localName === 'i') };
        for (const o of Object.values(roots)) {
            o.first = function (...a) { return a[0]; };
            o.args = function (...a) { return a; };
            o.pair = function (...a) { return { x: a[0], n: a.length }; };
            o.store = function (...a) { this.c = a[0]; return a.length; };
        }
        problems();
        for (step = 0; step < sc.steps.length; step++) {
            const h = resolve(sc.steps[step]);
            act = h.do;
            let log = [];
            const nf = b.fetches.length;
            switch (act[0]) {
                case 'app': log = b.call({ m: 'bridge', do: 'op', op: act[1] }).log; if (act[1][0] === 'post') await b.advance(0); break;
                case 'js': roots[act[1]][act[2]] = make(act[3]); break;
                case 'reply': b.respond(b.fetches.at(-1), { status: 200, headers: { 'content-type': 'application/json' }, body: J(make(act[1])) }); await settle(); await b.advance(0); break;
                default: throw new Error('host: action ' + act[0]);
            }
            await settle(1);
            log = log.concat(b.call({ m: 'log' }).log);
            if (log.length !== h.log.length) report('values received', h.log, log);
            else for (let i = 0; i < log.length; i++) { if (log[i][0] !== h.log[i][0] || log[i][1] === null) report('received', h.log[i], log[i]); else same('received', h.log[i][1], log[i][1]); }
            const sent = b.fetches.slice(nf);
            if (sent.length !== h.post.length) report('requests', h.post.length, sent.length);
            else for (let i = 0; i < sent.length; i++) { let body; try { body = JSON.parse(sent[i].body); } catch { body = { other: String(sent[i].body) }; } same('request', h.post[i], describe(body)); }
            for (const r of Object.keys(h.js)) for (const p of Object.keys(h.js[r])) same(`property ${p} of ${r}`, h.js[r][p], describe(roots[r][p]));
            problems();
            if (bad.length > 8) break;
        }
    } catch (e) {
        if (String(e.message).startsWith('host:')) throw e;
        report('exception', 'none', b.panics.concat(String(e.stack ?? e)));
    }
    return { bad, b };
}

const acts = {};
let scenarios = 0, steps = 0;
for (const line of fs.readFileSync(file, 'utf8').split('\n')) {
    if (!line) continue;
    const sc = JSON.parse(line);
    const { bad } = await replay(sc);
    scenarios++;
    steps += sc.steps.length;
    for (const s of sc.steps) { const k = s.do[0] === 'app' ? s.do[1][0] : s.do[0]; acts[k] = (acts[k] ?? 0) + 1; }
    if (bad.length) console.log(J({ idx: scenarios - 1, bad, scenario: sc }));
}
console.log(J({ summary: true, scenarios, steps, acts }));
