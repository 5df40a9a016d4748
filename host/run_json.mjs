// Replays cases of JsonGen/JsonMC: application values converted to JSON and back, and other JSON read (B02).
// usage: run_json.mjs RIG.wasm RUN.js OPTS FILE
import fs from 'node:fs';
import { Browser } from './browser.mjs';
import { one } from './nettable.mjs';

const [wasm, script, , file] = process.argv.slice(2);
const J = JSON.stringify;
const resolve = (v) => typeof v === 'string' ? one(v) : Array.isArray(v) ? v.map(resolve) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, resolve(x)])) : v;
const sorted = (l) => l.map(([k, v]) => [k, canon(v)]).sort((x, y) => x[0] < y[0] ? -1 : 1);
/** A form in which equal values look equal: objects and maps have no order. */
function canon(d) {
    if (!Array.isArray(d)) return d;
    if (d[0] === 'obj' || d[0] === 'map') return [d[0], sorted(d[1])];
    if (d[0] === 'num') return ['num', String(Number(d[1]))];
    return d.map(canon);
}
const instant = (s) => { const m = /^(.{19})(?:\.(\d+))?(Z|[+-]\d\d:\d\d)$/.exec(s); if (!m) return null; const ms = Date.parse(m[1] + m[3]); return Number.isNaN(ms) ? null : `${ms / 1000}.${(m[2] ?? '').padEnd(9, '0')}`; };
/** The JSON of a moment may be any text which means it. */
function sameJson(want, got) {
    if (want[0] === 'time') return got[0] === 'str' && instant(got[1]) === want[1];
    if (want[0] !== got[0]) return false;
    if (want[0] === 'list') return want[1].length === got[1].length && want[1].every((x, i) => sameJson(x, got[1][i]));
    if (want[0] === 'obj') return want[1].length === got[1].length && want[1].every(([k, v], i) => k === got[1][i][0] && sameJson(v, got[1][i][1]));
    return J(want) === J(got);
}

let b = null, scenarios = 0, steps = 0;
const acts = {};
for (const line of fs.readFileSync(file, 'utf8').split('\n')) {
    if (!line) continue;
    const sc = JSON.parse(line);
    const bad = [];
    for (const c of sc.cases) {
        const h = resolve(c), report = (what, expected, got) => bad.push({ what, type: c.t, value: what === 'other JSON is read as' ? c.j : c.v, expected, got });
        if (!b) { b = new Browser({ wasm, script, prelude: [] }); await b.start(); }
        let r;
        try { r = b.call({ m: 'json', case: h }); } catch (e) {
            report('panic', [h.v, h.j], b.panics.concat(String(e.stack ?? e)));
            if (b.panics.some(p => /rig:/.test(p))) throw new Error('host: ' + b.panics);
            b = null;
            continue;
        }
        const k = `${h.dec.length ? 'read' : 'refused'}`;
        acts[k] = (acts[k] ?? 0) + 1;
        if (!sameJson(canon(h.enc), canon(r.enc))) report('as JSON', h.enc, r.enc);
        if (J(canon([h.v])) !== J(canon(r.back))) report('read back', [h.v], r.back);
        if (J(canon(h.dec)) !== J(canon(r.dec))) report('other JSON is read as', h.dec, r.dec);
        steps++;
    }
    scenarios++;
    if (bad.length) console.log(J({ idx: scenarios - 1, bad, scenario: sc }));
}
console.log(J({ summary: true, scenarios, steps, acts }));
