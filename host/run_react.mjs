// Replays behaviours of spec/ReactiveGen.tla through the public API of the reactive graph and compares what the
// code makes observable with what the specification says.   usage: run_react.mjs RIG.wasm SCENARIOS.jsonl
import fs from 'node:fs';
import { bareRig } from './bare.mjs';

const [wasm, file] = process.argv.slice(2);
const say = (o) => console.log(JSON.stringify(o));

// [op] sequence with begin/end -> nested operations for the rig
function nest(hist) {
    const outer = [];
    let i = 0;
    const parse = () => {
        const step = i;
        const h = hist[i++];
        if (h.op[0] !== 'begin') return { step, op: h.op };
        const kids = [];
        while (hist[i].op[0] !== 'end') kids.push(parse());
        const endStep = i++;
        return { step, endStep, kids };
    };
    while (i < hist.length) outer.push(parse());
    return outer;
}
const toRig = (t) => t.kids ? ['tx', t.kids.map(toRig)] : t.op;

// distribute the rig's flat log over the steps
function split(tree, log, segs) {
    let p = 0;
    const take = (step, stops) => {
        while (p < log.length && !stops.includes(log[p][0])) (segs[step] ??= []).push(log[p++]);
    };
    const walk = (t, nested) => {
        segs[t.step] ??= [];
        if (t.kids) {
            segs[t.endStep] ??= [];
            take(t.step, ['opened']);
            if (log[p]?.[0] !== 'opened') throw Error('log: opened expected');
            p++;
            for (const k of t.kids) { walk(k, true); }
            take(t.endStep, ['closing']);
            if (log[p]?.[0] !== 'closing') throw Error('log: closing expected');
            p++;
            take(t.endStep, ['ret']);
            if (log[p]?.[0] !== 'ret') throw Error('log: ret expected');
            if (log[p][1] !== 41) segs[t.endStep].push(['badret', log[p][1]]);
            p++;
        } else {
            take(t.step, nested ? ['done'] : []);
        }
        if (nested) {
            take(t.endStep ?? t.step, ['done']);
            if (log[p]?.[0] !== 'done') throw Error('log: done expected');
            p++;
        }
    };
    walk(tree, false);
    if (p !== log.length) throw Error('log: rest ' + JSON.stringify(log.slice(p)));
}

const key = (e) => JSON.stringify(e);
const count = (list) => { const m = new Map(); for (const e of list) m.set(key(e), (m.get(key(e)) ?? 0) + 1); return m; };

function judge(sc, segs, bad) {
    const open = new Map();
    const level = { n: 0 };
    for (let i = 0; i < sc.hist.length; i++) {
        const want = sc.hist[i], got = segs[i] ?? [];
        if (want.op[0] === 'begin') level.n++;
        if (want.op[0] === 'end') level.n--;
        const sel = (l, ...k) => l.filter((e) => k.includes(e[0]));
        const miss = (props, what, a, b) => bad.push({ props, step: i, op: want.op, what, expected: a, got: b });
        // reads
        const r1 = sel(want.log, 'read'), r2 = sel(got, 'read');
        if (key(r1) !== key(r2)) miss(level.n > 0 ? ['R01', 'R03'] : ['R01'], 'read', r1, r2);
        // callbacks, as a set: the order among subscribers is not promised
        const c1 = count(sel(want.log, 'cb')), c2 = count(sel(got, 'cb'));
        if (key([...c1].sort()) !== key([...c2].sort())) {
            const props = ['R02'];
            const subsWant = new Set(sel(want.log, 'cb').map((e) => e[1])), subsGot = new Set(sel(got, 'cb').map((e) => e[1]));
            const wrongValue = sel(got, 'cb').some((e) => subsWant.has(e[1]) && !c1.has(key(e)));
            if (wrongValue) props.push('R01');
            if (level.n > 0 || want.op[0] === 'end' || wrongValue || [...subsWant].some((s) => !subsGot.has(s))) props.push('R03');
            miss(props, 'callbacks', sel(want.log, 'cb'), sel(got, 'cb'));
        }
        // hooks: same ones, same number, after the callbacks
        const h1 = count(sel(want.log, 'hook')), h2 = count(sel(got, 'hook'));
        if (key([...h1].sort()) !== key([...h2].sort())) miss(['R03'], 'after-transaction hooks', sel(want.log, 'hook'), sel(got, 'hook'));
        const firstHook = got.findIndex((e) => e[0] === 'hook');
        // a connection which pushes while being opened is a transaction of its own before the first delivery
        if (want.op[0] !== 'sub' && firstHook >= 0 && got.slice(firstHook).some((e) => e[0] === 'cb')) miss(['R03'], 'hook before a subscriber', want.log, got);
        if (got.some((e) => e[0] === 'badret')) miss(['R03'], 'transaction result', 41, sel(got, 'badret'));
        // evaluations: never more than necessary
        const e1 = count(sel(want.log, 'ev')), e2 = count(sel(got, 'ev'));
        for (const [k, n] of e2) if (n > (e1.get(k) ?? 0)) miss(['R04'], 'evaluations of ' + k, e1.get(k) ?? 0, n);
        // connections
        for (const e of sel(got, 'open', 'close')) {
            const was = open.get(e[1]) ?? 0;
            const now = was + (e[0] === 'open' ? 1 : -1);
            if (now < 0 || now > 1) miss(['R05'], 'connection count of ' + e[1], '0..1', now);
            open.set(e[1], now);
        }
        for (const [n, state] of want.conn) {
            const now = open.get(n) ?? 0;
            // a transaction that is still open may not have caught up with a switch of dependencies
            if (state === 'any') continue;
            if (level.n > 0 && want.op[0] !== 'sub' && want.op[0] !== 'drop') continue;
            if (level.n > 0 && state === 'open' && !(want.log.some((e) => e[0] === 'open' && e[1] === n))) continue;
            if (now !== (state === 'open' ? 1 : 0)) miss(['R05'], 'connection of ' + n, state, now);
        }
    }
}

const lines = fs.readFileSync(file, 'utf8').split('\n').filter((x) => x);
let steps = 0, n = 0, events = {};
lines.forEach((line, idx) => {
    const sc = JSON.parse(line);
    const rig = bareRig(wasm);
    const bad = [];
    const segs = {};
    let at = null;
    try {
        rig.call({ m: 'react', do: 'make', nodes: sc.prog.map((d, i) => ({ id: i + 1, ...d })) });
        for (const t of nest(sc.hist)) {
            at = t.step;
            const r = rig.call({ m: 'react', do: 'op', op: toRig(t) });
            split(t, r.log, segs);
        }
        judge(sc, segs, bad);
    } catch (e) {
        if (e instanceof WebAssembly.RuntimeError || rig.panics.length) {
            bad.push({ props: ['R01', 'R02', 'R03', 'R04', 'R05'], step: at, what: 'panic', got: rig.panics.concat(String(e)) });
        } else throw e;
    }
    n++;
    steps += sc.hist.length;
    for (const h of sc.hist) { events[h.op[0]] = (events[h.op[0]] ?? 0) + 1; for (const e of h.log) events['=' + e[0]] = (events['=' + e[0]] ?? 0) + 1; }
    if (bad.length) say({ idx, bad: bad.slice(0, 20), scenario: sc });
});
say({ summary: true, scenarios: n, steps, events });
