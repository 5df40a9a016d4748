// Replays the pairs of spec/KeyedList.tla: old list, new list; order, identity and rendering of every item.
// usage: run_list.mjs RIG.wasm RUN.js OPTS FILE      OPTS: { all: every pair in every surrounding }
import fs from 'node:fs';
import * as D from './dom.mjs';
import { Browser } from './browser.mjs';

const [wasm, script, optText, file] = process.argv.slice(2);
const opts = JSON.parse(optText);
const say = (o) => console.log(JSON.stringify(o));
const num = { v: [], m: 100000, a: 0, i: 1 };           // the payload of the item
const el = (tag, c) => ({ t: 'el', tag, at: [], css: { k: 'n' }, sus: 0, ev: [], c });
const tx = { t: 'ctext', x: '', e: num };
const IT = {
    li: el('li', [tx]),
    text: tx,
    frag: { t: 'frag', c: [tx, el('b', [tx])] },
    val: { t: 'val', e: { v: [1], m: 1, a: 0, i: 0 }, b: [el('i', [tx])] },
    empty: { t: 'val', e: { v: [1], m: 1, a: 0, i: 0 }, b: [{ t: 'none' }] },
    etext: { t: 'etext', x: '', e: num },
};
const plist = (...ks) => ({ t: 'plist', l: 1, b: ks.map(k => IT[k]) });
const T = (x) => ({ t: 'text', x });
const one = { t: 'val', e: { v: [1], m: 1, a: 0, i: 0 }, b: [T('v')] };
// surroundings: [children of the parent, nodes in front of the list, nodes behind it, item kinds]
const ENV = [
    [[plist('li')], 0, 0, ['li']],
    [[T('a'), plist('li'), T('z')], 1, 1, ['li']],
    [[one, plist('li'), one], 1, 1, ['li']],
    [[plist('text'), el('p', [])], 0, 1, ['text']],
    [[T('a'), plist('frag'), el('p', [])], 1, 1, ['frag']],
    [[one, plist('val')], 1, 0, ['val']],
    [[T('a'), plist('li', 'frag', 'text'), one], 1, 1, ['li', 'frag', 'text']],
    [[one, plist('frag', 'li', 'val'), T('z')], 1, 1, ['frag', 'li', 'val']],
    [[{ t: 'frag', c: [T('a'), plist('empty', 'li')] }, T('z')], 1, 1, ['empty', 'li']],
    [[plist('etext', 'li'), one], 0, 1, ['etext', 'li']],
];
const width = { li: 1, text: 1, frag: 2, val: 1, empty: 0, etext: 1 };
const shows = { li: ns => ns[0].localName === 'li' && ns[0].textContent, text: ns => ns[0] instanceof D.Text_ && ns[0].data, frag: ns => ns[0] instanceof D.Text_ && ns[1].localName === 'b' && ns[1].textContent === ns[0].data && ns[0].data, val: ns => ns[0].localName === 'i' && ns[0].textContent, etext: ns => ns[0] instanceof D.Text_ && ns[0].data };
const rooted = new Set(['li', 'text']);

const lines = fs.readFileSync(file, 'utf8').split('\n').filter(x => x).map(x => JSON.parse(x));
let pairs = 0, fails = 0;
for (let e = 0; e < ENV.length; e++) {
    const [c, front, back, kinds] = ENV[e];
    const fresh = async () => {
        const b = new Browser({ wasm, script, prelude: [{ m: 'page', do: 'load', sc: { init: { v: [0], l: [], pl: [[]], s: [], o: [] }, css: [], tree: el('ul', c) } }] });
        await b.start();
        return b;
    };
    let b = null, ul = null, before, after;
    for (let i = 0; i < lines.length; i++) {
        if (!opts.all && (i + (i / 7 | 0)) % ENV.length !== e) continue;
        const s = lines[i];
        if (!b) { b = await fresh(); ul = b.document.body._c.find(n => n.localName === 'ul'); if (!ul) { say({ bad: [{ what: 'did not start', got: b.problems() }], scenario: s, env: e }); fails++; break; } const k = ul._c.filter(n => !(n instanceof D.Comment_)); before = k.slice(0, front); after = k.slice(k.length - back); }
        const bad = [];
        // payloads: the new list may or may not carry changed ones
        const gen = i % 3;
        const pay = (ks, f) => ks.map((k, j) => [k, k * 100 + f * (1 + (gen === 2 ? j : 0))]);
        const set = (x) => b.call({ m: 'page', do: 'op', op: { k: 'pl', j: 1, x } }).log.filter(l => l[0] === 'render').map(l => l[1]);
        const view = (keys) => {
            const all = ul._c.filter(n => !(n instanceof D.Comment_));
            before.forEach((n, j) => { if (all[j] !== n) bad.push({ what: 'sibling in front of the list', expected: n.textContent, got: all[j]?.textContent }); });
            after.forEach((n, j) => { if (all[all.length - back + j] !== n) bad.push({ what: 'sibling behind the list', expected: n.textContent, got: all[all.length - back + j]?.textContent }); });
            const mid = all.slice(front, all.length - back);
            const out = []; let p = 0;
            for (const k of keys) { const kind = kinds[k % kinds.length]; out.push([kind, mid.slice(p, p + width[kind])]); p += width[kind]; }
            if (p !== mid.length) bad.push({ what: 'number of nodes', expected: p, got: mid.length });
            return out;
        };
        try {
            set([]);
            const po = pay(s.old, 0);
            set(po);
            const v0 = view(s.old);
            const pn = pay(s.new, gen);
            const rendered = set(pn);
            const v1 = view(s.new);
            pairs++;
            if (JSON.stringify(rendered.slice().sort()) !== JSON.stringify(s.rendered.slice().sort())) bad.push({ what: 'items rendered', expected: s.rendered, got: rendered });
            if (!bad.length) v1.forEach(([kind, ns], j) => {
                const got = kind === 'empty' ? null : shows[kind](ns), f = s.from[j], key = s.new[j];
                const oldNodes = v0.map(([k2, n2], q) => s.old[q] === key ? n2[0] : null).filter(x => x);
                if (kind === 'empty') return;
                if (f > 0) {
                    if (got !== String(po[f - 1][1])) bad.push({ what: 'content of a kept item', expected: po[f - 1][1], got });
                    if (rooted.has(kind) && ns[0] !== v0[f - 1][1][0]) bad.push({ what: 'node of a kept item', expected: 'node of position ' + f, got });
                } else if (f === 0) {
                    if (got !== String(pn[j][1])) bad.push({ what: 'content of a new item', expected: pn[j][1], got });
                    if (oldNodes.includes(ns[0])) bad.push({ what: 'node of a new item', expected: 'a fresh one', got });
                } else if (got === false || Math.floor(Number(got) / 100) !== key) bad.push({ what: 'content of an item with a duplicate key', expected: key, got });
            });
            if (!bad.length) for (const key of new Set(s.new)) {
                const kind = kinds[key % kinds.length];
                if (!rooted.has(kind)) continue;
                const o = v0.filter((x, q) => s.old[q] === key).map(x => x[1][0]), n = v1.filter((x, q) => s.new[q] === key).map(x => x[1][0]);
                const kept = n.filter(x => o.includes(x)).length, want = Math.min(o.length, n.length);
                if (kept !== want) bad.push({ what: 'nodes kept for key ' + key, expected: want, got: kept });
                if (new Set(n).size !== n.length) bad.push({ what: 'one node shown twice', expected: '', got: key });
            }
        } catch (x) { bad.push({ what: 'panic', got: b.panics.concat(String(x)) }); }
        const p = b.problems();
        if (p.length) bad.push({ what: p[0], got: p });
        if (bad.length) { b = null; if (fails++ < 10) say({ bad, scenario: s, env: e }); if (fails > 200) break; }
    }
    if (fails > 200) break;
}
say({ summary: true, scenarios: pairs, fails });
