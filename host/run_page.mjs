// Replays behaviours of spec/PageGen.tla in the mini browser: same tree, same history, and after every step the
// document, the events' effects and the styles are compared.   usage: run_page.mjs RIG.wasm RUN.js OPTS FILE
import fs from 'node:fs';
import * as D from './dom.mjs';
import { Browser } from './browser.mjs';
import { CSS, Classes, cmpList, expand, kids } from './pagelib.mjs';

const [wasm, script, optText, file] = process.argv.slice(2);
const opts = JSON.parse(optText);   // { trace: path prefix for command streams, ntrace }
const say = (o) => console.log(JSON.stringify(o, (k, v) => typeof v === 'bigint' ? Number(v) : v));
const NONE = '-none-';
const fixOp = (op) => op.k === 'o' && op.x === NONE ? { ...op, x: null } : op;
const fixTree = (t) => {
    if (Array.isArray(t)) return t.map(fixTree);
    if (t && typeof t === 'object') { const o = {}; for (const k in t) o[k] = k === 'ops' ? t[k].map(fixOp) : fixTree(t[k]); return o; }
    return t;
};
const KEYS = { K1: ['a', 'KeyA', false, false, false, false], K2: ['Enter', 'Enter', true, false, true, false], K3: ['é', 'Digit2', false, true, false, true] };
const FILES = { K1: [['x.txt', [1, 2, 3]]], K2: [['ž.bin', [0, 255]], ['e', []], ['e', [7]]], K3: [['n', [10]]] };

function payload(type, pl) {
    if (type === 'keydown') return KEYS[pl];
    if (type === 'drop') return FILES[pl];
    if (type === 'input' || type === 'change') return pl;
    return null;
}
function fire(el, type, pl) {
    const c = { bubbles: true, cancelable: true };
    let ev;
    if (type === 'click') ev = new D.MouseEvent_('click', c);
    else if (type === 'mousedown' || type === 'mouseup') ev = new D.MouseEvent_(type, c);
    else if (type === 'mouseenter' || type === 'mouseleave') ev = new D.MouseEvent_(type, {});
    else if (type === 'keydown') { const [key, code, altKey, ctrlKey, shiftKey, metaKey] = KEYS[pl]; ev = new D.KeyboardEvent_('keydown', { ...c, key, code, altKey, ctrlKey, shiftKey, metaKey }); }
    else if (type === 'input') { el.value = pl; ev = new D.InputEvent_('input', { bubbles: true }); }
    else if (type === 'change') { el.value = pl; ev = new D.Event_('change', { bubbles: true }); }
    // the first files take the longest to be read; what is not a file (a dragged text) is passed over
    else if (type === 'drop') ev = new D.DragEvent_('drop', { ...c, dataTransfer: { items: FILES[pl].flatMap(([name, bytes], i, all) => [...(i === 1 ? [{ kind: 'string', getAsFile: () => null }] : []), { kind: 'file', getAsFile: () => ({ name, arrayBuffer: async () => { for (let k = i; k < all.length; k++) await null; return new Uint8Array(bytes).buffer; } }) }]) } });
    else if (type === 'blur') ev = new D.FocusEvent_('blur', {});
    else ev = new D.Event_(type, {});
    el.dispatchEvent(ev);
    return ev;
}

const CAT = { struct: ['D01'], structL: ['D01', 'D02'], text: ['D01'], textL: ['D01', 'D02'], attr: ['D01', 'D05'], class: ['D01', 'D05'], sus: ['D01', 'D06'], live: ['D05'], ident: ['D02'] };
const ALL = ['D01', 'D02', 'D03', 'D04', 'D05', 'D06'];

async function replay(sc, idx) {
    const bad = [];
    const tree = fixTree(sc.tree);
    const env = sc.hist[0].env;
    const scen = { init: { v: env.v, l: env.l, s: env.s, o: env.o.map(x => x === NONE ? null : x) }, css: CSS.map(c => c[0]), tree, tmpl: sc.tmpl, wrap: !!opts.wrap, inspect: !!opts.inspect };
    const b = new Browser({ wasm, script, prelude: [{ m: 'page', do: 'load', sc: scen }] });
    const classes = new Classes();
    const ids = new Map(), taken = new Map();
    let prevMap = new Map(), gone = new Set(), step = -1, op = null, seenProblems = 0;
    const marks = [];
    const report = (props, what, expected, got) => bad.push({ props, step, op, what, expected, got });
    const flushProblems = () => {
        const p = b.problems();
        for (; seenProblems < p.length; seenProblems++) {
            const txt = p[seenProblems];
            if (/It's not a file/.test(txt)) continue;
            report(txt.startsWith('panic') || txt.startsWith('uncaught') ? ALL : /bulk_update|insert_before|callback|not found/.test(txt) ? ['D01', 'D03', 'D04'] : ALL, txt, 'no error', txt);
        }
    };
    const compare = (want, isEv) => {
        const now = new Map();
        let rules = null;
        const ctx = { classes, ids, taken, now, rules: () => rules ??= [...b.document.querySelectorAll('style')].map(s => { const t = s.textContent, o = t.indexOf('{'); return [t.slice(0, o).trim(), t.slice(o + 1, t.lastIndexOf('}')).replace(/\s+/g, ' ').replace(/;/g, '').replace(/:\s+/g, ':').trim()]; }),
            miss: (cat, what, e, g) => report(isEv ? [...CAT[cat], 'D04'] : CAT[cat], cat + ' ' + what, e, g) };
        const actual = kids(b.document.body).filter(n => n.localName !== 'script');
        cmpList(want, actual, 'body', ctx, false);
        if (kids(b.document.body).length !== actual.length) report(['D01'], 'struct server content left in body', 0, 'script');
        classes.checkRules(b.document, (w, e, g) => report(['D05'], w, e, g));
        for (const [u, el] of prevMap) if (!now.has(u)) gone.add(el);
        for (const el of now.values()) gone.delete(el);
        prevMap = now;
        flushProblems();
    };
    let events = {};
    try {
        await b.start();
        if (!b.inst) { report(ALL, 'application did not start', '', b.problems()); return { bad, b }; }
        for (step = 0; step < sc.hist.length; step++) {
            const h = sc.hist[step];
            op = h.op;
            events[op[0] === 'ev' ? op[1] : op[0]] = (events[op[0] === 'ev' ? op[1] : op[0]] ?? 0) + 1;
            const batches0 = b.batches.length;
            if (op[0] === 'op') { b.call({ m: 'page', do: 'op', op: fixOp(op[1]) }); }
            else if (op[0] === 'tx') { b.call({ m: 'page', do: 'tx', ops: op[1].map(fixOp) }); }
            else if (op[0] === 'ev') {
                const [, type, uid, pl] = op;
                const el = prevMap.get(uid);
                if (!el) throw Object.assign(new Error('lost'), { lost: true });
                b.call({ m: 'log' });
                const ev = fire(el, type, pl);
                if (type === 'drop') await b.drain();
                const log = b.call({ m: 'log' }).log.filter(e => e[0] === 'ev').map(e => e.slice(1));
                const want = h.log.map(e => [e.h, payload(type, type === 'input' || type === 'change' ? e.p : pl), e.c]);
                const A = JSON.stringify(want), G = JSON.stringify(log);
                if (A !== G && !(type === 'keydown' && JSON.stringify(want.map(x => JSON.stringify(x)).sort()) === JSON.stringify(log.map(x => JSON.stringify(x)).sort())))
                    report(['D04'], 'handlers run by ' + type, want, log);
                if (ev.cancelable && ev.defaultPrevented !== h.prev) report(['D04'], type + ' default prevented', h.prev, ev.defaultPrevented);
                if (b.batches.length - batches0 > want.length) report(['D04'], 'batches of one event', '<=' + want.length, b.batches.length - batches0);
            }
            if (op[0] !== 'start' && op[0] !== 'ev' && b.batches.length - batches0 > 1) report(['D01', 'D07'], 'batches of one transaction', '<=1', b.batches.length - batches0);
            compare(h.dom, op[0] === 'ev');
            if (opts.inspect && !bad.length) inspect(b, report);
            // elements which are gone do not answer any more
            if (gone.size) {
                b.call({ m: 'log' });
                const n0 = b.batches.length;
                let k = 0;
                for (const el of gone) { if (k++ > 6) break; if (el.isConnected) continue; for (const t of ['click', 'mousedown', 'keydown', 'mouseenter', 'input']) if (t !== 'input' || 'value' in el) fire(el, t, t === 'input' ? 'zz' : 'K1'); }
                const log = b.call({ m: 'log' }).log;
                if (log.length || b.batches.length !== n0) report(['D04'], 'a removed element answered', [], log);
                flushProblems();
            }
            if (bad.length > 12) break;
        }
        if (opts.wrap && bad.length === 0) {
            for (const x of [0, 1, 0]) {
                op = ['alive', x];
                b.call({ m: 'page', do: 'alive', x });
                if (x === 0) { compare([], false); marks.push(b.batches.length); }
            }
        }
    } catch (e) {
        if (e.lost) { /* the mismatch that lost it has been reported */ if (!bad.length) report(ALL, 'host lost an element', '', op); }
        else if (e instanceof WebAssembly.RuntimeError || b.panics.length) report(ALL, 'panic', '', b.panics.concat(String(e)));
        else throw e;
    }
    return { bad, b, events, marks };
}

// what the inspector shows is the document, which has just been compared with the specification; of classes and styles
// it shows something of its own
function inspect(b, report) {
    const { root, nodes, html } = b.call({ m: 'page', do: 'inspect' });
    const bad = (what, e, g) => report(['D10'], 'inspected ' + what, e, g);
    const seen = new Set();
    const walk = (id, el, path) => {
        const n = nodes[id];
        if (!n) return bad(path, el.nodeName, null);
        if (seen.has(id)) return bad(path + ' twice', 1, 2);
        seen.add(id);
        if (el instanceof D.Text_ || el instanceof D.Comment_) {
            const want = el instanceof D.Text_ ? el.data : `<!-- ${el.data} -->`;
            if (n.n !== '' || n.t !== want) bad(path, want, [n.n, n.t]);
            return;
        }
        if (n.n !== el.localName) return bad(path + ' tag', el.localName, n.n);
        for (const [want, got, what] of [[el._a, n.a, 'attributes'], [new Map([...el._l].filter(([, l]) => l.length || l.size).map(([k]) => [k, 1])), n.on, 'events']]) {
            const f = (e) => JSON.stringify([...e].filter(([k]) => !['class', 'style', 'hook_keydown'].includes(k)).map(([k, v]) => what === 'events' ? k : [k, v]).sort());
            if (f(want) !== f(Object.entries(got))) bad(path + ' ' + what, f(want), f(Object.entries(got)));
        }
        // the text which a field begins with is the driver's doing
        const kids = el.localName === 'textarea' ? [] : el._c.filter(c => !c.localName || c.localName !== 'script' && c.localName !== 'style');
        if (kids.length !== n.c.length) bad(path + ' children', kids.map(k => k.nodeName), n.c.map(c => nodes[c]?.n));
        else kids.forEach((k, i) => walk(n.c[i], k, path + '/' + i));
    };
    if (root === null) return bad('root', 'html', null);
    walk(root, b.document.documentElement, 'html');
    const lost = Object.keys(nodes).filter(k => !seen.has(k));
    if (lost.length) bad('nodes which are gone', 0, lost.map(k => nodes[k].n || nodes[k].t));
    // the text: the same tree, attributes and callbacks in any order
    let at = 0;
    const eat = (t) => { if (html.startsWith(t, at)) { at += t.length; return true; } return false; };
    const text = (id) => {
        const n = nodes[id];
        if (n.n === '') return eat(n.t ?? '');
        if (!eat('<' + n.n)) return false;
        for (const left of [Object.entries(n.a).map(([k, v]) => ` ${k}='${v}'`), Object.entries(n.on).map(([k, v]) => ` ${k}=${v}`)]) {
            left.sort((x, y) => y.length - x.length);
            while (left.length) { const i = left.findIndex(t => html.startsWith(t, at)); if (i < 0) return false; at += left[i].length; left.splice(i, 1); }
        }
        return eat('>') && n.c.every(text) && eat(`</${n.n}>`);
    };
    if (!text(root) || at !== html.length) bad('text', 'the tree as text', html);
}

// the command stream as spec/DomTrace.tla reads it; ids are replaced by small numbers in order of appearance
const SHORT = { create_node: 'cn', create_text: 'ct', create_comment: 'cc', update_text: 'ut', set_attr: 'sa', remove_attr: 'ra', remove_node: 'rn', remove_text: 'rt', remove_comment: 'rc', insert_before: 'in', insert_css: 'css', callback_add: 'ca', callback_remove: 'cr' };
function stream(batches, marks) {
    const ids = new Map(), cbs = new Map(), evs = new Map();
    const num = (m, x) => { if (x === null || x === undefined) return 0; x = String(x); let n = m.get(x); if (!n) m.set(x, n = m.size + 1); return n; };
    const c = [];
    batches.forEach((b, i) => {
        for (const k of b.commands) {
            const s = SHORT[k.type];
            if (!s) c.push(['?', k.type]);
            else if (s === 'in') c.push([s, num(ids, k.parent), num(ids, k.child), num(ids, k.ref_id)]);
            else if (s === 'ca' || s === 'cr') c.push([s, num(ids, k.id), num(evs, k.event_name), num(cbs, k.callback_id)]);
            else if (s === 'css') c.push([s]);
            else c.push([s, num(ids, k.id)]);
        }
        c.push(['end']);
        if (marks.includes(i + 1)) c.push(['mark']);
    });
    return { n: ids.size, c };
}

const lines = fs.readFileSync(file, 'utf8').split('\n').filter(x => x);
let steps = 0, n = 0, events = {}, commands = 0, nodes = 0;
const traceOut = opts.trace ? fs.openSync(opts.trace + '.' + file.split('.').pop(), 'w') : null;
for (let idx = 0; idx < lines.length; idx++) {
    const sc = JSON.parse(expand(lines[idx]));
    const r = await replay(sc, idx);
    n++; steps += sc.hist.length;
    for (const k in r.events ?? {}) events[k] = (events[k] ?? 0) + r.events[k];
    for (const x of r.b.batches) commands += x.commands.length;
    if (traceOut && r.b.inst) fs.writeSync(traceOut, JSON.stringify(stream(r.b.batches, r.marks ?? [])) + '\n');
    if (r.bad.length) say({ idx, bad: r.bad.slice(0, 20), scenario: sc });
}
say({ summary: true, scenarios: n, steps, events, commands });
