// Documents of spec/SsrPageGen.tla (and pages of PageGen, PageMC up to their first event) rendered by the real server:
// the answer has to be well formed and to be the document the specification says.   usage: run_html.mjs RIG.wasm VERTIGO OPTS FILE
import fs from 'node:fs';
import * as D from './dom.mjs';
import { one } from './nettable.mjs';
import { convert, takeOver } from './handover.mjs';
import { parse } from './html.mjs';
import { CSS, Classes, cmpList, expand, kids } from './pagelib.mjs';
import { ask, serve } from './server.mjs';

const [wasm, vertigo, optText, file] = process.argv.slice(2);
const opts = JSON.parse(optText);
const say = (o) => console.log(JSON.stringify(o));
const NONE = '-none-';
const fixOp = (op) => op.k === 'o' && op.x === NONE ? { ...op, x: null } : op;
const fixTree = (t) => {
    if (Array.isArray(t)) return t.map(fixTree);
    if (t && typeof t === 'object') { const o = {}; for (const k in t) o[k] = k === 'ops' ? t[k].map(fixOp) : fixTree(t[k]); return o; }
    return t;
};
const begun = (env) => ({ v: env.v, l: env.l, s: env.s, o: env.o.map(x => x === NONE ? null : x) });
const ENV = { lang: one('~Q~'), B: one('~U~') };
const srv = await serve({ vertigo, wasm, dir: file + '-dest', env: ENV });

const RAW = new Set(['script', 'style']);
const trim = (s) => s.replace(/^[ \t\n\f\r]+|[ \t\n\f\r]+$/g, '');
const raw = (s) => s.replace(/<\\\//g, '</').replace(/\\u0021/g, '!');

/** adjacent texts are one; white space between elements is not promised */
function merged(list, text, make) {
    const out = [];
    for (const x of list) {
        const t = text(x);
        if (t === null) out.push(x);
        else if (out.length && text(out.at(-1)) !== null) out[out.length - 1] = make(text(out.at(-1)) + t);
        else out.push(make(t));
    }
    return out;
}
const expText = (e) => e.x === undefined ? null : e.x;
const actText = (a) => a instanceof D.Text_ ? a.data : null;
function normExp(list, tag) {
    let out = merged(list, expText, x => ({ x }));
    if (tag !== 'body' && out.length === 1 && expText(out[0]) !== null) out = out[0].x === '' ? [] : [{ x: RAW.has(tag) ? raw(out[0].x) : out[0].x }];
    else out = out.map(e => e.x === undefined ? e : { x: trim(e.x) }).filter(e => e.x !== '');
    return out.map(e => e.x !== undefined ? e : { ...e, u: '', il: false, c: normExp(e.c, e.n) });
}
function normAct(doc, el, exp) {
    let list = merged(kids(el), actText, x => doc.createTextNode(x));
    const single = el.localName !== 'body' && exp.length === 1 && exp[0].x !== undefined;
    if (single && list.length === 1 && actText(list[0]) !== null) { if (RAW.has(el.localName)) list = [doc.createTextNode(raw(list[0].data))]; }
    else list = list.map(a => actText(a) === null ? a : doc.createTextNode(trim(a.data))).filter(a => actText(a) !== '');
    el.replaceChildren(...list);
    const es = exp.filter(e => e.x === undefined), as = list.filter(a => a instanceof D.Element_);
    as.forEach((a, i) => normAct(doc, a, es[i] ? es[i].c : []));
}

async function replay(sc) {
    const bad = [];
    const miss = (what, expected, got) => bad.push({ step: 0, act: null, what, expected, got });
    const env = sc.hist[0].env;
    let tree = fixTree(sc.tree), dom = sc.dom;
    const then = [];
    let last = sc.hist[0];
    for (const h of sc.hist.slice(1)) {
        if (h.op[0] === 'ev') break;
        then.push((h.op[0] === 'op' ? [h.op[1]] : h.op[1]).map(fixOp));
        last = h;
    }
    const bare = (n, c) => ({ n, u: '', a: [], cl: { a: NONE, g: [], s: 0, b: false }, lv: '', il: false, c });
    if (!dom) {
        const plain = (tag, c) => ({ t: 'el', tag, at: [], css: { k: 'n' }, sus: 0, ev: [], c });
        tree = plain('html', [plain('head', []), plain('body', [tree])]);
        dom = [bare('html', [bare('head', []), bare('body', last.dom)])];
    }
    const scen = { init: begun(env), ...(sc.there ? { there: begun(sc.there) } : {}), ...(sc.treeThere ? { tree_there: fixTree(sc.treeThere) } : {}), css: CSS.map(c => c[0]), tree, then };
    const url = '/s/' + Buffer.from(JSON.stringify(scen)).toString('base64url');
    if (url.length > 60000) { skipped++; return bad; }
    steps += then.length;
    const r = await ask(srv.port, url).done;
    if (r.error) { miss('page is answered', 'html', [r.error, srv.log().slice(-600)]); return bad; }
    const text = r.body.toString('utf8');
    if (r.status !== 200 || !/^text\/html/.test(r.headers['content-type'] ?? '')) { miss('status', 200, [r.status, text.slice(0, 300)]); return bad; }
    const { root, errors } = parse(text);
    for (const e of errors) miss('html is well formed', 'well formed', e + ': ' + text.slice(0, 1500));
    if (!root) return bad;
    if (opts.over) { if (!bad.length) await over(sc.domThere ?? dom, url, text, miss); return bad; }
    // what the server adds
    for (const [k, v] of Object.entries(ENV)) { const g = root.attrs.get('data-env-' + k); if (g !== v) miss('environment ' + k, v, g ?? null); root.attrs.delete('data-env-' + k); }
    const bodies = root.kids.filter(k => k.tag === 'body');
    if (bodies.length !== 1) { miss('one body', 1, bodies.length); return bad; }
    const body = bodies[0];
    const at = body.kids.findLastIndex(k => k.tag);
    const start = body.kids[at];
    if (!start || start.tag !== 'script' || start.attrs.get('src') !== '/build/wasm_run.js' || start.attrs.get('data-vertigo-run-wasm') !== '/build/rig.wasm' || start.attrs.get('type') !== 'module') miss('start script', 'last element of the body', start && [start.tag, [...start.attrs]]);
    if (start) body.kids.splice(at, 1);
    const doc = new D.Document_();
    doc.appendChild(convert(doc, root, null));
    // the rules of the style classes come first
    const own = dom[0].c.find(e => e.n === 'body').c;
    const sheets = doc.createElement('div');
    const count = (list) => { let n = 0; for (const e of list) { if (e.n === 'style') n++; else if (e.n !== undefined || trim(e.x) !== '') break; } return n; };
    const el = doc.body;
    const lead = [];
    for (const k of kids(el)) { if (k instanceof D.Element_ && k.localName === 'style') lead.push(k); else if (k instanceof D.Element_ || trim(k.data) !== '') break; }
    // styles of the page's own at the start of the body are not the server's
    for (const k of lead.slice(0, lead.length - count(own))) sheets.appendChild(k);
    const classes = new Classes();
    const box = new D.Document_();
    box.appendChild(sheets);
    const exp = normExp(dom, '#document');
    normAct(doc, doc, exp);
    const ctx = { classes, ids: new Map(), taken: new Map(), now: new Map(), rules: () => [], miss: (cat, what, e, g) => miss(cat + ' ' + what, e, g) };
    cmpList(exp, kids(doc), '', ctx, false);
    const ta = (list, as) => list.forEach((e, i) => { if (e.n === undefined || !(as[i] instanceof D.Element_)) return; if (e.n === 'textarea') cmpList(e.c, kids(as[i]), 'textarea', ctx, false); else ta(e.c, kids(as[i])); });
    if (!bad.length) ta(exp, kids(doc));
    classes.checkRules(box, (w, e, g) => miss(w, e, g));
    return bad;
}

/** The page has to become the one the application has, whatever the server has sent. */
async function over(dom, url, text, miss) {
    const { b, bad } = await takeOver({ wasm, script: opts.over, path: url, text, answer: () => null });
    for (const x of bad) miss(x.what, x.expected, x.got);
    if (!b.inst) return;
    const html = b.document.documentElement;
    for (const [k, v] of Object.entries(ENV)) { const g = html.getAttribute('data-env-' + k); if (g !== v) miss('environment ' + k, v, g); html.removeAttribute('data-env-' + k); }
    // the rules of the style classes
    const box = new D.Document_();
    const sheets = box.appendChild(box.createElement('div'));
    const rules = b.batches.flatMap(x => x.commands).filter(c => c.type === 'insert_css');
    for (const c of rules) {
        const st = b.document.head._c.find(n => n.localName === 'style' && n.textContent === `${c.selector} { ${c.value} }`);
        if (st) sheets.appendChild(st);
    }
    // white space around head and body
    for (const k of kids(html)) if (k instanceof D.Text_ && trim(k.data) === '') k.remove();
    const classes = new Classes();
    const ctx = { classes, ids: new Map(), taken: new Map(), now: new Map(), rules: () => [], miss: (cat, what, e, g) => miss('in the browser: ' + cat + ' ' + what, e, g) };
    // the value of a textarea with text in it is the text's
    const fix = (list) => list.map(e => e.x !== undefined ? e : { ...e, u: e.n === 'textarea' && e.c.length ? '' : e.u, c: fix(e.c) });
    cmpList(fix(dom), kids(b.document), '', ctx, false);
    classes.checkRules(box, (w, e, g) => miss('in the browser: ' + w, e, g));
}

const lines = fs.readFileSync(file, 'utf8').split('\n').filter(x => x);
let steps = 0, n = 0, skipped = 0, next = 0, failed = 0;
await Promise.all(Array.from({ length: Math.min(opts.jobs ?? 4, lines.length) }, async () => {
    for (;;) {
        const idx = next++;
        if (idx >= lines.length || failed >= 10) return;
        const sc = JSON.parse(expand(lines[idx]));
        // histories which are not one of a page of the server's are sent after several of their steps
        const cuts = sc.dom ? [sc] : Array.from({ length: opts.cuts ?? 1 }, (_, k) => ({ tree: sc.tree, hist: sc.hist.slice(0, Math.max(1, Math.ceil(sc.hist.length * (k + 1) / (opts.cuts ?? 1)))) }));
        let bad = [];
        for (const x of cuts) { bad = await replay(x); n++; if (bad.length) break; }
        if (bad.length) { failed++; say({ idx, bad: bad.slice(0, 10), scenario: sc }); }
    }
}));
say({ summary: true, scenarios: n, steps, skipped });
await srv.stop();
fs.rmSync(file + '-dest', { recursive: true, force: true });
process.exit(0);
