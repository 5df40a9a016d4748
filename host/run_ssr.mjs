// Replays behaviours of spec/SsrGen.tla against the real server: pages are opened, their requests answered in the order
// of the behaviour, and what is sent upstream and answered to the visitors is compared step by step.
// usage: run_ssr.mjs RIG.wasm VERTIGO OPTS FILE
import fs from 'node:fs';
import { BODY, one, resolve } from './nettable.mjs';
import * as D from './dom.mjs';
import { takeOver } from './handover.mjs';
import { elements, parse, textOf } from './html.mjs';
import { asked, respond, wanted } from './netlib.mjs';
import { ask, serve, sleep, upstream } from './server.mjs';

const [wasm, vertigo, optText, file] = process.argv.slice(2);
const opts = JSON.parse(optText);
const say = (o) => console.log(JSON.stringify(o));
const ENV = { A: one('~Q~'), B: '', 'LONG_name.x': one('~U~=~Z~') };
const PATIENCE = 8000;

const up = await upstream();
const srv = await serve({ vertigo, wasm, dir: file + '-dest', env: ENV });
const canon = (key) => JSON.stringify({ ...key, h: [...key.h].sort() });
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const NODEFAULT = new Set(['host', 'accept', 'content-length', 'transfer-encoding', 'connection', 'accept-encoding', 'user-agent']);

/** Is the recorded request the one that is wanted? */
function fits(a, key) {
    if (a.method !== key.m || '%S' + a.url !== key.url) return false;
    const want = new Map(key.h);
    const bin = key.b[0] === 'bin';
    for (const [k, v] of want) if ((a.headers[k] ?? null) !== one(v) && !(bin && k === 'content-type')) return false;
    if (!want.has('accept') && (a.headers.accept ?? '*/*') !== '*/*') return false;
    for (const k of Object.keys(a.headers)) if (!want.has(k) && !NODEFAULT.has(k) && !(bin && k === 'content-type')) return false;
    if (key.b.length === 0) return a.body.length === 0;
    const b = resolve(key.b[1]);
    if (key.b[0] === 'text') return a.body.equals(Buffer.from(b));
    if (key.b[0] === 'bin') return a.body.equals(Buffer.from(b));
    try { return canonJson(JSON.parse(a.body.toString())) === canonJson(b); } catch { return false; }
}
const canonJson = (v) => JSON.stringify(v, (k, x) => x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort(([p], [q]) => p < q ? -1 : 1)) : x);

function reply(res, r) {
    if (r.status === 0) { res.destroy(); return; }
    const none = [204, 304].includes(r.status);
    const body = r.body === 'cut' ? Buffer.from('{"half": ') : Buffer.from(BODY[r.body].bytes);
    if (r.type !== 'none') res.setHeader('content-type', r.type);
    if (r.status === 304) res.removeHeader('content-length');
    res.writeHead(r.status, none ? {} : { 'content-length': r.body === 'cut' ? body.length + 20 : body.length });
    if (r.body === 'cut' && !none) { res.write(body, () => setTimeout(() => res.destroy(), 5)); return; }
    res.end(none ? undefined : body);
}

async function replay(sc, name, late) {
    const bad = [];
    let step = -1, act = null;
    const miss = (what, expected, got) => bad.push({ step, act, what, expected, got });
    const arrived = [];
    let wake = () => {};
    // what a page which fails has asked for may come late; it must not be taken for a request of another page
    const own = JSON.stringify(sc.progs).includes('"panic"');
    const names = own ? sc.progs.map((_, i) => name + 'p' + i) : [name];
    // some of the answers are found only where the first one sends the reader
    const moved = [];
    const answer = (a, r) => {
        if (a.method !== 'GET' || (step + moved.length) % 4 !== 1) return reply(a.res, r);
        moved.push(r);
        a.res.writeHead([301, 302, 303, 307, 308][step % 5], { location: a.req.url.replace(/^(\/[^/]*).*$/, '$1') + '/moved/' + (moved.length - 1), 'content-length': 0 });
        a.res.end();
    };
    names.forEach((x, i) => up.handlers.set(x, (a) => { const there = /^\/moved\/(\d+)$/.exec(a.url); if (there) { reply(a.res, moved[+there[1]]); return; } a.page = own ? i : null; if (own && failed.has(i)) { a.res.destroy(); return; } arrived.push(a); wake(); }));
    const failed = new Set();
    const pages = sc.progs.map(() => ({ open: new Map(), done: null, result: null, t0: 0, url: '' }));
    const until = async (cond, ms) => {
        const end = Date.now() + ms;
        while (!cond() && Date.now() < end) await new Promise(ok => { const t = setTimeout(ok, Math.min(50, ms)); wake = () => { clearTimeout(t); ok(); }; });
        return cond();
    };
    const placed = (v, base) => typeof v === 'string' ? v.replace(/^%S\//, base + '/') : Array.isArray(v) ? v.map(x => placed(x, base)) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, placed(x, base)])) : v;

    function checkHtml(p, cells) {
        const text = p.result.body.toString('utf8');
        const { root, errors } = parse(text);
        for (const e of errors) miss('html of page: ' + e, 'well formed', text.slice(0, 600));
        if (!root || root.tag !== 'html') { miss('root of the page', 'html', root?.tag); return; }
        const attrs = Object.fromEntries([...root.attrs].sort());
        const wantAttrs = Object.fromEntries(Object.entries(ENV).map(([k, v]) => ['data-env-' + k, v]).sort());
        if (!same(attrs, wantAttrs)) miss('attributes of html', wantAttrs, attrs);
        const body = elements(root).find(e => e.tag === 'body');
        const ps = elements(body);
        const script = ps.pop();
        if (!script || script.tag !== 'script' || script.attrs.get('data-vertigo-run-wasm') !== '/build/rig.wasm' || script.attrs.get('src') !== '/build/wasm_run.js') miss('start script', 'last in the body', script && { tag: script.tag, a: [...script.attrs] });
        checkCells(ps.map(e => [e.tag, e.attrs.get('id'), textOf(e)]), cells, p, '', p.t0 - 1000, Date.now() + 1000);
    }
    /** ps: tag, id and text of every cell; the clock of the application is between t0 and t1 */
    function checkCells(ps, cells, p, where, t0, t1) {
        const got = {};
        for (const [tag, id, text] of ps) { if (tag !== 'p' || !id || id.slice(1) in got) miss(where + 'element of the page', 'p', [tag, id]); try { got[String(id).slice(1)] = JSON.parse(text); } catch { miss(where + 'content of cell ' + id, 'json', text); } }
        const ids = ps.map(e => Number(String(e[1]).slice(1)));
        if (!same(ids, [...ids].sort((a, b) => a - b))) miss(where + 'order of cells', 'ascending', ids);
        const want = Object.entries(cells);
        if (want.length !== Object.keys(got).length) miss(where + 'cells shown', want.map(c => c[0]), Object.keys(got));
        for (const [id, c] of want) {
            const g = got[id];
            if (c[0] === 'random') { if (!(g && g[0] === 'random' && g[1] === c[1] && g[3] >= c[1] && g[3] <= c[2])) miss(where + 'cell ' + id, c, g); }
            else if (c[0] === 'route') { if (!(g && g[1] === p.url)) miss(where + 'cell ' + id, ['route', p.url], g); }
            else if (c[0] === 'time') { if (!(g && g[1] >= t0 && g[1] <= t1)) miss(where + 'cell ' + id, ['time', t0], g); }
            else if (canonJson(resolve(c)) !== canonJson(g ?? null)) miss(where + 'cell ' + id, resolve(c), g ?? null);
        }
    }
    /** The visitor's browser takes the page over; its requests are answered as those of the server were. */
    async function over(n, h) {
        const p = pages[n], W = 'in the browser: ';
        const base = 'http://127.0.0.1:' + up.port + '/' + (own ? names[n] : name) + '/';
        const known = sc.steps.filter(g => g.do[0] === 'answer' && g.do[1] === n + 1).map(g => ({ key: { ...g.do[2], url: g.do[2].url.replace(/^%S\//, base) }, r: g.do[3] }));
        const NOW = 1700000000000;
        const { b, bad } = await takeOver({
            wasm, script: opts.over, path: p.url, text: p.result.body.toString('utf8'), tz: -90,
            allow: [/^fetch error/, /Error fetching/, /^No match found for content-type/, /Missing header content-type/],
            answer: (b, f) => { const hit = known.find(k => same(asked(f, k.key), wanted(k.key))); return hit && (() => respond(b, f, hit.r)); },
        });
        for (const x of bad) miss(W + x.what, x.expected, x.got);
        if (!b.inst) return;
        const html = b.document.documentElement;
        for (const [k, v] of Object.entries(ENV)) if (html.getAttribute('data-env-' + k) !== v) miss(W + 'environment ' + k, v, html.getAttribute('data-env-' + k));
        checkCells(b.document.body._c.filter(e => e instanceof D.Element_).map(e => [e.localName, e.getAttribute('id'), e.textContent]), h.taken, p, W, NOW, NOW + 1);
    }
    function checkOut(p, prog, out) {
        const r = p.result;
        if (out[0] === 'gone') return;
        if (r.error) { miss('page is answered', out[0], r.error); return; }
        const type = r.headers['content-type'] ?? '';
        if (!/no-store/.test(r.headers['cache-control'] ?? '')) miss('caching of a page', 'no-store', r.headers['cache-control']);
        if (out[0] === 'error') { if (r.status !== 500) miss('status', 500, [r.status, r.body.toString().slice(0, 300)]); return; }
        if (r.status !== 200) { miss('status', [200, out[0]], [r.status, r.body.toString().slice(0, 300)]); return; }
        if (out[0] === 'plain') {
            if (!/^text\/plain/.test(type)) miss('content type', 'text/plain', type);
            if (r.body.toString('utf8') !== one(out[1])) miss('plain response', one(out[1]), r.body.toString('utf8'));
        } else {
            if (!/^text\/html/.test(type)) miss('content type', 'text/html', type);
            checkHtml(p, out[1]);
        }
    }
    const checked = new Set();
    try {
        for (step = 0; step < sc.steps.length; step++) {
            const h = sc.steps[step];
            act = h.do;
            const n = act[1] - 1, p = pages[n], prog = sc.progs[n];
            acts[act[0]] = (acts[act[0]] ?? 0) + 1;
            if (act[0] === 'open') {
                const full = { ...placed(resolve({ ops: prog.ops }), 'http://127.0.0.1:' + up.port + '/' + (own ? names[n] : name)), plain: prog.plain === 'none' ? null : one(prog.plain), root: prog.root };
                p.url = '/s/' + Buffer.from(JSON.stringify(full)).toString('base64url') + (n % 2 ? '?q=' + n : '');
                if (p.url.length > 60000) { skipped++; return bad; }
                p.t0 = Date.now();
                const q = ask(srv.port, p.url);
                p.abort = q.abort;
                q.done.then(r => { p.result = r; wake(); });
            } else if (act[0] === 'answer') {
                const k = canon(act[2]);
                const a = p.open.get(k);
                if (!a) { miss('request to be answered', act[2], 'never sent'); break; }
                p.open.delete(k);
                // an answer on the way to the time limit does not put it off
                if (late && sc.steps.slice(step).some(g => g.do[0] === 'limit' && g.do[1] === n + 1)) await sleep(Math.max(0, p.t0 + 5500 - Date.now()));
                answer(a, act[3]);
            } else if (act[0] === 'leave') {
                p.abort();
                await until(() => p.result, PATIENCE);
                await sleep(5);
            }
            // what is sent upstream
            const want = h.sent.map(x => x);
            const take = () => {
                for (let i = want.length - 1; i >= 0; i--) {
                    const j = arrived.findIndex(a => (a.page === null || a.page === n) && fits(a, want[i]));
                    if (j >= 0) { p.open.set(canon(want[i]), arrived[j]); arrived.splice(j, 1); want.splice(i, 1); }
                }
                return want.length === 0;
            };
            // a page which fails may have asked for more before it did, or for less
            if (own && h.out[0] === 'error') {
                await until(() => p.result, PATIENCE);
                failed.add(n);
                for (let i = arrived.length - 1; i >= 0; i--) if (arrived[i].page === n) arrived.splice(i, 1)[0].res.destroy();
            }
            else if (!await until(take, PATIENCE)) { miss('requests sent upstream', h.sent, arrived.map(a => ({ m: a.method, url: a.url, h: a.headers, b: a.body.toString().slice(0, 200) }))); break; }
            // the answer
            if (h.out.length) {
                if (act[0] === 'limit') {
                    if (!await until(() => p.result, Math.max(0, 25000 - (Date.now() - p.t0)))) { miss('answer at the time limit', 'about 10 s', 'none'); break; }
                    const took = p.result.at - p.t0;
                    if (took < 9000) miss('answer before the time limit', '10 s', took);
                    if (took > 13500) miss('answer after the time limit', '10 s', took);
                } else if (h.out[0] !== 'gone' && !await until(() => p.result, PATIENCE)) { miss('page is answered', h.out[0], 'no answer, requests: ' + arrived.map(a => a.method + ' ' + a.url)); break; }
                checkOut(p, prog, h.out);
                if (opts.over && h.out[0] === 'html' && !bad.length) await over(n, h);
                checked.add(n);
            }
            const cut = (i) => sc.steps.slice(step + 1).some(g => g.do[0] === 'limit' && g.do[1] === i + 1) && pages[i].result.at - pages[i].t0 >= 9000;
            pages.forEach((x, i) => { if (x.result && !checked.has(i) && !cut(i)) { checked.add(i); miss('page ' + (i + 1) + ' answered too early', 'open requests: ' + [...x.open.keys()], [x.result.status, x.result.body?.toString().slice(0, 500)]); } });
            if (bad.length) break;
        }
        if (arrived.length) miss('requests nobody asked for', [], arrived.map(a => ({ m: a.method, url: a.url, h: a.headers, b: a.body.toString().slice(0, 200) })));
    } finally {
        for (const p of pages) for (const a of p.open.values()) if (!a.res.writableEnded) { try { a.res.writeHead(200); a.res.end('{}'); } catch { /* gone */ } }
        for (const a of arrived) { try { a.res.destroy(); } catch { /* gone */ } }
        pages.forEach((p, i) => { if (!p.result && p.abort && bad.length) p.abort(); });
        setTimeout(() => names.forEach(x => up.handlers.delete(x)), 2000);
    }
    return bad;
}

const lines = fs.readFileSync(file, 'utf8').split('\n').filter(x => x);
let steps = 0, n = 0, skipped = 0, next = 0, failed = 0;
const acts = {};
const slow = [];
const LATE = 4000;
const worker = async () => {
    for (;;) {
        const idx = next++;
        if (idx >= lines.length || failed >= 10) return;
        if (opts.pace) await sleep(opts.pace * (idx + 1) - (Date.now() - began));
        const sc = JSON.parse(lines[idx]);
        const t = Date.now();
        const bad = await replay(sc, 'k' + idx, idx % 2 === 1);
        n++; steps += sc.steps.length;
        if (!bad.length) continue;
        // the machine may have been too busy to keep the time: once more, alone
        if (Date.now() - t > LATE) slow.push([idx, sc]);
        else { failed++; say({ idx, bad: bad.slice(0, 10), scenario: sc }); }
    }
};
const began = Date.now();
await Promise.all(Array.from({ length: Math.min(opts.jobs ?? 6, lines.length) }, worker));
await Promise.all(slow.slice(0, 6).map(async ([idx, sc]) => {
    const bad = await replay(sc, 'k' + idx + '0000', idx % 2 === 1);
    if (bad.length) say({ idx, bad: bad.slice(0, 10), scenario: sc });
}));
if (!srv.alive()) say({ idx: -1, bad: [{ what: 'the server is still running', expected: 'yes', got: srv.log().slice(-2000), step: 0, act: null }], scenario: {} });
say({ summary: true, scenarios: n, steps, acts, skipped, slow: slow.length });
await srv.stop();
up.stop();
fs.rmSync(file + '-dest', { recursive: true, force: true });
process.exit(0);
