// Every request of spec/Routes.tla against the real server: who answers, and with what.
// usage: run_routes.mjs RIG.wasm VERTIGO OPTS FILE     (all lines of FILE have the same configuration)
import fs from 'node:fs';
import path from 'node:path';
import { elements, parse, textOf } from './html.mjs';
import { ask, serve, upstream } from './server.mjs';

const [wasm, vertigo, optText, file] = process.argv.slice(2);
const opts = JSON.parse(optText);   // { all: n }: paths up to this length with every variant, longer ones with one
const say = (o) => console.log(JSON.stringify(o));
const lines = fs.readFileSync(file, 'utf8').split('\n').filter(x => x).map(l => JSON.parse(l));
const config = lines[0].config;
const mount = '/' + config.mount.join('/');
const NAME = (n) => n.replace('~z', 'ž');
const bytes = (k, n) => Buffer.from(Array.from({ length: n }, (_, i) => (i * 7 + k * 31 + (i >> 8)) % 256));
const FILES = { 'x.txt': Buffer.from('plain\r\n é </b>'), 'sub/inner.txt': bytes(3, 70000), '~z y': bytes(4, 1000), 'api.js': Buffer.from('') };
const top = file + '-top', dir = path.join(top, 'dest');
fs.mkdirSync(top, { recursive: true });
for (const p of ['secret.txt', 'dest2/secret.txt', 'x.txt']) { fs.mkdirSync(path.dirname(path.join(top, p)), { recursive: true }); fs.writeFileSync(path.join(top, p), 'SECRET'); }
const up = await upstream();
const base = 'http://127.0.0.1:' + up.port + '/k0';
const proxy = Object.fromEntries(config.proxies.map(p => ['/' + p.at.join('/'), [base, ...p.to].join('/')]));
const srv = await serve({ vertigo, wasm, dir, mount, proxy, files: Object.fromEntries(Object.entries(FILES).map(([k, v]) => [NAME(k), v])) });
const inside = new Set([...Object.values(FILES), fs.readFileSync(path.join(dir, 'index.json'))].map(b => b.toString('latin1')));
const ANSWERS = [
    { status: 200, type: 'application/json; charset=utf-8', body: Buffer.from('{"a": "é"}'), chunked: false },
    { status: 404, type: 'text/html', body: Buffer.from('<p>none'), chunked: true },
    { status: 500, type: 'x/y', body: Buffer.from(''), chunked: false },
    { status: 201, type: 'application/octet-stream', body: bytes(1, 100000), chunked: true },
    { status: 200, type: 'text/plain', body: bytes(2, 3000), chunked: false },
    { status: 403, type: 'text/plain', body: Buffer.from('no'), chunked: false },
];
const HEADERS = [
    [['x-up', 'yes, "it" is'], ['cache-control', 'no-store']],
    [['X-Up', 'a'], ['Set-Cookie', ['a=1; Path=/', 'b=2; HttpOnly']], ['ETag', 'W/"x"']],
    [],
    [['Cache-Control', 'public, max-age=5'], ['Content-Disposition', 'attachment; filename="x y"'], ['Location', '/else?where=1'], ['Vary', 'x-a'], ['Expires', '0']],
];
const BODIES = [Buffer.from(''), Buffer.from('text ž'), bytes(9, 3000), bytes(5, 300000), Buffer.from([0xff, 0xfe, 0x00])];
const OWN = new Set(['content-type', 'content-length', 'date', 'connection', 'keep-alive', 'transfer-encoding', 'server', 'via']);
const waiting = new Map();   // ticket -> what arrived
let turn = 0;
up.handlers.set('k0', (a) => {
    // one request at a time is recognised by its ticket or by its place
    const t = /[?&]ticket=(\d+)/.exec(a.url)?.[1] ?? a.headers['x-ticket'];
    const w = waiting.get(t) ?? waiting.get('*');
    if (!w) { a.res.statusCode = 599; a.res.end(); return; }
    w.got.push(a);
    const r = w.answer;
    a.res.statusCode = r.status;
    a.res.setHeader('content-type', r.type);
    for (const [k, v] of HEADERS[w.turn % HEADERS.length]) a.res.setHeader(k, v);
    if (!r.chunked) a.res.setHeader('content-length', r.body.length);
    if (r.body.length > 10 && r.chunked) { a.res.write(r.body.subarray(0, 10)); a.res.end(r.body.subarray(10)); } else a.res.end(r.body);
});

const shown = (r) => [r.status ?? r.error, r.headers?.['content-type'], r.headers?.['cache-control'], r.body?.toString('latin1').slice(0, 200)];
async function one(segs, slash, query, method, out) {
    const p = '/' + segs.join('/') + (slash && segs.length ? '/' : '');
    const bad = [];
    const miss = (what, expected, got) => bad.push({ step: 0, act: [method, p + query, mount, config.proxies], what, expected, got });
    const ticket = String(++turn);
    // the ticket is in the query of a GET request and in a header of a POST request
    const target = p + (out.k === 'proxy' && method === 'GET' ? (query ? query + '&' : '?') + 'ticket=' + ticket : query);
    const q = target.slice(p.length);
    const w = { got: [], answer: ANSWERS[turn % ANSWERS.length], turn };
    waiting.set(ticket, w);
    // who does not want the body may answer before it has been sent
    const body = method === 'POST' ? BODIES[turn % (out.k === 'proxy' ? BODIES.length : 2)] : null;
    const headers = method === 'POST' ? { 'x-ticket': ticket, 'x-a': 'v w, x;y="1"', 'content-type': turn % 2 ? 'application/json' : 'x/y; z=ž'.replace('ž', 'q') } : {};
    const r = await ask(srv.port, target, { method, body, headers, chunked: turn % 3 === 0 }).done;
    waiting.delete(ticket);
    kinds[out.k] = (kinds[out.k] ?? 0) + 1;
    if (r.error && out.k !== 'any') { miss('an answer', out.k, r.error); return bad; }
    if (r.body && r.body.toString('latin1').includes('SECRET')) miss('nothing outside the directory is served', 'not this', shown(r));
    if (out.k !== 'proxy' && out.k !== 'any' && w.got.length) miss('asked the other server', out.k, w.got.map(a => a.method + ' ' + a.url));
    if (out.k === 'page') {
        if (r.status !== 200 || !/^text\/html/.test(r.headers['content-type'] ?? '')) { miss('page', 200, shown(r)); return bad; }
        if (!/no-store/.test(r.headers['cache-control'] ?? '') || /public/.test(r.headers['cache-control'])) miss('caching of a page', 'no-store', shown(r));
        if (method === 'HEAD') return bad;
        const { root, errors } = parse(r.body.toString('utf8'));
        for (const e of errors) miss('html', 'well formed', e);
        const find = (n) => n.tag === 'p' ? n : elements(n).map(find).find(x => x);
        const cell = root && find(root);
        const saw = cell ? JSON.parse(textOf(cell))[1] : null;
        if (saw !== p + query) miss('path the application sees', p + query, saw);
        const start = root && root.kids.filter(k => k.tag === 'body').flatMap(b => elements(b)).at(-1);
        if (start?.attrs.get('src') !== mount + '/wasm_run.js' || start?.attrs.get('data-vertigo-run-wasm') !== mount + '/rig.wasm') miss('start script', mount, start && [...start.attrs]);
    } else if (out.k === 'file') {
        if (method === 'POST') return bad;
        if (r.status !== 200) { miss('file', 200, shown(r)); return bad; }
        if (method === 'GET' && !r.body.equals(FILES[out.n])) miss('content of ' + out.n, FILES[out.n].length, [r.body.length, ...shown(r)]);
        if (r.headers['cache-control'] !== 'public, max-age=86400' && !/public/.test(r.headers['cache-control'] ?? '')) miss('caching of a file', 'public', shown(r));
        else if (!(Number(/max-age=(\d+)/.exec(r.headers['cache-control'])?.[1]) >= 3600)) miss('caching of a file', 'long', shown(r));
    } else if (out.k === 'missing') {
        if (method !== 'POST' && r.status !== 404) miss('no such file', 404, shown(r));
    } else if (out.k === 'safe') {
        if (r.status === 200 && method === 'GET' && !inside.has(r.body.toString('latin1'))) miss('only files of the directory', 'a file or nothing', shown(r));
    } else if (out.k === 'proxy' && method !== 'HEAD') {
        if (w.got.length !== 1) { miss('asks the other server', 1, [w.got.map(a => a.method + ' ' + a.url), ...shown(r)]); return bad; }
        const a = w.got[0];
        const rest = '/' + out.to.join('/');
        const t = out.to.length === 0 ? '/' : rest;
        const good = out.bare ? [t + q, (out.to.length ? t + '/' : t) + q] : [t + (slash && out.to.length && segs.length > 0 && !t.endsWith('/') ? '/' : '') + q];
        if (a.method !== method || !good.includes(a.url)) miss('request of the proxy', [method, good], [a.method, a.url]);
        if (method === 'POST') {
            if (!a.body.equals(body)) miss('body of the request', body.length, [a.body.length, a.body.toString('latin1').slice(0, 100)]);
            for (const k of Object.keys(headers)) if (a.headers[k] !== headers[k]) miss('header ' + k, headers[k], a.headers[k] ?? null);
        } else if (a.body.length) miss('body of the request', 0, a.body.length);
        const e = w.answer;
        if (r.status !== e.status) miss('status of the answer', e.status, shown(r));
        if (!r.body.equals(e.body)) miss('body of the answer', e.body.length, shown(r));
        if (r.headers['content-type'] !== e.type) miss('type of the answer', e.type, shown(r));
        const sent = Object.fromEntries(HEADERS[w.turn % HEADERS.length].map(([k, v]) => [k.toLowerCase(), v]));
        for (const [k, v] of Object.entries(sent)) if (JSON.stringify(r.headers[k] ?? null) !== JSON.stringify(v)) miss('header of the answer', [k, v], r.headers[k] ?? null);
        for (const k of Object.keys(r.headers)) if (!(k in sent) && !OWN.has(k)) miss('header of the answer', 'not there: ' + k, r.headers[k]);
    }
    return bad;
}

let n = 0, failed = 0, next = 0;
const kinds = {};
const QUERIES = ['', '?q=1&r=%2F..%2F&s=/a?b', '?%C5%BE'];
const METHODS = ['GET', 'POST', 'HEAD'];
await Promise.all(Array.from({ length: 6 }, async () => {
    for (;;) {
        const i = next++;
        if (i >= lines.length || failed >= 10) return;
        const l = lines[i];
        for (const slash of [false, true]) for (const q of QUERIES) for (const m of METHODS) {
            const v = (slash ? 9 : 0) + QUERIES.indexOf(q) * 3 + METHODS.indexOf(m);
            if (slash && !l.path.length) continue;
            const out = slash ? l.slash : l.plain;
            // every variant where something else than a page answers; pages are many
            if (l.path.length > opts.all && v !== i % 18) continue;
            if (out.k === 'page' && v % 6 !== i % 6) continue;
            const bad = await one(l.path, slash, q, m, out);
            n++;
            if (bad.length) { failed++; say({ idx: i, bad: bad.slice(0, 6), scenario: l }); }
        }
    }
}));
say({ summary: true, scenarios: n, steps: n, kinds });
await srv.stop(); up.stop();
fs.rmSync(top, { recursive: true, force: true });
process.exit(0);
