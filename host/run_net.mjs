// Replays behaviours of the generators of the browser services (Timers, Fetch, LazyCache, Router, Websocket, Startup)
// in the mini browser and compares what the application, the network and the page show after every step.
// usage: run_net.mjs RIG.wasm RUN.js OPTS FILE
import fs from 'node:fs';
import * as D from './dom.mjs';
import { Browser, settle } from './browser.mjs';
import { resolve as T0 } from './nettable.mjs';
import { asked, canon, respond, wanted } from './netlib.mjs';

const [wasm, script, optText, file] = process.argv.slice(2);
const opts = JSON.parse(optText);
const say = (o) => console.log(JSON.stringify(o, (k, v) => typeof v === 'bigint' ? Number(v) : v));
const J = JSON.stringify;
const SUBS = new Set(['vals', 'cb', 'route', 'amv', 'made']);
const norm = (log) => ({ seq: log.filter(e => !SUBS.has(e[0])).map(e => e[0] === 'resp' ? canon(e) : e[0] === 'read' ? [e[0], e[1], failure(e[2])] : e), sub: log.filter(e => SUBS.has(e[0])).map(e => J(e[0] === 'cb' ? [e[0], e[1], failure(e[2])] : e)).sort() });
/** Texts of errors are not promised, only that different ones differ. */
const failure = (r) => r[0] === 'L' ? ['L'] : r[0] !== 'E' ? r : ['E', /network down|^net$/.test(r[1]) ? 'net' : /received text|^text$/.test(r[1]) ? 'text'
    : /^nf$/.test(r[1]) ? 'nf' : /\b(\d\d\d)$/.test(r[1]) ? /(\d\d\d)$/.exec(r[1])[1] : 'type'];
const esc = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/"/g, '&quot;');
function html(n) {
    if (n instanceof D.Text_) return esc(n.data);
    if (n instanceof D.Comment_) return '';
    const a = [...n._a.entries()].filter(([k]) => !k.startsWith('data-')).map(([k, v]) => ` ${k}="${esc(v)}"`).join('');
    return `<${n.localName}${a}>${n._c.map(html).join('')}</${n.localName}>`;
}

async function replay(sc) {
    const bad = [];
    let step = -1, act = null, seen = 0, kept = []; const held = {};
    const report = (what, expected, got) => bad.push({ step, act, what, expected, got });
    const b = new Browser({ wasm, script, url: sc.url ?? 'http://localhost:1111/', prelude: [{ m: 'net', do: 'load', sc: T0(sc.net) }], html: sc.ssr ? ssr : null, env: sc.env ? T0(sc.env) : {} });
    // requests and the like which fail on purpose are reported to the console by the driver and by the request builder
    b.allowErrors = [/^fetch error/, /Error fetching/, /^No match found for content-type/, /Missing header content-type/, /^Socket .* ==> (error|timeout)/, /send fail|Missing socket connection/, /Error deserializing cookie/, /color: white/];
    const t0 = b.now;
    let nf = 0, nb = 0, ns = 0, ncall = 0, nsaid = 0;
    const watchBoth = sc.ssr ? watch(b, report) : null;
    const problems = () => { const p = b.problems(); for (; seen < p.length; seen++) report(p[seen], 'no error', p[seen]); };
    const check = (w) => {
        const log = kept.concat(b.call({ m: 'log' }).log);
        kept = [];
        const g = norm(log), e = norm(T0(w.log ?? []));
        if (w.bag) for (const x of [g.seq, e.seq]) x.sort((p, q) => J(p) < J(q) ? -1 : 1);
        if (J(g.seq) !== J(e.seq)) report('events', e.seq, g.seq);
        if (J(g.sub) !== J(e.sub.map(x => x))) report('subscribers', e.sub, g.sub);
        if (w.now !== undefined && b.now - t0 !== w.now) report('time (host)', w.now, b.now - t0);
        if (w.fetch !== undefined) {
            const got = b.fetches.slice(nf).map((f, i) => asked(f, w.bag || w.fbag ? w.fetch.find(x => T0(x.url) === f.url) : w.fetch[i])), want = w.fetch.map(wanted);
            if (w.bag || w.fbag) for (const x of [got, want]) x.sort((p, q) => p.url < q.url ? -1 : 1);
            if (J(got) !== J(want)) report('requests', want, got);
        }
        nf = b.fetches.length;
        // sockets are known by their handle (end of the address) and the number of the attempt; handles are independent of each other
        const name = (n) => [Number(b.sockets[n].url.split('/').pop()), b.sockets.slice(0, n + 1).filter(s => s.url === b.sockets[n].url).length];
        const group = (q) => q.map((e, i) => [e, i]).sort((x, y) => x[0][1] - y[0][1] || x[1] - y[1]).map(x => x[0]);
        if (w.sock !== undefined) {
            const got = group((b.socketLog ?? []).slice(ns).map(x => [x[0], ...name(x[1]), ...(x[0] === 'send' ? x.slice(2) : [])]));
            if (J(got) !== J(group(T0(w.sock)))) report('sockets', group(T0(w.sock)), got);
        }
        ns = (b.socketLog ?? []).length;
        if (w.open !== undefined) {
            const got = b.sockets.filter(s => s.readyState < 2).map(s => name(s.n)).sort((x, y) => x[0] - y[0] || x[1] - y[1]);
            if (J(got) !== J(w.open.sort((x, y) => x[0] - y[0]))) report('sockets which are open or opening', w.open, got);
        }
        if (w.loc !== undefined) {
            const u = b.window.location;
            const got = [u.pathname + u.search + u.hash, b.entries.length, b.index];
            if (J(got) !== J(T0(w.loc))) report('location, history length, position', T0(w.loc), got);
        }
        if (w.left !== undefined) {
            const want = w.left.map(u => new URL(u, b.window.location.href).href), got = b.navigations.splice(0);
            if (J(got) !== J(want)) report('addresses left to the browser', want, got);
        }
        if (w.cookies !== undefined) {
            const jar = b.document._jar().filter(c => c.name !== ''), names = jar.map(c => c.name).sort();
            if (J(names) !== J([...w.cookies.names].sort())) report('cookies there are', w.cookies.names, names);
            for (const c of jar) if (w.cookies.own.includes(c.name) && J([c.path, c.site]) !== J(['/', 'strict'])) report('path and same-site of ' + c.name, ['/', 'strict'], [c.path, c.site]);
        }
        if (w.console !== undefined) {
            // the message ends the text, whatever is before it
            const want = T0(w.console), got = b.said.slice(nsaid).filter(x => x[1]?.includes('~rig~'));
            if (got.length !== want.length || got.some((g, i) => g[0] !== want[i][0] || g[1].split('~rig~')[1] !== want[i][1])) report('the console', want, got.map(g => g.slice(0, 2)));
        }
        nsaid = b.said.length;
        if (w.batches !== undefined) { const got = b.batches.length - nb; if (got !== w.batches) report('deliveries to the page', w.batches, got); }
        nb = b.batches.length;
        if (w.silent && (b.callbacks ?? 0) !== ncall) report('calls into the application while nobody listens', 0, b.callbacks - ncall);
        ncall = b.callbacks ?? 0;
        if (w.page !== undefined) {
            const norm = (x) => x.replace(/error = [^<]*/g, 'error = E'); // texts of errors are not promised
            const got = norm(b.document.body._c.filter(n => n.localName !== 'script').map(html).join('')), want = norm(T0(w.page)).replace(/~ROWS(\d)~/g, (x, n) => Array.from({ length: 500 * n }, (x, i) => `<i>${i}</i>`).join(''));
            if (got !== want) report('page', want, got);
        }
        if (watchBoth) watchBoth();
        problems();
    };
    try {
        await b.start();
        if (!b.inst) { report('application did not start', '', b.problems()); return { bad, b }; }
        if (sc.start) { if (sc.start.all) await b.advance(0); check(sc.start); } else { b.call({ m: 'log' }); problems(); }
        for (step = 0; step < sc.steps.length; step++) {
            const h = sc.steps[step];
            act = h.do;
            switch (act[0]) {
                case 'app': kept = b.call({ m: 'net', do: 'op', op: T0(act[1]) }).log; break;
                case 'timer': await oneTimer(b); break;
                case 'wait': await b.advance(act[1]); break;
                case 'respond': case 'head': held[act[1]] = respond(b, act[3] === undefined ? b.fetches[act[1]] : b.fetches.find(f => f.url === T0(act[3])), act[2], act[0] === 'head'); break;
                case 'answer': { // of the one request of a cache which is in flight
                    const r = act[2], f = b.fetches.filter(f => f.url === T0(act[1]) && !f.settled);
                    if (f.length !== 1) report('requests in flight', 1, f.length);
                    else b.respond(f[0], r.status === 0 ? { error: 'network down' } : { status: r.status, headers: { 'content-type': r.type }, body: r.body === 0 ? '[1]' : String(r.body) });
                    break;
                }
                case 'body': held[act[1]](); break;
                case 'clock': b.skew += act[1]; break;
                case 'zone': b.tz = act[1]; break;
                case 'cookie': b.document.cookie = T0(act[1]); break;
                case 'task': { const t = b.tasks.shift(); if (t) t(); break; }
                case 'drain': await b.drain(); break;
                case 'sock': sock(b, act); break;
                case 'go': b.go(act[1]); break;
                case 'hash': b.window.location.hash = T0(act[1]); break;
                case 'click': case 'out': { const a = find(b.document.body, T0(act[1])); if (!a) report('link', act[1], null); else b.click(a); break; }
                default: throw new Error('host: action ' + act[0]);
            }
            await settle();
            if (h.all) await b.advance(0);
            check(h);
            if (bad.length > 8) break;
        }
    } catch (e) {
        if (String(e.message).startsWith('host:')) throw e;
        report('exception', 'none', b.panics.concat(String(e.stack ?? e)));
    }
    return { bad, b };
}
/** Answers a request; with hold the body follows when the returned function is called. */
async function oneTimer(b) {
    let at = Infinity;
    for (const [id, t] of b.timers) if (!b.bootTimers.has(id)) at = Math.min(at, t.at);
    if (at === Infinity) return;
    let best = null, bid = 0;
    for (const [id, t] of b.timers) if (!b.bootTimers.has(id) && t.at === at && (!best || t.seq < best.seq)) { best = t; bid = id; }
    b.now = Math.max(b.now, at);
    if (best.repeat) { best.at += best.ms; best.seq = ++b._tseq; } else b.timers.delete(bid);
    try { best.f(...best.args); } catch (e) { b._error('timer', [e]); }
    await settle();
}
function sock(b, [, k, what, data]) {
    const s = b.sockets.filter(x => x.url.split('/').pop() === String(k)).pop();
    if (what === 'open') { s.readyState = 1; s.dispatchEvent(new D.Event_('open')); }
    else if (what === 'msg') s.dispatchEvent(Object.assign(new D.MessageEvent_('message'), { data: T0(data) }));
    else if (what === 'error') { s.readyState = 3; s.dispatchEvent(new D.Event_('error')); s.dispatchEvent(new D.CloseEvent_('close')); }
    else if (what === 'close') { s.readyState = 3; s.dispatchEvent(new D.CloseEvent_('close')); }
}
function find(n, href) {
    for (const c of n._c ?? []) { if (c.localName === 'a' && c.getAttribute('href') === href) return c; const r = find(c, href); if (r) return r; }
    return null;
}
function ssr(d) {
    const m = d.createElement('meta'); m.setAttribute('data-ssr', '1'); d.head.appendChild(m);
    const p = d.createElement('p'); p.setAttribute('data-ssr', '1'); p.appendChild(d.createTextNode('server')); d.body.appendChild(p);
    const q = d.createElement('div'); q.setAttribute('data-ssr', '1'); d.body.appendChild(q);
}
/** Server-rendered content stays until the application's first content is there, and not longer. */
function watch(b, report) {
    const isSsr = n => n.getAttribute && n.getAttribute('data-ssr') !== null;
    const state = () => { const k = b.document.body._c.filter(n => n.localName !== 'script'); return { old: k.filter(isSsr).length, fresh: k.filter(n => !isSsr(n)).length, head: b.document.head._c.filter(isSsr).length }; };
    b.document.onmutate = () => { const s = state(); if (s.old < 2 && s.fresh === 0) report('no content at all for a moment', '', s); };
    return () => {
        const s = state();
        const done = b.batches.length > 0;
        if (!done && (s.old !== 2 || s.head !== 1)) report('server content before the first delivery', { old: 2, head: 1 }, s);
        if (done && (s.old || s.head)) report('server content after the first delivery', 0, s);
    };
}

const lines = fs.readFileSync(file, 'utf8').split('\n').filter(x => x);
let n = 0, steps = 0; const acts = {};
for (let idx = 0; idx < lines.length; idx++) {
    const sc = JSON.parse(lines[idx]);
    const r = await replay(sc);
    n++; steps += sc.steps.length;
    for (const s of sc.steps) { const k = s.do[0] === 'app' ? s.do[1][0] : s.do[0]; acts[k] = (acts[k] ?? 0) + 1; }
    if (r.bad.length) say({ idx, bad: r.bad.slice(0, 12), scenario: sc });
}
say({ summary: true, scenarios: n, steps, acts });
