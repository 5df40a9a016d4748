// Replays histories of spec/Watch.tla: the real vertigo watch, as an unprivileged user in a scratch directory, with stand-ins
// for cargo and wasm-opt which end when the history says so, and with pages which run the script they get.
// usage: run_watch.mjs VERTIGO TINY FILE
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import net from 'node:net';
import http from 'node:http';
import vm from 'node:vm';
import { spawn } from 'node:child_process';
import { Document_, MouseEvent_, Event_, EventTarget_ } from './dom.mjs';

const [vertigo, tiny, file] = process.argv.slice(2);
const ATONCE = Number(process.env.ATONCE || 8), PATIENCE = Number(process.env.PATIENCE || 15000);
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'watch-'));
const NOBODY = 65534;
const here = path.dirname(new URL(import.meta.url).pathname);
const say = (o) => console.log(JSON.stringify(o));
const sleep = (ms) => new Promise(ok => setTimeout(ok, ms));
const own = (p) => fs.chownSync(p, NOBODY, NOBODY);
const mkdir = (p) => { if (!fs.existsSync(p)) { mkdir(path.dirname(p)); fs.mkdirSync(p); own(p); } };
const write = (p, x) => { mkdir(path.dirname(p)); fs.writeFileSync(p, x); own(p); };
const taken = new Set();
async function freePort() {
    for (;;) {
        // the parts of a run which go on at the same time have ports of their own
        const part = Number(/(\d+)\D*$/.exec(file)?.[1] ?? 0) % 9;
        const port = 10000 + part * 2400 + Math.floor(Math.random() * 2400);
        if (taken.has(port)) continue;
        if (await new Promise(ok => { const s = net.createServer(); s.on('error', () => ok(false)); s.listen(port, '127.0.0.1', () => s.close(() => ok(true))); })) { taken.add(port); return port; }
    }
}
const get = (url, agent) => new Promise((ok, no) => {
    const req = http.get(url, { agent }, res => {
        const parts = [];
        res.on('data', d => parts.push(d));
        res.on('end', () => ok({ status: res.statusCode, body: Buffer.concat(parts) }));
        res.on('error', no);
    });
    req.on('error', no);
    req.setTimeout(10000, () => req.destroy(new Error('no answer')));
});
const version = (text) => { const m = /id="version">@VERSION-(\d{6})@</.exec(text); return m ? Number(m[1]) : null; };

class Tab {
    constructor(base, keep) { this.base = base; this.agent = keep ? new http.Agent({ keepAlive: true, maxSockets: 1 }) : new http.Agent(); this.trouble = null; this.loads = 0; this.gen = 0; }
    async load(hold) {
        const gen = ++this.gen;
        this.leave();
        this.loads++;
        this.page = null; this.doc = null;
        let text;
        try { text = (await get(this.base + '/', this.agent)).body.toString(); } catch (e) { if (gen === this.gen) this.trouble = 'the page does not load: ' + e.message; return; }
        if (gen !== this.gen) return;
        this.page = version(text);
        const script = [...text.matchAll(/<script>([\s\S]*?)<\/script>/g)].map(m => m[1]).find(x => x.includes('start_watch('));
        if (script === undefined) { this.trouble = 'no watch script in the page'; return; }
        const doc = this.doc = new Document_();
        const html = doc.createElement('html');
        doc.appendChild(html); html.appendChild(doc.createElement('head')); html.appendChild(doc.createElement('body'));
        const tab = this;
        class EventSource {
            constructor(url) {
                this.url = String(url); this.listeners = [];
                const go = () => { if (gen === tab.gen) tab.connect(this, gen); };
                if (hold) tab.connectNow = go; else go();
            }
            addEventListener(t, f) { if (t === 'message') this.listeners.push(f); }
            close() { this.req?.destroy(); }
        }
        const location = { href: this.base + '/', reload: () => { if (gen === this.gen) this.load(false); } };
        const window = Object.assign(new EventTarget_(), { location, document: doc, EventSource, setTimeout, clearTimeout });
        doc.defaultView = window;
        try { vm.runInNewContext(script, { window, document: doc, location, EventSource, setTimeout, clearTimeout, console: { info() {}, log() {}, warn() {}, error: (...x) => { this.trouble = x.join(' '); } } }); }
        catch (e) { this.trouble = 'the watch script: ' + e; }
    }
    connect(es, gen) {
        let buf = '';
        es.req = http.get(es.url, { agent: false, headers: { accept: 'text/event-stream' } }, res => {
            if (res.statusCode !== 200 || !/text\/event-stream/.test(res.headers['content-type'] ?? '')) { this.trouble = 'no event stream: ' + res.statusCode; return; }
            res.setEncoding('utf8');
            res.on('data', d => {
                buf += d;
                for (;;) {
                    const m = /\r?\n\r?\n/.exec(buf);
                    if (!m) break;
                    const block = buf.slice(0, m.index); buf = buf.slice(m.index + m[0].length);
                    const data = block.split(/\r?\n/).filter(l => l.startsWith('data:')).map(l => l.slice(5).replace(/^ /, ''));
                    if (!data.length || gen !== this.gen) continue;
                    const ev = new Event_('message'); ev.data = data.join('\n');
                    try { es.onmessage?.(ev); for (const f of es.listeners) f(ev); } catch (e) { this.trouble = 'the watch script: ' + e; }
                }
            });
            res.on('error', () => {});
            res.on('end', () => { if (gen === this.gen) this.trouble = 'the events end'; });
        });
        es.req.on('error', e => { if (gen === this.gen) this.trouble = 'the events: ' + e.message; });
        this.es = es;
    }
    note() {
        if (!this.doc) return '';
        const t = this.doc.documentElement.textContent;
        return /progress/i.test(t) ? 'building' : /fail|error/i.test(t) ? 'errors' : '';
    }
    dismiss() {
        const walk = (n) => [n, ...n.childNodes.flatMap(walk)];
        const target = walk(this.doc.documentElement).filter(n => n._l?.get('click')?.length || n._l?.get('click')?.size).pop();
        target?.dispatchEvent(new MouseEvent_('click', { bubbles: true }));
        return target !== undefined;
    }
    leave() { this.es?.req?.destroy(); this.es = null; this.connectNow = null; }
    close() { this.gen++; this.leave(); this.agent.destroy(); }
}

let steps = 0, builds = 0;
const acts = {};
async function replay(sc, idx) {
    const bad = [];
    let step = 0, act = null;
    const W = path.join(scratch, 'w' + idx), L = W + '/world', ws = W + '/ws', app = ws + '/app';
    for (const d of [L, W + '/bin', W + '/opt', app + '/src/sub', ws + '/shared/src', ws + '/other', W + '/home']) mkdir(d);
    for (const x of ['cargo', 'rustup']) fs.copyFileSync(path.join(here, 'standins/watch', x), W + '/bin/' + x);
    if (sc.opt) fs.copyFileSync(path.join(here, 'standins/watch/wasm-opt'), W + '/opt/wasm-opt');
    const single = sc.conf.layout === 'single', cwd = single ? app : ws, target = cwd + '/target', dest = cwd + '/build';
    fs.copyFileSync(tiny, L + '/tiny.wasm');
    write(L + '/target', target + '\n'); write(L + '/installed', ''); write(L + '/src', '1\n'); write(L + '/log', '');
    write(app + '/src/lib.rs', '1'); write(app + '/Cargo.toml', '1'); write(app + '/src/sub/mod.rs', '1'); write(ws + '/shared/src/lib.rs', '1');
    const member = (n, cdylib) => ({ name: n, id: `path+file://${ws}/${n}#0.1.0`, version: '0.1.0', manifest_path: `${ws}/${n}/Cargo.toml`, dependencies: [], targets: [{ name: n, kind: cdylib ? ['cdylib', 'rlib'] : ['lib'] }] });
    const members = single ? [member('app', true)] : [member('other', false), member('app', true)];
    write(L + '/metadata.json', JSON.stringify({ packages: members, workspace_members: members.map(m => m.id), resolve: null, target_directory: target, workspace_root: cwd, version: 1, metadata: null }));
    const port = await freePort(), events = await freePort(), base = 'http://127.0.0.1:' + port;
    const args = ['watch', ...(sc.conf.named ? ['app'] : []), '--port', String(port), '--port-watch', String(events), '--add-watch-path', single ? '../shared' : 'shared'];
    const child = spawn(vertigo, args, { cwd, env: { HOME: W + '/home', RUST_LOG: 'info', PATH: `${W}/bin:${W}/opt:/usr/bin:/bin` }, uid: NOBODY, gid: NOBODY, stdio: ['ignore', 'pipe', 'pipe'], detached: true });
    let out = '', ended = null;
    child.stdout.on('data', d => { out = (out + d).slice(-6000); }); child.stderr.on('data', d => { out = (out + d).slice(-6000); });
    child.on('error', e => { ended = String(e); });
    const gone = new Promise(ok => child.on('close', (code, sig) => { ended = code ?? sig; ok(); }));
    const tabs = new Map();
    let runs = 0, let_go = 0, opts = 0, optgo = 0, src = 1, files = 0, last = ws + '/app/src/sub';
    const seen = () => { while (fs.existsSync(`${L}/run-${runs + 1}`)) runs++; while (fs.existsSync(`${L}/opt-${opts + 1}`)) opts++; };
    const saw = () => runs ? Number(fs.readFileSync(`${L}/run-${runs}`, 'utf8')) : 0;
    const fds = [];
    const release = async (p) => { const fd = fs.openSync(p, 'r+'); fds.push(fd); fs.writeSync(fd, 'go\n'); };   // open until the reader has come
    /** What differs from the state w of the specification now (null: nothing)? */
    async function differs(w) {
        seen();
        if (ended !== null) return ['the command runs', 'running', 'ended: ' + ended];
        if (fs.existsSync(L + '/overlap')) return ['one build at a time', 'one', 'two'];
        if (saw() !== w.saw) return ['the sources which are being built', w.saw, saw()];
        const working = runs > let_go ? 'cargo' : opts > optgo ? 'opt' : '';
        const wanted = w.ph === 'cargo' || w.ph === 'opt' ? w.ph : '';
        if (working !== wanted) return ['what is being worked on', wanted || 'nothing', working || 'nothing'];
        if (w.ph === 'serving') {
            let page, index, files = [];
            try {
                page = version((await get(base + '/', new http.Agent())).body.toString());
                index = JSON.parse(fs.readFileSync(dest + '/index.json', 'utf8'));
                for (const f of [index.run_js, index.wasm]) { const r = await get(base + f, new http.Agent()); files.push(r.status === 200 ? r.body.toString('latin1') : 'status ' + r.status); }
            } catch (e) { return ['the page', w.page, String(e.message)]; }
            if (page !== w.page) return ['the page', w.page, page];
            if (files[0] !== 'js ' + w.page) return ['the script', 'js ' + w.page, files[0].slice(0, 80)];
            if (!files[1].includes('@VERSION-' + String(w.page).padStart(6, '0') + '@')) return ['the module', w.page, files[1].length + ' bytes'];
        }
        for (const [t, v] of Object.entries(w.tabs)) {
            if (v.page === 0) continue;
            const tab = tabs.get(t);
            if (tab.trouble) return ['tab ' + t, 'no trouble', tab.trouble];
            if (tab.note() !== v.note) return ['the note in tab ' + t, v.note || 'none', tab.note() || 'none'];
            if (w.ph === 'serving' && v.conn && tab.page !== v.page) return ['the page in tab ' + t, v.page, tab.page];
        }
        return null;
    }
    async function settle(w) {
        let left = 3, d;
        const until = Date.now() + PATIENCE;
        for (;;) {
            d = await differs(w);
            if (d === null || ended !== null || d[0].startsWith('one ')) break;
            // one change may be noticed more than once: then the same sources are built again
            if (runs > let_go && saw() === w.saw && w.ph !== 'cargo' && left-- > 0) { await release(`${L}/go-${++let_go}`); }
            if (opts > optgo && saw() === w.saw && w.ph !== 'opt' && runs === let_go && w.ph !== 'cargo' && left >= 0 && left < 3) { await release(`${L}/optgo-${++optgo}`); }
            if (Date.now() > until) break;
            await sleep(25);
        }
        if (d) bad.push({ step, act, what: d[0], expected: d[1], got: d[2], state: w, out: out.slice(-2500) });
        return !d;
    }
    const change = {
        write: () => write(app + '/src/lib.rs', String(src)),
        burst: () => { for (const f of ['lib.rs', 'sub/mod.rs', 'lib.rs']) write(app + '/src/' + f, String(src)); },
        create: () => write(`${app}/src/new${++files}.rs`, String(src)),
        rename: () => { write(`${ws}/other/tmp${++files}`, String(src)); fs.renameSync(`${ws}/other/tmp${files}`, app + '/src/lib.rs'); },
        remove: () => { const l = fs.readdirSync(app + '/src').filter(f => f.startsWith('new')); if (l.length) fs.rmSync(app + '/src/' + l[0]); else fs.renameSync(app + '/src/sub/mod.rs', app + '/src/sub.rs'), write(app + '/src/sub/mod.rs', '1'); },
        mkdir: () => { last = `${app}/src/dir${++files}/in`; write(last + '/mod.rs', String(src)); },
        deep: () => write(last + '/mod.rs', String(src)),
        extra: () => write(ws + '/shared/src/lib.rs', String(src)),
        manifest: () => write(app + '/Cargo.toml', String(src)),
    };
    const touch = { target: () => write(`${target}/debug/deps/x${++files}`, 'x'), dest: () => write(`${dest}/y${++files}`, 'y'), outside: () => write(`${ws}/other/z${++files}`, 'z') };
    try {
        let w = { ph: 'cargo', saw: 1, page: 0, tabs: {} };
        act = { k: 'start' };
        if (await settle(w)) for (const h of sc.steps) {
            const a = act = h.do;
            step++; steps++; acts[a.k] = (acts[a.k] || 0) + 1;
            const busy = w.ph === 'cargo' || w.ph === 'opt';
            if (a.k === 'edit') {
                write(L + '/src', ++src + '\n');
                if (a.bad) write(L + '/bad', ''); else fs.rmSync(L + '/bad', { force: true });
                change[a.how]();
                if (busy) await sleep(150);
            } else if (a.k === 'noise') {
                touch[a.how]();
                await sleep(450);
            } else if (a.k === 'finish') { builds++; await release(`${L}/go-${++let_go}`); }
            else if (a.k === 'optdone') await release(`${L}/optgo-${++optgo}`);
            else if (a.k === 'open' || a.k === 'openslow') { const t = new Tab(base, sc.conf.late); tabs.set(a.t, t); await t.load(a.k === 'openslow'); if (a.k === 'open') await sleep(30); }
            else if (a.k === 'connect') { tabs.get(a.t).connectNow?.(); await sleep(30); }
            else if (a.k === 'reload') { await tabs.get(a.t).load(false); await sleep(30); }
            else if (a.k === 'dismiss') { if (!tabs.get(a.t).dismiss()) bad.push({ step, act, what: 'the note can be dismissed', expected: 'a button', got: 'none' }); }
            else if (a.k === 'close') { tabs.get(a.t).close(); tabs.delete(a.t); }
            w = h;
            if (!await settle(w)) break;
        }
        // and it stays like this
        if (!bad.length) { step++; act = { k: 'rest' }; await sleep(700); const d = await differs(w); if (d) bad.push({ step, act, what: 'afterwards: ' + d[0], expected: d[1], got: d[2], state: w, out: out.slice(-2500) }); }
    } catch (e) { bad.push({ step, act, what: 'the replay', expected: 'no error', got: String(e.stack) }); }
    for (const t of tabs.values()) t.close();
    for (const fd of fds) fs.closeSync(fd);
    try { process.kill(-child.pid, 'SIGKILL'); } catch { /* it has ended */ }
    await gone;
    fs.rmSync(W, { recursive: true, force: true });
    taken.delete(port); taken.delete(events);
    return bad;
}

own(scratch);
const lines = fs.readFileSync(file, 'utf8').split('\n').filter(Boolean);
let next = 0;
await Promise.all(Array.from({ length: ATONCE }, async () => {
    while (next < lines.length) {
        const i = next++, sc = JSON.parse(lines[i]);
        let bad = await replay(sc, i);
        // somebody else may have taken the port meanwhile
        for (let k = 0; k < 3 && bad.some(b => /already in use/.test(b.out ?? '') || (b.step === 0 && b.what === 'the command runs')); k++) bad = await replay(sc, i);
        if (bad.length) say({ idx: i, bad, scenario: sc });
    }
}));
fs.rmSync(scratch, { recursive: true, force: true });
say({ summary: true, scenarios: lines.length, steps, builds, acts });
process.exit(0);
