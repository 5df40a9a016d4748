// One browser tab: window, document, location/history, virtual timers, controllable fetch and WebSocket, and the
// vertigo start-up script (wasm_run.js, or the bundle of the TypeScript sources) with the rig as its wasm module.
import fs from 'node:fs';
import * as D from './dom.mjs';
import { rigCall } from './bare.mjs';

process.on('unhandledRejection', e => { if (Browser.current) Browser.current._error('uncaught (in promise)', [e]); else throw e; });
const modCache = new Map();
const scriptCache = new Map();
const realSetImmediate = setImmediate;
export const settle = async (n = 3) => { for (let i = 0; i < n; i++) await new Promise(r => realSetImmediate(r)); };

export class Browser {
    constructor({ wasm, script, url = 'http://localhost:1111/', html = null, env = {}, prelude = [] }) {
        Browser.current = this;
        this.wasmPath = wasm; this.scriptPath = script; this.prelude = prelude;
        this.errors = [];      // console.error and uncaught errors: the driver has none in a correct run
        this.warnings = [];
        this.panics = [];
        this.batches = [];     // every dom_bulk_update call (deep copies)
        this.navigations = []; // real navigations the page would have performed
        this.scrolls = [];
        this.fetches = [];
        this.sockets = [];
        this.now = 1700000000000;
        this.skew = 0; // what the visitor has set his clock by
        this.timers = new Map(); this.nextTimer = 1; this.timerLog = [];
        this.tasks = [];       // queued browser tasks (popstate, hashchange)
        this.inst = null;
        this.allowErrors = [];
        this.said = [];
        this._window(url);
        this._document(html, env);
    }
    _error(kind, args) {
        const txt = args.map(a => a instanceof Error ? String(a.message || a) : typeof a === 'string' ? a : safeJson(a)).join(' ');
        if (args[0] === 'PANIC') { this.panics.push(txt); return; }
        if (this.allowErrors.some(r => r.test(txt))) return;
        this.errors.push(kind + ': ' + txt);
    }
    _document(html, env) {
        const d = this.document = new D.Document_();
        d.defaultView = this.window; this.window.document = d;
        d.location = this.window.location;
        Object.defineProperty(d, 'baseURI', { get: () => d.location.href });
        const h = d.createElement('html'); d.appendChild(h);
        h.appendChild(d.createElement('head')); h.appendChild(d.createElement('body'));
        for (const [k, v] of Object.entries(env)) h.setAttribute('data-env-' + k, v);
        if (html) html(d);
    }
    _window(url) {
        const B = this;
        const w = this.window = {}; // no fall-through to node: what the page may use is listed here
        for (const k of ["Object", "Array", "Map", "Set", "WeakMap", "WeakSet", "Promise", "Symbol", "BigInt", "Number", "String", "Boolean", "Math", "JSON", "Error", "TypeError", "RangeError", "Uint8Array", "Uint8ClampedArray", "Uint16Array", "Uint32Array", "Int8Array", "Int16Array", "Int32Array", "Float32Array", "Float64Array", "BigInt64Array", "BigUint64Array", "ArrayBuffer", "DataView", "TextEncoder", "TextDecoder", "RegExp", "Proxy", "Reflect", "parseInt", "parseFloat", "isNaN", "isFinite", "encodeURIComponent", "decodeURIComponent", "encodeURI", "decodeURI", "structuredClone", "atob", "btoa", "Blob", "File", "FormData", "crypto"]) w[k] = globalThis[k];
        const et = new D.EventTarget_();
        for (const m of ['addEventListener', 'removeEventListener', 'dispatchEvent', '_invoke']) w[m] = (...a) => D.EventTarget_.prototype[m].apply(Object.assign(et, { _w: 1 }), a);
        w._invoke = (ev, ph) => et._invoke(ev, ph);
        w.window = w; w.self = w; w.globalThis = w; w.top = w; w.parent = w;
        D.EventTarget_.onerror = e => B._error('uncaught', [e]);
        for (const [k, v] of Object.entries(D)) if (k.endsWith('_')) w[k.slice(0, -1)] = v;
        const said = (m, a) => { B.said.push([m, ...a.map(String)]); };
        w.console = { error: (...a) => { said('error', a); B._error('console.error', a); }, warn: (...a) => { said('warn', a); B.warnings.push(a.map(String).join(' ')); }, info: (...a) => said('info', a), log: (...a) => { said('log', a); (B.logs ||= []).push(a.map(String).join(' ')); }, debug: (...a) => said('debug', a), trace() {}, group() {}, groupEnd() {} };
        // ---- virtual time
        w.setTimeout = (f, ms = 0, ...a) => B._timer(f, ms, false, a);
        w.setInterval = (f, ms = 0, ...a) => B._timer(f, ms, true, a);
        w.clearTimeout = w.clearInterval = id => { B.timers.delete(Number(id)); };
        w.requestAnimationFrame = f => B._timer(() => f(B.now), 16, false, []);
        w.cancelAnimationFrame = w.clearTimeout;
        w.queueMicrotask = f => queueMicrotask(f);
        const RealDate = Date;
        w.Date = class extends RealDate { constructor(...a) { if (a.length === 0) super(B.now + B.skew); else super(...a); } static now() { return B.now + B.skew; } getTimezoneOffset() { return B.tz ?? 0; } };
        w.performance = { now: () => B.now };
        // ---- location and history
        B.entries = [{ url: new URL(url), state: null }]; B.index = 0;
        const cur = () => B.entries[B.index].url;
        const loc = {
            get href() { return cur().href; }, set href(v) { B._navigate(v); },
            get pathname() { return cur().pathname; }, get search() { return cur().search; }, get host() { return cur().host; },
            get hostname() { return cur().hostname; }, get origin() { return cur().origin; }, get protocol() { return cur().protocol; }, get port() { return cur().port; },
            get hash() { return cur().hash; },
            set hash(v) { v = String(v); const u = new URL(cur().href); u.hash = v; if (u.hash === cur().hash) return; B._fragment(u); },
            assign: v => B._navigate(v), replace: v => B._navigate(v), reload: () => B.navigations.push('reload'), toString: () => cur().href,
        };
        w.location = loc;
        w.history = {
            get length() { return B.entries.length; }, get state() { return B.entries[B.index].state; },
            pushState: (state, _t, u) => { const n = new URL(u ?? cur().href, cur().href); if (n.origin !== cur().origin) throw new Error('SecurityError: pushState ' + n.href); B.entries.length = B.index + 1; B.entries.push({ url: n, state }); B.index++; },
            replaceState: (state, _t, u) => { const n = new URL(u ?? cur().href, cur().href); if (n.origin !== cur().origin) throw new Error('SecurityError: replaceState'); B.entries[B.index] = { url: n, state }; },
            back: () => B.go(-1), forward: () => B.go(1), go: n => B.go(n),
        };
        w.scrollTo = (...a) => B.scrolls.push(a); w.scroll = w.scrollTo;
        w.navigator = { userAgent: 'mini', onLine: true, language: 'en' };
        w.alert = m => (B.alerts ||= []).push(m);
        w.open = u => B.navigations.push(u);
        w.innerWidth = 1000; w.innerHeight = 800; w.scrollX = 0; w.scrollY = 0; w.devicePixelRatio = 1;
        // ---- fetch
        w.Headers = Headers; w.Response = Response; w.Request = Request; w.URL = URL; w.URLSearchParams = URLSearchParams; w.AbortController = AbortController;
        w.fetch = (input, init = {}) => {
            const urlText = typeof input === 'string' ? input : input.url ?? String(input);
            if (urlText === (B.wasmUrl ?? 'rig.wasm')) return Promise.resolve({ rig: true, ok: true, status: 200, headers: new Headers({ 'content-type': 'application/wasm' }), arrayBuffer: async () => fs.readFileSync(B.wasmPath) });
            try { new Request(new URL(urlText, cur().href), init); } catch (e) { return Promise.reject(e); } // what browsers refuse
            const copy = (x) => x instanceof Uint8Array ? x.slice() : x instanceof ArrayBuffer ? new Uint8Array(x.slice(0)) : x;
            const f = { n: B.fetches.length, url: urlText, method: init.method ?? 'GET', headers: Object.fromEntries(new Headers(init.headers ?? {})), body: copy(init.body ?? null), t: B.now, settled: false };
            const p = new Promise((res, rej) => { f._res = res; f._rej = rej; });
            B.fetches.push(f);
            return p;
        };
        // ---- WebSocket
        class WS extends D.EventTarget_ {
            constructor(u) { super(); this.url = u; this.readyState = 0; this.sent = []; this.n = B.sockets.length; this.t = B.now; this.binaryType = 'blob'; B.sockets.push(this); (B.socketLog ||= []).push(['new', this.n, B.now]); }
            send(m) { if (this.readyState === 0) throw new Error('InvalidStateError'); if (this.readyState === 1) { this.sent.push(m); (B.socketLog ||= []).push(['send', this.n, m]); } }
            close() { if (this.readyState >= 2) return; this.failed = this.readyState === 0; this.readyState = 2; (B.socketLog ||= []).push(['close', this.n]); B.tasks.push(() => this._closed()); }
            _closed() { if (this.readyState === 3) return; this.readyState = 3; if (this.failed) this.dispatchEvent(new D.Event_('error')); this.dispatchEvent(new D.CloseEvent_('close')); }
        }
        Object.assign(WS, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        Object.assign(WS.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        w.WebSocket = WS;
        // ---- WebAssembly
        const W = Object.create(WebAssembly);
        const take = async (source, imports) => {
            await source;
            if (B.wasmDelay) await new Promise(done => B._timer(done, B.wasmDelay, false, []));
            let mod = modCache.get(B.wasmPath);
            if (!mod) modCache.set(B.wasmPath, mod = new WebAssembly.Module(fs.readFileSync(B.wasmPath)));
            const orig = imports.mod.panic_message;
            const wrapped = { ...imports, mod: { ...imports.mod, panic_message: (p, s) => { const m = Buffer.from(inst.exports.memory.buffer, p, s).toString('utf8'); B.panics.push(m); try { orig(p, s); } catch {} } } };
            const inst = new WebAssembly.Instance(mod, wrapped);
            B.inst = inst;
            B.started = (B.started ?? 0) + 1;
            B._wrapApi();
            for (const c of B.prelude) rigCall(inst, c);
            // calls of the browser into the application are counted
            const exports = { ...inst.exports, wasm_callback: (...a) => { B.callbacks = (B.callbacks ?? 0) + 1; return inst.exports.wasm_callback(...a); } };
            return { instance: { exports }, module: mod };
        };
        W.instantiateStreaming = take; W.instantiate = take; W.Memory = WebAssembly.Memory; W.Module = WebAssembly.Module; W.Instance = WebAssembly.Instance;
        w.WebAssembly = W;
    }
    _wrapApi() {
        const api = this.window.$vertigoApi;
        if (!api) { this.errors.push('host: window.$vertigoApi is missing'); return; }
        const orig = api.dom.dom_bulk_update;
        const B = this;
        api.dom.dom_bulk_update = (commands, ...rest) => {
            B.batches.push({ commands: structuredClone(commands), t: B.now, fetchesPending: B.fetches.filter(f => !f.settled).length });
            if (B.onbatch) B.onbatch(commands);
            return orig.call(api.dom, commands, ...rest);
        };
    }
    _navigate(u) { const n = new URL(u, this.entries[this.index].url.href); const c = this.entries[this.index].url; if (n.hash && n.href.split('#')[0] === c.href.split('#')[0]) this._fragment(n); else this.navigations.push(n.href); }
    _fragment(u) {
        if (u.href === this.entries[this.index].url.href) return;
        this.entries.length = this.index + 1; this.entries.push({ url: u, state: null }); this.index++;
        this.tasks.push(() => this.window.dispatchEvent(Object.assign(new D.PopStateEvent_('popstate'), {})));
        this.tasks.push(() => this.window.dispatchEvent(new D.HashChangeEvent_('hashchange')));
    }
    go(n) {
        this.tasks.push(() => {
            const i = this.index + n; if (i < 0 || i >= this.entries.length) return;
            const old = this.entries[this.index].url; this.index = i; const cur = this.entries[i].url;
            this.window.dispatchEvent(new D.PopStateEvent_('popstate', { state: this.entries[i].state }));
            if (old.hash !== cur.hash) this.window.dispatchEvent(new D.HashChangeEvent_('hashchange'));
        });
    }
    _timer(f, ms, repeat, args) {
        const id = this.nextTimer++;
        ms = Math.max(repeat ? 1 : 0, Number(ms) || 0);
        this.timers.set(id, { at: this.now + ms, ms, repeat, f, args, seq: this._tseq = (this._tseq || 0) + 1 });
        return id;
    }
    /** Runs queued browser tasks, each as its own task. */
    async drain() {
        await settle();
        while (this.tasks.length) { const t = this.tasks.shift(); try { t(); } catch (e) { this._error('task', [e]); } await settle(); }
    }
    /** Advances virtual time, firing timers in order. */
    async advance(ms) {
        const end = this.now + ms;
        await this.drain();
        for (;;) {
            let best = null, bid = 0;
            for (const [id, t] of this.timers) if (t.at <= end && (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq))) { best = t; bid = id; }
            if (!best) break;
            this.now = Math.max(this.now, best.at);
            if (best.repeat) { best.at += best.ms; best.seq = ++this._tseq; } else this.timers.delete(bid);
            this.timerLog.push([bid, this.now]);
            try { best.f(...best.args); } catch (e) { this._error('timer', [e]); }
            await this.drain();
        }
        this.now = end;
    }
    static scriptOf(path) {
        let f = scriptCache.get(path);
        if (!f) {
            const code = fs.readFileSync(path, 'utf8').replace(/^export\s*\{[^}]*\};?\s*$/m, '');
            f = new Function('window', 'self', 'globalThis', 'document', 'location', 'history', 'navigator', 'console', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'requestAnimationFrame', 'fetch', 'WebSocket', 'WebAssembly', 'Date', 'performance',
                'Node', 'Element', 'HTMLElement', 'HTMLInputElement', 'HTMLTextAreaElement', 'HTMLSelectElement', 'HTMLAnchorElement', 'Text', 'Comment', 'Document', 'DocumentFragment', 'CharacterData', 'Event', 'UIEvent', 'MouseEvent', 'InputEvent', 'FocusEvent', 'KeyboardEvent', 'DragEvent', 'MessageEvent', 'EventTarget', code);
            scriptCache.set(path, f);
        }
        return f;
    }
    /** Loads the page: inserts the start script tag, runs the script, fires load and lets the application start. */
    async start({ tag = true } = {}) {
        const w = this.window;
        if (tag) {
            const s = this.document.createElement('script'); s.setAttribute('type', 'module'); s.setAttribute('data-vertigo-run-wasm', 'rig.wasm'); s.setAttribute('src', 'run.js');
            this.document.body.appendChild(s);
        }
        Browser.scriptOf(this.scriptPath)(w, w, w, this.document, w.location, w.history, w.navigator, w.console, w.setTimeout, w.clearTimeout, w.setInterval, w.clearInterval, w.requestAnimationFrame, w.fetch, w.WebSocket, w.WebAssembly, w.Date, w.performance,
            ...['Node', 'Element', 'HTMLElement', 'HTMLInputElement', 'HTMLTextAreaElement', 'HTMLSelectElement', 'HTMLAnchorElement', 'Text', 'Comment', 'Document', 'DocumentFragment', 'CharacterData', 'Event', 'UIEvent', 'MouseEvent', 'InputEvent', 'FocusEvent', 'KeyboardEvent', 'DragEvent', 'MessageEvent', 'EventTarget'].map(k => w[k]));
        this.bootTimers = new Set(this.timers.keys()); // of the start script itself, not of the application
        w.dispatchEvent(new D.Event_('load'));
        await this.drain();
    }
    call(cmd) { return rigCall(this.inst, cmd); }
    /** rig call that reports a trap instead of throwing. */
    tryCall(cmd) { try { return { ok: true, v: this.call(cmd) }; } catch (e) { return { ok: false, err: String(e) + ' ' + this.panics.join(' | ') }; } }
    respond(f, { status = 200, headers = {}, body = null, error = null }) {
        f.settled = true;
        if (error !== null) f._rej(new TypeError(error)); else f._res(new Response([101, 204, 205, 304].includes(status) ? null : body, { status, headers }));
    }
    /** User click with the default action of links. */
    click(el) {
        const ev = new D.MouseEvent_('click', { bubbles: true, cancelable: true });
        el.dispatchEvent(ev);
        if (!ev.defaultPrevented) { for (let n = el; n; n = n.parentNode) if (n.localName === 'a' && n.hasAttribute && n.hasAttribute('href')) { this._navigate(n.getAttribute('href')); break; } }
        return ev;
    }
    problems() { return [...this.panics.map(p => 'panic: ' + p), ...this.errors]; }
}
function safeJson(a) { try { return JSON.stringify(a, (k, v) => typeof v === 'bigint' ? String(v) : v instanceof Error ? v.message : v); } catch { return String(a); } }

/** Plain-data snapshot of a subtree; markers (comments) left out; uid from the data-u attribute if present. */
export function snapshot(node, opts = {}) {
    if (node instanceof D.Text_) return { t: node.data, s: node._serial };
    if (node instanceof D.Comment_) return null;
    const a = {};
    for (const k of [...node._a.keys()].sort()) a[k] = node._a.get(k);
    const r = { n: node.localName, a, s: node._serial, c: [] };
    if (node instanceof D.HTMLInputElement_ || node instanceof D.HTMLTextAreaElement_) r.live = node.value;
    for (const k of node._c) { const x = snapshot(k, opts); if (x) r.c.push(x); }
    return r;
}
