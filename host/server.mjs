// The real server (vertigo serve) with the rig application and an upstream of our own.
import fs from 'node:fs';
import net from 'node:net';
import http from 'node:http';
import path from 'node:path';
import { spawn } from 'node:child_process';

// outside the range the system takes ports from for others
const freePort = async () => {
    for (;;) {
        const port = 10000 + Math.floor(Math.random() * 20000);
        const free = await new Promise(ok => { const s = net.createServer(); s.on('error', () => ok(false)); s.listen(port, '127.0.0.1', () => s.close(() => ok(true))); });
        if (free) return port;
    }
};
/** Does this process listen on the port itself? */
function owns(pid, port) {
    const hex = ':' + port.toString(16).toUpperCase().padStart(4, '0');
    const rows = ['tcp', 'tcp6'].flatMap(f => { try { return fs.readFileSync(`/proc/${pid}/net/${f}`, 'utf8').split('\n'); } catch { return []; } });
    const inodes = rows.map(l => l.trim().split(/\s+/)).filter(l => l[1]?.endsWith(hex) && l[3] === '0A').map(l => l[9]);
    try { return fs.readdirSync(`/proc/${pid}/fd`).some(f => { try { return inodes.includes(/^socket:\[(\d+)\]$/.exec(fs.readlinkSync(`/proc/${pid}/fd/${f}`))?.[1]); } catch { return false; } }); } catch { return true; }
}
const sleep = (ms) => new Promise(ok => setTimeout(ok, ms));
export { sleep };

/** Runs one server; files: { name: content } are put next to the module. */
export async function serve({ vertigo, wasm, dir, mount = '/build', proxy = {}, env = {}, files = {}, index = null }) {
    fs.mkdirSync(dir, { recursive: true });
    fs.writeFileSync(path.join(dir, 'index.json'), JSON.stringify(index ?? { run_js: mount + '/wasm_run.js', wasm: mount + '/rig.wasm' }));
    try { fs.symlinkSync(wasm, path.join(dir, 'rig.wasm')); } catch (e) { if (e.code !== 'EEXIST') throw e; }
    for (const [name, content] of Object.entries(files)) {
        fs.mkdirSync(path.dirname(path.join(dir, name)), { recursive: true });
        fs.writeFileSync(path.join(dir, name), content);
    }
    for (let attempt = 0; ; attempt++) {
        const port = await freePort();
        const args = ['serve', '--dest-dir', dir, '--host', '127.0.0.1', '--port', String(port)];
        for (const [k, v] of Object.entries(proxy)) args.push('--proxy', k + '=' + v);
        for (const [k, v] of Object.entries(env)) args.push('--env', k + '=' + v);
        const child = spawn(vertigo, args, { stdio: ['ignore', 'pipe', 'pipe'], env: { PATH: process.env.PATH, RUST_LOG: 'off', NO_PROXY: '*', SSL_CERT_FILE: '/dev/null', SSL_CERT_DIR: '/dev/null' } });
        let log = '', code = null;
        const keep = (d) => { log = (log + d).slice(-20000); };
        child.stdout.on('data', keep); child.stderr.on('data', keep);
        child.on('exit', (c, s) => { code = s ?? c; });
        process.on('exit', () => { try { child.kill('SIGKILL'); } catch { /* gone */ } });
        for (let k = 0; k < 1200 && code === null; k++) {
            const up = await new Promise(ok => { const s = net.connect(port, '127.0.0.1'); s.on('connect', () => { s.destroy(); ok(true); }); s.on('error', () => ok(false)); });
            if (up && code === null && owns(child.pid, port)) return { port, log: () => log, alive: () => code === null, stop: () => new Promise(ok => { if (code !== null) return ok(); child.on('exit', ok); child.kill('SIGKILL'); }) };
            await sleep(100);
        }
        child.kill('SIGKILL');
        if (attempt === 4) throw new Error('the server does not start: ' + code + ' ' + log);
    }
}

/** Requests by scenario: on(path prefix, handler). */
export async function upstream() {
    const handlers = new Map();
    const strays = [];
    const server = http.createServer({ keepAliveTimeout: 300000, requestTimeout: 0, headersTimeout: 0 }, (req, res) => {
        const parts = [];
        req.on('data', d => parts.push(d));
        req.on('error', () => {});
        res.on('error', () => {});
        req.on('end', () => {
            const m = /^\/(k\d+(?:p\d+)?)(\/.*)$/.exec(req.url);
            const h = m && handlers.get(m[1]);
            const a = { method: req.method, url: m ? m[2] : req.url, headers: req.headers, raw: req.rawHeaders, body: Buffer.concat(parts), req, res };
            if (h) h(a); else { strays.push(a.method + ' ' + req.url); res.statusCode = 404; res.end(); }
        });
    });
    server.maxHeadersCount = 0;
    await new Promise(ok => server.listen(0, '127.0.0.1', ok));
    return { port: server.address().port, handlers, strays, stop: () => { server.closeAllConnections(); server.close(); } };
}

/** One request; resolves with { status, headers, body } or { error }. */
export function ask(port, target, { method = 'GET', headers = {}, body = null, chunked = false } = {}) {
    let req;
    const done = new Promise(ok => {
        req = http.request({ host: '127.0.0.1', port, path: target, method, headers: body && !chunked ? { ...headers, 'content-length': body.length } : headers, agent: false }, (res) => {
            const parts = [];
            res.on('data', d => parts.push(d));
            res.on('end', () => ok({ status: res.statusCode, headers: res.headers, body: Buffer.concat(parts), at: Date.now() }));
            res.on('error', e => ok({ error: String(e) }));
            res.on('aborted', () => ok({ error: 'aborted' }));
        });
        req.on('error', e => ok({ error: String(e) }));
        if (body) { if (chunked) { for (let i = 0; i < body.length; i += 1000) req.write(body.subarray(i, i + 1000)); if (!body.length) req.write(''); } else req.write(body); }
        req.end();
    });
    return { done, abort: () => req.destroy() };
}
