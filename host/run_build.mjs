// Replays histories of spec/Build.tla: the real vertigo command builds and creates projects in a scratch directory, as an
// unprivileged user, with stand-ins for cargo, rustup and wasm-opt.
// usage: run_build.mjs VERTIGO TEMPLATE FILE
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { spawn } from 'node:child_process';

const [vertigo, template, file] = process.argv.slice(2);
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'build-'));
const NOBODY = 65534;
const here = path.dirname(new URL(import.meta.url).pathname);
const say = (o) => console.log(JSON.stringify(o));
const own = (p) => fs.chownSync(p, NOBODY, NOBODY);
const mkdir = (p) => { if (!fs.existsSync(p)) { mkdir(path.dirname(p)); fs.mkdirSync(p); own(p); } };
const write = (p, x) => { mkdir(path.dirname(p)); fs.writeFileSync(p, x); own(p); };
// what makes the files large: they differ in the middle only
const PAD = '<' + '.'.repeat(150000) + '>';
const tree = (dir, pre = '') => fs.readdirSync(dir, { withFileTypes: true }).flatMap(e => e.isDirectory() ? tree(path.join(dir, e.name), pre + e.name + '/') : [[pre + e.name, fs.readFileSync(path.join(dir, e.name), 'utf8').replaceAll(PAD, '')]]).sort();
const kind = (p) => !fs.existsSync(p) ? 'none' : fs.statSync(p).isFile() ? 'file' : 'dir';
const stub = Object.fromEntries(tree(template));
if (!/name = "my_app"/.test(stub['Cargo.toml_'])) throw new Error('the template has no name to replace');
let steps = 0, builds = 0;

function run(args, cwd, env) {
    return new Promise((ok, no) => {
        const p = spawn(vertigo, args, { cwd, env, uid: NOBODY, gid: NOBODY, stdio: ['ignore', 'pipe', 'pipe'] });
        let out = '';
        p.stdout.on('data', d => { out += d; }); p.stderr.on('data', d => { out += d; });
        const t = setTimeout(() => { p.kill('SIGKILL'); out += '\n(killed after 60 s)'; }, 60000);
        p.on('error', no);
        p.on('close', (code, sig) => { clearTimeout(t); ok({ code: code ?? sig, out: out.slice(-3000) }); });
    });
}

async function replay(sc, n) {
    const bad = [];
    let step = 0, act = null, out = '';
    const miss = (what, expected, got) => bad.push({ step, act, what, expected, got, out });
    const W = path.join(scratch, 'w' + n), L = W + '/world', ws = W + '/ws';
    for (const d of [L, W + '/bin', W + '/opt', ws + '/member', W + '/else', W + '/new', W + '/home']) mkdir(d);
    for (const x of ['cargo', 'rustup']) fs.copyFileSync(path.join(here, 'standins', x), W + '/bin/' + x);
    const cwd = sc.place === 'sub' ? ws + '/member' : ws;
    const target = sc.place === 'else' ? W + '/else' : ws + '/target';
    write(L + '/target', target + '\n'); write(L + '/js', '1\n'); write(L + '/installed', ''); write(L + '/log', ''); write(L + '/pad', PAD);
    const id = (p) => `path+file://${ws}/${p.n}#0.1.0`;
    write(L + '/metadata.json', JSON.stringify({
        packages: [{ name: 'vertigo', id: 'registry+x#vertigo@0.6.0', manifest_path: '/x/Cargo.toml', targets: [{ kind: ['cdylib'] }] },
            ...[...sc.pkgs].reverse().map(p => ({ name: p.n, id: id(p), version: '0.1.0', manifest_path: `${ws}/${p.n}/Cargo.toml`, dependencies: [], targets: [{ name: p.u, kind: ['bin'] }, { name: p.u, kind: p.cdylib ? ['cdylib', 'rlib'] : ['lib'] }] }))],
        workspace_members: sc.pkgs.map(id), resolve: null, target_directory: target, workspace_root: ws, version: 1, metadata: null }));
    const ver = sc.pkgs.map(() => 1), env = { HOME: W + '/home', RUST_LOG: 'info' };
    if (sc.place === 'else') env.CARGO_TARGET_DIR = target;
    let js = 1, opt = false;
    for (const p of sc.pkgs) {
        write(`${L}/src-${p.n}`, '1\n'); write(`${L}/asset-${p.n}`, '1\n');
        // what an earlier build has left in another place
        if (sc.place !== 'root') write(`${cwd}/target/wasm32-unknown-unknown/release/${p.u}.wasm`, 'stale');
    }
    const project = (name) => Object.entries(stub).map(([n, x]) => n !== 'Cargo.toml_' ? { s: n, x } : { s: 'Cargo.toml', x: x.replaceAll('my_app', name) });
    const names = new Map();     // content of a file -> its name
    const real = (f) => {
        if (!f.h) return f.s;
        return names.get(f.s + '|' + f.x) ?? null;
    };
    /** Do the files there agree with those wanted? */
    function compare(where, wanted, got) {
        const left = new Map(got);
        const want = wanted.flatMap(f => f.s !== '' ? [f] : project(f.x.slice(9)));
        // files named by content are found by their content
        for (const f of want) if (f.h) {
            const hit = [...left].find(([k, x]) => x === f.x && k.startsWith(f.s + '.') && k.endsWith('.' + f.e) && k.length > f.s.length + f.e.length + 2 && /^[A-Za-z0-9_-]+$/.test(k.slice(f.s.length + 1, -f.e.length - 1)));
            if (!hit) { miss(where + ': a file ' + f.s + '.*.' + f.e, f.x, [...left].map(x => [x[0], x[1].slice(0, 80)])); continue; }
            const key = f.s + '|' + f.x;
            if (names.has(key) && names.get(key) !== hit[0]) miss(where + ': the name of the same content', names.get(key), hit[0]);
            for (const [k, v] of names) if (v === hit[0] && k !== key) miss(where + ': the same name for another content', k, key);
            names.set(key, hit[0]);
            left.delete(hit[0]);
        }
        for (const f of want) if (!f.h) {
            let x = f.x;
            const g = left.get(f.s);
            left.delete(f.s);
            if (f.run) {
                let j = null;
                try { j = JSON.parse(g); } catch { /* reported below */ }
                if (j?.run_js !== f.x + '/' + real(f.run) || j?.wasm !== f.x + '/' + real(f.wasm)) miss(where + ': index.json', [f.x, real(f.run), real(f.wasm)], g ?? 'none');
                continue;
            }
            if (f.of) { const o = real(f.of); x = `${f.x} ${o} ${o}`; }
            if (g !== x) miss(where + ': ' + f.s, x, g ?? 'none');
        }
        if (left.size) miss(where + ': nothing else', [], [...left.keys()]);
    }
    for (const h of sc.steps) {
        step++; act = h.do; out = '';
        const a = h.do;
        steps++;
        if (a.k === 'edit') { ver[a.i - 1]++; const p = sc.pkgs[a.i - 1].n; write(`${L}/src-${p}`, ver[a.i - 1] + '\n'); if (a.bad) write(`${L}/broken-${p}`, ''); else fs.rmSync(`${L}/broken-${p}`, { force: true }); }
        else if (a.k === 'asset') write(`${L}/asset-${sc.pkgs[a.i - 1].n}`, a.v + '\n');
        else if (a.k === 'vertigo') write(L + '/js', ++js + '\n');
        else if (a.k === 'target') fs.rmSync(L + '/installed', { force: true });
        else if (a.k === 'opt') {
            fs.rmSync(W + '/opt/wasm-opt', { force: true }); fs.rmSync(L + '/optfails', { force: true });
            if (a.v !== 'none') fs.copyFileSync(path.join(here, 'standins/wasm-opt'), W + '/opt/wasm-opt');
            if (a.v === 'fail') write(L + '/optfails', '');
        } else if (a.k === 'junk') write(path.join(cwd, a.d, a.n), 'junk');
        else if (a.k === 'make') { const p = W + '/new/' + a.n; if (a.v === 'file') write(p, 'mine'); else { mkdir(p); if (a.v !== 'empty') write(p + '/' + a.v, 'junk'); } }
        else {
            builds++;
            const args = a.k === 'new' ? ['new', a.n, '--dest-dir', W + '/new'] : ['build', ...(a.pkg ? [a.pkg] : []), '--dest-dir', a.dest, ...(a.pub === '/build' ? [] : ['--public-path', a.pub]), ...(a.noopt ? ['--disable-wasm-opt'] : []), ...(a.map ? ['--wasm-run-source-map'] : [])];
            write(L + '/log', '');
            const r = await run(args, cwd, { ...env, PATH: `${W}/bin:${W}/opt:/usr/bin:/bin` });
            out = r.out;
            if ((r.code === 0) !== (h.code === 0)) miss('exit status', h.code === 0 ? 'success' : 'failure', r.code);
            const log = fs.readFileSync(L + '/log', 'utf8');
            if (log.includes('rustup target add') !== h.added) miss('the target is installed', h.added, log);
        }
        for (const [d, want] of Object.entries(h.dest)) {
            const p = path.join(cwd, d), k = kind(p);
            if (want.k === 'none') { if (k !== 'none') miss(d, 'nothing there', tree(p).map(x => x[0])); }
            else if (want.k === 'unservable') { if (k === 'dir' && fs.existsSync(p + '/index.json')) miss(d, 'no index after a failure', tree(p).map(x => x[0])); }
            else if (k !== 'dir') miss(d, 'a directory', k);
            else compare(d, want.f, tree(p));
        }
        for (const [d, want] of Object.entries(h.news)) {
            const p = W + '/new/' + d, k = kind(p);
            if (k !== want.k) { miss(d, want.k, k); continue; }
            if (k === 'dir') compare(d, want.f, tree(p));
            if (k === 'file' && fs.readFileSync(p, 'utf8') !== 'mine') miss(d, 'untouched', 'changed');
        }
        if (bad.length) break;
    }
    fs.rmSync(W, { recursive: true, force: true });
    return bad;
}

own(scratch);
const lines = fs.readFileSync(file, 'utf8').split('\n').filter(Boolean);
for (let i = 0; i < lines.length; i++) {
    const sc = JSON.parse(lines[i]);
    const bad = await replay(sc, i);
    if (bad.length) say({ idx: i, bad, scenario: sc });
}
fs.rmSync(scratch, { recursive: true, force: true });
say({ summary: true, scenarios: lines.length, steps, builds });
