// Replays behaviours of spec/CssGen.tla and CssMC.tla: the compiled styles are put on a page in the mini browser, and for
// every state, media query and value of the expressions the cascade is compared with what the specification says.
// usage: run_css.mjs APP.wasm RUN.js FILE
import fs from 'node:fs';
import { Browser } from './browser.mjs';
import { expand } from './pagelib.mjs';
import { Sheet, canon } from './csslib.mjs';

const [wasm, script, file] = process.argv.slice(2);
const say = (o) => console.log(JSON.stringify(o));
const QUERIES = [null, 'print', 'screen and (min-width: 600px)', '(30em <= width <= 50em), (orientation: landscape)'];
const frames = (fr) => fr.map(([at, ds]) => at + '{' + [...new Map(ds)].map(([p, x]) => p + ':' + canon(x)).sort().join(';') + '}').sort().join('');

async function replay(sc) {
    const bad = [];
    const b = new Browser({ wasm, script, prelude: [{ m: 'page', do: 'load', sc: { init: { v: [0, 0, 0], l: [[], []], s: ['', ''], o: [null, null] }, css: [], tree: {}, tmpl: sc.tmpl } }] });
    const known = new Map();     // style, values of its variables -> class
    let step = -1, rules = 0;
    const report = (what, expected, got, k) => bad.push({ step, h: sc.steps[step]?.h, what, style: k, expected, got });
    try {
        await b.start();
        if (!b.inst) { report('start', '', b.problems()); return bad; }
        for (step = 0; step < sc.steps.length; step++) {
            const { h, v, st, ms, show } = sc.steps[step];
            if (h[0] === 'tx') b.call({ m: 'page', do: 'tx', ops: h[1].map(([j, x]) => ({ k: 'v', j, x })) });
            const texts = [...b.document.querySelectorAll('style')].map(s => s.textContent);
            const sheet = new Sheet(texts);
            if (sheet.junk.length) report('not a rule', [], sheet.junk);
            const states = new Set(st), none = new Set();
            const media = new Set(ms.map(q => QUERIES[q]));
            show.forEach((want, n) => {
                const el = b.document.querySelector(`[data-s="${n + 1}"]`);
                if (!el) return report('element', 'found', 'lost', n + 1);
                const env = { media, states: (x) => x === el ? states : none };
                const check = (node, pe, set, what) => {
                    const got = sheet.values(node, pe, env);
                    const A = new Map(), B = new Map();
                    for (const { p, x, fr } of set) A.set(p, fr.length ? canon(x) + ' ' + frames(fr.map(f => [f.at, f.b.map(d => [d.p, d.x])])) : canon(x));
                    for (const [p, x] of got) {
                        let y = canon(x);
                        if (p === 'animation') {
                            const words = y.split(' ');
                            const names = words.filter(w => sheet.frames.has(w));
                            if (names.length) y = words.filter(w => !names.includes(w)).join(' ') + ' ' + names.map(w => frames(sheet.frames.get(w))).join('|');
                        }
                        B.set(p, y);
                    }
                    for (const p of new Set([...A.keys(), ...B.keys()]))
                        if (A.get(p) !== B.get(p)) report(`${what}: ${p}`, A.get(p) ?? null, B.get(p) ?? null, n + 1);
                };
                for (const t in want.ts) check(el, t === 'self' ? '' : t, want.ts[t], t);
                for (const { c, e } of want.kids) {
                    const kid = el.querySelector(`[data-c="${c}"]`);
                    if (!kid) report('element', 'found', 'lost', n + 1); else check(kid, '', e, 'kid ' + c);
                }
                // the same style has the same class
                const key = n + ' ' + v.join(), cls = el.getAttribute('class');
                if (!/^\S+$/.test(cls ?? '')) report('class', 'one', cls, n + 1);
                if (known.has(key) && known.get(key) !== cls) report('class of the same style', known.get(key), cls, n + 1);
                known.set(key, cls);
            });
            if (h[0] !== 'tx' && step > 0 && texts.length !== rules) report('rules added by nothing', rules, texts.length);
            rules = texts.length;
            if (bad.length > 12) break;
        }
        const p = b.problems();
        if (p.length) report('problems', [], p);
    } catch (e) {
        if (e instanceof WebAssembly.RuntimeError || b.panics.length) report('panic', '', b.panics.concat(String(e))); else throw e;
    }
    return bad;
}
let n = 0, steps = 0, styles = 0;
for (const [idx, line] of fs.readFileSync(file, 'utf8').split('\n').filter(x => x).entries()) {
    const sc = JSON.parse(expand(line));
    const bad = await replay(sc);
    n++; steps += sc.steps.length; styles += sc.styles.length;
    if (bad.length) say({ idx, bad: bad.slice(0, 8), scenario: sc });
}
say({ summary: true, scenarios: n, steps, styles });
