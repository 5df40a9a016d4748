// The visitor's side of a page rendered by the server: its HTML is loaded in the mini browser, which runs the start
// script it contains and the same application, until nothing is left to do.
import * as D from './dom.mjs';
import { Browser } from './browser.mjs';
import { parse } from './html.mjs';

const SVG = 'http://www.w3.org/2000/svg';
export function convert(doc, n, ns) {
    if (n.text !== undefined) return doc.createTextNode(n.text);
    const my = n.tag === 'svg' ? SVG : ns;
    const e = my ? doc.createElementNS(my, n.tag) : doc.createElement(n.tag);
    for (const [k, v] of n.attrs) e.setAttribute(k, v);
    for (const k of n.kids) e.appendChild(convert(doc, k, my));
    return e;
}
const dump = (n) => n instanceof D.Text_ ? n.data : n instanceof D.Comment_ ? '<!---->' : [n.localName, [...n._a.entries()], n._c.map(dump)];

let turn = Promise.resolve();
/** One at a time. answer(request) gives the browser's answer: a function to be called, or null if nobody wants such a request. */
export function takeOver(o) {
    const mine = turn.then(() => run(o));
    turn = mine.catch(() => {});
    return mine;
}
async function run({ wasm, script, path, text, tz = 0, answer, allow = [], patience = 400, slow = path.length % 3 === 0 }) {
    const bad = [];
    const miss = (what, expected, got) => bad.push({ step: 'in the browser', act: null, what, expected, got });
    const { root } = parse(text);
    const b = new Browser({ wasm, script, url: 'http://localhost:1111' + path, html: (d) => { d.documentElement.remove(); d.appendChild(convert(d, root, null)); } });
    b.allowErrors = allow;
    b.tz = tz;
    const tag = b.document.querySelectorAll('*[data-vertigo-run-wasm]')[0];
    b.wasmUrl = tag?.getAttribute('data-vertigo-run-wasm');
    const before = JSON.stringify(dump(b.document.documentElement));
    let first = true;
    b.onbatch = () => {
        if (!first) return;
        first = false;
        if (JSON.stringify(dump(b.document.documentElement)) !== before) miss('the page of the server stays until the application has its own', before.slice(0, 500), JSON.stringify(dump(b.document.documentElement)).slice(0, 500));
    };
    // some visitors have a slow line: the program arrives after the page's second look for it
    if (slow) { b.wasmDelay = 3500; b.skew = (b.skew ?? 0) - 3500; }
    await b.start({ tag: false });
    if (slow) await b.advance(3500);
    if (!b.inst) { miss('the application starts', 'started', b.problems()); return { b, bad }; }
    for (let i = 0; ; i++) {
        if (i > patience) { miss('the application comes to rest', 'rest', i); break; }
        const f = b.fetches.find(x => !x.settled);
        if (f) {
            const go = answer(b, f);
            if (!go) { miss('a request which the server has not sent', [], { m: f.method, url: f.url, h: f.headers }); b.respond(f, { error: 'nobody' }); } else go();
            await b.drain();
        } else if ([...b.timers.values()].some(t => t.at <= b.now && !t.repeat)) await b.advance(0);
        else break;
    }
    const n = b.callbacks, batches = b.batches.length, asked = b.fetches.length;
    await b.advance(3500);
    if (b.fetches.length !== asked || b.batches.length !== batches) miss('nothing more happens', [asked, batches], [b.fetches.length, b.batches.length]);
    if (b.started !== 1) miss('the application is started once', 1, b.started);
    if (first) miss('the application shows its page', 'a delivery', 'none');
    for (const p of b.problems()) miss(p, 'no error', p);
    return { b, bad };
}
