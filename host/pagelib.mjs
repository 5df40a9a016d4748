// Comparing a page of the mini browser with the document the specification expects.
import * as D from './dom.mjs';

export const TOK = { A: '<b>&amp; "quote" \'', B: 'žluť→😀', C: ' lead  and trail ', D: 'a\nb\t</script><!--' };
/** Tokens of the specification stand for texts TLC cannot write. */
export const expand = (line) => line.replace(/~([A-D])~/g, (_, k) => JSON.stringify(TOK[k]).slice(1, -1));
const esc = (s) => s;

// style texts and the rules they must amount to ($ = the class, %K = a generated animation name)
export const CSS = [
    ['color: blue', { '.$': 'color: blue' }],
    ['color: blue; background: red url(http://x.y/z.png);', { '.$': 'color: blue; background: red url(http://x.y/z.png)' }],
    ['font-size: 12px; :hover { color: red; };', { '.$': 'font-size: 12px', '.$:hover': 'color: red' }],
    ['@media screen and (min-width: 600px) { color: red; width: 1px; :hover { color: green; } };\n height: 2px', { '.$': 'height: 2px', '@media screen and (min-width: 600px)': '.$ {color: red; width: 1px} .$:hover {color: green}' }],
    ['animation: 1s infinite { from { color: red; } to { color: blue; } }', { '.$': 'animation: 1s infinite %K', '@keyframes %K': 'from {color: red} to {color: blue}' }],
    ['content: "é→"; :hover { content: "ü"; };', { '.$': 'content: "é→"', '.$:hover': 'content: "ü"' }],
    ['color: black; [title] { color: red; };', { '.$': 'color: black', '.$[title]': 'color: red' }],
    ['content: "<b>&\'"', { '.$': 'content: "<b>&\'"' }],
    ['content: "a  b"; quotes: \'(  \' " )"', { '.$': 'content: "a  b"; quotes: \'(  \' " )"' }],
    ['width: 40px; @media print { color: black; };', { '.$': 'width: 40px', '@media print': '.$ {color: black}' }],
];
export const SUS = [null, [['color: green', 's'], ['color: red', 's']], [['opacity: 1', 's'], ['opacity: 0.5', 'd']]];
const SUSRULES = { 'color: green': { '.$': 'color: green' }, 'color: red': { '.$': 'color: red' }, 'opacity: 1': { '.$': 'opacity: 1' }, 'opacity: 0.5': { '.$': 'opacity: 0.5' } };

/** whitespace, empty declarations and trailing semicolons do not matter */
export const normCss = (s) => s.split(/("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')/).map((x, i) => i % 2 ? x : normPart(x)).join('').replace(/^[\s;]+|[\s;]+$/g, '');
const normPart = (s) => s.replace(/\s+/g, ' ').replace(/\s*([{};,])\s*/g, '$1').replace(/;+/g, ';').replace(/;(?=}|$)/g, '').replace(/:\s+/g, ':');

/** all rules of the document's style elements: [selector, body] in order */
export function rulesOf(doc) {
    const out = [];
    for (const st of doc.querySelectorAll('style')) {
        const text = st.textContent;
        let i = 0;
        while (i < text.length) {
            const o = text.indexOf('{', i); if (o < 0) break;
            let depth = 1, j = o + 1, q = null;
            for (; j < text.length && depth > 0; j++) {
                const c = text[j];
                if (q) { if (c === '\\') j++; else if (c === q) q = null; } else if (c === '"' || c === "'") q = c; else if (c === '{') depth++; else if (c === '}') depth--;
            }
            out.push([text.slice(i, o).trim(), normCss(text.slice(o + 1, j - 1))]);
            i = j;
        }
    }
    return out;
}

export class Classes {
    constructor() { this.byText = new Map(); this.byName = new Map(); }
    learn(kind, text, name, bad) {
        const k = kind + ':' + text;
        const known = this.byText.get(k);
        if (known === name) return true;
        if (known !== undefined) { bad('one style text has two classes: ' + JSON.stringify(text), known, name); return false; }
        const other = this.byName.get(name);
        if (other !== undefined && other.text !== text) { bad('two style texts share a class', other.text, text); return false; }
        if (!/^[A-Za-z_][\w-]*$/.test(name)) { bad('not a class name', text, name); return false; }
        this.byText.set(k, name); this.byName.set(name, { text, kind });
        return true;
    }
    /** every known class must have exactly its rules, once */
    checkRules(doc, bad) {
        const rules = rulesOf(doc);
        const byName = new Map();
        for (const [, v] of this.byName.entries()) void v;
        let expectedCount = 0;
        for (const [name, { text }] of this.byName) {
            const want = (CSS.find(c => c[0] === text) ?? [0, SUSRULES[text]])[1];
            const need = [];
            for (const [sel, body] of Object.entries(want)) need.push([sel.replaceAll('$', name), normCss(body.replaceAll('$', name))]);
            // animation names are generated: take the one the animation declaration mentions
            for (const [sel, body] of need) {
                if (!sel.includes('%K') && body.includes('%K')) {
                    const got = rules.find(r => r[0] === sel);
                    const pre = body.split('%K')[0];
                    const m = got && got[1].startsWith(pre) ? /^[\w-]+/.exec(got[1].slice(pre.length).trim()) : null;
                    if (!m) { bad('rule of ' + JSON.stringify(text), body, got); continue; }
                    for (const n of need) { n[0] = n[0].replaceAll('%K', m[0]); n[1] = normCss(n[1].replaceAll('%K', m[0])); }
                    if (byName.has(m[0])) bad('animation name used twice', m[0], text);
                    byName.set(m[0], text);
                }
            }
            for (const [sel, body] of need) {
                expectedCount++;
                const hit = rules.filter(r => normCss(r[0]) === normCss(sel) && (sel.startsWith('@media') ? r[1] === body : true));
                if (hit.length !== 1) bad('rule ' + sel + ' must be in the document exactly once', body, hit);
                else if (hit[0][1] !== body) bad('content of rule ' + sel, body, hit[0][1]);
                // of two rules as specific the later one counts: what holds for some media is to override the rest
                else if (sel.startsWith('@media') && rules.indexOf(hit[0]) < rules.findIndex(r => r[0] === '.' + name)) bad('rule ' + sel + ' after the rule it overrides', name, rules.map(r => r[0]));
            }
        }
        // what an element was on its way (or the other status of a suspense layer) may have left a class nobody
        // uses; every rule belongs to a style text, and no text has more than one static and one computed class
        if (rules.length > expectedCount) {
            const count = new Map();
            for (const [sel, body] of rules) if (/^\.[\w-]+$/.test(sel)) { const k = body.replace(/^(animation:1s infinite )[\w-]+$/, '$1%K'); count.set(k, (count.get(k) ?? 0) + 1); }
            const known = new Set();
            for (const [t, r] of [...CSS, ...Object.entries(SUSRULES)]) {
                const k = normCss(r['.$']); known.add(k);
                if ((count.get(k) ?? 0) > (SUSRULES[t] ? 1 : 2)) bad('rules of one style text', t, count.get(k));
            }
            for (const k of count.keys()) if (!known.has(k)) bad('a rule of no style text', null, k);
        }
    }
}

const kids = (n) => n._c.filter(k => !(k instanceof D.Comment_));

/** class attribute against [a, g, s, b] */
function cmpClass(cl, actual, path, ctx) {
    const { miss, classes } = ctx;
    const parts = [];
    for (const n of cl.g) parts.push([n > 0 ? 's' : 'd', CSS[Math.abs(n) - 1][0]]);
    const sus = cl.s ? SUS[cl.s][cl.b ? 1 : 0] : null;
    if (sus) parts.push([sus[1], sus[0]]);
    let rest = actual ?? '';
    const own = cl.a === '-none-' ? null : cl.a;
    if (own !== null && own !== '') {
        if (!(rest === own || rest.startsWith(own + ' '))) { miss('class', path + '.class own part', own, actual); return; }
        rest = rest.slice(own.length);
        if (parts.length && rest.startsWith(' ')) rest = rest.slice(1);
    } else if (own === '' && parts.length && rest.startsWith(' ')) rest = rest.slice(1);
    const toks = rest === '' ? [] : rest.split(' ');
    if (toks.length !== parts.length) { miss('class', path + '.class', { own, parts }, actual); return; }
    parts.forEach(([kind, text], i) => {
        const isSus = sus && i === parts.length - 1;
        const t = toks[i];
        if (isSus) {
            // which of the two status classes is it
            const other = SUS[cl.s][cl.b ? 0 : 1];
            if (classes.byText.get(other[1] + ':' + other[0]) === t) { miss('sus', path + ' suspense status', cl.b, !cl.b); return; }
            const known = classes.byName.get(t);
            if (known === undefined && ctx.rules().some(r => r[0] === '.' + t && r[1] === normCss(other[0]))) { miss('sus', path + ' suspense status', cl.b, !cl.b); return; }
        }
        classes.learn(kind, text, t, (w, a, b) => miss('class', path + ' ' + w, a, b));
    });
}

/** expected documents are lists of {n,u,a,cl,lv,il,c} and {x} */
export function cmpList(exp, actual, path, ctx, inList) {
    const { miss } = ctx;
    const listy = inList || exp.some(e => e.il);
    if (exp.length !== actual.length) {
        miss(listy ? 'structL' : 'struct', path + ' number of children', exp.map(brief), actual.map(briefA));
        return;
    }
    exp.forEach((e, i) => {
        const a = actual[i], p = path + '/' + i;
        if (e.x !== undefined) {
            if (!(a instanceof D.Text_)) miss(listy ? 'structL' : 'struct', p, brief(e), briefA(a));
            else if (a.data !== e.x) miss(listy ? 'textL' : 'text', p, e.x, a.data);
            return;
        }
        if (!(a instanceof D.Element_) || a.localName !== e.n) { miss(listy ? 'structL' : 'struct', p, brief(e), briefA(a)); return; }
        const want = new Map(e.a);
        for (const [k, v] of want) if (a.getAttribute(k) !== v) miss('attr', p + '@' + k, v, a.getAttribute(k));
        for (const k of a.getAttributeNames()) if (k !== 'class' && !want.has(k)) miss('attr', p + '@' + k, null, a.getAttribute(k));
        if (e.n === 'svg' && a.namespaceURI !== 'http://www.w3.org/2000/svg') miss('struct', p + ' namespace', 'svg', a.namespaceURI);
        cmpClass(e.cl, a.getAttribute('class'), p, ctx);
        if (e.u && (e.n === 'input' || e.n === 'textarea') && a.value !== e.lv) miss('live', p + ' live value', e.lv, a.value);
        if (e.u) {
            ctx.now.set(e.u, a);
            const known = ctx.ids.get(e.u);
            if (known === undefined) {
                if (ctx.taken.has(a)) { if (e.il) miss('ident', p + ' is a node that was shown before as ' + ctx.taken.get(a), e.u, ctx.taken.get(a)); }
                ctx.ids.set(e.u, a); ctx.taken.set(a, e.u);
            } else if (known !== a && e.il) miss('ident', p + ' kept its key but is another node', e.u, a._serial);
        }
        if (e.n !== 'textarea') cmpList(e.c, kids(a), p + '/' + e.n, ctx, false);
    });
}
const brief = (e) => e.x !== undefined ? JSON.stringify(e.x) : '<' + e.n + '>' + (e.c.length ? '(' + e.c.length + ')' : '');
const briefA = (a) => !a ? 'nothing' : a instanceof D.Text_ ? JSON.stringify(a.data) : '<' + a.localName + '>' + (kids(a).length ? '(' + kids(a).length + ')' : '');
export { kids, esc };
