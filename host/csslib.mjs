// A small reading of CSS: sheets with nested rules, media queries and keyframes, and the cascade by specificity and order.

// The text without comments, cut into what is opaque (strings, parentheses) and what is not: the end of the piece
// which starts at i and ends with one of the given characters.
function scan(s, i, ends) {
    let depth = 0;
    for (; i < s.length; i++) {
        const c = s[i];
        if (c === '\\') { i++; continue; }
        if (c === '"' || c === "'") {
            for (i++; i < s.length && s[i] !== c; i++) if (s[i] === '\\') i++;
            continue;
        }
        if (c === '(') {
            const m = /url$/i.test(s.slice(Math.max(0, i - 3), i)) && /^\(\s*[^\s"')]/.test(s.slice(i, i + 40));
            if (m) { for (i++; i < s.length && s[i] !== ')'; i++) if (s[i] === '\\') i++; continue; }
            depth++;
        } else if (c === ')') { if (depth) depth--; } else if (!depth && ends.includes(c)) return i;
    }
    return s.length;
}
function uncomment(s) {
    let out = '';
    for (let i = 0; i < s.length; i++) {
        const c = s[i];
        if (c === '\\') { out += c + (s[++i] ?? ''); continue; }
        if (c === '"' || c === "'") {
            const j = i;
            for (i++; i < s.length && s[i] !== c; i++) if (s[i] === '\\') i++;
            out += s.slice(j, i + 1);
        } else if (c === '(' && /url$/i.test(out.slice(-3)) && /^\(\s*[^\s"')]/.test(s.slice(i, i + 40))) {
            const j = i;
            while (i < s.length && s[i] !== ')') i++;
            out += s.slice(j, i + 1);
        } else if (c === '/' && s[i + 1] === '*') {
            const j = s.indexOf('*/', i + 2);
            i = j < 0 ? s.length : j + 1;
            out += ' ';
        } else out += c;
    }
    return out;
}
// {decls: [[p, x]], rules: [{prelude, decls, rules}]}; what is no declaration and no rule is left out
function body(s, i, top) {
    const out = { decls: [], rules: [], junk: [] };
    while (i < s.length) {
        if (/[\s;]/.test(s[i])) { i++; continue; }
        if (s[i] === '}') { if (!top) return [out, i + 1]; out.junk.push('}'); i++; continue; }
        const j = scan(s, i, ';{}');
        const piece = s.slice(i, j).trim();
        if (s[j] === '{') {
            const [inner, k] = body(s, j + 1, false);
            out.rules.push({ prelude: piece, ...inner });
            i = k;
        } else {
            const m = /^([-\w]+)\s*:([^]*)$/.exec(piece);
            if (m && !top) out.decls.push([m[1], m[2].trim()]); else out.junk.push(piece);
            i = s[j] === ';' ? j + 1 : j;
        }
    }
    return [out, i];
}
export const parse = (text) => body(uncomment(text), 0, true)[0];

// one way to write a value: one blank for many, url() without quotes
export function canon(x) {
    let out = '', i = 0;
    const s = x.trim();
    while (i < s.length) {
        const c = s[i];
        if (c === '"' || c === "'") { const j = i; for (i++; i < s.length && s[i] !== c; i++) if (s[i] === '\\') i++; i++; out += s.slice(j, i); continue; }
        const m = /^url\(\s*(?:"((?:\\[^]|[^"\\])*)"|'((?:\\[^]|[^'\\])*)'|((?:\\[^]|[^"'()\\\s])+))\s*\)/i.exec(s.slice(i));
        if (m) { out += 'url<' + (m[1] ?? m[2] ?? m[3]).replace(/\\(["'])/g, '$1') + '>'; i += m[0].length; continue; }
        if (/\s/.test(c)) { while (/\s/.test(s[i] ?? '')) i++; out += ' '; continue; }
        out += c; i++;
    }
    return out;
}
const squeeze = (s) => s.replace(/\s+/g, ' ').trim();

// .a:hover::before -> { cls, states, pe }; null for what is not understood
function compound(s) {
    const out = { tag: null, cls: [], states: [], pe: '', spec: 0 };
    let rest = s;
    while (rest) {
        let m;
        if ((m = /^::([-\w]+)/.exec(rest))) out.pe = m[1];
        else if ((m = /^:([-\w]+(?:\([^()]*\))?)/.exec(rest))) { out.states.push(squeeze(m[1])); out.spec++; }
        else if ((m = /^\.([-\w]+)/.exec(rest))) { out.cls.push(m[1]); out.spec++; }
        else return null;
        rest = rest.slice(m[0].length);
    }
    return out;
}
function selector(s) {
    const parts = squeeze(s.replace(/\(\s+|\s+\)/g, x => x.trim())).split(/\s+(?![^(]*\))/).map(compound);
    return parts.every(x => x) && parts.slice(0, -1).every(x => !x.pe) ? { parts, spec: parts.reduce((a, x) => a + x.spec, 0) } : null;
}
const fits = (el, c, env) => c.cls.every(x => el.classList.contains(x)) && c.states.every(x => env.states(el).has(x));
function matches(el, pe, sel, env) {
    const last = sel.parts.at(-1);
    if (last.pe !== pe || !fits(el, last, env)) return false;
    let k = sel.parts.length - 2;
    for (let p = el.parentElement; p && k >= 0; p = p.parentElement) if (fits(p, sel.parts[k], env)) k--;
    return k < 0;
}

export class Sheet {
    constructor(texts) {
        this.rules = [];      // { sel: text, media: [queries], decls }
        this.frames = new Map();
        this.junk = [];
        for (const t of texts) this.add(parse(t), null, []);
        for (const r of this.rules) {
            r.parsed = r.sel.split(/,(?![^(]*\))/).map(selector);
            if (r.parsed.some(x => !x)) this.junk.push('selector ' + r.sel);
        }
    }
    add(b, parent, media) {
        this.junk.push(...b.junk);
        if (parent && b.decls.length) this.rules.push({ sel: parent, media, decls: b.decls });
        for (const r of b.rules) {
            const at = /^@([-\w]+)\s*([^]*)$/.exec(r.prelude);
            if (!at) this.add(r, !parent ? r.prelude : r.prelude.includes('&') ? r.prelude.replaceAll('&', parent) : parent + ' ' + r.prelude, media);
            else if (at[1] === 'media') this.add(r, parent, [...media, squeeze(at[2])]);
            else if (at[1] === 'keyframes') {
                if (this.frames.has(at[2].trim())) this.junk.push('again @keyframes ' + at[2]);
                this.frames.set(at[2].trim(), r.rules.map(x => [squeeze(x.prelude), x.decls]));
            } else this.junk.push(r.prelude);
        }
    }
    // property -> value of the element (or of its pseudo-element)
    values(el, pe, env) {
        const won = new Map();
        for (const r of this.rules) {
            if (!r.media.every(q => env.media.has(q))) continue;
            for (const sel of r.parsed) {
                if (!sel || !matches(el, pe, sel, env)) continue;
                for (const [p, x] of r.decls) if ((won.get(p)?.spec ?? 0) <= sel.spec) won.set(p, { spec: sel.spec, x });
            }
        }
        return new Map([...won].map(([p, w]) => [p, w.x]));
    }
}
