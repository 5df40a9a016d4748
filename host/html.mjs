// A strict parser of HTML documents: what the server writes has to be well formed, and every element is closed where
// it should be.  Content models are not looked at.  Returns { root, errors }; nodes are { tag, attrs: Map, kids } and { text }.
const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style', 'xmp', 'iframe', 'noembed', 'noframes']);
const RCDATA = new Set(['textarea', 'title']);
const NAMED = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };

export function decode(s, errors) {
    return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[A-Za-z][A-Za-z0-9]*)(;?)/g, (m, e, semi) => {
        if (e[0] === '#') { if (!semi) errors.push('character reference without semicolon ' + m); return String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)); }
        if (!semi) return m;
        if (!(e in NAMED)) { errors.push('unknown entity ' + m); return m; }
        return NAMED[e];
    });
}

export function parse(html) {
    const errors = [];
    const top = { tag: '#document', attrs: new Map(), kids: [] };
    const stack = [top];
    let i = 0;
    const m = /^\s*<!DOCTYPE html>/i.exec(html);
    if (!m) errors.push('no doctype'); else i = m[0].length;
    const addText = (t) => { if (t !== '') stack.at(-1).kids.push({ text: t }); };
    while (i < html.length) {
        const lt = html.indexOf('<', i);
        if (lt < 0) { addText(decode(html.slice(i), errors)); break; }
        if (lt > i) addText(decode(html.slice(i, lt), errors));
        i = lt;
        if (html.startsWith('<!--', i)) {
            const e = html.indexOf('-->', i + 4);
            if (e < 0) { errors.push('comment is not closed'); break; }
            i = e + 3;
            continue;
        }
        let t = /^<\/([A-Za-z][^\s/>]*)\s*>/.exec(html.slice(i, i + 200));
        if (t) {
            const name = t[1].toLowerCase();
            if (stack.at(-1).tag !== name) { errors.push('</' + name + '> closes <' + stack.at(-1).tag + '>'); const k = stack.findLastIndex(n => n.tag === name); if (k > 0) stack.length = k; } else stack.pop();
            i += t[0].length;
            continue;
        }
        t = /^<([A-Za-z][^\s/>]*)/.exec(html.slice(i, i + 200));
        if (!t) { errors.push('stray < at ' + JSON.stringify(html.slice(i, i + 20))); addText('<'); i++; continue; }
        const tag = t[1].toLowerCase();
        const node = { tag, attrs: new Map(), kids: [] };
        i += t[0].length;
        let closed = false;
        for (;;) {
            while (/\s/.test(html[i] ?? '')) i++;
            if (i >= html.length) { errors.push('tag <' + tag + '> is not finished'); break; }
            if (html[i] === '>') { i++; break; }
            if (html[i] === '/' && html[i + 1] === '>') { closed = true; i += 2; break; }
            const a = /^[^\s"'<>/=]+/.exec(html.slice(i, i + 300));
            if (!a) { errors.push('bad attribute in <' + tag + '> at ' + JSON.stringify(html.slice(i, i + 20))); i++; continue; }
            i += a[0].length;
            let value = '';
            if (html[i] === '=') {
                const q = html[i + 1];
                if (q !== '"' && q !== "'") { errors.push('attribute without quotes ' + a[0]); i++; continue; }
                const e = html.indexOf(q, i + 2);
                if (e < 0) { errors.push('attribute is not closed ' + a[0]); i = html.length; break; }
                value = decode(html.slice(i + 2, e), errors);
                i = e + 1;
            }
            if (node.attrs.has(a[0])) errors.push('attribute twice ' + a[0]); else node.attrs.set(a[0], value);
        }
        stack.at(-1).kids.push(node);
        if (VOID.has(tag)) continue;
        if (closed) errors.push('self-closing <' + tag + '>');
        if (RAW.has(tag) || RCDATA.has(tag)) {
            const rest = html.slice(i);
            const e = new RegExp('</' + tag + '[\\s/>]', 'i').exec(rest);
            if (!e) { errors.push('<' + tag + '> is not closed'); break; }
            let text = rest.slice(0, e.index);
            // a script which opens a comment and a script inside it does not end where it seems to
            if (tag === 'script' && /<!--[^]*<script/i.test(text) && !/-->/.test(text)) errors.push('script in a comment of a script');
            if (RCDATA.has(tag)) { text = decode(text, errors); if (tag === 'textarea' && text[0] === '\n') text = text.slice(1); }
            if (text !== '') node.kids.push({ text });
            const end = rest.indexOf('>', e.index);
            i += end + 1;
            continue;
        }
        stack.push(node);
    }
    if (stack.length !== 1) errors.push('not closed: ' + stack.slice(1).map(n => n.tag).join(' '));
    const roots = top.kids.filter(n => n.tag || n.text.trim() !== '');
    if (roots.length !== 1 || !roots[0].tag) errors.push('not one root element');
    return { root: roots.find(n => n.tag), errors };
}

export const elements = (n) => n.kids.filter(k => k.tag);
export const textOf = (n) => n.kids.map(k => k.text ?? textOf(k)).join('');
