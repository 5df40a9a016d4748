// A small browser document: the parts of DOM / HTML the vertigo driver (or a reasonable rewrite of it) can touch.
// Deliberately strict where browsers throw (insertBefore with a foreign reference, cycles).
export class EventTarget_ {
    constructor() { this._l = new Map(); }
    addEventListener(type, cb, opts) {
        if (cb === null || cb === undefined) return;
        const capture = typeof opts === 'boolean' ? opts : !!(opts && opts.capture);
        const once = !!(opts && typeof opts === 'object' && opts.once);
        let l = this._l.get(type); if (!l) this._l.set(type, l = []);
        if (l.some(x => x.cb === cb && x.capture === capture)) return;
        l.push({ cb, capture, once, removed: false });
    }
    removeEventListener(type, cb, opts) {
        const capture = typeof opts === 'boolean' ? opts : !!(opts && opts.capture);
        const l = this._l.get(type); if (!l) return;
        const i = l.findIndex(x => x.cb === cb && x.capture === capture);
        if (i >= 0) { l[i].removed = true; l.splice(i, 1); }
    }
    _invoke(ev, phase) {
        const l = this._l.get(ev.type);
        ev.currentTarget = this;
        if (l) for (const x of l.slice()) {
            if (x.removed) continue;
            if (phase === 1 && !x.capture) continue;
            if (phase === 3 && x.capture) continue;
            if (x.once) this.removeEventListener(ev.type, x.cb, x.capture);
            try { typeof x.cb === 'function' ? x.cb.call(this, ev) : x.cb.handleEvent(ev); }
            catch (e) { (ev._errors || (ev._errors = [])).push(e); if (EventTarget_.onerror) EventTarget_.onerror(e); }
            if (ev._stopNow) break;
        }
        const on = this['on' + ev.type];
        if (typeof on === 'function' && phase !== 1 && !ev._stopNow) {
            try { on.call(this, ev); } catch (e) { if (EventTarget_.onerror) EventTarget_.onerror(e); }
        }
        ev.currentTarget = null;
    }
    dispatchEvent(ev) {
        ev.target = this;
        const path = [];
        for (let n = this; n; n = n._eventParent ? n._eventParent() : null) path.push(n);
        ev._path = path;
        for (let i = path.length - 1; i > 0 && !ev._stop; i--) path[i]._invoke(ev, 1);
        if (!ev._stop) this._invoke(ev, 2);
        if (ev.bubbles) for (let i = 1; i < path.length && !ev._stop; i++) path[i]._invoke(ev, 3);
        return !ev.defaultPrevented;
    }
}

export class Event_ {
    constructor(type, init = {}) {
        this.type = type; this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable;
        this.defaultPrevented = false; this.target = null; this.currentTarget = null; this.isTrusted = true;
    }
    preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = true; this._stopNow = true; }
    composedPath() { return this._path || []; }
}
export class UIEvent_ extends Event_ {}
export class MouseEvent_ extends UIEvent_ { constructor(t, i = {}) { super(t, i); this.button = i.button || 0; } }
export class InputEvent_ extends UIEvent_ {}
export class FocusEvent_ extends UIEvent_ {}
export class KeyboardEvent_ extends UIEvent_ {
    constructor(t, i = {}) {
        super(t, i);
        this.key = i.key || ''; this.code = i.code || ''; this.altKey = !!i.altKey; this.ctrlKey = !!i.ctrlKey;
        this.shiftKey = !!i.shiftKey; this.metaKey = !!i.metaKey;
    }
}
export class DragEvent_ extends MouseEvent_ { constructor(t, i = {}) { super(t, i); this.dataTransfer = i.dataTransfer || null; } }
export class MessageEvent_ extends Event_ { constructor(t, i = {}) { super(t, i); this.data = i.data; } }
export class CloseEvent_ extends Event_ {}
export class PopStateEvent_ extends Event_ { constructor(t, i = {}) { super(t, i); this.state = i.state ?? null; } }
export class HashChangeEvent_ extends Event_ {}

class DomException extends Error { constructor(m, n) { super(m); this.name = n; } }

class NodeListLike extends Array {
    item(i) { return this[i] ?? null; }
    static get [Symbol.species]() { return Array; }
}

let nextSerial = 1;
export class Node_ extends EventTarget_ {
    constructor(doc, nodeType) {
        super();
        this.ownerDocument = doc; this.nodeType = nodeType; this.parentNode = null; this._c = new NodeListLike();
        this._serial = nextSerial++;
    }
    _eventParent() { return this.parentNode; }
    get childNodes() { return this._c; }
    get firstChild() { return this._c[0] || null; }
    get lastChild() { return this._c[this._c.length - 1] || null; }
    get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
    _sib(d) { if (!this.parentNode) return null; const c = this.parentNode._c; return c[c.indexOf(this) + d] || null; }
    get nextSibling() { return this._sib(1); }
    get previousSibling() { return this._sib(-1); }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n instanceof Document_; }
    hasChildNodes() { return this._c.length > 0; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
    _detach(moving = false) {
        if (this.parentNode) { const c = this.parentNode._c; c.splice(c.indexOf(this), 1); const p = this.parentNode; this.parentNode = null; if (!moving) p._mutated(); }
    }
    _mutated() { const d = this.ownerDocument; if (d && d.onmutate) d.onmutate(); }
    insertBefore(node, ref) {
        if (!(node instanceof Node_)) throw new TypeError('insertBefore: not a Node');
        if (ref === undefined) throw new TypeError('insertBefore: 2 arguments required');
        if (!(this instanceof Element_ || this instanceof Document_ || this instanceof DocumentFragment_)) throw new DomException('HierarchyRequestError: cannot have children', 'HierarchyRequestError');
        if (node.contains(this)) throw new DomException('The new child element contains the parent.', 'HierarchyRequestError');
        if (ref !== null && ref.parentNode !== this) throw new DomException('The node before which the new node is to be inserted is not a child of this node.', 'NotFoundError');
        if (node instanceof DocumentFragment_) { for (const k of node._c.slice()) this.insertBefore(k, ref); return node; }
        if (ref === node) ref = node.nextSibling;
        node._detach(true);
        const i = ref === null ? this._c.length : this._c.indexOf(ref);
        this._c.splice(i, 0, node); node.parentNode = this;
        this._mutated();
        return node;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    removeChild(n) { if (n.parentNode !== this) throw new DomException('not a child', 'NotFoundError'); n._detach(); return n; }
    replaceChild(n, old) { const r = old.nextSibling; this.removeChild(old); this.insertBefore(n, r === n ? n.nextSibling : r); return old; }
    _toNode(x) { return x instanceof Node_ ? x : this.ownerDocument.createTextNode(String(x)); }
    append(...l) { for (const x of l) this.appendChild(this._toNode(x)); }
    prepend(...l) { const r = this.firstChild; for (const x of l) this.insertBefore(this._toNode(x), r); }
    replaceChildren(...l) { for (const k of this._c.slice()) k._detach(); this.append(...l); }
    remove() { this._detach(); }
    before(...l) { if (this.parentNode) for (const x of l) this.parentNode.insertBefore(this._toNode(x), this); }
    after(...l) { if (this.parentNode) { const p = this.parentNode, r = this.nextSibling; for (const x of l) p.insertBefore(this._toNode(x), r); } }
    replaceWith(...l) { const p = this.parentNode; if (!p) return; const r = this.nextSibling; this._detach(); for (const x of l) p.insertBefore(this._toNode(x), r); }
    get textContent() { return this._c.map(k => k instanceof Comment_ ? '' : k.textContent).join(''); }
    set textContent(v) { for (const k of this._c.slice()) k._detach(); if (v !== '' && v !== null) this.appendChild(this.ownerDocument.createTextNode(String(v))); }
    get nodeValue() { return null; }
    set nodeValue(_) {}
}
Object.assign(Node_, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9 });
export class CharacterData_ extends Node_ {
    constructor(doc, t, data) { super(doc, t); this._d = String(data); }
    get data() { return this._d; } set data(v) { this._d = v === null ? '' : String(v); this._mutated(); }
    get nodeValue() { return this._d; } set nodeValue(v) { this.data = v; }
    get textContent() { return this._d; } set textContent(v) { this.data = v; }
    get length() { return this._d.length; }
    appendData(s) { this.data += s; } replaceData(o, c, s) { this.data = this._d.slice(0, o) + s + this._d.slice(o + c); }
    get wholeText() { return this._d; }
}
export class Text_ extends CharacterData_ { constructor(doc, d) { super(doc, 3, d); } get nodeName() { return '#text'; } }
export class Comment_ extends CharacterData_ { constructor(doc, d) { super(doc, 8, d); } get nodeName() { return '#comment'; } }
export class DocumentFragment_ extends Node_ { constructor(doc) { super(doc, 11); } }

const NAME_OK = /^[A-Za-z_:][^\s"'<>\/=\u0000]*$/;
export class Element_ extends Node_ {
    constructor(doc, name, ns) { super(doc, 1); this.localName = name; this.namespaceURI = ns; this._a = new Map(); }
    get tagName() { return this.namespaceURI === 'http://www.w3.org/1999/xhtml' ? this.localName.toUpperCase() : this.localName; }
    get nodeName() { return this.tagName; }
    _an(n) { n = String(n); return this.namespaceURI === 'http://www.w3.org/1999/xhtml' ? n.toLowerCase() : n; }
    setAttribute(n, v) { n = this._an(n); if (!NAME_OK.test(n)) throw new DomException('InvalidCharacterError: ' + n, 'InvalidCharacterError'); this._a.set(n, String(v)); this._mutated(); }
    getAttribute(n) { const v = this._a.get(this._an(n)); return v === undefined ? null : v; }
    hasAttribute(n) { return this._a.has(this._an(n)); }
    removeAttribute(n) { this._a.delete(this._an(n)); this._mutated(); }
    toggleAttribute(n, f) { const h = this.hasAttribute(n); const w = f === undefined ? !h : f; if (w && !h) this.setAttribute(n, ''); if (!w && h) this.removeAttribute(n); return w; }
    getAttributeNames() { return [...this._a.keys()]; }
    get attributes() { return [...this._a].map(([name, value]) => ({ name, value })); }
    get id() { return this.getAttribute('id') || ''; } set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') || ''; } set className(v) { this.setAttribute('class', v); }
    get classList() {
        const el = this; const toks = () => el.className.split(/\s+/).filter(Boolean);
        return { add: (...x) => { const t = toks(); for (const k of x) if (!t.includes(k)) t.push(k); el.className = t.join(' '); },
            remove: (...x) => { el.className = toks().filter(k => !x.includes(k)).join(' '); }, contains: x => toks().includes(x) };
    }
    get children() { return this._c.filter(k => k instanceof Element_); }
    get firstElementChild() { return this.children[0] || null; }
    matches(sel) { return matchSel(this, sel); }
    closest(sel) { for (let n = this; n instanceof Element_; n = n.parentNode) if (n.matches(sel)) return n; return null; }
    querySelectorAll(sel) { const out = new NodeListLike(); const w = n => { for (const k of n._c) { if (k instanceof Element_ && matchSel(k, sel)) out.push(k); w(k); } }; w(this); return out; }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    insertAdjacentElement(pos, el) { if (pos === 'beforebegin') this.before(el); else if (pos === 'afterbegin') this.prepend(el); else if (pos === 'beforeend') this.append(el); else this.after(el); return el; }
    getBoundingClientRect() { return { x: 0, y: 0, width: 0, height: 0, top: 0, left: 0, right: 0, bottom: 0 }; }
    focus() { this.ownerDocument._focus(this); }
    blur() { if (this.ownerDocument.activeElement === this) this.ownerDocument._focus(null); }
    scrollIntoView() {}
}
export class HTMLElement_ extends Element_ {
    get style() { return this._style || (this._style = {}); }
    get dataset() { const o = {}; for (const [k, v] of this._a) if (k.startsWith('data-')) o[k.slice(5).replace(/-([a-z])/g, (_, c) => c.toUpperCase())] = v; return o; }
    click() { this.dispatchEvent(new MouseEvent_('click', { bubbles: true, cancelable: true })); }
}
export class HTMLInputElement_ extends HTMLElement_ {
    get value() { return this._v !== undefined ? this._v : (this.getAttribute('value') ?? ''); }
    set value(v) { this._v = v === null ? '' : String(v); this._mutated(); }
    get defaultValue() { return this.getAttribute('value') ?? ''; } set defaultValue(v) { this.setAttribute('value', v); }
}
export class HTMLTextAreaElement_ extends HTMLElement_ {
    get value() { return this._v !== undefined ? this._v : this.textContent; }
    set value(v) { this._v = v === null ? '' : String(v); this._mutated(); }
    get defaultValue() { return this.textContent; } set defaultValue(v) { this.textContent = v; }
}
export class HTMLSelectElement_ extends HTMLElement_ {
    get value() {
        if (this._v !== undefined) return this._v;
        const o = this.querySelectorAll('option'); return o[0] ? (o[0].getAttribute('value') ?? o[0].textContent) : '';
    }
    set value(v) { this._v = String(v); }
}
export class HTMLAnchorElement_ extends HTMLElement_ {}
const HTML_NS = 'http://www.w3.org/1999/xhtml';
function matchSel(el, sel) {
    return sel.split(',').some(s => {
        s = s.trim();
        const m = /^(\*|[A-Za-z][\w-]*)?((?:#[\w-]+|\.[\w-]+|\[[^\]]+\])*)$/.exec(s);
        if (!m) throw new Error('mini DOM: unsupported selector ' + sel);
        if (m[1] && m[1] !== '*' && el.localName !== m[1].toLowerCase()) return false;
        for (const part of (m[2] || '').match(/#[\w-]+|\.[\w-]+|\[[^\]]+\]/g) || []) {
            if (part[0] === '#') { if (el.id !== part.slice(1)) return false; }
            else if (part[0] === '.') { if (!el.classList.contains(part.slice(1))) return false; }
            else { const q = /^\[([\w:-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(part); if (!q) throw new Error('mini DOM: selector ' + sel); if (!el.hasAttribute(q[1])) return false; if (q[2] !== undefined && el.getAttribute(q[1]) !== q[2]) return false; }
        }
        return true;
    });
}
export class Document_ extends Node_ {
    constructor() { super(null, 9); this.ownerDocument = null; this.readyState = 'complete'; this.activeElement = null; this.hidden = false; this.visibilityState = 'visible'; this._cookies = new Map(); this.onmutate = null; this.cookieLog = []; }
    _eventParent() { return this.defaultView; }
    _mutated() { if (this.onmutate) this.onmutate(); }
    get documentElement() { return this._c.find(k => k instanceof Element_) || null; }
    get head() { const h = this.documentElement; return h ? h.children.find(k => k.localName === 'head') || null : null; }
    get body() { const h = this.documentElement; return h ? h.children.find(k => k.localName === 'body') || null : null; }
    createElementNS(ns, name) {
        if (!NAME_OK.test(name)) throw new DomException('InvalidCharacterError: ' + name, 'InvalidCharacterError');
        if (ns !== HTML_NS) return new Element_(this, name, ns);
        name = name.toLowerCase();
        const C = { input: HTMLInputElement_, textarea: HTMLTextAreaElement_, select: HTMLSelectElement_, a: HTMLAnchorElement_ }[name] || HTMLElement_;
        return new C(this, name, ns);
    }
    createElement(name) { return this.createElementNS(HTML_NS, String(name)); }
    createTextNode(d) { return new Text_(this, d); }
    createComment(d) { return new Comment_(this, d); }
    createDocumentFragment() { return new DocumentFragment_(this); }
    querySelectorAll(sel) { return Element_.prototype.querySelectorAll.call(this, sel); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    getElementById(id) { return this.querySelector('#' + id); }
    getElementsByTagName(t) { return this.querySelectorAll(t); }
    _focus(el) {
        const old = this.activeElement; if (old === el) return;
        this.activeElement = el;
        if (old) old.dispatchEvent(new FocusEvent_('blur', {}));
        if (el) el.dispatchEvent(new FocusEvent_('focus', {}));
    }
    // The browser's cookies (RFC 6265), of one site: by name and path
    _jar() {
        const now = this.defaultView.Date.now(), here = this.defaultView.location.pathname;
        for (const [k, c] of this._cookies) if (c.at !== null && c.at <= now) this._cookies.delete(k);
        const at = (p) => here === p || here.startsWith(p.endsWith('/') ? p : p + '/');
        return [...this._cookies.values()].filter(c => at(c.path)).sort((x, y) => y.path.length - x.path.length);
    }
    get cookie() { return this._jar().map(c => c.name === '' ? c.v : c.name + '=' + c.v).join('; '); }
    set cookie(s) {
        s = String(s); this.cookieLog.push(s);
        if (/[\x00-\x08\x0a-\x1f\x7f]/.test(s)) return;
        const parts = s.split(';'), i = parts[0].indexOf('=');
        const name = i < 0 ? '' : parts[0].slice(0, i).trim(), v = parts[0].slice(i + 1).trim();
        if (name === '' && v === '') return;
        const a = {};
        for (const x of parts.slice(1)) { const j = x.indexOf('='); a[(j < 0 ? x : x.slice(0, j)).trim().toLowerCase()] = j < 0 ? '' : x.slice(j + 1).trim(); }
        const now = this.defaultView.Date.now(), here = this.defaultView.location.pathname;
        let at = null;
        if (a.expires !== undefined) { const d = Date.parse(a.expires); if (!Number.isNaN(d)) at = d; }
        if (/^-?\d+$/.test(a['max-age'] ?? '')) at = now + Number(a['max-age']) * 1000;
        const site = ['strict', 'lax', 'none'].includes((a.samesite ?? '').toLowerCase()) ? a.samesite.toLowerCase() : '';
        const path = a.path?.startsWith('/') ? a.path : here.lastIndexOf('/') > 0 ? here.slice(0, here.lastIndexOf('/')) : '/';
        const key = name + '\0' + path;
        if (at !== null && at <= now) this._cookies.delete(key); else this._cookies.set(key, { name, v, at, site, path });
    }
}
