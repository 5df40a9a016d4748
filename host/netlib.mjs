// Requests and answers of the mini browser in the terms of the specification.
import { BODY, resolve as T0 } from './nettable.mjs';

export const canon = (v) => Array.isArray(v) ? v.map(canon) : v && typeof v === 'object' ? Object.keys(v).sort().map(k => [k, canon(v[k])]) : v;
/** A request as it arrived, with its body seen as the kind that is wanted. */
export function asked(f, want) {
    let body = f.body;
    if (want?.b?.length && ['json', 'vec'].includes(want.b[0]) && typeof body === 'string') { try { body = canon(JSON.parse(body)); } catch { } }
    else if (body instanceof Uint8Array) body = [...body];
    return { m: f.method, url: f.url, h: Object.entries(f.headers).map(([k, v]) => [k, v]).sort(), b: body };
}
export const wanted = (w) => { const r = T0(w); return { m: r.m, url: r.url, h: r.h.map(x => [x[0], x[1]]).sort(), b: !r.b.length ? null : ['json', 'vec'].includes(r.b[0]) ? canon(r.b[1]) : r.b[1] }; };
/** Answers a request; with hold the body comes when the function which is returned is called. */
export function respond(b, f, r, hold) {
    if (r.status === 0) { b.respond(f, { error: 'network down' }); return; }
    const headers = r.type === 'none' ? {} : { 'content-type': r.type };
    const bytes = r.body === 'cut' ? BODY.j2.bytes.slice(0, 9) : BODY[r.body].bytes;
    let go;
    const body = !hold && r.body !== 'cut' ? bytes : new ReadableStream({ start(c) { go = () => { if (bytes.length) c.enqueue(bytes); if (r.body === 'cut') c.error(new TypeError('terminated')); else c.close(); }; if (!hold) go(); } });
    b.respond(f, { status: r.status, headers, body });
    return go;
}
