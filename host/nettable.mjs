// Concrete texts for the tokens used by the specifications of the browser services.
// TLA+ keeps texts as ASCII tokens; what matters to the specification is only that they differ.
export const TOK = {
    U: 'zażółć 🦀 ' + String.fromCharCode(0x10ffff),
    Q: '"quo\'te\\ <b>&amp;\u2028',
    N: 'li\nne\r\n\ttab\u0000end',
    B: '\ufeffbom',
    E: '',
    Z: 'ż',
    L: 'null',
};

const enc = new TextEncoder();
let deep = 7; for (let i = 0; i < 60; i++) deep = i % 2 ? [deep] : { ['k' + i]: deep };
const JSONS = {
    j1: [1, 2.5, -300, 0.1, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, 2147483648, -2147483649, 4294967296, 9007199254740991],
    j2: { a: null, 'ż 🦀': { b: true, c: false, '': '' }, list: [[], {}, [[]], 'x'], 'q"\\\n': '\u0000\u2028' },
    j3: TOK.U + TOK.Q + TOK.N,
    j4: deep,
    j5: 12345678901234,
    j6: {},
    j7: Array.from({ length: 300 }, (_, i) => i % 3 ? i : String(i)),
};
/** Concrete contents of the named bodies: bytes, with a text and (of some) a JSON view. */
export const BODY = {};
for (const [k, v] of Object.entries(JSONS)) BODY[k] = { bytes: enc.encode(JSON.stringify(v)), json: v };
const texts = { t1: 'hello', t2: TOK.U + TOK.Q + TOK.N, t3: '', t4: 'x'.repeat(70000) + TOK.U };
for (const [k, v] of Object.entries(texts)) BODY[k] = { bytes: enc.encode(v) };
BODY.x1 = { bytes: Uint8Array.from({ length: 256 }, (_, i) => i) };
BODY.x2 = { bytes: Uint8Array.of(0xff, 0xfe, 0xc3, 0x28, 0, 0x80) };
BODY.x3 = { bytes: enc.encode('{"a": [1, ') };
for (const b of Object.values(BODY)) b.text = new TextDecoder().decode(b.bytes);

export const one = (s) => s.replace(/~([A-Z])~/g, (m, k) => k in TOK ? TOK[k] : m);
const str = (s) => {
    const m = /^%([jtx]):(\w+)$/.exec(s);
    return m ? (m[1] === 'j' ? BODY[m[2]].json : m[1] === 't' ? BODY[m[2]].text : [...BODY[m[2]].bytes]) : s === 'null' ? null : one(s);
};
/** The concrete value of an abstract one. */
export const resolve = (v) => typeof v === 'string' ? str(v) : Array.isArray(v) ? v.map(resolve)
    : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [one(k), resolve(x)])) : v;
