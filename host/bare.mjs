// Instantiates the rig without any browser: only for scenarios that never touch the driver API.
import fs from 'node:fs';
const cache = new Map();
export function bareRig(wasmPath) {
    let mod = cache.get(wasmPath);
    if (!mod) { mod = new WebAssembly.Module(fs.readFileSync(wasmPath)); cache.set(wasmPath, mod); }
    const panics = [];
    let inst;
    inst = new WebAssembly.Instance(mod, { mod: {
        panic_message: (ptr, size) => panics.push(Buffer.from(inst.exports.memory.buffer, ptr, size).toString('utf8')),
        dom_access: () => 0,
    }});
    return { inst, panics, call: (cmd) => rigCall(inst, cmd) };
}
export function rigCall(inst, cmd) {
    const text = Buffer.from(JSON.stringify(cmd), 'utf8');
    const ptr = inst.exports.rig_buf(text.length);
    new Uint8Array(inst.exports.memory.buffer, ptr, text.length).set(text);
    const len = inst.exports.rig_call();
    const out = inst.exports.rig_reply();
    return JSON.parse(Buffer.from(inst.exports.memory.buffer, out, len).toString('utf8'));
}
