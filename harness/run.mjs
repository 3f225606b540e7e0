import { readFileSync, writeSync } from 'node:fs';
const [, , wasm, input] = process.argv;
let mem;
const say = (s) => { const b = Buffer.from(s + '\n'); let o = 0; while (o < b.length) o += writeSync(1, b, o); };
const imports = { env: { hw_confirm_say: (p, n) => say(Buffer.from(mem.buffer, p, n).toString()) } };
const { instance } = await WebAssembly.instantiate(readFileSync(wasm), imports);
mem = instance.exports.memory;
const t = readFileSync(input);
const p = instance.exports.buffer(t.length);
new Uint8Array(mem.buffer, p, t.length).set(t);
let r = 3;
try { r = instance.exports.go(p, t.length); } catch (e) { say('TRAP ' + String(e.stack).split('\n').slice(0, 12).join(' ')); r = 4; }
process.exit(r);
