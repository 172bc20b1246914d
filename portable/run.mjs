// node run.mjs FILE.wasm SEED FROM TO [FAMILY]   digests of cases, as the host's program prints them
// node run.mjs FILE.wasm SEED INDEX FAMILY --log
import fs from 'node:fs';
const [file, seed, a, b, c] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(file));
let ex = new WebAssembly.Instance(mod, {}).exports;
const text = () => Buffer.from(new Uint8Array(ex.memory.buffer, ex.text_at(), ex.text_len())).toString();
const names = [];
for (let k = 0; k < ex.families(); k++) { ex.family_name(k); names.push(text()); }
if (c === '--log') {
  ex.case(names.indexOf(b), BigInt(seed), BigInt(a), 1);
  console.log(text());
  process.exit(0);
}
let out = [];
for (let f = 0; f < names.length; f++) {
  if (c && c !== names[f]) continue;
  for (let i = Number(a); i < Number(b); i++) {
    let d;
    try { d = BigInt.asUintN(64, ex.case(f, BigInt(seed), BigInt(i), 0)); }
    catch (e) {
      // a panic, or worse
      d = 1n;
      ex = new WebAssembly.Instance(mod, {}).exports;
    }
    out.push(`${names[f]} ${i} ${d.toString(16).padStart(16, '0')}\n`);
    if (out.length > 1000) { fs.writeSync(1, out.join('')); out = []; }
  }
}
fs.writeSync(1, out.join(''));
