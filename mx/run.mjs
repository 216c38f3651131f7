// node run.mjs FILE.wasm MODE SHARD NSHARDS LEVEL
import { readFileSync } from 'node:fs';
const [file, mode, me, n, level] = process.argv.slice(2);
let mem;
const line = (p, n) => console.log(Buffer.from(mem.buffer, p, n).toString('utf8'));
const { instance } = await WebAssembly.instantiate(readFileSync(file), { host: { line } });
mem = instance.exports.memory;
try {
  instance.exports.go(['index', 'scalar', 'hash', 'strings'].indexOf(mode), +me, +n, +level);
} catch (e) {
  console.log('TRAP ' + e);
  process.exitCode = 1;
}
