'use strict';
const { encode } = require('./wasmenc'); const { World } = require('./wasi'); const { runDriver, runBin } = require('./host');
let bad = 0;
// mod({types, imports, mem, table, globals, elems, datas, funcs, exports}) → bytes
const mod = (m) => encode({ types: [], imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [], ...m });
function expect(what, got, want) { const g = JSON.stringify(got), w = JSON.stringify(want); if (g === w) console.log('ok  ', what, g); else { bad++; console.log('FAIL', what, 'got', g, 'expected', w); } }
// runs script lines on module bytes, → observation lines (or [..., 'crash'])
function run(variant, bytes, script, opt = {}) {
  if (typeof script === 'string') script = script.trim().split('\n').map(l => l.split(' '));
  const world = opt.world || new World({ ...opt, files: { 'guest.wasm': bytes, ...opt.files } });
  const r = runDriver(variant, script, world, opt);
  return { ...r, lines: r.end === 'ok' ? r.lines : [...r.lines, r.end] };
}
// starts call (array: export, params…) on build a with the checkpoint request pending, resumes it on build b → last result
function moved(a, b, bytes, call, opt = {}) {
  const w = new World({ ...opt, files: { 'guest.wasm': bytes, 'checkpoint.trigger': new Uint8Array(0), ...opt.files } });
  const r1 = runDriver(a, [['load', 'guest.wasm'], ['call', call[0], '1', ...call.slice(1)]], w);
  const ck = w.readFile('checkpoint.bin');
  if (!ck) return ['no checkpoint', r1.end, ...r1.lines];
  const r2 = runDriver(b, [['load', 'guest.wasm'], ['restore', 'checkpoint.bin', '0']], new World({ ...opt, files: { 'guest.wasm': bytes, 'checkpoint.bin': ck, ...opt.files } }));
  return r2.end === 'ok' ? r2.lines[2] || r2.lines[1] : [r2.end, r2.error];
}
process.on('exit', () => { if (bad) process.exitCode = 1; });
module.exports = { mod, expect, run, World, runBin, runDriver, moved };
