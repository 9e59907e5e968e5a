'use strict';
// One differential case: module m and a list of calls, run by chiwawa and by V8.
const { encode, wat } = require('./wasmenc');
const { Ref, normList } = require('./oracle');
const { World } = require('./wasi');
const { runDriver } = require('./host');

function normLine(l) {
  if (l.startsWith('ret ')) return 'ret ' + normList(l.slice(4));
  if (l.startsWith('trap ')) return 'trap';
  if (l.startsWith('globals ')) return 'globals ' + normList(l.slice(8));
  return l;
}
// barrier: something is allocated after the guest memory, which then has to move when it grows
function buildScript(m, calls, opt = {}) {
  const script = [['load', opt.path || 'guest.wasm']];
  for (const c of calls) { if (opt.barrier) script.push(['barrier']); script.push(['call', '_r', '0']); script.push(['call', c.name, '0', ...c.params]); }
  if (m.mem) script.push(['mem']);
  script.push(['globals']);
  return script;
}
// expected observation lines
function expected(m, bytes, calls, world) {
  const ref = new Ref(bytes, world);
  const out = ['loaded'];
  let traps = 0;
  for (const c of calls) {
    ref.call('_r', [], []); out.push('ret ');
    const r = ref.call(c.name, c.params, c.results);
    if (r === 'trap') traps++;
    out.push(r);
  }
  const mem = ref.mem();
  if (m.mem) out.push('mem ' + mem.length);
  out.push('globals ' + ref.globals(m));
  out.push('done');
  return { out, mem, traps, ref };
}
function compare(m, bytes, calls, variant, exp, opt) {
  const world = new World({ files: { 'guest.wasm': bytes } });
  const r = runDriver(variant, buildScript(m, calls, opt), world);
  const got = r.lines.map(normLine);
  // some traps are delegated to the host: the interpreter instance itself traps
  if (r.end === 'crash' && exp.out[got.length] === 'trap' && got.every((l, i) => l === exp.out[i])) return null;
  if (r.end !== 'ok') return { kind: r.end, detail: `${r.end} ${r.code === undefined ? '' : r.code} ${r.error || ''} after ${got.length} lines (${got[got.length - 1]})`, r };
  for (let i = 0; i < Math.max(got.length, exp.out.length); i++) if (got[i] !== exp.out[i]) return { kind: 'mismatch', detail: `line ${i}: chiwawa "${r.lines[i]}" reference "${exp.out[i]}"`, r };
  if (m.mem) {
    const a = r.blobs[0], b = exp.mem;
    if (!a.equals(b)) { let i = 0; while (a[i] === b[i]) i++; return { kind: 'memory', detail: `memory differs at ${i}: chiwawa ${a.subarray(i, i + 8).toString('hex')} reference ${b.subarray(i, i + 8).toString('hex')}`, r }; }
  }
  return null;
}
module.exports = { buildScript, expected, compare, normLine };
