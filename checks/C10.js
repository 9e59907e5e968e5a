'use strict';
// C10: the two dispatchers are observationally identical.
const { encode, wat } = require('../lib/wasmenc');
const { genWasi } = require('../lib/gen_wasi');
const { observe, differ } = require('../lib/outside');
const { genProgram } = require('./C06');
const C02 = require('./C02');

function gen(s) {
  const kind = s.weighted([[6, 'core'], [2, 'numeric'], [3, 'wasi']]);
  const cr = s.chance(1, 4);
  if (kind === 'core') { const p = genProgram(s); return { ...p, cr }; }
  if (kind === 'numeric') { const c = C02.gen(s); return { kind, m: c.m, calls: c.calls, cr }; }
  const g = genWasi(s, { keep3: cr });
  return { ...g, kind, cr };
}
function run(c) {
  const bytes = encode(c.m);
  const a = observe('tco', c.m, bytes, c.calls, c.spec, c.faults, { cr: c.cr });
  const b = observe('legacy', c.m, bytes, c.calls, c.spec, c.faults, { cr: c.cr });
  const d = differ(a, b, 'tco', 'legacy');
  const traps = b.lines.filter(l => l.startsWith('trap')).length + (b.end === 'crash' ? 1 : 0);
  return { nontrivial: b.lines.some(l => l.startsWith('ret ') && l.length > 4) || b.log.length > 2 || traps > 0, counters: { [c.kind]: 1, traps, exits: b.end === 'exit' ? 1 : 0, host_calls: b.log.length, checkpointing: c.cr ? 1 : 0 }, fail: d };
}
const show = (c) => `${c.kind} checkpointing ${c.cr}\ncalls ${JSON.stringify(c.calls)}\n${c.spec ? 'host ' + JSON.stringify({ ...c.spec, stdin: Buffer.from(c.spec.stdin).toString('hex') }) + ' faults ' + JSON.stringify(c.faults) + '\n' : ''}${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 30000, thorough: 900000 }, chunk: 50,
  rule: 'Programs of every kind (general, memory, control flow, tables, numeric operand sweeps, WASI histories with injected host errors) are run by the tail-call build and the loop build on equal hosts, with and without checkpointing enabled. Compared: every result bit, the kind of each failure and the call it occurs in, memory, globals, every host call with arguments and answer, exit code, streams, files, descriptors. Non-trivial: a result, a failure or more than 2 host calls.',
  assumptions: ['NaN payloads are compared only where the specification determines them', 'the requests for the trigger file are not compared, being throttled per dispatcher'],
};
