'use strict';
// C12: statistics and tracing never change what a program does.
const { encode, wat } = require('../lib/wasmenc');
const { genWasi } = require('../lib/gen_wasi');
const { observe, differ } = require('../lib/outside');
const { genProgram, stopsFor } = require('./C06');
const { expected } = require('../lib/diffcore');
const { runChain, compareChain } = require('../lib/migrate');
const { World } = require('../lib/wasi');

const EV = ['all', 'store', 'load', 'call', 'branch'], RES = ['pc', 'regs', 'memory', 'locals', 'globals'];
const some = (s, l) => l.filter(() => s.chance(1, 2));
function genSettings(s, toFile) {
  const ev = s.weighted([[2, '*'], [1, 'all'], [5, null]]), res = s.weighted([[2, '*'], [5, null]]);
  const up = (x) => (s.chance(1, 6) ? x.toUpperCase() : s.chance(1, 12) ? 'nonsense' : x);
  const spec = (ev === null ? some(s, EV.slice(1)).map(up).join('+') : ev) + '/' + (res === null ? some(s, RES).map(up).join('+') : res) + '/' + (toFile && s.bool() ? 'trace.out' : '*');
  return { stats: s.bool(), trace: s.chance(1, 6) ? '-' : spec };
}
function gen(s) {
  const kind = s.weighted([[6, 'core'], [3, 'wasi']]);
  const base = s.bool() ? 'tco' : 'legacy';
  if (s.chance(1, 4)) { // stopped for checkpoints and resumed
    const p = genProgram(s, { small: true }); const at = []; for (let i = s.range(1, 4); i > 0; i--) at.push(s.u32());
    return { ...p, base, moved: true, stops: { mode: 'some', at }, ...genSettings(s, false) };
  }
  const cr = s.chance(1, 5);
  if (kind === 'core') { const p = genProgram(s, { small: true }); return { ...p, cr, base, ...genSettings(s, true) }; }
  const g = genWasi(s, { keep3: cr, noErr: true, steps: 8 });
  return { ...g, kind, cr, base, ...genSettings(s, false) };
}
function runMoved(c, bytes) {
  const exp = expected(c.m, bytes, c.calls);
  const chain = (v, stops, pre) => runChain({ m: c.m, bytes, calls: c.calls, world: new World({ files: { 'guest.wasm': bytes } }), variants: [v], stops, opt: { pre } });
  const counters = { moved: 1, [c.base]: 1 };
  const skip = (k) => ({ nontrivial: false, counters: { ...counters, ['skip_' + k]: 1 }, fail: null }); // for C01-C06 to judge
  const none = chain(c.base + '-p1', []);
  if (compareChain(c.m, exp, none)) return skip('uninterrupted');
  if (none.polls[0] > 20000) return skip('long');
  const stops = stopsFor(c.stops, none.polls[0]);
  const plain = chain(c.base + '-p1', stops);
  if (compareChain(c.m, exp, plain)) return skip('plain');
  const v = c.base + '-p1-stats-trace';
  const r = chain(v, stops, [['trace', c.trace], ['stats', c.stats ? '1' : '0']]);
  const d = compareChain(c.m, exp, r) || (r.legs !== plain.legs ? { kind: 'legs', detail: `${r.legs} legs, ${plain.legs} without instrumentation` } : null);
  return { nontrivial: r.legs > 1, counters: { ...counters, restores: r.legs - 1 }, fail: d ? { sig: 'moved-' + d.kind, detail: `[${v} stats ${c.stats} trace ${c.trace}] stopped after ${stops.join()} polls, which goes well without instrumentation: ${d.detail}` } : null };
}
function run(c) {
  const bytes = encode(c.m);
  if (c.moved) return runMoved(c, bytes);
  const a = observe(c.base, c.m, bytes, c.calls, c.spec, c.faults, { cr: c.cr, own: (name, x) => name === 'fd_write' && x[0] === 2 });
  let reports = 0;
  const file = c.trace.endsWith('/trace.out');
  // the report goes to standard error, which the generated programs leave alone, or to its file
  const own = (name, x) => { if (name === 'fd_write' && (x[0] === 2 || file)) { reports++; return true; } return file && name !== 'sched_yield' && !(name === 'fd_close' && x[0] === 99); }; // all a program with a trace file calls
  const pre = [['trace', c.trace], ['stats', c.stats ? '1' : '0']];
  const v = c.base + '-stats-trace';
  const b = observe(v, c.m, bytes, c.calls, c.spec, c.faults, { cr: c.cr, pre, own, maxFile: 1e9, skip: (p) => p === '/trace.out' });
  if (file && b.end === 'crash') b.fds = a.fds; // the file stays open
  const d = differ(a, b, 'plain', 'instrumented', { noErr: true });
  return { nontrivial: reports > 0, counters: { [c.kind]: 1, report_lines: reports, to_file: file ? 1 : 0, stats: c.stats ? 1 : 0, tracing: c.trace !== '-' ? 1 : 0, off: !c.stats && c.trace === '-' ? 1 : 0, host_calls: a.log.length, [c.base]: 1 }, fail: d ? { sig: d.sig, detail: `[${v} stats ${c.stats} trace ${c.trace}] ${d.detail}` } : null };
}
const show = (c) => `${c.kind} ${c.base} stats ${c.stats} trace ${c.trace} checkpointing ${c.moved ? JSON.stringify(c.stops) : c.cr}\ncalls ${JSON.stringify(c.calls)}\n${c.spec ? 'host ' + JSON.stringify({ ...c.spec, stdin: Buffer.from(c.spec.stdin).toString('hex') }) + ' faults ' + JSON.stringify(c.faults) + '\n' : ''}${wat(c.m)}`;
module.exports = {
  gen, run, show, genSettings, EV, RES, variants: ['tco', 'legacy', 'tco-stats-trace', 'legacy-stats-trace', 'tco-p1', 'legacy-p1', 'tco-p1-stats-trace', 'legacy-p1-stats-trace'], cases: { quick: 12000, thorough: 250000 }, chunk: 25,
  rule: 'Programs of every kind, including WASI histories with injected host errors, are run by a plain build and by the same dispatcher built with statistics and tracing, with statistics on or off and a random selection of trace events, resources and destination (also none, all, unknown names, and both off). Compared: results, failures, memory, globals, all host calls of the program with answers, exit code, standard output, files, descriptors. A quarter of the programs is stopped for checkpoints at 1-4 random instants and resumed with the instrumentation on, wherever the same succeeds without. Non-trivial: the instrumented run wrote a report, or was resumed.',
  assumptions: ['NaN payloads are compared only where the specification determines them', 'programs that use WASI leave descriptor 2 to the report; trace files are tested with programs that use no WASI, since an open trace file takes a descriptor'],
};
