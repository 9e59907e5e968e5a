'use strict';
// C06: checkpoint and restore are invisible to the program.
const { genModule } = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { expected } = require('../lib/diffcore');
const { runChain, compareChain } = require('../lib/migrate');
const { World } = require('../lib/wasi');
const C03 = require('./C03'), C04 = require('./C04'), C05 = require('./C05');

function genProgram(s, o = {}) {
  const kind = s.weighted([[5, 'general'], [2, 'memory'], [3, 'control'], [3, 'tables']]);
  if (kind === 'memory') { const c = C03.gen(s); return { kind, m: c.m, calls: c.calls }; }
  if (kind === 'control') { const c = C04.gen(s); return { kind, m: c.m, calls: c.calls.map(x => x.name === 'rec' ? { ...x, params: [!o.small && s.chance(1, 10) ? x.params[0] : 'i32:' + s.range(1, o.small ? 10 : 30).toString(16), x.params[1]] } : x) }; }
  if (kind === 'tables') { const c = C05.gen(s); return { kind, m: c.m, calls: c.calls }; }
  const m = genModule(s, { nan: s.bool() ? 'A' : 'B', maxSteps: s.pick([40, 90]), fuel: s.pick(o.small ? [10, 20, 40] : [20, 60, 120]) });
  const calls = [];
  const n = s.range(1, 4);
  for (let i = 0; i < n; i++) { const f = s.draw(m.sigs.length); calls.push({ name: 'f' + f, params: m.gen.genParams(m.sigs[f]), results: m.sigs[f].r }); }
  return { kind, m, calls };
}
function genStops(s) {
  return s.weighted([
    [4, () => ({ mode: 'one', at: [s.u32()] })],
    [4, () => { const n = s.range(2, 5); const at = []; for (let i = 0; i < n; i++) at.push(s.u32()); return { mode: 'some', at }; }],
    [2, () => ({ mode: 'every', step: s.range(1, 7), from: s.u32(), n: s.range(3, 16) })],
  ])();
}
// polls let pass by each leg, given the number of polls of the uninterrupted run
function stopsFor(st, N) {
  const out = []; let done = 0;
  if (st.mode === 'every') {
    const first = 1 + st.from % Math.max(1, N); out.push(first);
    for (let i = 0; i < st.n; i++) out.push(1 + st.step);
  } else for (const r of st.at) { const left = N - done; if (left < 1) break; const g = 1 + r % left; out.push(g); done += g - 1; }
  return out;
}
function gen(s) {
  const p = genProgram(s);
  const variant = s.bool() ? 'tco-p1' : 'legacy-p1';
  return { ...p, variant, stops: genStops(s) };
}
function run(c) {
  const bytes = encode(c.m);
  const exp = expected(c.m, bytes, c.calls);
  const world = () => new World({ files: { 'guest.wasm': bytes } });
  const base = runChain({ m: c.m, bytes, calls: c.calls, world: world(), variants: [c.variant], stops: [] });
  const d0 = compareChain(c.m, exp, base);
  if (d0) return { nontrivial: false, counters: {}, fail: { sig: 'uninterrupted-' + d0.kind, detail: `[${c.variant}] without any checkpoint: ${d0.detail}` } };
  const N = base.polls[0];
  const stops = stopsFor(c.stops, N);
  const r = runChain({ m: c.m, bytes, calls: c.calls, world: world(), variants: [c.variant], stops });
  const d = compareChain(c.m, exp, r);
  c.info = `polls ${N}, request after ${stops.join()} polls, legs ${r.legs}`;
  return {
    nontrivial: r.legs > 1 && N > 10,
    counters: { restores: r.legs - 1, polls: N, [c.kind]: 1, [c.variant]: 1, traps: exp.traps, [r.legs > 4 ? 'long_chains' : 'short_chains']: 1 },
    fail: d ? { sig: d.kind, detail: `[${c.variant}] ${c.info}: ${d.detail}` } : null,
  };
}
const show = (c) => `variant ${c.variant} ${c.kind} ${JSON.stringify(c.stops)} ${c.info || ''}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, genProgram, genStops, stopsFor, variants: ['tco-p1', 'legacy-p1'], cases: { quick: 20000, thorough: 500000 }, chunk: 20,
  rule: 'Random programs (general, memory, control, table and reference histories) with 1-4 calls. The uninterrupted run gives the number of instants at which a request can be honoured; 1-5 of them, or a burst of up to 17 a few instructions apart, are then chosen, and at each the run is stopped, saved, and resumed in a fresh interpreter. All results, final memory and globals are compared with V8. Non-trivial: at least one restore happened and the run has more than 10 instants.',
  assumptions: ['V8 implements the WebAssembly core specification', 'the guarded hook only removes the 1-in-1024 throttle of the poll', 'references to host objects other than null are not generated'],
};
