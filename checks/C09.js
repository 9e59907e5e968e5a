'use strict';
// C09: a checkpoint resumes identically on every build.
const { encode, wat } = require('../lib/wasmenc');
const { expected } = require('../lib/diffcore');
const { runChain, compareChain } = require('../lib/migrate');
const { World } = require('../lib/wasi');
const { genProgram, stopsFor } = require('./C06');
const V = ['tco-p1', 'legacy-p1', 'tco-p1-stats-trace', 'legacy-p1-stats-trace'];

function gen(s) {
  const p = genProgram(s);
  const n = s.range(1, 5); const at = []; for (let i = 0; i < n; i++) at.push(s.u32());
  const stops = s.weighted([[3, { mode: 'some', at }], [1, { mode: 'every', step: s.range(1, 5), from: s.u32(), n: s.range(3, 10) }]]);
  const chain = [s.draw(4)]; for (let i = 0; i < 17; i++) chain.push((chain[i] + 1 + s.draw(3)) % 4);
  return { ...p, stops, chain: chain.map(i => V[i]), instr: s.chance(1, 4) };
}
function run(c) {
  const bytes = encode(c.m);
  const exp = expected(c.m, bytes, c.calls);
  const world = () => new World({ files: { 'guest.wasm': bytes } });
  const base = runChain({ m: c.m, bytes, calls: c.calls, world: world(), variants: [c.chain[0]], stops: [] });
  const d0 = compareChain(c.m, exp, base);
  if (d0) return { nontrivial: false, counters: {}, fail: { sig: 'uninterrupted-' + d0.kind, detail: `[${c.chain[0]}] without any checkpoint: ${d0.detail}` } };
  const stops = stopsFor(c.stops, base.polls[0]);
  const pre = c.instr ? [['stats', '1']] : [];
  const r = runChain({ m: c.m, bytes, calls: c.calls, world: world(), variants: c.chain, stops, opt: { pre } });
  const d = compareChain(c.m, exp, r);
  c.info = `polls ${base.polls[0]}, request after ${stops.join()} polls, legs ${r.legs}: ${c.chain.slice(0, r.legs).join(' > ')}`;
  const pairs = {}; for (let i = 1; i < r.legs; i++) { const k = c.chain[i - 1] + '>' + c.chain[i]; pairs[k] = (pairs[k] || 0) + 1; }
  return { nontrivial: r.legs > 1 && base.polls[0] > 10, counters: { restores: r.legs - 1, [c.kind]: 1, traps: exp.traps, ...pairs }, fail: d ? { sig: d.kind, detail: `${c.info}: ${d.detail}` } : null };
}
const show = (c) => `${c.kind} ${JSON.stringify(c.stops)} ${c.info || ''}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: V, cases: { quick: 14000, thorough: 350000 }, chunk: 20,
  rule: 'As C06, with each leg on a different one of four builds (tail-call and loop dispatcher, each plain and with statistics and tracing compiled in), in random order, statistics switched on in a quarter of the cases. Non-trivial: at least one migration and a run of more than 10 instants.',
  assumptions: ['V8 implements the WebAssembly core specification', 'the guarded hook only removes the 1-in-1024 throttle of the poll', 'builds for the threads target and native builds are not exercised (no such target here)'],
};
