'use strict';
// C01: a program computes what the WebAssembly specification says.
const { genModule } = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { expected, compare } = require('../lib/diffcore');

function gen(s, tier) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const profile = s.weighted([[6, {}], [2, { maxSteps: 90, maxFuncs: 6, fuel: 120 }], [1, { floats: false, maxDepth: 7 }], [1, { mem: false, maxSteps: 60 }]]);
  const m = genModule(s, { ...profile, nan: s.bool() ? 'A' : 'B' });
  const calls = [];
  const n = s.range(1, 4);
  for (let i = 0; i < n; i++) { const f = s.draw(m.sigs.length); calls.push({ name: 'f' + f, params: m.gen.genParams(m.sigs[f]), results: m.sigs[f].r }); }
  return { m, calls, variant };
}
function run(c) {
  const bytes = encode(c.m);
  const exp = expected(c.m, bytes, c.calls);
  const d = compare(c.m, bytes, c.calls, c.variant, exp);
  const code = c.m.funcs.reduce((a, f) => a + f.code.length, 0);
  return {
    nontrivial: code > 30 && exp.traps < c.calls.length,
    counters: { instructions: code, calls: c.calls.length, traps: exp.traps, [c.variant]: 1 },
    fail: d ? { sig: d.kind, detail: `[${c.variant}] ${d.detail}` } : null,
  };
}
const show = (c) => `variant ${c.variant}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 60000, thorough: 1500000 }, chunk: 50,
  rule: 'Typed random modules (functions, blocks, loops, branches, calls, memory, tables, globals, references) with 1-4 exported calls, executed by the interpreter and by V8; results, traps, final memory and globals compared. Non-trivial: more than 30 generated instructions and at least one call that returns.',
  assumptions: ['V8 implements the WebAssembly core specification', 'NaN payloads are compared only where the specification determines them', 'guest memory accesses are in bounds (see the known finding of C03)'],
};
