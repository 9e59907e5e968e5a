'use strict';
// C17: an instance is one consistent state machine across calls and failures.
const { genModule } = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { Ref, normList } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { runDriver } = require('../lib/host');
const F32 = [0x7fc00000, 0x7f800000, 0xff800000, 0x4f800000, 0xcf800001], F64 = [0x7ff8000000000000n, 0x7ff0000000000000n, 0xfff0000000000000n, 0x43f0000000000000n];

// failures after which the interpreter still answers
function mine(s, m, odd) {
  const r = [['global.get', m.mineG], ['i32.const', 1], ['i32.sub'], ['global.set', m.mineG], ['global.get', m.mineG], ['i32.eqz'], ['if', null]];
  const k = s.weighted([[3, 'f32'], [3, 'f64'], [m.mineSlot !== undefined ? 4 : 0, 'type'], [odd ? 1 : 0, 'odd']]);
  if (k === 'f32') r.push(['f32.const', s.pick(F32)], [s.pick(['i32.trunc_f32_s', 'i32.trunc_f32_u', 'i64.trunc_f32_s', 'i64.trunc_f32_u'].slice(0, 2))], ['drop']);
  else if (k === 'f64') r.push(['f64.const', s.pick(F64)], [s.pick(['i32.trunc_f64_s', 'i32.trunc_f64_u', 'i64.trunc_f64_s', 'i64.trunc_f64_u'])], ['drop']);
  else if (k === 'type') r.push(['i32.const', m.mineSlot], ['call_indirect', m.mineType, m.mineTab]);
  else r.push(['unreachable']);
  r.push(['end']);
  return r;
}
function gen(s, tier) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const profile = s.weighted([[5, {}], [2, { maxSteps: 60, maxFuncs: 6 }], [1, { mem: false }]]);
  const m = genModule(s, { ...profile, nan: s.bool() ? 'A' : 'B', trappy: s.chance(1, 4), fuel: s.pick([40, 120, 400]) });
  const ni = m.imports.length;
  // a countdown that ends in a failure, at any place of any function
  m.globals.push({ t: 'i32', mut: true, init: ['i32.const', 0] }); m.mineG = m.globals.length - 1;
  m.exports.push({ name: 'g' + m.mineG, kind: 'global', idx: m.mineG });
  const type = (p, r) => m.gen.typeIdx(p, r);
  const n0 = m.funcs.length;
  if (s.bool()) {
    // a table with one function of another type than the one the call expects
    m.tables = [...(m.table ? [{ ...m.table, type: 'funcref' }] : []), { min: 1, type: 'funcref' }]; delete m.table;
    m.mineTab = m.tables.length - 1; m.mineSlot = 0;
    m.funcs.push({ type: type(['i64', 'i64', 'i64'], []), locals: [], code: [] });
    m.elems.push({ offset: ['i32.const', 0], table: m.mineTab, funcs: [ni + n0] });
    m.mineType = type([], []);
  }
  for (let i = 0; i < n0 - 1; i++) {
    const f = m.funcs[i];
    for (let k = s.weighted([[1, 0], [3, 1], [2, 2], [1, 4]]); k > 0; k--) f.code.splice(s.draw(f.code.length + 1), 0, ...mine(s, m, s.chance(1, 8)));
  }
  m.funcs.push({ type: type(['i32'], []), locals: [], code: [['local.get', 0], ['global.set', m.mineG]] });
  m.exports.push({ name: '_arm', kind: 'func', idx: ni + m.funcs.length - 1 });
  const acts = []; const nInst = s.weighted([[3, 1], [1, 2]]); let cur = 0;
  const n = s.weighted([[6, s.range(3, 14)], [1, s.range(15, 60)]]);
  for (let i = 0; i < n; i++) {
    if (nInst > 1 && s.chance(1, 3)) { cur = s.draw(nInst); acts.push({ k: 'use', i: cur }); }
    const k = s.weighted([[8, 'call'], [3, 'arm'], [2, 'reset'], [1, 'unknown'], [2, 'count'], [1, 'type']]);
    const f = s.draw(m.sigs.length), sig = m.sigs[f];
    if (k === 'call') acts.push({ k, name: 'f' + f, params: m.gen.genParams(sig), results: sig.r });
    else if (k === 'arm') acts.push({ k: 'call', name: '_arm', params: ['i32:' + s.weighted([[3, s.range(1, 4)], [2, s.range(1, 30)], [1, 0]]).toString(16)], results: [] });
    else if (k === 'reset') acts.push({ k: 'call', name: '_r', params: [], results: [] });
    else if (k === 'unknown') acts.push({ k, name: s.pick(['nope', '', 'F0', 'f', 'mem', 'g0', '_R', 'f' + m.sigs.length]) });
    else if (k === 'type') { const p = m.gen.genParams(sig); if (!p.length) continue; const j = s.draw(p.length); const t = p[j].split(':')[0]; p[j] = s.pick(['i32:5', 'i64:5', 'f32:3f800000', 'f64:3ff0000000000000', 'ref:null'].filter(x => !x.startsWith(t))); acts.push({ k, name: 'f' + f, params: p }); }
    else { let p = m.gen.genParams(sig); if (p.length && s.bool()) p = p.slice(0, s.draw(p.length)); else for (let j = s.range(1, 3); j > 0; j--) p.push('i32:5'); acts.push({ k, name: 'f' + f, params: p }); }
  }
  return { m, acts, nInst, variant };
}
function run(c) {
  const bytes = encode(c.m);
  const refs = []; const script = []; const exp = []; // per line: expected text, memory
  for (let i = 0; i < c.nInst; i++) { refs.push(new Ref(bytes)); script.push(['load', 'guest.wasm']); exp.push('loaded'); }
  script.push(['use', '0']);
  let cur = refs[0], traps = 0, refused = 0, after = 0; const mems = [];
  const state = () => {
    if (c.m.mem) { script.push(['mem']); const b = Buffer.from(cur.mem()); exp.push('mem ' + b.length); mems.push(b); }
    script.push(['globals']); exp.push('globals ' + cur.globals(c.m));
  };
  for (const a of c.acts) {
    if (a.k === 'use') { cur = refs[a.i]; script.push(['use', String(a.i)]); continue; }
    script.push(['call', a.name, '0', ...(a.params || [])]);
    if (a.k === 'unknown') { exp.push('trap ExportFuncNotFound'); refused++; } else if (a.k === 'type') { exp.push('rt-error TypeMismatch'); refused++; } else if (a.k === 'count') { exp.push('rt-error InvalidParameterCount'); refused++; } else {
      const r = cur.call(a.name, a.params, a.results); exp.push(r);
      if (r === 'trap') traps++; else if (traps && r.length > 4) after++;
    }
    state();
  }
  exp.push('done');
  const counters = { [c.variant]: 1, actions: c.acts.length, traps, refused, results_after_a_failure: after, two_instances: c.nInst > 1 ? 1 : 0, crashes: 0 };
  const r = runDriver(c.variant, script, new World({ files: { 'guest.wasm': bytes } }));
  const got = r.lines.map((l) => (l.startsWith('ret ') ? 'ret ' + normList(l.slice(4)) : l.startsWith('globals ') ? 'globals ' + normList(l.slice(8)) : l.startsWith('trap ') && l !== 'trap ExportFuncNotFound' ? 'trap' : l));
  const bad = (sig, detail) => ({ nontrivial: true, counters, fail: { sig, detail: `[${c.variant}] ${detail}` } });
  const lines = script.filter(x => x[0] !== 'use'); let mi = 0;
  for (let i = 0; i < exp.length; i++) {
    if (got[i] !== exp[i]) {
      if (r.end === 'crash' && i === got.length && exp[i] === 'trap') { counters.crashes = 1; break; }
      return bad(exp[i].startsWith('globals') ? 'globals' : got[i] === undefined ? r.end : 'result', `line ${i} (${lines[i] ? lines[i].join(' ') : 'end'}, after ${lines.slice(Math.max(0, i - 4), i).map(x => x.join(' ')).join('; ')}): chiwawa "${got[i]}" reference "${exp[i]}" (${r.end} ${r.error || ''})`);
    }
    if (exp[i].startsWith('mem ')) {
      const a = r.blobs[mi], b = mems[mi++];
      if (!a.equals(b)) { let k = 0; while (a[k] === b[k]) k++; return bad('memory', `line ${i} (after ${lines.slice(Math.max(0, i - 4), i).map(x => x.join(' ')).join('; ')}): memory differs at ${k}: chiwawa ${a.subarray(k, k + 8).toString('hex')} reference ${b.subarray(k, k + 8).toString('hex')}`); }
    }
  }
  if (!counters.crashes && (r.end !== 'ok' || got.length !== exp.length)) return bad(r.end, `${r.end} ${r.error || ''}`);
  return { nontrivial: (traps + refused) > 0 && (after > 0 || refused > 0), evals: c.acts.length, counters, fail: null };
}
const show = (c) => `variant ${c.variant} instances ${c.nInst}\n${c.acts.map(a => JSON.stringify(a)).join('\n')}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 30000, thorough: 900000 }, chunk: 50,
  rule: 'Random programs whose functions hold countdowns that end in a failure (conversion out of range, wrong type of an indirect call) at random places, so that calls fail in any frame, loop or expression. Histories of 3-60 actions on one or two instances of the module: calls of every export, arming of the countdowns, unknown and non-function exports, too few and too many arguments and arguments of another type. After every action the whole memory and all globals, and at every call the outcome, are compared with V8 performing the same history. Non-trivial: a failed call followed by a call that returns a value, or a refused call.',
  assumptions: ['V8 implements the WebAssembly core specification', 'failures that the interpreter turns into a failure of the whole process (unreachable, division by zero, out-of-bounds access) end a history'],
};
