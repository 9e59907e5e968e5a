'use strict';
// C18: the length of a run is bounded by the program only.
const G = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { normLine } = require('../lib/diffcore');
const { Ref } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { runDriver } = require('../lib/host');
const T = ['i32', 'i64', 'f32', 'f64'];
const OPS = G.ALL_OPS;

// Statements over locals 0 (n: i32 counter), 1 (i: i32), 2 (acc: i64), 3.. scratch of each type
const N = 0, I = 1, ACC = 2, S = { i32: 3, i64: 4, f32: 5, f64: 6, funcref: 7 };
const from = (t) => ({ i32: [['local.get', ACC], ['i32.wrap_i64']], i64: [['local.get', ACC]], f32: [['local.get', I], ['f32.convert_i32_s']], f64: [['local.get', ACC], ['f64.convert_i64_s']] }[t]);
const NANFIX = (t) => [['local.tee', S[t]], [t + '.const', t === 'f32' ? 0x7fc00000 : 0x7ff8000000000000n], ['local.get', S[t]], ['local.get', S[t]], [t + '.eq'], ['select']];
const fold = (t) => [...{ i32: [['i64.extend_i32_u']], i64: [], f32: [...NANFIX('f32'), ['i32.reinterpret_f32'], ['i64.extend_i32_u']], f64: [...NANFIX('f64'), ['i64.reinterpret_f64']] }[t],
  ['local.get', ACC], ['i64.const', 0x9e3779b97f4a7c15n - (1n << 64n)], ['i64.mul'], ['i64.xor'], ['i64.const', 23n], ['i64.rotl'], ['local.set', ACC]];
function operand(s, t, k) { // a value of type t
  switch (s.weighted([[3, 'acc'], [2, 'const'], [2, 'local'], [1, 'global']])) {
    case 'acc': return from(t);
    case 'const': return [G.genConst(s, t, false)];
    case 'local': return t === 'i32' ? [['local.get', I]] : [['local.get', S[t]]];
    default: return [['global.get', T.indexOf(t)]];
  }
}
function opSnippet(s, op) {
  const [ps, r] = G.OPSIG[op];
  const code = [];
  for (const p of ps) code.push(...operand(s, p));
  if (/\.(div|rem)_[su]$/.test(op) && ps[0][0] === 'i') { const t = ps[0]; code.push([t + '.const', t === 'i32' ? 0xff : 0xffn], [t + '.and'], [t + '.const', t === 'i32' ? 3 : 3n], [t + '.or']); }
  if (/\.trunc_f/.test(op)) { const f = ps[0]; code.push([f + '.const', f === 'f32' ? 0x4e800000 : 0x41d0000000000000n], [f + '.min'], [f + '.const', f === 'f32' ? 0 : 0n], [f + '.max'], ['local.tee', S[f]], [f + '.const', f === 'f32' ? 0x3f800000 : 0x3ff0000000000000n], ['local.get', S[f]], ['local.get', S[f]], [f + '.eq'], ['select']); }
  if (op === 'i32.reinterpret_f32') code.push(...NANFIX('f32'));
  if (op === 'i64.reinterpret_f64') code.push(...NANFIX('f64'));
  if (op.endsWith('.copysign')) code.push(...NANFIX(ps[0]));
  code.push([op]);
  switch (s.draw(3)) {
    case 0: if (r[0] === 'f') code.push(...NANFIX(r)); code.push(['local.tee', S[r]], ...fold(r)); break;
    case 1: if (r[0] === 'f') code.push(...NANFIX(r)); code.push(['local.set', S[r]]); break;
    default: code.push(...fold(r)); break;
  }
  return code;
}
const LD = [['i32.load', 'i32'], ['i32.load8_s', 'i32'], ['i32.load8_u', 'i32'], ['i32.load16_s', 'i32'], ['i32.load16_u', 'i32'], ['i64.load', 'i64'], ['i64.load8_s', 'i64'], ['i64.load8_u', 'i64'], ['i64.load16_s', 'i64'], ['i64.load16_u', 'i64'], ['i64.load32_s', 'i64'], ['i64.load32_u', 'i64'], ['f32.load', 'f32'], ['f64.load', 'f64']];
const ST = [['i32.store', 'i32'], ['i32.store8', 'i32'], ['i32.store16', 'i32'], ['i64.store', 'i64'], ['i64.store8', 'i64'], ['i64.store16', 'i64'], ['i64.store32', 'i64'], ['f32.store', 'f32'], ['f64.store', 'f64']];

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const types = []; const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const wasi = s.chance(1, 3);
  const m = { types, imports: [], funcs: [], exports: [], globals: [{ t: 'i32', mut: true, init: ['i32.const', 5] }, { t: 'i64', mut: true, init: ['i64.const', 7n] }, { t: 'f32', mut: true, init: ['f32.const', 0x3fc00000] }, { t: 'f64', mut: true, init: ['f64.const', 0x4004000000000000n] }], elems: [], datas: [], mem: { min: 1, max: 1 }, table: { min: 6 } };
  if (wasi) m.imports.push({ mod: 'wasi_snapshot_preview1', name: 'sched_yield', type: ty([], ['i32']) }, { mod: 'wasi_snapshot_preview1', name: 'clock_res_get', type: ty(['i32', 'i32'], ['i32']) });
  const ni = m.imports.length;
  m.datas.push({ offset: null, bytes: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10] });
  const fn = (p, r, locals, code) => { m.funcs.push({ type: ty(p, r), locals, code }); return ni + m.funcs.length - 1; };
  const LOCALS = ['i32', 'i64', 'i32', 'i64', 'f32', 'f64', 'funcref']; // from index I on
  const leaf = fn(['i64'], ['i64'], ['i64'], [['local.get', 0], ['i64.const', 3n], ['i64.xor'], ['local.tee', 1], ['local.get', 0], ['i64.add']]);
  // returns from inside nested blocks with values left on the stack
  const early = fn(['i64', 'i32'], ['i64'], [], [['i32.const', 1], ['i64.const', 2n], ['block', 'i64'], ['f64.const', 0n], ['local.get', 0], ['local.get', 1], ['i32.const', s.range(1, 3)], ['i32.and'], ['br_if', 0], ['local.get', 1], ['if', null], ['i32.const', 9], ['local.get', 0], ['i64.const', 17n], ['i64.rotl'], ['return'], ['end'], ['return'], ['end'], ['i64.sub'], ['local.set', 0], ['drop'], ['local.get', 0]]);
  const multi = fn(['i32', 'i64'], ['i64', 'i32', 'f64'], [], [['local.get', 1], ['local.get', 0], ['local.get', 0], ['f64.convert_i32_s']]);
  const voidF = fn([], [], [], [['global.get', 1], ['i64.const', 11n], ['i64.mul'], ['i64.const', 5n], ['i64.add'], ['global.set', 1]]);
  const recI = ni + m.funcs.length;
  fn(['i32', 'i64'], ['i64'], ['i64'], [['local.get', 0], ['i32.eqz'], ['if', 'i64'], ['local.get', 1], ['else'], ['local.get', 0], ['i32.const', 1], ['i32.sub'], ['local.get', 1], ['i64.const', 5n], ['i64.add'], ['call', recI], ['end'], ['local.tee', 2], ['local.get', 1], ['i64.xor']]);
  m.elems.push({ offset: ['i32.const', 0], funcs: [leaf, early, voidF, multi] });
  const counts = {}; let cost = 0; const subs = [];
  const snip = (d) => {
    const k = s.weighted([[14, 'op'], [4, 'load'], [4, 'store'], [2, 'bulk'], [2, 'size'], [3, 'global'], [2, 'select'], [2, 'ref'], [2, 'table'], [d ? 2 : 0, 'block'], [d ? 3 : 0, 'if'], [d ? 2 : 0, 'inner'], [2, 'br_table'], [2, 'residue'], [3, 'call'], [2, 'early'], [2, 'multi'], [2, 'void'], [3, 'icall'], [1, 'rec'], [subs.length ? 4 : 0, 'sub'], [wasi ? 3 : 0, 'host'], [1, 'misc'], [d ? 2 : 0, 'continue']]);
    counts[k] = (counts[k] || 0) + 1; cost += 12;
    switch (k) {
      case 'op': return opSnippet(s, s.pick(OPS));
      case 'load': { const [op, t] = s.pick(LD); return [...s.pick([[['i32.const', s.range(0, 99)]], [['local.get', I], ['i32.const', 0xfff], ['i32.and']], [['global.get', 0], ['i32.const', 0xff], ['i32.and']]]), [op, { offset: s.range(0, 50), align: 0 }], ...fold(t)]; }
      case 'store': { const [op, t] = s.pick(ST); return [...s.pick([[['i32.const', s.range(0, 99)]], [['local.get', I], ['i32.const', 0xfff], ['i32.and']]]), ...operand(s, t), ...(t[0] === 'f' ? NANFIX(t) : []), [op, { offset: s.range(0, 50), align: 0 }]]; }
      case 'bulk': return s.pick([[['i32.const', 7], ['local.get', I], ['i32.const', s.range(0, 60)], ['memory.fill']], [['i32.const', s.range(0, 40)], ['i32.const', s.range(0, 40)], ['i32.const', s.range(0, 40)], ['memory.copy']], [['i32.const', s.range(0, 40)], ['i32.const', 2], ['i32.const', s.range(0, 8)], ['memory.init', 0]]]);
      case 'size': return [...s.pick([[['memory.size']], [['i32.const', 0], ['memory.grow']], [['i32.const', 1], ['memory.grow']]]), ...fold('i32')];
      case 'global': { const g = s.draw(4); return s.bool() ? [['global.get', g], ...fold(T[g])] : [...operand(s, T[g]), ...(g > 1 ? NANFIX(T[g]) : []), ['global.set', g]]; }
      case 'select': { const t = s.pick(T); return [...operand(s, t), ...operand(s, t), ...operand(s, 'i32'), ['i32.const', 1], ['i32.and'], s.bool() ? ['select'] : ['select_t', t], ...fold(t)]; }
      case 'ref': return s.pick([[['ref.null', 'funcref'], ['ref.is_null'], ...fold('i32')], [['local.get', S.funcref], ['ref.is_null'], ...fold('i32')], [['i32.const', s.draw(6)], ['table.get', 0], ['local.set', S.funcref]], [['local.get', S.funcref], ['ref.null', 'funcref'], ['local.get', I], ['i32.const', 1], ['i32.and'], ['select_t', 'funcref'], ['ref.is_null'], ...fold('i32')]]);
      case 'table': return s.pick([[['i32.const', 5], ['local.get', S.funcref], ['table.set', 0]], [['i32.const', 4], ['i32.const', s.draw(4)], ['table.get', 0], ['i32.const', 2], ['table.fill', 0]], [['i32.const', 4], ['table.get', 0], ['ref.is_null'], ...fold('i32')]]);
      case 'block': { const r = s.bool(); return [['block', r ? 'i64' : null], ...snips(d - 1, s.range(0, 2)), ...(r ? [['local.get', ACC], ['end'], ...fold('i64')] : [['end']])]; }
      case 'if': return [...operand(s, 'i32'), ['i32.const', s.pick([1, 2, 3])], ['i32.and'], ['if', null], ...snips(d - 1, s.range(0, 2)), ...(s.bool() ? [['else'], ...snips(d - 1, s.range(0, 2))] : []), ['end']];
      case 'inner': { cost *= 2; return [['i32.const', s.range(1, 4)], ['local.set', S.i32], ['loop', null], ['local.get', S.i32], ...fold('i32'), ['local.get', S.i32], ['i32.const', 1], ['i32.sub'], ['local.tee', S.i32], ['br_if', 0], ['end']]; }
      case 'br_table': return [['block', null], ['block', 'i32'], ['block', 'i32'], ['i32.const', 3], ...operand(s, 'i32'), ['i32.const', 3], ['i32.and'], ['br_table', [0, 1, 0], 1], ['end'], ['i32.const', 7], ['i32.xor'], ['end'], ...fold('i32'), ['end']];
      case 'residue': { // a branch over values left on the stack
        const n = s.range(1, 6); const c = [['block', 'i64']]; for (let i = 0; i < n; i++) c.push(G.genConst(s, s.pick(T), false));
        c.push(['local.get', ACC]);
        if (s.bool()) c.push(['br', 0]); else { c.push(['local.get', I], ['br_if', 0], ['local.set', S.i64]); for (let i = 0; i < n; i++) c.push(['drop']); c.push(['local.get', S.i64]); }
        c.push(['end'], ...fold('i64')); return c;
      }
      case 'call': return [['local.get', ACC], ['call', leaf], ...fold('i64')];
      case 'early': return [['local.get', ACC], ...operand(s, 'i32'), ['call', early], ...fold('i64')];
      case 'multi': return [...operand(s, 'i32'), ['local.get', ACC], ['call', multi], ...fold('f64'), ...fold('i32'), ...fold('i64')];
      case 'void': return [['call', voidF]];
      case 'icall': return s.pick([[['local.get', ACC], ['i32.const', 0], ['call_indirect', ty(['i64'], ['i64']), 0], ...fold('i64')], [['i32.const', 2], ['call_indirect', ty([], []), 0]], [['local.get', ACC], ['local.get', I], ['i32.const', 1], ['call_indirect', ty(['i64', 'i32'], ['i64']), 0], ...fold('i64')]]);
      case 'rec': { const n = s.range(1, 6); cost += n * 15; return [['i32.const', n], ['local.get', ACC], ['call', recI], ...fold('i64')]; }
      case 'sub': cost += subCost; return [['i32.const', s.range(1, 3)], ['local.get', I], ['local.get', ACC], ['call', s.pick(subs)], ...fold('i64')];
      case 'host': return s.pick([[['call', 0], ...fold('i32')], [['i32.const', 1], ['i32.const', 200], ['call', 1], ...fold('i32')]]);
      case 'misc': return s.pick([[['nop']], [['i32.const', 1], ['drop']], [['local.get', ACC], ['local.tee', S.i64], ['drop']]]);
      default: return [['block', null], ...operand(s, 'i32'), ['i32.const', 1], ['i32.and'], ['br_if', 0], ...snips(d - 1, 1), ['end']];
    }
  };
  const snips = (d, n) => { const c = []; for (let i = 0; i < n; i++) c.push(...snip(d)); return c; };
  // callees with registers and locals of every type
  let subCost = 0;
  for (let n = s.draw(3); n > 0; n--) { const c0 = cost; const code = [...snips(1, s.range(1, 4)), ['local.get', ACC]]; subs.push(fn(['i32', 'i32', 'i64'], ['i64'], LOCALS.slice(2), code)); subCost = Math.max(subCost, cost - c0 + 20); cost = c0; }
  const body = snips(2, s.range(1, 6));
  const shape = s.pick(['tail', 'head', 'param']);
  const step = [['local.get', I], ['i32.const', 1], ['i32.add'], ['local.tee', I], ['local.get', N]];
  let code;
  if (shape === 'tail') code = [['loop', null], ...body, ...step, ['i32.lt_u'], ['br_if', 0], ['end'], ['local.get', ACC]];
  else if (shape === 'head') code = [['block', null], ['loop', null], ...step, ['i32.gt_u'], ['br_if', 1], ...body, ['br', 0], ['end'], ['end'], ['local.get', ACC]];
  else code = [['local.get', ACC], ['loop', ty(['i64'], ['i64'])], ['local.set', ACC], ...body, ['local.get', ACC], ...step, ['i32.lt_u'], ['br_if', 0], ['end']];
  const main = fn(['i32'], ['i64'], LOCALS, code);
  // the same work as recursion; the base returns acc, every level mixes again on the way back
  const depth = s.chance(1, 4) ? s.pick([3000, 10000, 30000]) : 0;
  if (depth) {
    m.exports.push({ name: 'rec', kind: 'func', idx: recI });
    fn(['i32', 'i64'], ['i64'], ['i64', 'i32'], [ // rec, unrolled into loops
      ['local.get', 1], ['local.get', 0], ['i64.extend_i32_u'], ['i64.const', 5n], ['i64.mul'], ['i64.add'], ['local.set', 1], // argument of the base
      ['local.get', 1], ['local.get', 1], ['i64.xor'], ['local.set', 2],
      ['block', null], ['loop', null], ['local.get', 3], ['local.get', 0], ['i32.ge_u'], ['br_if', 1],
      ['local.get', 1], ['i64.const', 5n], ['i64.sub'], ['local.tee', 1], ['local.get', 2], ['i64.xor'], ['local.set', 2],
      ['local.get', 3], ['i32.const', 1], ['i32.add'], ['local.set', 3], ['br', 0], ['end'], ['end'], ['local.get', 2]]);
    m.exports.push({ name: 'unrolled', kind: 'func', idx: ni + m.funcs.length - 1 });
  }
  m.exports.push({ name: 'main', kind: 'func', idx: main }, { name: 'mem', kind: 'mem', idx: 0 });
  m.globals.forEach((g, i) => m.exports.push({ name: 'g' + i, kind: 'global', idx: i }));
  // about 2 million instructions in the long run
  const long = Math.max(20000, Math.min(300000, Math.floor(6e6 / (cost + 10))));
  const cr = s.bool() ? '1' : '0';
  return { m, variant, long, short: Math.floor(long / 8), counts, shape, depth, cr, calls: s.chance(1, 5) };
}
function run(c) {
  const bytes = encode(c.m);
  const bad = (sig, detail) => ({ nontrivial: true, counters: {}, fail: { sig, detail: `[${c.variant}] ${detail}` } });
  const res = {}; let evals = 0;
  for (const n of [c.short, c.long]) {
    const files = { 'guest.wasm': bytes };
    const ref = new Ref(bytes, new World({ files }));
    const h = n.toString(16);
    const want = ['loaded', ref.call('main', ['i32:' + h], ['i64'])];
    const script = [['load', 'guest.wasm'], ['call', 'main', c.cr, 'i32:' + h]];
    if (c.depth && n === c.long) {
      const d = 'i32:' + c.depth.toString(16);
      want.push(ref.call('unrolled', [d, 'i64:9'], ['i64'])); script.push(['call', 'rec', c.cr, d, 'i64:9']);
    }
    script.push(['mem'], ['globals']);
    want.push('mem ' + ref.mem().length, 'globals ' + ref.globals(c.m), 'done');
    const r = runDriver(c.variant, script, new World({ files }));
    evals++;
    const got = r.lines.map(normLine);
    if (r.end !== 'ok') return bad('ended', `${n} iterations: ${r.end} ${r.error || ''} after "${got[got.length - 1]}"`);
    for (let i = 0; i < want.length; i++) if (got[i] !== want[i]) return bad('result', `${n} iterations: line ${i}: chiwawa "${got[i]}" reference "${want[i]}"`);
    if (!r.blobs[0].equals(ref.mem())) return bad('memory', `${n} iterations: memory differs`);
    if (!(c.depth && n === c.long)) res[n] = r.bytes;
  }
  // growing by 8 bytes an iteration would show
  if (!c.depth && res[c.long] - res[c.short] > 2 * 65536) return bad('growth', `the interpreter needs ${res[c.short]} bytes for ${c.short} iterations and ${res[c.long]} for ${c.long}`);
  return { nontrivial: true, evals, counters: { ...c.counts, ['shape_' + c.shape]: 1, [c.variant]: 1, iterations: c.long + c.short, recursions: c.depth ? 1 : 0, [c.cr === '1' ? 'checkpointable' : 'plain']: 1 }, fail: null };
}
const show = (c) => `variant ${c.variant} iterations ${c.short} and ${c.long} depth ${c.depth} cr ${c.cr}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 2400, thorough: 40000 }, chunk: 5,
  rule: 'Random loop bodies (every numeric instruction, memory, bulk, globals, tables, references, nested control, branches over operands, early returns, all call kinds, host calls) run for up to 37500 and again for 8 times as many iterations (20000-300000), in three loop shapes; in a quarter of the cases also recursion 3000-30000 deep, against an unrolled loop. Results, memory and globals are compared with V8, and the memory the interpreter itself needs may not grow with the number of iterations (by more than 128 KiB). Every case is non-trivial.',
  assumptions: ['V8 implements the WebAssembly core specification', 'the stack of the host is that of node with 3.9 MB'],
};
