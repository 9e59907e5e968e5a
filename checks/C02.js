'use strict';
// C02: every numeric instruction, all operand classes, all ways operands arrive and leave.
const G = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { expected, compare } = require('../lib/diffcore');
const { OPSIG, ALL_OPS } = G;
const BITEXACT = (op) => /\.(abs|neg|copysign|reinterpret_)/.test(op) || op.startsWith('i');

const VALS = { i32: G.I32S, i64: G.I64S, f32: [...G.F32S, ...G.F32NAN], f64: [...G.F64S, ...G.F64NAN] };
const fb = new DataView(new ArrayBuffer(8));
const f32of = (x) => { fb.setFloat32(0, x); return fb.getUint32(0); };
const f64of = (x) => { fb.setFloat64(0, x); return fb.getBigUint64(0); };
const rnd64 = (s) => (BigInt(s.u32()) << 32n) | BigInt(s.u32());
const okF = (t, v) => (isNaNBits(t, v) ? (t === 'f32' ? 0x7f7fffff : 0x7fefffffffffffffn) : v);
// integers around powers of two, runs of ones, single bytes
function shapedInt(s, w) {
  const W = BigInt(w); let v;
  switch (s.draw(5)) {
    case 0: v = (1n << BigInt(s.draw(w))) + BigInt(s.range(-1, 1)); break;
    case 1: { const a = s.draw(w), b = s.draw(w); v = ((1n << BigInt(Math.max(a, b) + 1)) - 1n) ^ ((1n << BigInt(Math.min(a, b))) - 1n); break; }
    case 2: v = BigInt(s.draw(256)) << BigInt(8 * s.draw(w / 8)); break;
    case 3: v = rnd64(s) >> BigInt(s.draw(64)); break;
    default: v = rnd64(s) & -(1n << BigInt(s.draw(w))); break;
  }
  if (s.chance(1, 3)) v = ~v;
  return w === 32 ? Number(BigInt.asIntN(32, v)) : BigInt.asIntN(Number(W), v);
}
function shapedF(s, t) {
  const E = t === 'f32' ? 8 : 11, M = t === 'f32' ? 23 : 52;
  const e = BigInt(s.pick([0, 1, (1 << E) - 2, (1 << (E - 1)) - 1 + s.range(-3, 3), (1 << (E - 1)) - 1 + M + s.range(-2, 2), s.draw((1 << E) - 1)]));
  const full = (1n << BigInt(M)) - 1n;
  const m = s.pick([0n, 1n, full, full - 1n, 1n << BigInt(M - 1), (1n << BigInt(M - 1)) + 1n, (1n << BigInt(M - 1)) - 1n, rnd64(s) & full, full ^ ((1n << BigInt(s.draw(M))) - 1n), 1n << BigInt(s.draw(M))]);
  const b = (BigInt(s.draw(2)) << BigInt(E + M)) | (e << BigInt(M)) | m;
  return t === 'f32' ? Number(b) : b;
}
// values at and beside the midpoint of two representable results
function midpointInt(s, w, mant) {
  const k = s.range(1, w - mant); // bits lost
  let v = ((1n << BigInt(mant - 1)) | (rnd64(s) & ((1n << BigInt(mant - 1)) - 1n))) << BigInt(k);
  v += (1n << BigInt(k - 1)) + BigInt(s.range(-1, 1));
  if (s.chance(1, 4)) v = ((1n << BigInt(mant + k)) - 1n) - BigInt(s.draw(2)) * (1n << BigInt(k - 1));
  if (s.bool()) v = -v;
  return w === 32 ? Number(BigInt.asIntN(32, v)) : BigInt.asIntN(64, v);
}
function midpointF64(s) { // between two f32 values, subnormal ones included
  const b = s.bool() ? s.u32() & 0x7fffffff : s.range(0, 0xffffff); fb.setUint32(0, b); const a = fb.getFloat32(0); fb.setUint32(0, b + 1); const c = fb.getFloat32(0);
  if (!Number.isFinite(a)) return 0x47efffffefffffffn + BigInt(s.range(0, 2)); // overflow threshold
  let v = f64of((a + (Number.isFinite(c) ? c : 3.402823669209385e38)) / 2);
  v += BigInt(s.range(-1, 1)); if (v < 0n) v = 0n;
  return v | (BigInt(s.draw(2)) << 63n);
}
function nearInt(s, t) { // floats around integers and the ranges of the integer types
  let x;
  switch (s.draw(3)) {
    case 0: x = s.pick([2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 23, 2 ** 24, 2 ** 52, 2 ** 53]); break;
    case 1: x = s.range(0, 100) + s.pick([0, 0.5, 0.25, 0.75]); break;
    default: x = Math.floor(2 ** s.draw(64)) + s.pick([-1, 0, 1]) * 0.5; break;
  }
  if (s.bool()) x = -x;
  if (t === 'f32') { const b = f32of(x); return b & 0x7fffffff ? (b + s.range(-1, 1)) >>> 0 : b; }
  const b = f64of(x); return b & 0x7fffffffffffffffn ? b + BigInt(s.range(-1, 1)) : b;
}
function operand(s, t, op, i, prev) {
  const k = s.weighted([[2, 'gen'], [3, 'special'], [3, 'shaped'], [4, 'op'], [i ? 4 : 0, 'related']]);
  if (k === 'gen') return { i32: G.genI32, i64: G.genI64, f32: G.genF32, f64: G.genF64 }[t](s, true);
  if (k === 'special') return s.pick(VALS[t]);
  if (k === 'related') { // to the first operand
    if (t === 'i32') return s.pick([prev, prev + s.range(-1, 1), -prev, ~prev, prev ^ (1 << s.draw(32)), s.range(0, 70), s.pick([31, 32, 33, 63, 64, 65, -1, -32])]) | 0;
    if (t === 'i64') return BigInt.asIntN(64, s.pick([prev, prev + BigInt(s.range(-1, 1)), -prev, ~prev, prev ^ (1n << BigInt(s.draw(64))), BigInt(s.range(0, 140)), s.pick([63n, 64n, 65n, -1n, -64n, 1n << 32n])]));
    if (t === 'f32') return okF(t, s.pick([prev, (prev + s.range(-1, 1)) >>> 0, (prev ^ 0x80000000) >>> 0, (prev ^ 0x80000000 ^ s.draw(4)) >>> 0, ((prev & 0x7f800000) | s.draw(0x800000)) >>> 0, Math.max(0, (prev & 0x7f800000) - (s.draw(26) << 23)) + s.draw(0x800000)]));
    const p = BigInt.asUintN(64, prev); const lo = BigInt(s.draw(55)) << 52n; const e = p & 0x7ff0000000000000n; const fr = rnd64(s) & 0xfffffffffffffn;
    return okF(t, BigInt.asUintN(64, s.pick([p, p + BigInt(s.range(-1, 1)), p ^ (1n << 63n), p ^ (1n << 63n) ^ BigInt(s.draw(4)), e | fr, (e > lo ? e - lo : 0n) | fr])));
  }
  if (k === 'op') {
    const mm = /^f(32|64)\.convert_i(32|64)/.exec(op);
    if (mm && !(mm[1] === '64' && mm[2] === '32')) return midpointInt(s, Number(mm[2]), mm[1] === '32' ? 24 : 53);
    if (op === 'f32.demote_f64') return midpointF64(s);
    if (t[0] === 'f' && /trunc|nearest|ceil|floor/.test(op)) return okF(t, nearInt(s, t));
    if (/\.(div|rem)_s$/.test(op) && s.bool()) return t === 'i32' ? (i ? -1 : -0x80000000) : (i ? -1n : -(1n << 63n));
  }
  return t === 'i32' || t === 'i64' ? shapedInt(s, t === 'i32' ? 32 : 64) : okF(t, shapedF(s, t));
}
function isNaNBits(t, v) { return t === 'f32' ? (v & 0x7f800000) === 0x7f800000 && (v & 0x7fffff) !== 0 : t === 'f64' ? (v & 0x7ff0000000000000n) === 0x7ff0000000000000n && (v & 0xfffffffffffffn) !== 0n : false; }
function hex(t, v) { return t === 'i32' || t === 'f32' ? (Number(v) >>> 0).toString(16) : BigInt.asUintN(64, v).toString(16); }
const SUPPLY = ['param', 'param', 'const', 'global', 'local', 'tee', 'calc', 'load', 'block', 'call', 'below'];
const SINK = ['return', 'bits', 'set', 'tee', 'store', 'drop2', 'select', 'second', 'gset', 'if', 'chain', 'arg'];

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const types = []; const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const m = { types, imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [], mem: { min: 1 } };
  m.globals.push({ t: 'i32', mut: true, init: ['i32.const', 0] });
  for (const t of ['i32', 'i64', 'f32', 'f64']) m.globals.push({ t, mut: true, init: G.zero(t) });
  const GSET = { i32: 1, i64: 2, f32: 3, f64: 4 };
  m.exports.push({ name: '_r', kind: 'func', idx: 0 });
  m.funcs.push({ type: ty([], []), locals: [], code: [] });
  // identity functions, used to receive and return values
  const ID = {};
  for (const t of ['i32', 'i64', 'f32', 'f64']) { ID[t] = m.funcs.length; m.funcs.push({ type: ty([t], [t]), locals: [], code: [['local.get', 0]] }); }
  const calls = [];
  const ops = [];
  const focus = s.bool() ? s.pick(ALL_OPS) : null;
  const nf = s.range(1, 24);
  let memAt = 1024;
  for (let k = 0; k < nf; k++) {
    const op = focus || s.pick(ALL_OPS);
    const [ps, r] = OPSIG[op];
    const operands = () => { const v = []; ps.forEach((t, i) => v.push(operand(s, t, op, i, v[0]))); return v; };
    const vals = operands();
    const sup = ps.map((t, i) => { let u = s.pick(SUPPLY); if (u === 'param' && isNaNBits(t, vals[i])) u = 'const'; return u; });
    const sink = s.pick(SINK);
    const P = []; const params = []; const locals = []; const code = []; const pre = [];
    const addLocal = (t) => { locals.push(t); return () => P.length + locals.indexOf(t); };
    // parameters first, so that local indices are known
    ps.forEach((t, i) => { if (sup[i] === 'param') { P.push(t); params.push(`${t}:${hex(t, vals[i])}`); } });
    let pi = 0;
    const newLocal = (t) => { locals.push(t); return P.length + locals.length - 1; };
    const C = (t, v) => [t + '.const', v];
    // a value below the operands, which must survive
    const junk = sup.includes('below');
    if (junk) code.push(C('i32', 77));
    ps.forEach((t, i) => {
      const v = vals[i];
      switch (sup[i]) {
        case 'param': code.push(['local.get', pi++]); break;
        case 'const': case 'below': code.push(C(t, v)); break;
        case 'global': { m.globals.push({ t, mut: s.bool(), init: C(t, v) }); code.push(['global.get', m.globals.length - 1]); break; }
        case 'local': { const l = newLocal(t); pre.push(C(t, v), ['local.set', l]); code.push(['local.get', l]); break; }
        case 'tee': { const l = newLocal(t); code.push(C(t, v), ['local.tee', l]); break; }
        case 'calc': { // a value that went through another instruction
          if (t === 'i32') code.push(C('i32', v ^ 0x5a5a5a5a), C('i32', 0x5a5a5a5a), ['i32.xor']);
          else if (t === 'i64') code.push(C('i64', BigInt.asIntN(64, v ^ 0x5a5a5a5a5a5a5a5an)), C('i64', 0x5a5a5a5a5a5a5a5an), ['i64.xor']);
          else if (t === 'f32') code.push(C('i32', v | 0), ['f32.reinterpret_i32']);
          else code.push(C('i64', BigInt.asIntN(64, v)), ['f64.reinterpret_i64']);
          break;
        }
        case 'load': {
          const n = t === 'i32' || t === 'f32' ? 4 : 8; const bytes = []; let x = BigInt.asUintN(64, BigInt(n === 4 ? Number(v) >>> 0 : v)); for (let b = 0; b < n; b++) { bytes.push(Number(x & 255n)); x >>= 8n; }
          m.datas.push({ offset: ['i32.const', memAt], bytes }); code.push(C('i32', memAt), [t + '.load', { offset: 0, align: 0 }]); memAt += 8; break;
        }
        case 'block': code.push(['block', t], C(t, v), ['end']); break;
        case 'call': code.push(C(t, v), ['call', ID[t]]); break;
      }
    });
    code.push([op]);
    let R = [r];
    const bits = (t) => { if (t === 'f32') { code.push(['i32.reinterpret_f32']); return 'i32'; } if (t === 'f64') { code.push(['i64.reinterpret_f64']); return 'i64'; } return t; };
    // NaN payloads are observed only where they are determined
    const exact = BITEXACT(op);
    const canon = () => { if (r[0] !== 'f' || exact) return; const l = newLocal(r); code.push(['local.tee', l], C(r, r === 'f32' ? 0x7fc00000 : 0x7ff8000000000000n), ['local.get', l], ['local.get', l], [r + '.eq'], ['select']); };
    switch (sink) {
      case 'return': break;
      case 'bits': canon(); R = [bits(r)]; break;
      case 'set': { const l = newLocal(r); code.push(['local.set', l], ['local.get', l]); canon(); R = [bits(r)]; break; }
      case 'tee': { const l = newLocal(r); code.push(['local.tee', l], ['drop'], ['local.get', l]); canon(); R = [bits(r)]; break; }
      case 'store': { canon(); const l = newLocal(r); code.push(['local.set', l], C('i32', 64 + 8 * k), ['local.get', l], [r + '.store', { offset: 0, align: 0 }], C('i32', 1)); R = ['i32']; break; }
      case 'drop2': { const l = newLocal(r); code.push(['local.tee', l], C('i32', 5), ['drop'], ['drop'], ['local.get', l]); canon(); R = [bits(r)]; break; }
      case 'select': { canon(); code.push(G.zero(r), C('i32', 1), ['select']); R = [bits(r)]; break; }
      case 'second': { // as the second operand of another instruction
        canon(); const q = bits(r); const l = newLocal(q); code.push(['local.set', l], q === 'i32' ? C('i32', 0x1234567) : C('i64', 0x1234567n), ['local.get', l], [q + '.sub']); R = [q]; break;
      }
      case 'gset': canon(); code.push(['global.set', GSET[r]], ['global.get', GSET[r]]); R = [bits(r)]; break;
      case 'if': { canon(); const q = bits(r); const l = newLocal(q); code.push(['local.tee', l], ...(q === 'i64' ? [['i64.eqz']] : []), ['if', 'i32'], C('i32', 11), ['else'], C('i32', 22), ['end'], ['local.get', l]); R = ['i32', q]; break; }
      case 'chain': { canon(); const q = bits(r); code.push(q === 'i32' ? C('i32', 13) : C('i64', 13n), [q + '.rotl'], q === 'i32' ? C('i32', 3) : C('i64', 3n), [q + '.add']); R = [q]; break; }
      case 'arg': canon(); code.push(['call', ID[r]]); R = [bits(r)]; break;
    }
    if (junk) R = ['i32', ...R];
    m.funcs.push({ type: ty(P, R), locals, code: [...pre, ...code] });
    const name = 'f' + k;
    m.exports.push({ name, kind: 'func', idx: m.funcs.length - 1 });
    calls.push({ name, params, results: R });
    if (P.length === ps.length) for (let n = s.draw(6); n > 0; n--) { // more operands for the same code
      const v = operands(); if (ps.some((t, i) => isNaNBits(t, v[i]))) continue;
      calls.push({ name, params: ps.map((t, i) => `${t}:${hex(t, v[i])}`), results: R });
    }
    ops.push({ op, sup, sink });
  }
  m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
  m.globals.forEach((g, i) => m.exports.push({ name: 'g' + i, kind: 'global', idx: i }));
  return { m, calls, variant, ops };
}
// a host-delegated trap ends the interpreter: the remaining calls go to a fresh one
function run(c) {
  const bytes = encode(c.m);
  let calls = c.calls, evals = 0, traps = 0;
  for (;;) {
    const exp = expected(c.m, bytes, calls);
    traps += exp.traps;
    const first = exp.out.findIndex(l => l === 'trap');
    const d = compare(c.m, bytes, calls, c.variant, exp);
    evals += calls.length;
    if (d) return { fail: { sig: d.kind, detail: `[${c.variant}] ${d.detail}` }, evals };
    if (first < 0) break;
    const rest = Math.floor((first - 1) / 2) + 1; // lines: loaded, then two per call
    calls = calls.slice(rest);
    if (!calls.length) break;
  }
  return { nontrivial: true, evals, counters: { functions: c.calls.length, traps, [c.variant]: 1 }, fail: null };
}
const show = (c) => `variant ${c.variant}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 45000, thorough: 1200000 }, chunk: 50,
  rule: 'Each case is a module of 1-24 functions, each applying one of the 128 numeric instructions to operands that arrive one of 10 ways (parameter, constant, global, local, tee, computed, loaded, block result, call result, over a live value) and whose result leaves one of 12 ways; functions taking only parameters are called with up to 6 operand vectors. Operands are boundary values, shaped patterns (powers of two, runs of ones, every exponent class), values at and beside rounding midpoints and integer-range limits chosen per instruction, second operands related to the first, or random; evaluations counts calls. All cases are non-trivial; distinct by choice sequence.',
  assumptions: ['V8 implements the WebAssembly numeric instructions', 'NaN payloads are compared only for instructions that determine them'],
};
