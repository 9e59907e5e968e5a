'use strict';
// Typed random generator of valid, terminating, deterministic WebAssembly modules.
//
// Programs are produced by a random walk over a typed operand stack, so values stay
// on the stack across statements, blocks and calls; operators take operands that are
// already there or generate what is missing. Every draw comes from a Source, so a
// module is a pure function of its choice sequence and can be shrunk.

const OPSIG = {};
(function () {
  const T = ['i32', 'i64', 'f32', 'f64'];
  for (const t of ['i32', 'i64']) {
    OPSIG[t + '.eqz'] = [[t], 'i32'];
    for (const o of ['eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u']) OPSIG[`${t}.${o}`] = [[t, t], 'i32'];
    for (const o of ['clz', 'ctz', 'popcnt', 'extend8_s', 'extend16_s']) OPSIG[`${t}.${o}`] = [[t], t];
    for (const o of ['add', 'sub', 'mul', 'div_s', 'div_u', 'rem_s', 'rem_u', 'and', 'or', 'xor', 'shl', 'shr_s', 'shr_u', 'rotl', 'rotr']) OPSIG[`${t}.${o}`] = [[t, t], t];
    for (const f of ['f32', 'f64']) for (const sg of ['s', 'u']) {
      OPSIG[`${t}.trunc_${f}_${sg}`] = [[f], t];
      OPSIG[`${t}.trunc_sat_${f}_${sg}`] = [[f], t];
      OPSIG[`${f}.convert_${t}_${sg}`] = [[t], f];
    }
  }
  OPSIG['i64.extend32_s'] = [['i64'], 'i64'];
  for (const t of ['f32', 'f64']) {
    for (const o of ['eq', 'ne', 'lt', 'gt', 'le', 'ge']) OPSIG[`${t}.${o}`] = [[t, t], 'i32'];
    for (const o of ['abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt']) OPSIG[`${t}.${o}`] = [[t], t];
    for (const o of ['add', 'sub', 'mul', 'div', 'min', 'max', 'copysign']) OPSIG[`${t}.${o}`] = [[t, t], t];
  }
  OPSIG['i32.wrap_i64'] = [['i64'], 'i32'];
  OPSIG['i64.extend_i32_s'] = [['i32'], 'i64'];
  OPSIG['i64.extend_i32_u'] = [['i32'], 'i64'];
  OPSIG['f32.demote_f64'] = [['f64'], 'f32'];
  OPSIG['f64.promote_f32'] = [['f32'], 'f64'];
  OPSIG['i32.reinterpret_f32'] = [['f32'], 'i32'];
  OPSIG['i64.reinterpret_f64'] = [['f64'], 'i64'];
  OPSIG['f32.reinterpret_i32'] = [['i32'], 'f32'];
  OPSIG['f64.reinterpret_i64'] = [['i64'], 'f64'];
})();
// ops whose NaN result bits are not determined by the specification
const NANOP = new Set();
for (const t of ['f32', 'f64']) for (const o of ['ceil', 'floor', 'trunc', 'nearest', 'sqrt', 'add', 'sub', 'mul', 'div', 'min', 'max']) NANOP.add(`${t}.${o}`);
NANOP.add('f32.demote_f64'); NANOP.add('f64.promote_f32');
const BITOBS = new Set(['i32.reinterpret_f32', 'i64.reinterpret_f64']);
const TRAPPY = new Set(['div_s', 'div_u', 'rem_s', 'rem_u']);
const isTrappy = (op) => TRAPPY.has(op.split('.')[1]) || /\.trunc_f/.test(op);

const OPS_BY_RESULT = { i32: [], i64: [], f32: [], f64: [] };
for (const o in OPSIG) OPS_BY_RESULT[OPSIG[o][1]].push(o);
const ALL_OPS = Object.keys(OPSIG);

const I32S = [0, 1, -1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, -0x80000000, -0x7fffffff, 0x55555555, -2, -128, -32768, 1000];
const I64S = [0n, 1n, -1n, 2n, 3n, 31n, 32n, 63n, 64n, 65n, 127n, 128n, 255n, 0xffffn, 0x7fffffffn, 0x80000000n, 0xffffffffn, 0x100000000n, -0x80000000n, -0x80000001n, 0x7fffffffffffffffn, -0x8000000000000000n, -0x7fffffffffffffffn, 0x5555555555555555n, -2n, -128n, -32768n];
const F32S = [0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x40000000, 0x3f000000, 0xbf000000, 0x3fc00000, 0x40200000, 0xc0200000, 0x7f800000, 0xff800000, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x4f000000, 0xcf000000, 0x4f7fffff, 0x4f800000, 0x4effffff, 0x5f000000, 0xdf000000, 0x5f800000, 0x5effffff, 0x42f60000, 0x4b000001, 0x4b800000, 0x3effffff, 0xbf7fffff, 0x3f7fffff];
const F32NAN = [0x7fc00000, 0xffc00000, 0x7fa00000, 0xffa12345, 0x7fc00001];
const F64S = ['0', '8000000000000000', '3ff0000000000000', 'bff0000000000000', '4000000000000000', '3fe0000000000000', 'bfe0000000000000', '3ff8000000000000', '4004000000000000', 'c004000000000000', '7ff0000000000000', 'fff0000000000000', '1', '8000000000000001', 'fffffffffffff', '10000000000000', '7fefffffffffffff', 'ffefffffffffffff', '41e0000000000000', 'c1e0000000000000', 'c1e0000000200000', 'c1e00000001fffff', '41dfffffffc00000', '41dfffffffe00000', '41f0000000000000', '41efffffffe00000', '41efffffffffffff', '43e0000000000000', 'c3e0000000000000', 'c3e0000000000001', '43dfffffffffffff', '43f0000000000000', '43efffffffffffff', 'bfefffffffffffff', '3fefffffffffffff', '3fdfffffffffffff', '4330000000000001', '4340000000000000', '47efffffe0000000', '47effffff0000000', '36a0000000000000', '380fffffe0000000'].map(x => BigInt('0x' + x));
const F64NAN = ['7ff8000000000000', 'fff8000000000000', '7ff4000000000000', 'fff4000012345678', '7ff8000000000001'].map(x => BigInt('0x' + x));

function genI32(s) { switch (s.weighted([[4, 0], [3, 1], [2, 2]])) { case 0: return s.range(0, 20); case 1: return s.pick(I32S) | 0; default: return s.u32() | 0; } }
function genI64(s) { switch (s.weighted([[4, 0], [3, 1], [2, 2]])) { case 0: return BigInt(s.range(0, 20)); case 1: return s.pick(I64S); default: return BigInt.asIntN(64, (BigInt(s.u32()) << 32n) | BigInt(s.u32())); } }
const fb = new DataView(new ArrayBuffer(8));
function genF32(s, nan) {
  switch (s.weighted([[3, 0], [4, 1], [2, 2], [nan ? 1 : 0, 3]])) {
    case 0: fb.setFloat32(0, s.range(0, 40) / 4 - (s.bool() ? 10 : 0)); return fb.getUint32(0);
    case 1: return s.pick(F32S);
    case 2: { const b = s.u32(); if ((b & 0x7f800000) === 0x7f800000 && (b & 0x7fffff)) return nan ? b >>> 0 : 0x3f800000; return b >>> 0; }
    default: return s.pick(F32NAN);
  }
}
function genF64(s, nan) {
  switch (s.weighted([[3, 0], [4, 1], [2, 2], [nan ? 1 : 0, 3]])) {
    case 0: fb.setFloat64(0, s.range(0, 40) / 4 - (s.bool() ? 10 : 0)); return fb.getBigUint64(0);
    case 1: return s.pick(F64S);
    case 2: { const b = (BigInt(s.u32()) << 32n) | BigInt(s.u32()); if ((b & 0x7ff0000000000000n) === 0x7ff0000000000000n && (b & 0xfffffffffffffn)) return nan ? b : 0x3ff0000000000000n; return b; }
    default: return s.pick(F64NAN);
  }
}
function genConst(s, t, nan) {
  switch (t) {
    case 'i32': return ['i32.const', genI32(s)];
    case 'i64': return ['i64.const', genI64(s)];
    case 'f32': return ['f32.const', genF32(s, nan)];
    case 'f64': return ['f64.const', genF64(s, nan)];
    case 'funcref': return ['ref.null', 'funcref'];
    case 'externref': return ['ref.null', 'externref'];
  }
  throw new Error('const ' + t);
}
function zero(t) {
  switch (t) { case 'i32': return ['i32.const', 0]; case 'i64': return ['i64.const', 0n]; case 'f32': return ['f32.const', 0]; case 'f64': return ['f64.const', 0n]; }
  return ['ref.null', t];
}
const NUM = ['i32', 'i64', 'f32', 'f64'];

const DEFAULTS = {
  maxFuncs: 4, maxSteps: 40, maxDepth: 5, fuel: 60, nan: 'A', mem: true, table: true, grow: true, bulk: true,
  multi: true, blockParams: true, loopParams: true, mixedBr: true, brFunc: true, dead: true, refs: true, refSelect: true,
  trappy: true, deadPoly: false, dataDrop: true, growHuge: true, wasiImport: null, start: false, floats: true, calls: true,
};

class ModGen {
  constructor(s, opt) {
    this.s = s; this.o = Object.assign({}, DEFAULTS, opt);
    this.types = [];
    this.m = { types: this.types, imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [] };
  }
  typeIdx(p, r) {
    for (let i = 0; i < this.types.length; i++) if (this.types[i].p.join() === p.join() && this.types[i].r.join() === r.join()) return i;
    this.types.push({ p, r }); return this.types.length - 1;
  }
  valTypes(n) { const r = []; for (let i = 0; i < n; i++) r.push(this.vt()); return r; }
  // value types that may include references
  vtr() { return this.o.refs && this.s.chance(1, 14) ? this.s.pick(['funcref', 'externref']) : this.vt(); }
  valTypesR(n) { const r = []; for (let i = 0; i < n; i++) r.push(this.vtr()); return r; }
  vt() { const s = this.s; if (!this.o.floats) return s.weighted([[3, 'i32'], [2, 'i64']]); return s.weighted([[5, 'i32'], [3, 'i64'], [2, 'f32'], [2, 'f64']]); }
  build() {
    const s = this.s, o = this.o, m = this.m;
    if (o.wasiImport) for (const [name, p, r] of o.wasiImport) m.imports.push({ mod: 'wasi_snapshot_preview1', name, type: this.typeIdx(p, r) });
    const ni = m.imports.length;
    const nf = s.range(1, o.maxFuncs);
    this.sigs = [];
    for (let i = 0; i < nf; i++) {
      const np = s.weighted([[3, 1], [3, 2], [2, 0], [2, 3], [1, 5]]);
      const nr = o.multi ? s.weighted([[6, 1], [2, 0], [3, 2], [1, 3], [1, s.range(4, 6)]]) : s.weighted([[6, 1], [1, 0]]);
      this.sigs.push({ p: this.valTypesR(np), r: this.valTypesR(nr) });
    }
    // globals: 0 is the fuel counter
    m.globals.push({ t: 'i32', mut: true, init: ['i32.const', o.fuel] });
    const ng = s.range(0, 4);
    for (let i = 0; i < ng; i++) { const t = this.vt(); m.globals.push({ t, mut: !s.chance(1, 4), init: genConst(s, t, false) }); }
    if (o.mem) {
      m.mem = { min: s.weighted([[5, 1], [1, 2]]), max: s.weighted([[3, undefined], [2, 4], [1, 2]]) };
      this.memBytes = m.mem.min * 65536;
      const nd = s.range(0, 2);
      for (let i = 0; i < nd; i++) {
        const bytes = []; const n = s.range(0, 24); for (let k = 0; k < n; k++) bytes.push(s.draw(256));
        m.datas.push({ offset: s.chance(1, 2) && o.bulk ? null : ['i32.const', s.range(0, 300)], bytes });
      }
    }
    if (o.table && s.chance(3, 4)) {
      const n = s.range(1, 8);
      m.table = { min: n, max: s.bool() ? n + 4 : undefined };
      const ne = s.range(0, n); const funcs = [];
      for (let i = 0; i < ne; i++) funcs.push(ni + s.draw(nf));
      if (ne) {
        m.elems.push({ offset: ['i32.const', s.draw(n - ne + 1)], funcs });
        if (s.chance(1, 4)) { m.elems[0].mode = 'exprs'; m.elems[0].funcs = funcs.map(f => (s.chance(1, 5) ? null : f)); }
      }
      if (s.chance(1, 4)) { // a later segment over part of the first
        const k = s.range(1, Math.min(3, n)); const fs = []; for (let i = 0; i < k; i++) fs.push(ni + s.draw(nf));
        m.elems.push({ offset: ['i32.const', s.draw(n - k + 1)], funcs: fs });
      }
      if (s.chance(1, 8)) m.elems.push({ mode: s.pick(['passive', 'declarative']), funcs: [ni + s.draw(nf)] });
    }
    for (let i = 0; i < nf; i++) { const t = this.sigs[i]; m.funcs.push({ type: this.typeIdx(t.p, t.r), locals: [], code: [] }); }
    for (let i = 0; i < nf; i++) new FnGen(this, i).build();
    for (let i = 0; i < nf; i++) m.exports.push({ name: 'f' + i, kind: 'func', idx: ni + i });
    // reset export
    m.funcs.push({ type: this.typeIdx([], []), locals: [], code: [['i32.const', o.fuel], ['global.set', 0]] });
    m.exports.push({ name: '_r', kind: 'func', idx: ni + nf });
    if (m.mem) m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
    m.globals.forEach((g, i) => m.exports.push({ name: 'g' + i, kind: 'global', idx: i }));
    m.sigs = this.sigs;
    return m;
  }
  genParams(sig) {
    const s = this.s;
    return sig.p.map(t => {
      switch (t) {
        case 'i32': return 'i32:' + (genI32(s) >>> 0).toString(16);
        case 'i64': return 'i64:' + BigInt.asUintN(64, genI64(s)).toString(16);
        case 'f32': return 'f32:' + (genF32(s, false) >>> 0).toString(16);
        case 'f64': return 'f64:' + BigInt.asUintN(64, genF64(s, false)).toString(16);
        default: return 'ref:null';
      }
    });
  }
}

class FnGen {
  constructor(mg, i) {
    this.mg = mg; this.s = mg.s; this.o = mg.o; this.m = mg.m; this.i = i;
    this.sig = mg.sigs[i];
    this.locals = this.sig.p.slice();
    this.code = [];
    this.stack = [];
    this.ctrl = [];
    this.steps = 0;
  }
  addLocal(t) { this.locals.push(t); return this.locals.length - 1; }
  emit(...ins) { this.code.push(ins); }
  build() {
    const s = this.s, o = this.o;
    const nl = s.range(0, 6);
    for (let k = 0; k < nl; k++) this.addLocal(o.refs && s.chance(1, 12) ? (s.bool() ? 'funcref' : 'externref') : this.mg.vt());
    this.visible = this.locals.length;
    this.aLocals = o.mem ? [this.addLocal('i32'), this.addLocal('i32')] : [];
    this.tmp = { f32: null, f64: null };
    this.maxSteps = s.range(1, o.maxSteps);
    this.ctrl.push({ kind: 'func', base: 0, results: this.sig.r, params: [] });
    this.fuelCheck();
    this.seq(this.maxSteps);
    this.finish();
    const f = this.m.funcs[this.i];
    f.code = this.code;
    f.locals = this.locals.slice(this.sig.p.length);
  }
  fuelCheck() {
    this.emit('global.get', 0); this.emit('i32.eqz'); this.emit('if', null);
    for (const t of this.sig.r) this.emit(...zero(t));
    this.emit('return'); this.emit('end');
    this.emit('global.get', 0); this.emit('i32.const', 1); this.emit('i32.sub'); this.emit('global.set', 0);
  }
  cur() { return this.ctrl[this.ctrl.length - 1]; }
  avail() { return this.stack.length - this.cur().base; }
  top(k = 0) { return this.avail() > k ? this.stack[this.stack.length - 1 - k] : null; }
  pop(n = 1) { this.stack.length -= n; }
  push(t) { this.stack.push(t); }

  // closes the current construct: makes the stack above base equal to `results`
  finish() {
    const c = this.cur();
    if (!c.unreachable) this.shape(c.results);
    this.stack.length = c.base;
    for (const t of c.results) this.push(t);
  }
  // makes the operands above base exactly `want` (drops from the top until a prefix fits)
  shape(want) {
    const c = this.cur();
    let n = this.avail();
    const fits = () => { if (n > want.length) return false; for (let i = 0; i < n; i++) if (this.stack[c.base + i] !== want[i]) return false; return true; };
    while (!fits()) { this.dropTop(); n--; }
    for (let i = n; i < want.length; i++) this.expr(want[i], 1);
  }
  dropTop() {
    const t = this.top();
    if (this.s.chance(1, 3)) { const l = this.pickLocal(t); if (l !== null) { this.emit('local.set', l); this.pop(); return; } }
    this.emit('drop'); this.pop();
  }
  // makes the top of the stack end with `want` (junk may stay below)
  ensureTop(want) {
    let best = 0;
    for (let k = Math.min(want.length, this.avail()); k > 0; k--) {
      let ok = true;
      for (let i = 0; i < k; i++) if (this.stack[this.stack.length - k + i] !== want[i]) ok = false;
      if (ok) { best = k; break; }
    }
    if (best && this.s.chance(1, 5)) best = 0;
    for (let i = best; i < want.length; i++) this.expr(want[i], 2);
  }
  pickLocal(t) { const c = []; for (let i = 0; i < this.visible; i++) if (this.locals[i] === t) c.push(i); return c.length ? this.s.pick(c) : null; }
  pickGlobal(t, mut) { const c = []; this.m.globals.forEach((g, i) => { if (i > 0 && g.t === t && (!mut || g.mut)) c.push(i); }); return c.length ? this.s.pick(c) : null; }

  canon(t) {
    // top value (f32/f64): replace any NaN by one fixed NaN
    if (this.tmp[t] === null) this.tmp[t] = this.addLocal(t);
    const l = this.tmp[t];
    this.emit('local.tee', l);
    this.emit(t + '.const', t === 'f32' ? 0x7fc00000 : 0x7ff8000000000000n);
    this.emit('local.get', l); this.emit('local.get', l); this.emit(t + '.eq'); this.emit('select');
  }
  leaf(t) {
    const s = this.s;
    const l = this.pickLocal(t);
    const k = s.weighted([[4, 0], [l !== null ? 6 : 0, 1], [2, 2]]);
    if (k === 1) this.emit('local.get', l);
    else if (k === 2) { const g = this.pickGlobal(t, false); if (g !== null) this.emit('global.get', g); else this.emit(...genConst(s, t, true)); } else this.emit(...genConst(s, t, this.o.nan !== 'none'));
    this.push(t);
  }
  addr() {
    const s = this.s;
    switch (s.weighted([[4, 0], [3, 1], [3, 2], [1, 3]])) {
      case 0: this.emit('i32.const', s.range(0, 64)); break;
      case 1: this.emit('local.get', s.pick(this.aLocals)); break;
      case 2: this.expr('i32', 2); this.emit('i32.const', s.pick([0x3f, 0xff, 0x7fff])); this.emit('i32.and'); this.pop(); break;
      default: this.emit('i32.const', s.pick([0, 1, 0x7fff, 0x7ff8, 1024])); break;
    }
    this.push('i32');
  }
  memarg(size) {
    const s = this.s;
    const off = s.weighted([[4, 0], [3, s.range(0, 64)], [1, s.range(0, 0x7ff0)]]);
    let al = 0; while ((1 << (al + 1)) <= size) al++;
    return { offset: off, align: s.range(0, al) };
  }
  doOp(op) {
    const [ps, r] = OPSIG[op];
    if (isTrappy(op) && !this.s.chance(1, 3)) {
      // usually avoid the trap
      if (TRAPPY.has(op.split('.')[1])) {
        const t = ps[0];
        this.ensureTop([t, t]);
        this.emit(t + '.const', t === 'i32' ? 0xff : 0xffn); this.emit(t + '.and');
        this.emit(t + '.const', t === 'i32' ? 1 : 1n); this.emit(t + '.or');
        this.emit(op); this.pop(2); this.push(r); return;
      }
      const f = ps[0];
      this.ensureTop([f]);
      this.emit(f + '.const', f === 'f32' ? 0x4e800000 : 0x41d0000000000000n); this.emit(f + '.min');
      this.emit(f + '.const', 0 === 1 ? 0 : f === 'f32' ? 0 : 0n); this.emit(f + '.max');
      this.canonZero(f);
      this.emit(op); this.pop(); this.push(r); return;
    }
    this.ensureTop(ps);
    const last = ps[ps.length - 1];
    if (this.o.nan === 'A' && (BITOBS.has(op) || op.endsWith('.copysign'))) this.canon(last);
    this.emit(op);
    this.pop(ps.length); this.push(r);
    if (this.o.nan === 'B' && NANOP.has(op)) this.canon(r);
  }
  canonZero(t) { // NaN → 1.0
    if (this.tmp[t] === null) this.tmp[t] = this.addLocal(t);
    const l = this.tmp[t];
    this.emit('local.tee', l);
    this.emit(t + '.const', t === 'f32' ? 0x3f800000 : 0x3ff0000000000000n);
    this.emit('local.get', l); this.emit('local.get', l); this.emit(t + '.eq'); this.emit('select');
  }
  pickOp(r) {
    const s = this.s, o = this.o;
    for (;;) {
      let op;
      if (r) op = s.pick(OPS_BY_RESULT[r]); else op = s.pick(ALL_OPS);
      if (!o.trappy && isTrappy(op)) { if (r) return r === 'i32' ? 'i32.add' : 'i64.add'; continue; }
      if (!o.floats) { const [p] = OPSIG[op]; if (p[0][0] === 'f' || OPSIG[op][1][0] === 'f') return r === 'i64' ? 'i64.add' : 'i32.add'; }
      return op;
    }
  }
  // pushes one value of type t
  expr(t, depth) {
    const s = this.s, o = this.o;
    this.steps++;
    if (t === 'funcref' || t === 'externref') { this.leaf(t); return; }
    if (depth <= 0 || this.steps > this.maxSteps * 3) { this.leaf(t); return; }
    const k = s.weighted([[5, 'leaf'], [6, 'op'], [o.mem ? 2 : 0, 'load'], [1, 'select'], [o.calls ? 1 : 0, 'call'], [1, 'tee'], [1, 'block']]);
    const base = this.stack.length;
    switch (k) {
      case 'op': {
        const op = this.pickOp(t);
        const [ps, r] = OPSIG[op];
        for (const p of ps) this.expr(p, depth - 1);
        if (isTrappy(op)) { this.pop(ps.length); for (const p of ps) this.push(p); this.opOnStack(op); } else {
          if (o.nan === 'A' && (BITOBS.has(op) || op.endsWith('.copysign'))) this.canon(ps[ps.length - 1]);
          this.emit(op); this.pop(ps.length); this.push(r);
          if (o.nan === 'B' && NANOP.has(op)) this.canon(r);
        }
        break;
      }
      case 'load': this.load(t); break;
      case 'select': {
        this.expr(t, depth - 1); this.expr(t, depth - 1); this.expr('i32', depth - 1);
        if (s.chance(1, 3)) this.emit('select_t', t); else this.emit('select');
        this.pop(3); this.push(t); break;
      }
      case 'call': {
        const c = []; this.mg.sigs.forEach((g, i) => { if (g.r.length === 1 && g.r[0] === t) c.push(i); });
        if (!c.length) { this.leaf(t); break; }
        const f = s.pick(c);
        for (const p of this.mg.sigs[f].p) this.expr(p, depth - 1);
        this.emit('call', f + this.m.imports.length); this.pop(this.mg.sigs[f].p.length); this.push(t); break;
      }
      case 'tee': {
        this.expr(t, depth - 1);
        const l = this.pickLocal(t); if (l !== null) this.emit('local.tee', l);
        break;
      }
      case 'block': {
        if (this.ctrl.length > o.maxDepth) { this.leaf(t); break; }
        this.construct([], [t], true); break;
      }
      default: this.leaf(t);
    }
    if (this.stack.length !== base + 1) throw new Error('gen bug: expr ' + k);
  }
  opOnStack(op) {
    // operands are on the stack
    const [ps, r] = OPSIG[op];
    if (!this.s.chance(1, 3)) {
      if (TRAPPY.has(op.split('.')[1])) {
        const t = ps[0];
        this.emit(t + '.const', t === 'i32' ? 0xff : 0xffn); this.emit(t + '.and'); this.emit(t + '.const', t === 'i32' ? 1 : 1n); this.emit(t + '.or');
      } else {
        const f = ps[0];
        this.emit(f + '.const', f === 'f32' ? 0x4e800000 : 0x41d0000000000000n); this.emit(f + '.min');
        this.emit(f + '.const', f === 'f32' ? 0 : 0n); this.emit(f + '.max'); this.canonZero(f);
      }
    }
    this.emit(op); this.pop(ps.length); this.push(r);
  }
  load(t) {
    const s = this.s;
    const L = { i32: [['i32.load', 4], ['i32.load8_s', 1], ['i32.load8_u', 1], ['i32.load16_s', 2], ['i32.load16_u', 2]], i64: [['i64.load', 8], ['i64.load8_s', 1], ['i64.load8_u', 1], ['i64.load16_s', 2], ['i64.load16_u', 2], ['i64.load32_s', 4], ['i64.load32_u', 4]], f32: [['f32.load', 4]], f64: [['f64.load', 8]] }[t];
    const [op, sz] = s.pick(L);
    this.addr(); this.emit(op, this.memarg(sz)); this.pop(); this.push(t);
  }
  store() {
    const s = this.s;
    const [op, t, sz] = s.pick([['i32.store', 'i32', 4], ['i32.store8', 'i32', 1], ['i32.store16', 'i32', 2], ['i64.store', 'i64', 8], ['i64.store8', 'i64', 1], ['i64.store16', 'i64', 2], ['i64.store32', 'i64', 4], ...(this.o.floats ? [['f32.store', 'f32', 4], ['f64.store', 'f64', 8]] : [])]);
    this.addr(); this.expr(t, 2);
    if (this.o.nan === 'A' && t[0] === 'f') this.canon(t);
    this.emit(op, this.memarg(sz)); this.pop(2);
  }
  blockType(p, r) {
    if (!p.length && !r.length) return null;
    if (!p.length && r.length === 1 && !this.s.chance(1, 4)) return r[0];
    return this.mg.typeIdx(p, r);
  }
  // labels reachable by a branch whose operands we are willing to supply
  labelTypes(d) { const c = this.ctrl[this.ctrl.length - 1 - d]; return c.kind === 'loop' ? c.params : c.results; }
  labelOk(d) {
    const o = this.o; const c = this.ctrl[this.ctrl.length - 1 - d];
    if (c.kind === 'loop' && !c.openLoop) return false; // bounded loops: only their own back edge
    const t = this.labelTypes(d);
    if (c.kind === 'func' && !o.brFunc) return false;
    if (c.kind === 'loop' && t.length && !o.loopParams) return false;
    if (!o.mixedBr && new Set(t).size > 1) return false;
    return true;
  }
  labels() { const r = []; for (let d = 0; d < this.ctrl.length; d++) if (this.labelOk(d)) r.push(d); return r; }

  // block / loop / if with parameters taken from the stack top
  // `fresh`: the operands are generated, never taken from what is on the stack already
  construct(params, results, fresh) {
    const s = this.s, o = this.o;
    const kind = s.weighted([[4, 'block'], [3, 'if'], [3, 'loop']]);
    let n = s.range(0, 6);
    if (this.steps > this.maxSteps * 3) n = 0;
    if (kind === 'loop' && params.length && !o.loopParams) params = params.slice(0, 0);
    const need = (w) => (fresh ? this.ensureTopPlain(w) : this.ensureTop(w));
    if (kind === 'if') {
      need([...params, 'i32']); this.pop(1);
      this.emit('if', this.blockType(params, results));
    } else {
      if (kind === 'loop') {
        if (s.bool()) { // bounded
          const c = this.addLocal('i32');
          this.emit('i32.const', s.range(1, 4)); this.emit('local.set', c);
          need(params);
          this.emit('loop', this.blockType(params, results));
          this.pop(params.length);
          this.ctrl.push({ kind: 'loop', base: this.stack.length, params, results, openLoop: false });
          for (const t of params) this.push(t);
          this.seq(n);
          if (!this.cur().unreachable) {
            // back edge: operands = params
            this.ensureTopPlain(params);
            this.emit('local.get', c); this.emit('i32.const', 1); this.emit('i32.sub'); this.emit('local.tee', c);
            this.emit('br_if', 0);
          }
          this.finish(); this.emit('end'); this.ctrl.pop();
          return;
        }
        need(params);
        this.emit('loop', this.blockType(params, results));
        this.pop(params.length);
        this.ctrl.push({ kind: 'loop', base: this.stack.length, params, results, openLoop: true });
        for (const t of params) this.push(t);
        this.fuelCheck();
        this.seq(n);
        this.finish(); this.emit('end'); this.ctrl.pop();
        return;
      }
      need(params);
      this.emit('block', this.blockType(params, results));
    }
    this.pop(params.length);
    const base = this.stack.length;
    this.ctrl.push({ kind, base, params, results });
    for (const t of params) this.push(t);
    this.seq(n);
    this.finish();
    if (kind === 'if') {
      const same = params.join() === results.join();
      if (!same || s.chance(1, 2)) {
        this.emit('else');
        this.ctrl.pop(); this.stack.length = base;
        this.ctrl.push({ kind, base, params, results });
        for (const t of params) this.push(t);
        this.seq(s.range(0, 4));
        this.finish();
      }
    }
    this.emit('end');
    this.ctrl.pop();
  }
  ensureTopPlain(want) { for (const t of want) this.expr(t, 1); }
  dead() {
    const c = this.cur();
    c.unreachable = true;
    this.stack.length = c.base;
    if (this.o.dead && this.s.chance(1, 4)) { const t = this.mg.vt(); this.expr(t, 1); this.emit('drop'); this.pop(); this.stack.length = c.base; }
  }
  seq(n) { for (let i = 0; i < n; i++) { if (this.cur().unreachable) break; this.step(); } }
  step() {
    const s = this.s, o = this.o;
    this.steps++;
    const over = this.steps > this.maxSteps * 3;
    const deep = this.ctrl.length > o.maxDepth || over;
    const a = s.weighted([
      [1, 'nop'], [4, 'leaf'], [8, 'op'], [4, 'set'], [2, 'tee'], [2, 'gset'], [1, 'drop'], [o.mem ? 4 : 0, 'store'], [o.mem ? 2 : 0, 'load'], [2, 'select'],
      [o.calls ? 3 : 0, 'call'], [o.calls && this.m.table ? 2 : 0, 'calli'], [deep ? 0 : 5, 'block'], [3, 'br_if'], [1, 'br'], [1, 'br_table'], [1, 'return'],
      [o.mem ? 2 : 0, 'aset'], [o.mem && o.bulk ? 2 : 0, 'bulk'], [o.mem && o.grow ? 1 : 0, 'grow'], [o.refs ? 1 : 0, 'ref'], [o.wasiImport ? 2 : 0, 'wasi']]);
    switch (a) {
      case 'leaf': this.leaf(this.mg.vt()); break;
      case 'op': this.doOp(this.pickOp(null)); break;
      case 'set': { let t = this.top(); if (!t) { t = this.mg.vt(); this.expr(t, 2); } const l = this.pickLocal(t); if (l !== null) this.emit('local.set', l); else this.emit('drop'); this.pop(); break; }
      case 'tee': { let t = this.top(); if (!t) { t = this.mg.vt(); this.expr(t, 2); } const l = this.pickLocal(t); if (l !== null) this.emit('local.tee', l); break; }
      case 'gset': { let t = this.top(); if (!t || s.bool()) { t = this.mg.vt(); this.expr(t, 2); } const g = this.pickGlobal(t, true); if (g !== null) { this.emit('global.set', g); this.pop(); } break; }
      case 'drop': if (this.avail()) { this.emit('drop'); this.pop(); } break;
      case 'store': this.store(); break;
      case 'load': this.load(this.mg.vt()); break;
      case 'select': {
        const t = this.top() && NUM.includes(this.top()) ? this.top() : this.mg.vt();
        this.ensureTop([t, t, 'i32']);
        if (s.chance(1, 3)) this.emit('select_t', t); else this.emit('select');
        this.pop(3); this.push(t); break;
      }
      case 'call': { const f = s.draw(this.mg.sigs.length); const g = this.mg.sigs[f]; this.ensureTop(g.p); this.emit('call', f + this.m.imports.length); this.pop(g.p.length); for (const t of g.r) this.push(t); break; }
      case 'calli': {
        const f = s.draw(this.mg.sigs.length); const g = this.mg.sigs[f];
        this.ensureTop(g.p);
        const e = this.m.elems[0];
        if (e && e.offset && !s.chance(1, 5)) {
          // an index known to hold a function of that type, if there is one
          const c = []; e.funcs.forEach((x, i) => { if (x === null) return; const q = this.mg.sigs[x - this.m.imports.length]; if (q.p.join() === g.p.join() && q.r.join() === g.r.join()) c.push(e.offset[1] + i); });
          if (c.length) { const x = s.pick(c); const l = this.pickLocal('i32'); if (l !== null && s.chance(1, 3)) { this.emit('i32.const', x); this.emit('local.set', l); this.emit('local.get', l); } else this.emit('i32.const', x); } else { this.emit('i32.const', s.range(0, this.m.table.min)); }
        } else { this.expr('i32', 1); this.pop(); }
        this.emit('call_indirect', this.mg.typeIdx(g.p, g.r), 0);
        this.pop(g.p.length); for (const t of g.r) this.push(t); break;
      }
      case 'block': {
        let params = [];
        if (o.blockParams && s.chance(1, 4)) { const n = s.range(0, Math.min(3, this.avail())); params = this.stack.slice(this.stack.length - n); }
        const results = this.mg.valTypesR(o.multi ? s.weighted([[4, 0], [4, 1], [2, 2], [1, 3]]) : s.range(0, 1));
        this.construct(params, results); break;
      }
      case 'br_if': {
        const ls = this.labels(); if (!ls.length) break;
        const d = s.pick(ls); const t = this.labelTypes(d);
        this.ensureTop([...t, 'i32']); this.emit('br_if', d); this.pop(1); break;
      }
      case 'br': {
        const ls = this.labels(); if (!ls.length) break;
        const d = s.pick(ls); this.ensureTop(this.labelTypes(d)); this.emit('br', d); this.dead(); break;
      }
      case 'br_table': {
        const ls = this.labels(); if (!ls.length) break;
        const d = s.pick(ls); const t = this.labelTypes(d);
        const c = ls.filter(x => this.labelTypes(x).join() === t.join());
        const n = s.range(0, 4); const ts = []; for (let i = 0; i < n; i++) ts.push(s.pick(c));
        this.ensureTop([...t, 'i32']); this.emit('br_table', ts, d); this.dead(); break;
      }
      case 'return': this.ensureTop(this.sig.r); this.emit('return'); this.dead(); break;
      case 'aset': this.addr(); this.emit(s.chance(1, 3) ? 'local.tee' : 'local.set', s.pick(this.aLocals)); if (this.code[this.code.length - 1][0] === 'local.tee') { /* stays */ } else this.pop(); break;
      case 'bulk': this.bulk(); break;
      case 'grow': if (s.bool()) { this.emit('memory.size'); } else { this.emit('i32.const', s.weighted([[3, 0], [2, 1], [1, 2], [1, 100]])); if (this.o.growHuge && s.chance(1, 4)) { this.code.pop(); this.emit('i32.const', -1); } if (this.code[this.code.length - 1][1] === 100 && this.m.mem.max === undefined) { this.code.pop(); this.emit('i32.const', 1); } this.emit('memory.grow'); } this.push('i32'); break;
      case 'nop': this.emit('nop'); break;
      case 'ref': this.ref(); break;
      case 'wasi': this.o.wasiCall(this); break;
    }
  }
  bulk() {
    const s = this.s;
    const len = () => { if (s.bool()) this.emit('i32.const', s.range(0, 40)); else { this.expr('i32', 1); this.emit('i32.const', 0x1f); this.emit('i32.and'); this.pop(); } };
    const passive = this.m.datas.map((d, i) => [d, i]).filter(([d]) => d.offset === null);
    switch (s.weighted([[3, 'fill'], [3, 'copy'], [passive.length ? 3 : 0, 'init'], [this.m.datas.length ? 1 : 0, 'drop'], [this.m.datas.length && this.o.dataDrop ? 1 : 0, 'init0']])) {
      case 'fill': this.addr(); this.expr('i32', 1); len(); this.emit('memory.fill'); this.pop(2); break;
      case 'copy': this.addr(); this.addr(); len(); this.emit('memory.copy'); this.pop(2); break;
      case 'init': { const [d, i] = s.pick(passive); this.addr(); const a = s.range(0, d.bytes.length); this.emit('i32.const', a); this.emit('i32.const', s.range(0, d.bytes.length - a)); this.emit('memory.init', i); this.pop(1); break; }
      case 'drop': if (this.o.dataDrop) this.emit('data.drop', s.draw(this.m.datas.length)); break;
      case 'init0': this.addr(); this.emit('i32.const', 0); this.emit('i32.const', s.chance(1, 6) ? 1 : 0); this.emit('memory.init', s.draw(this.m.datas.length)); this.pop(1); break;
    }
  }
  ref() {
    const s = this.s;
    const rl = []; for (let i = 0; i < this.visible; i++) if (this.locals[i] === 'funcref' || this.locals[i] === 'externref') rl.push(i);
    const k = s.weighted([[2, 'null'], [rl.length && this.o.refSelect ? 2 : 0, 'rsel'], [this.m.table ? 3 : 0, 'tget'], [this.m.table ? 2 : 0, 'tset'], [rl.length ? 2 : 0, 'local'], [this.m.table ? 1 : 0, 'tfill']]);
    const idx = () => { if (s.chance(1, 8)) this.expr('i32', 1), this.pop(); else this.emit('i32.const', s.draw(this.m.table.min)); };
    switch (k) {
      case 'null': { const t = s.pick(['funcref', 'externref']); this.emit('ref.null', t); this.emit('ref.is_null'); this.push('i32'); break; }
      case 'rsel': {
        const l = s.pick(rl), t = this.locals[l];
        const c = rl.filter(i => this.locals[i] === t);
        const one = () => { const q = s.draw(3); if (q === 0) this.emit('local.get', s.pick(c)); else if (q === 1 && t === 'funcref' && this.m.table) { idx(); this.emit('table.get', 0); } else this.emit('ref.null', t); };
        one(); one(); this.push(t); this.push(t); this.expr('i32', 1); this.emit('select_t', t); this.pop(3);
        if (s.bool()) this.emit('local.set', s.pick(c)); else { this.emit('ref.is_null'); this.push('i32'); }
        break;
      }
      case 'tget': { idx(); this.emit('table.get', 0); const l = rl.filter(i => this.locals[i] === 'funcref'); if (l.length && s.bool()) { this.emit('local.set', s.pick(l)); } else { this.emit('ref.is_null'); this.push('i32'); } break; }
      case 'tset': { idx(); if (s.bool()) { idx(); this.emit('table.get', 0); } else { const l = rl.filter(i => this.locals[i] === 'funcref'); if (l.length && s.bool()) this.emit('local.get', s.pick(l)); else this.emit('ref.null', 'funcref'); } this.emit('table.set', 0); break; }
      case 'tfill': { const n = this.m.table.min; const a = s.draw(n); this.emit('i32.const', a); if (s.bool()) { idx(); this.emit('table.get', 0); } else this.emit('ref.null', 'funcref'); this.emit('i32.const', s.range(0, n - a)); this.emit('table.fill', 0); break; }
      case 'local': { const l = s.pick(rl); this.emit('local.get', l); if (s.bool()) { const c = rl.filter(i => this.locals[i] === this.locals[l]); this.emit(s.bool() ? 'local.set' : 'local.tee', s.pick(c)); if (this.code[this.code.length - 1][0] === 'local.tee') { this.emit('ref.is_null'); this.push('i32'); } } else { this.emit('ref.is_null'); this.push('i32'); } break; }
    }
  }
}

function genModule(s, opt) { const g = new ModGen(s, opt); const m = g.build(); m.gen = g; return m; }
module.exports = { genModule, ModGen, FnGen, OPSIG, ALL_OPS, NANOP, BITOBS, I32S, I64S, F32S, F32NAN, F64S, F64NAN, genI32, genI64, genF32, genF64, genConst, zero, isTrappy };
