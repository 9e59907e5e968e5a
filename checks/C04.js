'use strict';
// C04: control transfers go where they should and carry the right values.
const G = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { expected, compare } = require('../lib/diffcore');
const T = ['i32', 'i64', 'f32', 'f64'];

const WIDE = [0x100, 0x200, 0x10000, 0x20000, 0x1000000, 0x40000000, -0x80000000];
const n300 = (s) => (s.chance(1, 20) ? 1 : 0);

class Fn {
  constructor(g, i) { this.g = g; this.s = g.s; this.sig = g.sigs[i]; this.i = i; this.code = []; this.locals = this.sig.p.slice(); this.stack = []; this.ctrl = []; this.budget = g.budget; }
  L(t) { this.locals.push(t); return this.locals.length - 1; }
  e(...x) { this.code.push(x); }
  mark() { // path: h = h*31 + id
    const id = ++this.g.marks;
    this.e('global.get', 1); this.e('i64.const', 31n); this.e('i64.mul'); this.e('i64.const', BigInt(id)); this.e('i64.add'); this.e('global.set', 1);
  }
  fuel() {
    this.e('global.get', 0); this.e('i32.eqz'); this.e('if', null); for (const t of this.sig.r) this.e(...G.zero(t)); this.e('return'); this.e('end');
    this.e('global.get', 0); this.e('i32.const', 1); this.e('i32.sub'); this.e('global.set', 0);
  }
  val(t) { // a distinctive value
    const s = this.s; const n = ++this.g.vals;
    const ls = this.locals.map((x, i) => i).filter(i => this.locals[i] === t && i < this.nvis);
    const k = s.weighted([[4, 'const'], [ls.length ? 4 : 0, 'local'], [3, 'calc'], [this.ctrl.length < 12 ? 1 : 0, 'block']]);
    const c = (n) => { if (t === 'i32') this.e('i32.const', n); else if (t === 'i64') this.e('i64.const', BigInt(n) * 0x100000003n); else if (t === 'f32') this.e('f32.const', fb(n)); else this.e('f64.const', db(n)); };
    if (k === 'local') this.e('local.get', s.pick(ls));
    else if (k === 'calc') { c(n); if (ls.length) { this.e('local.get', s.pick(ls)); } else c(n + 1); this.e(t + (s.bool() ? '.add' : '.sub')); if (t[0] === 'f') this.nan(t); } else if (k === 'block') { this.e('block', t); c(n); this.e('end'); } else c(n);
    this.stack.push(t);
  }
  nan(t) { const l = t === 'f32' ? this.t32 : this.t64; this.e('local.tee', l); this.e(...G.zero(t)); this.e('local.get', l); this.e('local.get', l); this.e(t + '.eq'); this.e('select'); }
  // a condition that depends on run-time state
  cond() {
    const s = this.s;
    switch (s.weighted([[2, 0], [3, 1], [3, 2], [2, 3], [1, 4], [1, 5]])) {
      case 0: this.e('i32.const', s.draw(2)); break;
      case 4: this.e('i32.const', s.pick(WIDE)); break;
      case 5: this.e('global.get', 1); this.e('i32.wrap_i64'); this.e('i32.const', s.pick([0x100, 0x300, 0x10000, 0x30000, 0x1000000, -0x80000000])); this.e('i32.and'); break;
      case 1: this.e('global.get', 1); this.e('i32.wrap_i64'); this.e('i32.const', s.range(1, 7)); this.e('i32.and'); break;
      case 2: this.e('global.get', 0); this.e('i32.const', s.range(2, 5)); this.e('i32.rem_u'); break;
      default: { const ls = this.sig.p.map((t, i) => i).filter(i => this.sig.p[i] === 'i32'); if (ls.length) this.e('local.get', s.pick(ls)); else this.e('global.get', 0); if (s.bool()) this.e('i32.eqz'); break; }
    }
    this.stack.push('i32');
  }
  pop(n = 1) { this.stack.length -= n; }
  top(want) { // makes the top of the stack match, sometimes keeping values already there
    const c = this.ctrl[this.ctrl.length - 1]; const av = this.stack.length - c.base;
    let best = 0;
    for (let k = Math.min(want.length, av); k > 0; k--) { let ok = true; for (let i = 0; i < k; i++) if (this.stack[this.stack.length - k + i] !== want[i]) ok = false; if (ok) { best = k; break; } }
    if (best && this.s.chance(1, 4)) best = 0;
    for (let i = best; i < want.length; i++) this.val(want[i]);
  }
  labels() { return this.ctrl.map((c, i) => this.ctrl.length - 1 - i).reverse(); }
  lt(d) { const c = this.ctrl[this.ctrl.length - 1 - d]; return c.kind === 'loop' ? c.params : c.results; }
  bt(p, r) { if (!p.length && !r.length) return null; if (!p.length && r.length === 1 && this.s.chance(3, 4)) return r[0]; return this.g.ty(p, r); }
  tys(n) { const r = []; for (let i = 0; i < n; i++) r.push(this.s.pick(T)); return r; }
  build() {
    const s = this.s;
    const nl = s.range(0, 4); for (let i = 0; i < nl; i++) this.L(s.pick(T));
    this.nvis = this.locals.length;
    this.t32 = this.L('f32'); this.t64 = this.L('f64');
    this.ctrl.push({ kind: 'func', base: 0, params: [], results: this.sig.r });
    this.fuel(); this.mark();
    this.seq(s.range(1, 8));
    this.close();
    const f = this.g.m.funcs[this.g.base + this.i]; f.code = this.code; f.locals = this.locals.slice(this.sig.p.length);
  }
  close() {
    const c = this.ctrl[this.ctrl.length - 1];
    if (!c.dead) {
      // keep what fits, drop the rest
      const fits = () => { const n = this.stack.length - c.base; if (n > c.results.length) return false; for (let i = 0; i < n; i++) if (this.stack[c.base + i] !== c.results[i]) return false; return true; };
      while (!fits()) { const t = this.stack[this.stack.length - 1]; const ls = this.locals.map((x, i) => i).filter(i => i < this.nvis && this.locals[i] === t); if (ls.length && this.s.bool()) this.e('local.set', this.s.pick(ls)); else this.e('drop'); this.pop(); }
      for (let i = this.stack.length - c.base; i < c.results.length; i++) this.val(c.results[i]);
    }
    this.stack.length = c.base; for (const t of c.results) this.stack.push(t);
  }
  seq(n) { for (let i = 0; i < n && !this.ctrl[this.ctrl.length - 1].dead && this.budget-- > 0; i++) this.step(); }
  dead() { const c = this.ctrl[this.ctrl.length - 1]; c.dead = true; this.stack.length = c.base; if (this.s.chance(1, 4)) { this.e('i32.const', 1); this.e('drop'); } }
  construct() {
    const s = this.s; const kind = s.pick(['block', 'if', 'loop']);
    const c0 = this.ctrl[this.ctrl.length - 1];
    const av = this.stack.length - c0.base;
    let params = s.chance(2, 5) ? (av && s.bool() ? this.stack.slice(this.stack.length - s.range(1, Math.min(4, av))) : this.tys(s.range(1, 3))) : [];
    const results = this.tys(s.weighted([[3, 0], [4, 1], [3, 2], [2, 3], [1, s.range(4, 7)]]));
    const n = s.range(0, 6);
    if (kind === 'if') { this.top(params); this.cond(); this.pop(); this.e('if', this.bt(params, results)); } else { this.top(params); this.e(kind, this.bt(params, results)); }
    this.pop(params.length);
    const base = this.stack.length;
    const open = () => { this.ctrl.push({ kind, base, params, results }); for (const t of params) this.stack.push(t); if (kind === 'loop') this.fuel(); this.mark(); };
    open(); this.seq(n); this.close();
    if (kind === 'if' && (params.join() !== results.join() || s.bool())) { this.e('else'); this.ctrl.pop(); this.stack.length = base; open(); this.seq(s.range(0, 4)); this.close(); }
    this.e('end'); this.ctrl.pop();
    this.mark();
    this.g.constructs++;
  }
  step() {
    const s = this.s; const g = this.g;
    const deep = this.ctrl.length > g.maxDepth;
    switch (s.weighted([[2, 'val'], [deep ? 0 : 7, 'construct'], [4, 'br_if'], [2, 'br'], [2, 'br_table'], [1, 'return'], [3, 'call'], [2, 'calli'], [2, 'fold'], [1, 'set'], [1, 'nop'], [deep ? 0 : 1, 'nest']])) {
      case 'val': this.val(s.pick(T)); break;
      case 'construct': this.construct(); break;
      case 'br_if': { const d = s.draw(this.ctrl.length); this.top(this.lt(d)); this.cond(); this.e('br_if', d); this.pop(); this.mark(); g.branches++; break; }
      case 'br': { const d = s.draw(this.ctrl.length); this.top(this.lt(d)); this.e('br', d); this.dead(); g.branches++; break; }
      case 'br_table': {
        const d = s.draw(this.ctrl.length); const t = this.lt(d); const c = this.labels().filter(x => this.lt(x).join() === t.join());
        const n = s.weighted([[4, s.range(0, 4)], [1, s.range(5, 40)], [n300(s), s.range(200, 300)]]); const ts = []; for (let i = 0; i < n; i++) ts.push(s.pick(c));
        this.top(t);
        const k = s.draw(n + 2); const hi = s.pick(WIDE); // positions that a narrower operand would confuse with valid ones
        if (s.bool()) { this.e('global.get', 1); this.e('i32.wrap_i64'); this.e('i32.const', s.range(1, n + 2)); this.e('i32.rem_u'); if (s.chance(1, 4)) { this.e('i32.const', hi); this.e('i32.or'); } } else if (s.chance(1, 4)) { this.e('i32.const', k | hi); } else if (s.chance(1, 8)) { this.e('global.get', 1); this.e('i32.wrap_i64'); } else this.e('i32.const', s.pick([0, 1, n - 1, n, n + 1, -1, 0x7fffffff]));
        this.e('br_table', ts, d); this.dead(); g.branches++; break;
      }
      case 'return': this.top(this.sig.r); this.e('return'); this.dead(); break;
      case 'call': { const f = s.draw(g.sigs.length); this.top(g.sigs[f].p); this.e('call', g.base + f); this.pop(g.sigs[f].p.length); this.stack.push(...g.sigs[f].r); this.mark(); g.ncalls++; break; }
      case 'calli': { const f = s.draw(g.sigs.length); this.top(g.sigs[f].p); this.e('i32.const', g.slot[f]); if (s.bool()) { const l = this.L('i32'); this.e('local.set', l); this.e('local.get', l); } this.e('call_indirect', g.ty(g.sigs[f].p, g.sigs[f].r), 0); this.pop(g.sigs[f].p.length); this.stack.push(...g.sigs[f].r); this.mark(); g.ncalls++; break; }
      case 'fold': { // the top value enters the path
        const c = this.ctrl[this.ctrl.length - 1]; if (this.stack.length === c.base) break; const t = this.stack[this.stack.length - 1];
        if (t === 'i32') this.e('i64.extend_i32_u'); else if (t === 'f32') { this.nan(t); this.e('i32.reinterpret_f32'); this.e('i64.extend_i32_u'); } else if (t === 'f64') { this.nan(t); this.e('i64.reinterpret_f64'); }
        this.e('global.get', 1); this.e('i64.const', 13n); this.e('i64.rotl'); this.e('i64.xor'); this.e('global.set', 1); this.pop(); break;
      }
      case 'set': { const c = this.ctrl[this.ctrl.length - 1]; if (this.stack.length === c.base) break; const t = this.stack[this.stack.length - 1]; const ls = this.locals.map((x, i) => i).filter(i => i < this.nvis && this.locals[i] === t); if (ls.length) { if (s.bool()) { this.e('local.set', s.pick(ls)); this.pop(); } else this.e('local.tee', s.pick(ls)); } break; }
      case 'nop': this.e('nop'); break;
      case 'nest': { // a tower of blocks with a branch out of the middle of it
        const n = s.range(2, g.tower); const r = this.tys(s.range(0, 2));
        for (let i = 0; i < n; i++) { this.e('block', this.bt([], r)); this.ctrl.push({ kind: 'block', base: this.stack.length, params: [], results: r }); }
        this.mark(); const d = s.draw(n); for (const t of r) this.val(t); this.cond(); this.e('br_if', d); this.pop(); this.mark(); this.pop(r.length);
        for (const t of r) { this.e('drop'); }
        const d2 = s.draw(n); for (const t of r) this.val(t); this.e('br', d2); this.pop(r.length);
        for (let i = 0; i < n; i++) {
          this.e('end'); this.ctrl.pop(); this.stack.push(...r);
          if (i + 1 < n) { this.mark(); if (s.chance(1, 3)) { for (const t of r) { this.e('drop'); this.pop(); } for (const t of r) this.val(t); } this.pop(r.length); }
        }
        this.mark(); g.branches += 2; break;
      }
    }
  }
}
const fbuf = new DataView(new ArrayBuffer(8));
function fb(n) { fbuf.setFloat32(0, n / 4); return fbuf.getUint32(0); }
function db(n) { fbuf.setFloat64(0, n / 8); return fbuf.getBigUint64(0); }

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const types = [];
  const g = { s, marks: 0, vals: 0, constructs: 0, branches: 0, ncalls: 0, base: 1, sigs: [], slot: [], maxDepth: s.weighted([[3, 4], [2, 8], [1, 14]]), tower: s.weighted([[30, 6], [8, 40], [1, 280]]), budget: s.range(4, 60),
    ty(p, r) { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; } };
  const fuel = s.weighted([[3, 40], [1, 150]]);
  const m = g.m = { types, imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [] };
  m.globals.push({ t: 'i32', mut: true, init: ['i32.const', fuel] }, { t: 'i64', mut: true, init: ['i64.const', 1n] });
  m.funcs.push({ type: g.ty([], []), locals: [], code: [['i32.const', fuel], ['global.set', 0]] });
  m.exports.push({ name: '_r', kind: 'func', idx: 0 });
  const nf = s.range(1, 5);
  const tys = (n) => { const r = []; for (let i = 0; i < n; i++) r.push(s.pick(T)); return r; };
  for (let i = 0; i < nf; i++) { const sg = { p: tys(s.weighted([[2, 0], [3, 1], [3, 2], [2, 3], [1, s.range(4, 9)]])), r: tys(s.weighted([[2, 0], [4, 1], [3, 2], [2, 3], [1, s.range(4, 8)]])) }; g.sigs.push(sg); m.funcs.push({ type: g.ty(sg.p, sg.r), locals: [], code: [] }); }
  // table: a permutation of the functions, with a gap
  const order = g.sigs.map((x, i) => i); for (let i = order.length - 1; i > 0; i--) { const j = s.draw(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
  const gap = s.draw(3); order.forEach((f, i) => { g.slot[f] = gap + i; });
  m.table = { min: gap + nf }; m.elems.push({ offset: ['i32.const', gap], funcs: order.map(f => g.base + f) });
  for (let i = 0; i < nf; i++) new Fn(g, i).build();
  for (let i = 0; i < nf; i++) m.exports.push({ name: 'f' + i, kind: 'func', idx: g.base + i });
  // recursion through call / call_indirect, with the depth as parameter: sum over the way down and up
  const rt = g.ty(['i32', 'i64'], ['i64']);
  const ri = m.funcs.length; const ind = s.bool();
  m.table.min++; m.elems.push({ offset: ['i32.const', m.table.min - 1], funcs: [ri] });
  m.funcs.push({ type: rt, locals: ['i64'], code: [
    ['local.get', 1], ['i64.const', 3n], ['i64.mul'], ['local.set', 2],
    ['local.get', 0], ['i32.eqz'], ['if', 'i64'], ['local.get', 1], ['else'],
    ['local.get', 0], ['i32.const', 1], ['i32.sub'], ['local.get', 1], ['local.get', 0], ['i64.extend_i32_u'], ['i64.add'],
    ...(ind ? [['i32.const', m.table.min - 1], ['call_indirect', rt, 0]] : [['call', ri]]),
    ['end'], ['i64.const', 5n], ['i64.rotl'], ['local.get', 2], ['i64.xor']] });
  m.exports.push({ name: 'rec', kind: 'func', idx: ri });
  m.globals.forEach((x, i) => m.exports.push({ name: 'g' + i, kind: 'global', idx: i }));
  const calls = [];
  const n = s.range(1, 4);
  const mg = { s, genParams: G.ModGen.prototype.genParams };
  for (let i = 0; i < n; i++) { const f = s.draw(nf); calls.push({ name: 'f' + f, params: mg.genParams(g.sigs[f]), results: g.sigs[f].r }); }
  if (s.chance(1, 6)) calls.push({ name: 'rec', params: ['i32:' + s.pick([1, 10, 300, 1500, 2500]).toString(16), 'i64:7'], results: ['i64'] });
  return { m, calls, variant, g: { constructs: g.constructs, branches: g.branches, ncalls: g.ncalls } };
}
function run(c) {
  const bytes = encode(c.m);
  const exp = expected(c.m, bytes, c.calls);
  const d = compare(c.m, bytes, c.calls, c.variant, exp);
  return { nontrivial: c.g.constructs + c.g.branches + c.g.ncalls >= 3, counters: { constructs: c.g.constructs, branches: c.g.branches, call_sites: c.g.ncalls, traps: exp.traps, [c.variant]: 1 }, fail: d ? { sig: d.kind, detail: `[${c.variant}] ${d.detail}` } : null };
}
const show = (c) => `variant ${c.variant}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 45000, thorough: 1200000 }, chunk: 50,
  rule: 'Random structured control flow: blocks, ifs and loops with parameters and up to 7 results, br / br_if / br_table (up to 300 targets, operands of any width) to any enclosing label including the function, returns, direct, indirect and recursive calls with up to 9 parameters and 8 results, over live operands, in nests up to 280 deep. Every segment adds its number to a path hash; results, path hash and fuel left are compared with V8. Non-trivial: at least 3 constructs, branches or call sites.',
  assumptions: ['V8 implements WebAssembly control instructions', 'functions have at most 8 results (implementation limit)'],
};
