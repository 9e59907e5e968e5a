'use strict';
// C03: linear memory behaves as a byte array: loads, stores, bulk operations, growth, data segments.
const G = require('../lib/gen_module');
const { encode, wat } = require('../lib/wasmenc');
const { expected, compare } = require('../lib/diffcore');

const LOADS = { 'i32.load': ['i32', 4], 'i32.load8_s': ['i32', 1], 'i32.load8_u': ['i32', 1], 'i32.load16_s': ['i32', 2], 'i32.load16_u': ['i32', 2], 'i64.load': ['i64', 8], 'i64.load8_s': ['i64', 1], 'i64.load8_u': ['i64', 1], 'i64.load16_s': ['i64', 2], 'i64.load16_u': ['i64', 2], 'i64.load32_s': ['i64', 4], 'i64.load32_u': ['i64', 4], 'f32.load': ['f32', 4], 'f64.load': ['f64', 8] };
const STORES = { 'i32.store': ['i32', 4], 'i32.store8': ['i32', 1], 'i32.store16': ['i32', 2], 'i64.store': ['i64', 8], 'i64.store8': ['i64', 1], 'i64.store16': ['i64', 2], 'i64.store32': ['i64', 4], 'f32.store': ['f32', 4], 'f64.store': ['f64', 8] };

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const types = []; const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const min = s.weighted([[5, 1], [2, 2], [1, 0], [1, s.range(3, 20)]]);
  const max = s.weighted([[3, undefined], [2, min + s.range(0, 6)], [1, 65536]]);
  const m = { types, imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [], mem: { min, max } };
  m.globals.push({ t: 'i32', mut: true, init: ['i32.const', 0] });
  m.globals.push({ t: 'i64', mut: true, init: ['i64.const', 0n] }); // checksum
  m.globals.push({ t: 'i32', mut: true, init: ['i32.const', 0] }); // address temp
  let pages = min;
  const limit = Math.min(max === undefined ? 65536 : max, 65536);
  const nd = s.range(0, 4);
  for (let i = 0; i < nd; i++) {
    const n = s.weighted([[4, s.range(0, 20)], [1, s.range(21, 600)]]);
    const bytes = []; const k = s.draw(256); for (let j = 0; j < n; j++) bytes.push((k + j * 7) & 255);
    const active = min > 0 && s.bool();
    const off = active ? s.weighted([[3, s.range(0, 300)], [1, min * 65536 - n]]) : 0;
    m.datas.push({ offset: active ? ['i32.const', off] : null, bytes, live: !active });
  }
  m.funcs.push({ type: ty([], []), locals: [], code: [] });
  m.exports.push({ name: '_r', kind: 'func', idx: 0 });
  // function 1: grow by the parameter (growth inside a callee)
  m.funcs.push({ type: ty(['i32'], ['i32']), locals: [], code: [['local.get', 0], ['memory.grow']] });
  // function 2: grow two frames down
  m.funcs.push({ type: ty(['i32'], ['i32']), locals: [], code: [['i32.const', 9], ['drop'], ['local.get', 0], ['call', 1]] });
  // 3: grow and return nothing, 4: the same two frames down, 5: store a byte, 6: load a byte, 7: grow in a loop of the callee and store there
  m.funcs.push({ type: ty(['i32'], []), locals: [], code: [['local.get', 0], ['memory.grow'], ['drop']] });
  m.funcs.push({ type: ty(['i32'], []), locals: [], code: [['local.get', 0], ['call', 3]] });
  m.funcs.push({ type: ty(['i32', 'i32'], []), locals: [], code: [['local.get', 0], ['local.get', 1], ['i32.store8', { offset: 0, align: 0 }]] });
  m.funcs.push({ type: ty(['i32'], ['i32']), locals: [], code: [['local.get', 0], ['i32.load8_u', { offset: 0, align: 0 }]] });
  m.table = { min: 8 }; m.elems.push({ offset: ['i32.const', 1], funcs: [1, 2, 3, 4, 5, 6] });
  const nf = s.range(1, 4);
  let nops = 0, growths = 0, crossing = 0;
  const calls = [];
  for (let f = 0; f < nf; f++) {
    // straight-line body; locals: 0 param i32, 1..: temps
    const code = [], locals = ['i32', 'i32', 'i64', 'f32', 'f64', 'i32'];
    const acc = (t) => { // top of stack value → checksum
      if (t === 'i32') code.push(['i64.extend_i32_u']);
      else if (t === 'f32') code.push(['i32.reinterpret_f32'], ['i64.extend_i32_u']);
      else if (t === 'f64') code.push(['i64.reinterpret_f64']);
      code.push(['global.get', 1], ['i64.const', 7n], ['i64.rotl'], ['i64.xor'], ['global.set', 1]);
    };
    const pushI32 = (v) => {
      v |= 0;
      switch (s.weighted([[5, 0], [3, 1], [2, 2], [1, 3], [1, 4]])) {
        case 0: code.push(['i32.const', v]); break;
        case 1: code.push(['i32.const', v], ['local.set', 1], ['local.get', 1]); break;
        case 2: { const k = s.range(0, 1000); code.push(['i32.const', (v - k) | 0], ['i32.const', k], ['i32.add']); break; }
        case 3: code.push(['i32.const', v], ['global.set', 2], ['global.get', 2]); break;
        default: code.push(['i32.const', v], ['local.tee', 2]); break;
      }
    };
    const size = () => pages * 65536;
    const SIGS = [null, 0, 0, 1, 1, 2, 0].map(x => x === null ? null : [ty(['i32'], ['i32']), ty(['i32'], []), ty(['i32', 'i32'], [])][x]);
    const invoke = (via, direct) => { if (!via) return direct(); if (s.chance(1, 3)) code.push(['i32.const', via], ['call_indirect', SIGS[via], 0]); else code.push(['call', via]); };
    // a start for an access of n bytes
    const place = (n) => {
      const z = size();
      if (z < n) return null;
      switch (s.weighted([[5, 0], [2, 1], [2, 2], [2, 3]])) {
        case 0: return Math.min(s.range(0, 64), z - n);
        case 1: crossing++; return z - n - Math.min(s.draw(9), z - n); // up to the last byte
        case 2: { if (pages < 2) return z - n; crossing++; const p = s.range(1, pages - 1) * 65536; return Math.max(0, Math.min(z - n, p - s.draw(n + 1))); }
        default: return s.draw(z - n + 1);
      }
    };
    const split = (ea) => { // effective address = base + offset
      const off = s.weighted([[4, 0], [3, s.range(0, Math.min(ea, 100))], [1, ea], [1, s.draw(ea + 1)]]);
      return [ea - off, off];
    };
    const value = (t) => { code.push(G.genConst(s, t, false)); if (s.chance(1, 3)) { const l = { i32: 6, i64: 3, f32: 4, f64: 5 }[t]; code.push(['local.set', l], ['local.get', l]); } };
    const n = s.range(1, 30);
    for (let k = 0; k < n; k++) {
      nops++;
      const live = m.datas.map((d, i) => i).filter(i => m.datas[i].offset === null);
      switch (s.weighted([[8, 'store'], [8, 'load'], [2, 'fill'], [3, 'copy'], [live.length ? 3 : 0, 'init'], [m.datas.length ? 1 : 0, 'drop'], [3, 'grow'], [1, 'size'], [1, 'loop'], [3, 'far']])) {
        case 'far': { // the access of another frame
          const a = place(1); if (a === null) break; pushI32(a);
          if (s.bool()) { pushI32(s.draw(256)); invoke(5); } else { invoke(6); acc('i32'); }
          break;
        }
        case 'store': {
          const op = s.pick(Object.keys(STORES)); const [t, w] = STORES[op]; const ea = place(w); if (ea === null) break;
          const [b, o] = split(ea); pushI32(b); value(t); let al = s.range(0, 31 - Math.clz32(w)); code.push([op, { offset: o, align: al }]);
          if (s.chance(1, 3)) { // read back with another width
            const c = Object.keys(LOADS).filter(l => LOADS[l][1] <= w); const l = s.pick(c); pushI32(b); code.push([l, { offset: o, align: 0 }]); acc(LOADS[l][0]);
          }
          break;
        }
        case 'load': {
          const op = s.pick(Object.keys(LOADS)); const [t, w] = LOADS[op]; const ea = place(w); if (ea === null) break;
          const [b, o] = split(ea); pushI32(b); code.push([op, { offset: o, align: s.range(0, 31 - Math.clz32(w)) }]);
          if (s.chance(1, 4)) { const l = { i32: 6, i64: 3, f32: 4, f64: 5 }[t]; code.push(['local.set', l], ['local.get', l]); }
          if (t[0] === 'f') { const q = t === 'f32' ? 'i32' : 'i64'; code.push([`${q}.reinterpret_${t}`]); acc(q); } else acc(t);
          break;
        }
        case 'fill': { const n = Math.min(size(), s.weighted([[4, s.range(0, 40)], [1, s.range(0, 70000)], [1, 0]])); const a = place(n); if (a === null) break; pushI32(a); code.push(['i32.const', G.genI32(s)]); pushI32(n); code.push(['memory.fill']); break; }
        case 'copy': {
          const n = Math.min(size(), s.weighted([[4, s.range(0, 60)], [1, s.range(0, 70000)], [1, 0]])); const a = place(n); if (a === null) break;
          let b = place(n); if (s.bool()) b = Math.max(0, Math.min(size() - n, a + s.range(-20, 20))); // overlapping
          pushI32(a); pushI32(b); pushI32(n); code.push(['memory.copy']); break;
        }
        case 'init': { const i = s.pick(live); const d = m.datas[i]; const L = d.live ? d.bytes.length : 0; const so = s.range(0, L); const n = s.range(0, Math.min(L - so, size())); const a = place(n); if (a === null) break; pushI32(a); pushI32(so); pushI32(n); code.push(['memory.init', i]); break; }
        case 'drop': { const i = s.draw(m.datas.length); code.push(['data.drop', i]); m.datas[i].live = false; break; }
        case 'grow': {
          let n = s.weighted([[3, 1], [2, 0], [2, s.range(1, 4)], [2, 'fail'], [1, 'huge']]);
          if (n === 'fail') n = limit < 1000 ? limit - pages + s.range(1, 3) : 65536; if (n === 'huge') n = s.pick([65536, 0x7fffffff, -1, 0x10000, 65537, -65535, -0x80000000]);
          const u = n >>> 0; const ok = pages + u <= limit;
          if (ok && pages + u > 40) break;
          pushI32(n); const via = s.draw(5); invoke(via, () => code.push(['memory.grow'])); if (via < 3) acc('i32');
          if (ok) { pages += u; if (u) growths++; }
          break;
        }
        case 'size': code.push(['memory.size']); acc('i32'); break;
        case 'loop': { // sequential bytes, through a counter local
          const z = size(); if (z < 64) break; const cnt = s.range(1, 20); const a = s.weighted([[2, s.range(0, 40)], [1, z - 4 * cnt - s.draw(8)]]); if (a < 0 || a + 4 * cnt > z) break;
          code.push(['i32.const', 0], ['local.set', 1], ['loop', null]);
          code.push(['local.get', 1], ['i32.const', 2], ['i32.shl'], ['local.get', 1], ['i32.const', s.range(1, 1 << 20)], ['i32.mul'], ['i32.store', { offset: a, align: s.range(0, 2) }]);
          code.push(['local.get', 1], ['i32.const', 1], ['i32.add'], ['local.tee', 1], ['i32.const', cnt], ['i32.lt_u'], ['br_if', 0], ['end']);
          code.push(['i32.const', a], ['i64.load16_s', { offset: cnt, align: 0 }]); acc('i64');
          break;
        }
      }
    }
    code.push(['global.get', 1]);
    m.funcs.push({ type: ty(['i32'], ['i64']), locals, code });
    m.exports.push({ name: 'f' + f, kind: 'func', idx: m.funcs.length - 1 });
    calls.push({ name: 'f' + f, params: ['i32:' + s.draw(100).toString(16)], results: ['i64'] });
  }
  m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
  m.globals.forEach((g, i) => m.exports.push({ name: 'g' + i, kind: 'global', idx: i }));
  return { m, calls, variant, nops, growths, crossing, barrier: s.chance(3, 4) };
}
function run(c) {
  const bytes = encode(c.m);
  const exp = expected(c.m, bytes, c.calls);
  const d = compare(c.m, bytes, c.calls, c.variant, exp, { barrier: c.barrier && c.growths > 0 });
  return { nontrivial: c.nops >= 5, counters: { operations: c.nops, growths: c.growths, boundary_accesses: c.crossing, traps: exp.traps, [c.variant]: 1 }, fail: d ? { sig: d.kind, detail: `[${c.variant}] ${d.detail}` } : null };
}
const show = (c) => `variant ${c.variant}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
// The interpreter does not check the bounds of these (see DESIGN.md); each is a listed finding.
function oob(name, code) {
  const m = { types: [{ p: [], r: ['i32'] }, { p: [], r: [] }], imports: [], funcs: [{ type: 1, locals: [], code: [] }, { type: 0, locals: [], code: [...code, ['i32.const', 1]] }], mem: { min: 1, max: 1 }, globals: [], elems: [], datas: [],
    exports: [{ name: '_r', kind: 'func', idx: 0 }, { name: 'f', kind: 'func', idx: 1 }, { name: 'mem', kind: 'mem', idx: 0 }] };
  return { name, sig: name, case: { m, calls: [{ name: 'f', params: [], results: ['i32'] }], variant: 'tco', nops: 1, growths: 0, crossing: 1 } };
}
const at = (n) => ['i32.const', n];
const pinned = [
  oob('oob-load', [at(65536), ['i32.load', { offset: 0, align: 0 }], ['drop']]),
  oob('oob-load-wrap', [at(-4), ['i32.load', { offset: 8, align: 0 }], ['drop']]),
  oob('oob-store', [at(65536), at(0), ['i32.store8', { offset: 0, align: 0 }]]),
  oob('oob-copy', [at(65535), at(0), at(2), ['memory.copy']]),
  oob('oob-fill', [at(65535), at(0), at(2), ['memory.fill']]),
];
module.exports = {
  gen, pinned, run, show, variants: ['tco', 'legacy'], cases: { quick: 40000, thorough: 1000000 }, chunk: 50,
  rule: 'Random histories of memory operations over 1-4 calls: every load and store width at addresses near 0, at page boundaries and up to the last byte, with the address split between base and offset; fill, overlapping copy, init from passive and dropped segments, drop, growth that succeeds or fails (directly, in a callee, two frames down), size. Each loaded value enters a checksum; the checksum, the memory and the globals are compared with V8. Non-trivial: at least 5 operations.',
  assumptions: ['V8 implements the WebAssembly memory instructions', 'generated accesses are in bounds; out-of-bounds ones are covered by the pinned known findings only'],
};
