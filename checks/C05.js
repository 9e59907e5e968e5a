'use strict';
// C05: tables, references and indirect calls.
const { encode, wat } = require('../lib/wasmenc');
const { expected, compare } = require('../lib/diffcore');
const { genConst, zero } = require('../lib/gen_module');
const NT = ['i32', 'i64', 'f32', 'f64'];

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const types = [];
  const m = { types, imports: [], funcs: [], exports: [], globals: [{ t: 'i64', mut: true, init: ['i64.const', 1n] }], elems: [], datas: [], tables: [] };
  const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const same = (p, r) => types.map((t, i) => i).filter(i => types[i].p.join() === p.join() && types[i].r.join() === r.join());
  const ni = s.weighted([[3, 0], [1, 1], [1, 2]]);
  for (let i = 0; i < ni; i++) m.imports.push({ mod: 'wasi_snapshot_preview1', name: ['sched_yield', 'fd_close'][i], type: i ? ty(['i32'], ['i32']) : ty([], ['i32']) });
  m.funcs.push({ type: ty([], []), locals: [], code: [] }); m.exports.push({ name: '_r', kind: 'func', idx: ni });
  // target functions
  const sigs = []; const nsig = s.range(1, 4);
  const tys = (n) => { const r = []; for (let i = 0; i < n; i++) r.push(s.pick(NT)); return r; };
  for (let i = 0; i < nsig; i++) sigs.push({ p: tys(s.range(0, 3)), r: tys(s.range(0, 3)) });
  const targets = []; const nt = s.range(2, 8);
  for (let i = 0; i < nt; i++) {
    const sg = s.pick(sigs); const code = [];
    // the identity of the function and its parameters end in the accumulator
    code.push(['global.get', 0], ['i64.const', BigInt(1000 + i)], ['i64.xor'], ['i64.const', 7n], ['i64.rotl'], ['global.set', 0]);
    sg.p.forEach((t, k) => { code.push(['local.get', k]); toI64(code, t); code.push(['global.get', 0], ['i64.const', 5n], ['i64.rotl'], ['i64.xor'], ['global.set', 0]); });
    sg.r.forEach((t, k) => { const j = sg.p.indexOf(t); if (j >= 0 && s.bool()) code.push(['local.get', j]); else code.push(constOf(t, 10 * i + k)); });
    let type = ty(sg.p, sg.r);
    if (s.chance(1, 5)) { types.push({ p: sg.p.slice(), r: sg.r.slice() }); type = types.length - 1; } // an equal type with another index
    m.funcs.push({ type, locals: [], code });
    targets.push({ idx: ni + m.funcs.length - 1, sg });
  }
  const sigOf = new Map(targets.map(t => [t.idx, t.sg]));
  // imported functions: sched_yield, fd_close (of a descriptor that is not open)
  const imported = []; for (let i = 0; i < ni; i++) { imported.push(i); sigOf.set(i, { p: i ? ['i32'] : [], r: ['i32'], imp: true }); }
  const anyFunc = () => imported.length && s.chance(1, 8) ? s.pick(imported) : s.pick(targets).idx;
  // tables and segments
  const ntab = s.weighted([[3, 1], [3, 2], [1, 3], [1, 4]]);
  const tabs = [];
  for (let i = 0; i < ntab; i++) {
    const ext = i > 0 && s.chance(1, 6);
    const min = s.range(1, s.weighted([[4, 8], [1, 60]]));
    m.tables.push({ min, max: s.bool() ? undefined : min + s.draw(5), type: ext ? 'externref' : 'funcref' });
    tabs.push({ ext, e: new Array(min).fill(null) });
  }
  const nseg = s.weighted([[6, s.range(1, 5)], [1, 0]]);
  for (let i = 0; i < nseg; i++) {
    const mode = i === 0 ? 'active' : s.weighted([[4, 'active'], [3, 'exprs'], [1, 'passive'], [1, 'declarative']]);
    const c = tabs.map((x, k) => k).filter(k => !tabs[k].ext); const t = s.pick(c); const L = tabs[t].e.length;
    const off = s.range(0, L); const n = s.chance(1, 8) ? 0 : s.range(Math.min(1, L - off), Math.min(8, L - off)); const funcs = [];
    for (let k = 0; k < n; k++) funcs.push(mode === 'exprs' && s.chance(1, 3) ? null : anyFunc());
    if (mode === 'passive' || mode === 'declarative') { m.elems.push({ mode, funcs, offset: null }); continue; }
    m.elems.push({ mode: mode === 'active' ? undefined : mode, table: t, offset: ['i32.const', off], funcs });
    funcs.forEach((f, k) => { tabs[t].e[off + k] = f; });
  }
  // movers: functions that pass references around unchanged
  const F = 'funcref', E = 'externref'; const mv = {};
  const helper = (name, p, r, locals, code) => { m.funcs.push({ type: ty(p, r), locals, code }); mv[name] = ni + m.funcs.length - 1; };
  helper('id', [F], [F], [], [['local.get', 0]]);
  helper('swap', [F, F], [F, F], [], [['local.get', 1], ['local.get', 0]]);
  helper('perm', ['i32', F, 'i64', E, F], [F, 'i32', F, E], [], [['local.get', 4], ['local.get', 0], ['local.get', 1], ['local.get', 3]]);
  helper('pick', [F, F, 'i32'], [F], [], [['local.get', 2], ['if', F], ['local.get', 0], ['else'], ['local.get', 1], ['end']]);
  helper('deep', [F, 'i32'], [F], [F], [['local.get', 0], ['local.set', 2], ['local.get', 1], ['i32.eqz'], ['if', F], ['local.get', 2], ['else'], ['local.get', 2], ['local.get', 1], ['i32.const', 1], ['i32.sub'], ['call', ni + m.funcs.length], ['end'], ['local.tee', 0], ['drop'], ['local.get', 0]]);
  helper('br', [F], [F], [F, F], [['local.get', 0], ['local.tee', 2], ['local.set', 1], ['block', F], ['ref.null', F], ['drop'], ['local.get', 1], ['br', 0], ['end']]);
  helper('fresh', [], [F, 'i32'], [F, E, F], [['local.get', 2], ['local.get', 1], ['ref.is_null'], ['local.get', 0], ['ref.is_null'], ['i32.add']]); // locals start null
  const calls = []; let nops = 0, icalls = 0, ended = false;
  const nseq = s.range(1, 4);
  for (let f = 0; f < nseq && !ended; f++) {
    const code = []; const locals = ['i32', 'i64', 'f32', 'f64']; // 1..4 scratch; 0 is the parameter
    const NR = 4; const ref = [null, null, null, null]; const R0 = 5; for (let i = 0; i < NR; i++) locals.push(F);
    const param = s.range(0, 6);
    const e = (...x) => code.push(x);
    const fold = (t) => { if (t === F || t === E) { e('ref.is_null'); t = 'i32'; } toI64(code, t); e('global.get', 0); e('i64.const', 3n); e('i64.rotl'); e('i64.xor'); e('global.set', 0); };
    const idx = (i) => { switch (s.draw(4)) { case 0: e('i32.const', i); break; case 1: e('local.get', 0); e('i32.const', i - param); e('i32.add'); break; case 2: e('i32.const', i); e('local.set', 1); e('local.get', 1); break; default: e('i32.const', i + 1); e('i32.const', 1); e('i32.sub'); } };
    const ftabs = tabs.map((x, k) => k).filter(k => !tabs[k].ext);
    // pushes a reference; returns which function it is (null: the null reference)
    const src = (d) => {
      let v;
      switch (s.weighted([[3, 'tab'], [3, 'loc'], [1, 'null']])) {
        case 'tab': { const t = s.pick(ftabs), i = s.draw(tabs[t].e.length); idx(i); e('table.get', t); v = tabs[t].e[i]; break; }
        case 'loc': { const i = s.draw(NR); e('local.get', R0 + i); v = ref[i]; break; }
        default: e('ref.null', F); v = null;
      }
      for (let n = s.weighted([[3, 0], [2, 1], [1, 3]]); n > 0 && d < 3; n--) {
        switch (s.draw(12)) {
          case 0: e('call', mv.id); break;
          case 1: { const w = src(d + 1); e('call', mv.swap); if (s.bool()) { e('drop'); v = w; } else { const i = s.draw(NR); e('local.set', R0 + i); ref[i] = v; v = w; } break; }
          case 2: { const i = s.draw(NR); e('local.tee', R0 + i); ref[i] = v; break; }
          case 3: { const w = src(d + 1); const c = s.draw(2); e('i32.const', c); e('select_t', F); v = c ? v : w; break; }
          case 4: { const w = src(d + 1); const c = s.draw(2); e('i32.const', c); e('call', mv.pick); v = c ? v : w; break; }
          case 5: e('i32.const', s.pick([0, 1, 5, 40])); e('call', mv.deep); break;
          case 6: e('call', mv.br); break;
          case 7: { const i = s.draw(NR); e('local.set', R0 + i); ref[i] = v; e('i32.const', 77); e('local.get', R0 + i); e('i64.const', 1n); e('ref.null', E); const w = src(d + 1); e('call', mv.perm); e('drop'); const j = s.draw(NR); e('local.set', R0 + j); ref[j] = ref[i] === undefined ? null : v; e('drop'); v = w; break; }
          case 8: e('block', ty([F], [F])); e('i32.const', s.draw(2)); e('br_if', 0); e('end'); break;
          case 9: e('i32.const', s.draw(2)); e('if', ty([F], [F])); { const i = s.draw(NR); void i; } e('else'); e('end'); break;
          case 10: { const t = s.pick(ftabs), i = s.draw(tabs[t].e.length), j = s.draw(NR); e('local.set', R0 + j); ref[j] = v; idx(i); e('local.get', R0 + j); e('table.set', t); tabs[t].e[i] = v; idx(i); e('table.get', t); break; }
          default: { const w = src(d + 1); const c = s.draw(2); e('drop'); void c; void w; }
        }
      }
      return v;
    };
    const args = (sg) => { if (sg.imp && sg.p.length) { e('i32.const', 99); return; } for (const t of sg.p) { if (s.bool()) e(...genConst(s, t, false)); else { const l = 1 + NT.indexOf(t); e(...genConst(s, t, false)); e('local.set', l); e('local.get', l); } } };
    const steps = s.range(1, 20);
    for (let k = 0; k < steps; k++) {
      nops++;
      switch (s.weighted([[5, 'call'], [4, 'set'], [3, 'isnull'], [2, 'fill'], [3, 'local'], [2, 'copy'], [1, 'fresh'], [1, 'ext'], [1, 'imm'], [1, 'scan']])) {
        case 'call': {
          const c = []; for (const t of ftabs) tabs[t].e.forEach((x, i) => { if (x !== null && sigOf.has(x)) c.push([t, i]); });
          if (!c.length) break; const [t, i] = s.pick(c); const sg = sigOf.get(tabs[t].e[i]);
          args(sg); idx(i); e('call_indirect', s.pick(same(sg.p, sg.r)), t); icalls++;
          for (const r of sg.r.slice().reverse()) fold(r); break;
        }
        case 'imm': { // a reference that is called at once through a scratch entry
          const t = s.pick(ftabs), i = s.draw(tabs[t].e.length); const j = s.draw(NR); const v = src(0); e('local.set', R0 + j); ref[j] = v; idx(i); e('local.get', R0 + j); e('table.set', t); tabs[t].e[i] = v;
          if (v !== null && sigOf.has(v)) { const sg = sigOf.get(v); args(sg); idx(i); e('call_indirect', s.pick(same(sg.p, sg.r)), t); icalls++; for (const r of sg.r.slice().reverse()) fold(r); } break;
        }
        case 'set': { const t = s.pick(ftabs), i = s.draw(tabs[t].e.length); idx(i); const v = src(0); e('table.set', t); tabs[t].e[i] = v; break; }
        case 'isnull': src(0); fold(F); break;
        case 'fill': { const t = s.pick(ftabs); const L = tabs[t].e.length; const a = s.range(0, L), n = s.range(0, L - a); idx(a); const v = src(0); idx(n); e('table.fill', t); for (let q = a; q < a + n; q++) tabs[t].e[q] = v; break; }
        case 'local': { const v = src(0); const i = s.draw(NR); e('local.set', R0 + i); ref[i] = v; break; }
        case 'copy': { // moves entries in a loop
          const t = s.pick(ftabs), u = s.pick(ftabs); const n = s.range(1, Math.min(6, tabs[t].e.length, tabs[u].e.length));
          const a = s.range(0, tabs[t].e.length - n), b = s.range(0, tabs[u].e.length - n);
          e('i32.const', 0); e('local.set', 1); e('loop', null);
          e('local.get', 1); e('i32.const', b); e('i32.add'); e('local.get', 1); e('i32.const', a); e('i32.add'); e('table.get', t); e('table.set', u);
          e('local.get', 1); e('i32.const', 1); e('i32.add'); e('local.tee', 1); e('i32.const', n); e('i32.lt_u'); e('br_if', 0); e('end');
          for (let q = 0; q < n; q++) tabs[u].e[b + q] = tabs[t].e[a + q]; break;
        }
        case 'scan': { const t = s.draw(ntab); e('i32.const', 0); e('local.set', 1); e('loop', null); e('local.get', 1); e('table.get', t); fold(tabs[t].ext ? E : F); e('local.get', 1); e('i32.const', 1); e('i32.add'); e('local.tee', 1); e('i32.const', tabs[t].e.length); e('i32.lt_u'); e('br_if', 0); e('end'); break; }
        case 'fresh': e('call', mv.fresh); fold('i32'); fold(F); break;
        case 'ext': { const c = tabs.map((x, q) => q).filter(q => tabs[q].ext); if (!c.length) break; const t = s.pick(c); const i = s.draw(tabs[t].e.length); if (s.bool()) { idx(i); e('ref.null', E); e('table.set', t); } else { idx(i); e('ref.null', E); e('i32.const', tabs[t].e.length - i); e('table.fill', t); } idx(i); e('table.get', t); fold(E); break; }
      }
    }
    if (s.chance(1, 5)) {
      // an operation that must trap ends the call; mismatches leave the instance usable
      const t = s.pick(ftabs), L = tabs[t].e.length;
      const bad = s.weighted([[4, 'mismatch'], [1, 'null'], [1, 'oobcall'], [1, 'oobget'], [1, 'oobset'], [1, 'oobfill']]);
      const far = s.pick([L, L + 1, -1, 0x7fffffff, -0x80000000, 65536]);
      if (bad === 'mismatch') {
        const c = []; tabs[t].e.forEach((x, i) => { if (x !== null && sigOf.has(x)) c.push(i); });
        if (c.length) { const i = s.pick(c); const a = sigOf.get(tabs[t].e[i]); const o = s.pick([...sigs, { p: [...a.p, 'i32'], r: a.r }, { p: a.p, r: [...a.r, 'i64'] }, { p: a.p.slice(1), r: a.r }, { p: a.p.slice().reverse(), r: a.r }, { p: a.r, r: a.p }]); if (o.p.join() !== a.p.join() || o.r.join() !== a.r.join()) { args(o); idx(i); e('call_indirect', ty(o.p, o.r), t); for (const x of o.r) { void x; e('drop'); } } }
      } else if (bad === 'null') { const i = tabs[t].e.indexOf(null); if (i >= 0) { const o = s.pick(sigs); args(o); idx(i); e('call_indirect', ty(o.p, o.r), t); o.r.forEach(() => e('drop')); ended = true; } } else if (bad === 'oobcall') { const o = s.pick(sigs); args(o); e('i32.const', far); e('call_indirect', ty(o.p, o.r), t); o.r.forEach(() => e('drop')); ended = true; } else if (bad === 'oobget') { e('i32.const', far); e('table.get', t); e('drop'); ended = true; } else if (bad === 'oobset') { e('i32.const', far); e('ref.null', F); e('table.set', t); ended = true; } else { const a = s.range(0, L); e('i32.const', a); e('ref.null', F); e('i32.const', s.pick([L - a + 1, L + 1, -1])); e('table.fill', t); ended = true; }
    }
    e('global.get', 0);
    m.funcs.push({ type: ty(['i32'], ['i64']), locals, code });
    m.exports.push({ name: 'f' + f, kind: 'func', idx: ni + m.funcs.length - 1 });
    calls.push({ name: 'f' + f, params: ['i32:' + param.toString(16)], results: ['i64'] });
  }
  if (!ended) { // every entry of every table: null or not, and which function answers
    const code = [];
    const fold = (t) => { toI64(code, t); code.push(['global.get', 0], ['i64.const', 3n], ['i64.rotl'], ['i64.xor'], ['global.set', 0]); };
    tabs.forEach((tb, t) => tb.e.forEach((x, i) => {
      code.push(['i32.const', i], ['table.get', t], ['ref.is_null']); fold('i32');
      if (x !== null && sigOf.has(x)) { const sg = sigOf.get(x); for (const p of sg.p) code.push(constOf(p, sg.imp ? 99 : i)); code.push(['i32.const', i], ['call_indirect', ty(sg.p, sg.r), t]); for (const r of sg.r.slice().reverse()) fold(r); icalls++; }
    }));
    code.push(['global.get', 0]);
    m.funcs.push({ type: ty([], ['i64']), locals: [], code });
    m.exports.push({ name: 'probe', kind: 'func', idx: ni + m.funcs.length - 1 });
    calls.push({ name: 'probe', params: [], results: ['i64'] });
  }
  if (ni) { m.mem = { min: 1 }; m.exports.push({ name: 'mem', kind: 'mem', idx: 0 }); }
  m.exports.push({ name: 'g0', kind: 'global', idx: 0 });
  return { m, calls, variant, nops, icalls, ntab, nseg };
}
function toI64(code, t) {
  if (t === 'i32') code.push(['i64.extend_i32_u']); else if (t === 'f32') code.push(['i32.reinterpret_f32'], ['i64.extend_i32_u']); else if (t === 'f64') code.push(['i64.reinterpret_f64']);
}
const db = new DataView(new ArrayBuffer(8));
function constOf(t, n) {
  if (t === 'i32') return ['i32.const', n]; if (t === 'i64') return ['i64.const', BigInt(n) << 20n];
  if (t === 'f32') { db.setFloat32(0, n + 0.5); return ['f32.const', db.getUint32(0)]; }
  db.setFloat64(0, n + 0.25); return ['f64.const', db.getBigUint64(0)];
}
function run(c) {
  const bytes = encode(c.m);
  const exp = expected(c.m, bytes, c.calls);
  const d = compare(c.m, bytes, c.calls, c.variant, exp);
  return { nontrivial: c.nops >= 4 && c.icalls >= 1, counters: { operations: c.nops, indirect_calls: c.icalls, tables: c.ntab, segments: c.nseg, traps: exp.traps, [c.variant]: 1 }, fail: d ? { sig: d.kind, detail: `[${c.variant}] ${d.detail}` } : null };
}
const show = (c) => `variant ${c.variant}\ncalls ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 40000, thorough: 1000000 }, chunk: 50,
  rule: 'Random histories over 1-4 tables (funcref and externref) with active segments of both kinds: table.get/set/fill, entries moved in loops, references through locals, operands, selection, blocks, branches, parameters and results of calls and recursion, indirect calls by computed index with equal types under several indices, and mismatching, null and out-of-range accesses. At the end every entry is tested for null and called. An accumulator of who answered with which arguments is compared with V8. Non-trivial: at least 4 operations and one indirect call.',
  assumptions: ['V8 implements the reference-types proposal', 'externref segments, table.size, table.grow, table.copy and table.init are not used (unsupported)'],
};
