'use strict';
// C14: a module that is not valid is refused before anything of it runs.
const fs = require('fs'); const path = require('path');
const { genModule } = require('../lib/gen_module');
const { encode, withCustoms, wat, W } = require('../lib/wasmenc');
const { Ref } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { runBin, BUILD } = require('../lib/host');
const C16 = require('./C16');
const { parseResult } = require('./C15');
const NT = ['i32', 'i64', 'f32', 'f64'];

let V = null;
const INVALID = 1, UNBOUNDED = 2, ACCESS = 4, COMPONENT = 8, IMPORTS = 16, NOT_DEFAULT = 32;
// validator with every proposal enabled, compiled apart from the interpreter
function classify(bytes) {
  if (!V) { V = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(path.join(BUILD, 'validator.wasm'))), { wasi_snapshot_preview1: new World({}).imports(() => V.exports.memory) }); if (V.exports._initialize) V.exports._initialize(); }
  const p = V.exports.alloc(bytes.length); new Uint8Array(V.exports.memory.buffer).set(bytes, p);
  // a validator that gives up judges nothing
  try { const r = V.exports.check(p, bytes.length); V.exports.release(p, bytes.length); return r; } catch (e) { if (!(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e; V = null; return -1; }
}

// straight-line functions, each calling only later ones
function straight(s) {
  const types = []; const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const m = { types, imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [] };
  m.imports.push({ mod: 'wasi_snapshot_preview1', name: 'fd_write', type: ty(['i32', 'i32', 'i32', 'i32'], ['i32']) });
  if (s.bool()) m.imports.push({ mod: 'wasi_snapshot_preview1', name: 'sched_yield', type: ty([], ['i32']) });
  const ni = m.imports.length;
  m.mem = { min: 1, max: s.bool() ? 2 : undefined };
  m.datas.push({ offset: ['i32.const', 0], bytes: [16, 0, 0, 0, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, ...Buffer.from('I RAN!!\n')] });
  for (let i = s.draw(3); i > 0; i--) m.datas.push({ offset: s.bool() ? null : ['i32.const', 64 + s.draw(1000)], bytes: new Array(s.draw(20)).fill(0).map(() => s.draw(256)) });
  for (let i = s.draw(4); i > 0; i--) { const t = s.pick(['i32', 'i64']); m.globals.push({ t, mut: s.bool(), init: [t + '.const', t === 'i32' ? s.draw(100) : BigInt(s.draw(100))] }); }
  const nf = s.range(1, 5); const sigs = []; for (let i = 0; i < nf; i++) { const p = [], r = []; for (let k = s.draw(4); k > 0; k--) p.push(s.pick(NT)); for (let k = s.draw(3); k > 0; k--) r.push(s.pick(NT)); sigs.push({ p, r }); }
  for (let i = 0; i < nf; i++) {
    const sig = sigs[i]; const locals = []; for (let k = s.draw(4); k > 0; k--) locals.push(s.pick(NT)); const all = [...sig.p, ...locals];
    const code = [];
    const c = (t) => [t + '.const', t === 'i32' ? s.draw(1000) : t === 'i64' ? BigInt(s.draw(1000)) : t === 'f32' ? 0x3f800000 : 0x4000000000000000n];
    const ex = (t, d) => {
      const l = all.map((x, k) => k).filter(k => all[k] === t); const g = m.globals.map((x, k) => k).filter(k => m.globals[k].t === t);
      const calls = sigs.map((x, k) => k).filter(k => k > i && sigs[k].r.length === 1 && sigs[k].r[0] === t);
      switch (s.weighted([[3, 'c'], [l.length ? 4 : 0, 'l'], [g.length ? 1 : 0, 'g'], [d && t[0] === 'i' ? 4 : 0, 'op'], [d ? 1 : 0, 'if'], [d ? 1 : 0, 'block'], [d && calls.length ? 2 : 0, 'call'], [d ? 1 : 0, 'select'], [d && t === 'i32' ? 1 : 0, 'cmp']])) {
        case 'l': code.push(['local.get', s.pick(l)]); break;
        case 'g': code.push(['global.get', s.pick(g)]); break;
        case 'op': ex(t, d - 1); ex(t, d - 1); code.push([t + s.pick(['.add', '.sub', '.mul', '.xor', '.and', '.shl', '.rotl'])]); break;
        case 'cmp': ex('i64', d - 1); ex('i64', d - 1); code.push([s.pick(['i64.eq', 'i64.lt_s', 'i64.ge_u'])]); break;
        case 'if': ex('i32', d - 1); code.push(['if', t]); ex(t, d - 1); code.push(['else']); ex(t, d - 1); code.push(['end']); break;
        case 'block': code.push(['block', t]); ex(t, d - 1); if (s.bool()) code.push(s.pick([['br', 0], ['br_table', [0, 0], 0]].slice(0, 1))); code.push(['end']); break;
        case 'call': { const k = s.pick(calls); for (const x of sigs[k].p) ex(x, d - 1); code.push(['call', ni + k]); break; }
        case 'select': ex(t, d - 1); ex(t, d - 1); ex('i32', d - 1); code.push(['select']); break;
        default: code.push(c(t));
      }
    };
    for (let k = s.draw(4); k > 0; k--) { const mg = m.globals.map((g, x) => x).filter(x => m.globals[x].mut); if (mg.length && s.bool()) { const x = s.pick(mg); ex(m.globals[x].t, 2); code.push(['global.set', x]); } else if (all.length) { const x = s.draw(all.length); ex(all[x], 2); code.push(['local.set', x]); } else { ex('i32', 2); code.push(['drop']); } }
    for (const t of sig.r) ex(t, 3);
    m.funcs.push({ type: ty(sig.p, sig.r), locals, code });
  }
  m.sigs = sigs;
  return m;
}
function base(s) {
  const kind = s.weighted([[6, 'straight'], [2, 'general'], [2, 'layout']]);
  let m, sigs, pre = [];
  if (kind === 'straight') { m = straight(s); sigs = m.sigs; } else if (kind === 'general') { m = genModule(s, { nan: 'A', maxSteps: 15, maxFuncs: 3, fuel: 10, wasiImport: [['fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']]], wasiCall: () => {} }); sigs = m.sigs; pre = [['i32.const', 0], ['i32.const', 16], ['i32.store', { offset: 0, align: 2 }], ['i32.const', 4], ['i32.const', 8], ['i32.store', { offset: 0, align: 2 }]]; if (!m.mem) m.mem = { min: 1 }; } else { const c = C16.gen(s); if (c.refused) return base(s); m = c.m; if (!m.imports.length || !m.mem || !m.mem.min) return base(s); const k = m.imports.findIndex(x => x.name === 'fd_write'); if (k < 0) { const t = m.types.push({ p: ['i32', 'i32', 'i32', 'i32'], r: ['i32'] }) - 1; m.imports[0] = { mod: 'wasi_snapshot_preview1', name: 'fd_write', type: t }; } sigs = []; pre = [['i32.const', 0], ['i32.const', 16], ['i32.store', { offset: 0, align: 2 }], ['i32.const', 4], ['i32.const', 8], ['i32.store', { offset: 0, align: 2 }]]; m.exports = m.exports.filter(e => e.name !== 'main'); if (m.funcs.some(f => f.code.some(x => x[0] === 'call_indirect'))) { /* entries of another type are fine */ } }
  // says that the program runs, then returns something that depends on it
  const ni = m.imports.length; const w = m.imports.findIndex(x => x.name === 'fd_write');
  const say = [...pre, ['i32.const', 1], ['i32.const', 0], ['i32.const', 1], ['i32.const', 12], ['call', w], ['drop']];
  const ty = (p, r) => { for (let i = 0; i < m.types.length; i++) if (m.types[i].p.join() === p.join() && m.types[i].r.join() === r.join()) return i; m.types.push({ p, r }); return m.types.length - 1; };
  const k = sigs.findIndex(x => x.r.length && x.r.every(t => t[0] === 'i') && x.p.every(t => !t.endsWith('ref')));
  const zero = (t) => [t + '.const', t === 'i64' || t === 'f64' ? 5n : 5];
  const results = k < 0 ? ['i32'] : sigs[k].r;
  const main = { type: ty([], results), locals: [], code: [...say, ...(k < 0 ? [['i32.const', 77]] : [...sigs[k].p.map(zero), ['call', ni + m.funcs.length + 1]])] };
  // main comes first, so that it calls later functions only
  const shift = (i) => (i >= ni ? i + 1 : i);
  if (kind === 'straight') {
    for (const f of m.funcs) for (const x of f.code) if (x[0] === 'call') x[1] = shift(x[1]);
    m.funcs.unshift(main); main.code = main.code.map(x => (x[0] === 'call' && x[1] >= ni ? ['call', ni + 1 + k] : x));
    m.exports = m.exports.map(e => (e.kind === 'func' ? { ...e, idx: shift(e.idx) } : e)); m.exports.push({ name: 'main', kind: 'func', idx: ni });
  } else { main.code = main.code.map(x => (x[0] === 'call' && x[1] >= ni ? ['call', ni + k] : x)); m.funcs.push(main); m.exports.push({ name: 'main', kind: 'func', idx: ni + m.funcs.length - 1 }); }
  if (s.chance(1, 3)) { m.funcs.push({ type: ty([], []), locals: [], code: [...say] }); m.start = ni + m.funcs.length - 1; }
  m.exports = m.exports.filter(e => e.name !== 'mem'); m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
  return { kind, m, results };
}
// changes of the module before it is encoded, most of which make it invalid
function breakAst(s, m) {
  const f = s.pick(m.funcs); const ni = m.imports.length; const nf = ni + m.funcs.length; const at = () => s.draw(f.code.length + 1);
  const consts = [['i32.const', 1], ['i64.const', 1n], ['f32.const', 0], ['f64.const', 0n], ['drop'], ['end'], ['else'], ['ref.null', 'funcref'], ['ref.null', 'externref'], ['i32.add'], ['i64.add'], ['f32.add'], ['select'], ['return'], ['unreachable'], ['nop'], ['br', 0], ['br', 1], ['br', 50], ['br_if', 0], ['local.get', 0], ['local.set', 0], ['local.tee', 1], ['global.get', 0], ['global.set', 0], ['call', 0], ['call', nf], ['call', 0xffffffff], ['call_indirect', 0, 0], ['block', null], ['loop', null], ['if', null], ['i32.load', { offset: 0, align: 2 }], ['i32.load', { offset: 0, align: 3 }], ['i64.store', { offset: 0, align: 4 }], ['memory.size'], ['memory.grow'], ['memory.fill'], ['memory.copy'], ['memory.init', 0], ['memory.init', 99], ['data.drop', 0], ['data.drop', 99], ['table.get', 0], ['table.get', 9], ['table.set', 0], ['i32.wrap_i64'], ['i64.extend_i32_s'], ['ref.is_null'], ['select_t', 'i32'], ['br_table', [0, 1], 0], ['br_table', [], 3]];
  const ops = {
    insert: () => { f.code.splice(at(), 0, s.pick(consts)); },
    remove: () => { if (f.code.length) f.code.splice(s.draw(f.code.length), 1); },
    replace: () => { if (f.code.length) f.code[s.draw(f.code.length)] = s.pick(consts); },
    swap: () => { if (f.code.length > 1) { const i = s.draw(f.code.length - 1); [f.code[i], f.code[i + 1]] = [f.code[i + 1], f.code[i]]; } },
    cut: () => { f.code.length = s.draw(f.code.length + 1); },
    local: () => { if (f.locals.length && s.bool()) f.locals.splice(s.draw(f.locals.length), 1); else f.locals.push(s.pick(NT)); },
    localtype: () => { if (f.locals.length) f.locals[s.draw(f.locals.length)] = s.pick([...NT, 'funcref', 'externref']); },
    ftype: () => { f.type = s.pick([s.draw(m.types.length), m.types.length, 0xffffffff]); },
    type: () => { const t = s.pick(m.types); const l = s.bool() ? t.p : t.r; if (l.length && s.bool()) l[s.draw(l.length)] = s.pick(NT); else if (l.length && s.bool()) l.pop(); else l.push(s.pick(NT)); },
    imptype: () => { if (m.imports.length) s.pick(m.imports).type = s.pick([s.draw(m.types.length), m.types.length]); },
    impname: () => { if (m.imports.length) { const i = s.pick(m.imports); if (s.bool()) i.name = s.pick(['nope', '', 'fd_write2']); else i.mod = s.pick(['env', '', 'wasi_unstable']); } },
    export: () => { const e = s.pick(m.exports); e.idx = s.pick([nf, 1000, 0xffffffff]); },
    dupexport: () => { const e = s.pick(m.exports); m.exports.push({ ...e, idx: e.idx }); },
    exportkind: () => { s.pick(m.exports).kind = s.pick(['func', 'mem', 'table', 'global']); },
    start: () => { m.start = s.draw(nf + 1); },
    mem: () => { switch (s.draw(4)) { case 0: m.mem = undefined; break; case 1: m.mem = { min: 2, max: 1 }; break; case 2: m.mem = { min: 65537 }; break; default: m.mem = { min: 1, max: 65537 }; } },
    table: () => { m.table = undefined; m.tables = s.bool() ? undefined : [{ min: 3, max: 1, type: 'funcref' }]; },
    elem: () => { const e = m.elems.length ? s.pick(m.elems) : (m.elems.push({ offset: ['i32.const', 0], funcs: [0] }), m.elems[m.elems.length - 1]); switch (s.draw(4)) { case 0: e.funcs = [...e.funcs, nf + s.draw(3)]; break; case 1: if (e.offset) e.offset = s.pick([['i64.const', 0n], ['global.get', 0], ['global.get', 77], ['f32.const', 0]]); break; case 2: e.table = 7; break; default: break; } },
    data: () => { const d = m.datas.length ? s.pick(m.datas) : (m.datas.push({ offset: ['i32.const', 0], bytes: [1] }), m.datas[0]); d.offset = s.pick([['i64.const', 0n], ['global.get', 0], ['global.get', 77], ['i32.const', 70000], ['ref.null', 'funcref'], null]); },
    datacount: () => { m.datacount = false; },
    global: () => { if (!m.globals.length) return; const g = s.pick(m.globals); switch (s.draw(3)) { case 0: g.mut = !g.mut; break; case 1: g.t = s.pick(NT); break; default: g.init = s.pick([['i32.const', 1], ['i64.const', 1n], ['global.get', 0], ['global.get', 99], ['ref.null', 'funcref']]); } },
    nofuncs: () => { m.funcs.pop(); },
  };
  const k = s.pick(Object.keys(ops)); ops[k](); return k;
}
function sections(b) { const r = []; let p = 8; while (p < b.length) { const a = p++; let n = 0, sh = 0, x; do { x = b[p++]; n += (x & 127) * 2 ** sh; sh += 7; } while (x & 128 && p < b.length); r.push([a, p, Math.min(b.length, p + n)]); p += n; } return r; }
function breakBytes(s, b) {
  const at = () => s.draw(b.length); const S = sections(b); const cut = (a, e, x = []) => Uint8Array.from([...b.slice(0, a), ...x, ...b.slice(e)]);
  const k = s.weighted([[3, 'truncate'], [5, 'flip'], [4, 'set'], [3, 'insert'], [3, 'delete'], [2, 'dup'], [2, 'move'], [1, 'drop'], [2, 'size'], [1, 'append'], [1, 'header'], [1, 'file'], [2, 'custom'], [2, 'range'], [2, 'op']]);
  switch (k) {
    case 'truncate': return [k, b.slice(0, s.bool() ? at() : s.pick(S)[s.draw(3)])];
    case 'flip': { const r = b.slice(); for (let i = s.weighted([[4, 1], [1, 3]]); i > 0; i--) r[at()] ^= 1 << s.draw(8); return [k, r]; }
    case 'set': { const r = b.slice(); r[at()] = s.pick([0, 1, 0x7f, 0x7e, 0x7d, 0x7c, 0x70, 0x6f, 0x80, 0xff, 0x0b, 0x40, 0x60, s.draw(256)]); return [k, r]; }
    case 'insert': { const n = s.weighted([[4, 1], [1, s.range(2, 20)]]); const p = at(); return [k, cut(p, p, new Array(n).fill(0).map(() => s.draw(256)))]; }
    case 'delete': { const p = at(); return [k, cut(p, p + s.weighted([[4, 1], [1, s.range(2, 20)]]))]; }
    case 'dup': { const [a, , e] = s.pick(S); const p = s.pick(S)[0]; return [k, cut(p, p, b.slice(a, e))]; }
    case 'move': { const [a, , e] = s.pick(S); const x = b.slice(a, e); const r = cut(a, e); const T = sections(r); const p = s.bool() || !T.length ? r.length : s.pick(T)[0]; return [k, Uint8Array.from([...r.slice(0, p), ...x, ...r.slice(p)])]; }
    case 'drop': { const [a, , e] = s.pick(S); return [k, cut(a, e)]; }
    case 'size': { const [a, p] = s.pick(S); const w = new W(); w.u32(s.pick([0, 1, b.length, 0xffffffff, s.draw(300)])); return [k, cut(a + 1, p, w.a)]; }
    case 'append': return [k, Uint8Array.from([...b, ...new Array(s.range(1, 12)).fill(0).map(() => s.draw(s.pick([13, 256])))])];
    case 'header': { const r = b.slice(); r[s.draw(8)] = s.draw(256); return [k, r]; }
    case 'file': return [k, s.pick([() => new Uint8Array(0), () => Uint8Array.from(Buffer.from('(module (func (export "main")))')), () => Uint8Array.from([0, 0x61, 0x73, 0x6d]), () => Uint8Array.from([0, 0x61, 0x73, 0x6d, 0xd, 0, 1, 0]), () => Uint8Array.from(new Array(s.range(1, 200)).fill(0).map(() => s.draw(256))), () => Uint8Array.from([...b, ...b]), () => b.slice(8)])()];
    case 'custom': return [k, withCustoms(b, [[s.draw(20), s.pick(['', 'name', 'x']), new Array(s.draw(10)).fill(0).map(() => s.draw(256))]])];
    case 'range': { const p = at(); const q = Math.min(b.length, p + s.range(1, 8)); return [k, cut(p, q, [...b.slice(at(), at() + (q - p))])]; }
    default: { // an opcode of the code section
      const c = S.find(x => b[x[0]] === 10); if (!c) return [k, b]; const r = b.slice(); const p = c[1] + s.draw(Math.max(1, c[2] - c[1])); r[p] = s.pick([s.range(0x20, 0x24), s.range(0x45, 0xc4), 0x0b, 0x1a, 0x1b, 0x0f, 0x00, 0x01, 0x0c, 0xfc, 0xfd, 0xd0, 0xd2, 0x12]); return [k, r];
    }
  }
}
function gen(s) {
  const b = base(s); const how = []; let neutral = true;
  const variant = s.bool() ? 'bin-tco' : 'bin-legacy';
  for (let i = s.weighted([[1, 0], [4, 1], [1, 2]]); i > 0; i--) { how.push('ast-' + breakAst(s, b.m)); neutral = false; }
  let bytes; try { bytes = encode(b.m); } catch (e) { bytes = new Uint8Array(0); how.push('encode'); neutral = false; }
  for (let i = how.length ? s.weighted([[3, 0], [1, 1]]) : s.weighted([[1, 0], [6, 1], [2, 2], [1, s.range(3, 6)]]); i > 0 && bytes.length > 20; i--) { const [k, r] = breakBytes(s, bytes); if (k !== 'custom') neutral = false; how.push(k); bytes = r; }
  return { kind: b.kind, m: b.m, results: b.results, bytes, how, neutral, variant };
}
function run(c) {
  const bytes = c.bytes; const v8 = WebAssembly.validate(bytes); const cls = classify(bytes);
  const counters = { [c.kind]: 1, [c.variant]: 1, invalid: 0, valid: 0, disagree: 0, compared: 0, refused_valid: 0, bytes: bytes.length };
  for (const h of c.how) counters['m_' + h] = (counters['m_' + h] || 0) + 1;
  const w = new World({ files: { 'guest.wasm': bytes, keep: [1, 2, 3] } }); const tree = w.tree();
  const res = (nontrivial, fail) => ({ nontrivial, counters, fail });
  if (cls < 0) { counters.unjudged = 1; return res(false, null); }
  if (v8 !== !(cls & INVALID) && !(cls & COMPONENT)) { counters.disagree = 1; return res(false, null); }
  const exec = () => { const r = runBin(c.variant, ['guest.wasm', '--invoke', 'main'], w); r.out = w.stdout().toString('latin1'); r.err = w.stderr().toString(); return r; };
  const bad = (sig, detail) => res(true, { sig, detail: `[${c.variant}] ${c.how.join('+')}: ${detail}` });
  if (!v8) {
    counters.invalid = 1; const r = exec();
    const more = `(${r.end} ${r.code} stdout ${JSON.stringify(r.out.slice(0, 200))} stderr ${JSON.stringify(r.err.slice(-300))})`;
    if (r.out.length || w.tree() !== tree) return bad('effect', `an invalid module had an effect ${more}`);
    if (r.end === 'ok') return bad('accepted', `an invalid module is not refused ${more}`);
    if (r.end === 'hostabort') return bad('hostabort', more);
    return res(true, null);
  }
  counters.valid = 1;
  const must = c.neutral && !(cls & NOT_DEFAULT);
  if (!must && (cls & (UNBOUNDED | ACCESS | IMPORTS))) return res(false, null);
  // the same module run by V8
  let ref, end = 'ok', value = null; const rw = new World({ files: { 'guest.wasm': bytes, keep: [1, 2, 3] } }); let inst = null;
  rw.args = ['guest.wasm'];
  try {
    const mod = new WebAssembly.Module(bytes); const ex = WebAssembly.Module.exports(mod);
    if (WebAssembly.Module.imports(mod).some(i => i.module !== 'wasi_snapshot_preview1' || i.kind !== 'function' || !rw.imports(() => null)[i.name])) return res(false, null);
    if (!ex.some(e => e.name === 'main' && e.kind === 'function') || (!must && !ex.some(e => e.name === 'mem' && e.kind === 'memory'))) return res(false, null);
    // the start function runs once the instance exists
    const imp = rw.imports(() => inst.exports.mem); const early = []; for (const n in imp) { const f = imp[n]; imp[n] = (...a) => { if (!inst) { early.push(1); return 0; } return f(...a); }; }
    const m2 = startless(bytes); inst = new WebAssembly.Instance(m2 ? m2.mod : mod, { wasi_snapshot_preview1: imp });
    if (early.length) return res(false, null);
    if (m2) inst.exports[m2.name]();
    const r = inst.exports.main(); value = Array.isArray(r) ? r : r === undefined ? [] : [r];
  } catch (e) {
    if (e instanceof RangeError) return res(false, null); /* a pointer outside the memory given to the host */ if (e instanceof WebAssembly.RuntimeError) end = 'trap'; else if (e instanceof WebAssembly.LinkError || e instanceof TypeError) return res(false, null); else throw e;
  }
  if ((rw.stderr() + '').length || [...rw.out[1]].length > 100) return res(false, null);
  counters.compared = 1;
  const r = exec(); const result = (/Result: [^\n]*\n$/.exec(r.out) || [''])[0].trim() || null;
  const guest = r.out.replace(/Result: [^\n]*\n$/, ''); const more = `(${r.end} ${r.code} stdout ${JSON.stringify(r.out.slice(0, 300))} stderr ${JSON.stringify(r.err.slice(-300))}; V8 ${end} ${value} ${JSON.stringify(rw.stdout().toString('latin1').slice(0, 200))})`;
  const last = value && value.length ? value[value.length - 1] : null;
  const want = last === null ? null : typeof last === 'bigint' ? 'i64:' + BigInt.asUintN(64, last).toString(16) : null;
  if (end === 'trap') { if (result) return bad('result', `a result where V8 traps ${more}`); return res(true, null); }
  const accepted = r.end === 'ok' && !r.err.length;
  if (!accepted) { counters.refused_valid = 1; if (must) return bad('refused', `a valid module is refused ${more}`); return res(true, null); }
  if (!rw.stdout().equals(Buffer.from(guest, 'latin1'))) return bad('output', more);
  if (last === null ? result : !result) return bad('result', more);
  const p = last === null ? '' : parseResult(result);
  if (typeof last === 'bigint' ? p !== want : p.startsWith('i32:') && p !== 'i32:' + (last >>> 0).toString(16)) return bad('result', more);
  return res(true, null);
}
// the module without its start section, and an export of the start function in its place
function startless(b) {
  const S = sections(b); const st = S.filter(x => b[x[0]] === 8); if (st.length !== 1) return null;
  let [a, p, e] = st[0]; let n = 0, sh = 0, x; do { x = b[p++]; n += (x & 127) * 2 ** sh; sh += 7; } while (x & 128);
  const ex = S.find(x => b[x[0]] === 7); if (!ex) return null;
  let q = ex[1], cnt = 0; sh = 0; do { x = b[q++]; cnt += (x & 127) * 2 ** sh; sh += 7; } while (x & 128);
  const w = new W(); const body = new W(); body.u32(cnt + 1).bytes([...b.slice(q, ex[2])]).name('$start$').u8(0).u32(n);
  w.u8(7).u32(body.a.length).bytes(body.a);
  const out = Uint8Array.from([...b.slice(0, ex[0]), ...w.a, ...b.slice(ex[2], a), ...b.slice(e)]);
  return WebAssembly.validate(out) ? { mod: new WebAssembly.Module(out), name: '$start$' } : null;
}
const show = (c) => `${c.variant} ${c.kind} ${c.how.join(' + ')} results ${c.results}\nfile (${c.bytes.length} bytes) ${Buffer.from(c.bytes).toString('base64')}\n${c.how.some(x => !x.startsWith('ast')) ? '' : wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['bin-tco', 'bin-legacy', 'validator'], cases: { quick: 30000, thorough: 900000 }, chunk: 50,
  rule: 'Random modules (straight-line programs, general programs, module layouts), which write to standard output as soon as anything of them runs, are damaged in their structure (instructions inserted, removed, replaced; types, locals, indices, limits, segments, exports, start function changed) or in their bytes (truncation, flipped, changed, inserted, removed bytes, sections duplicated, moved, removed, resized, headers, other files), and given to the binary. A file that neither V8 nor a validator with every proposal enabled accepts must be refused with a failure status, without output and without a change of any file. A file both accept must give the output and result of V8, or be refused; undamaged files, and those with custom sections added, must run. Non-trivial: a file both refuse, or one that was compared.',
  assumptions: ['a module is invalid if both V8 and wasmparser with all features say so; files on which they differ are not judged', 'damaged modules that remain valid are compared only without loops, possible recursion, memory access and floating-point arithmetic'],
};
