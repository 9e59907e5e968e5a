'use strict';
// C16: instantiation establishes exactly the state the module declares.
const { encode, withCustoms, wat, W } = require('../lib/wasmenc');
const { Ref } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { runDriver } = require('../lib/host');
const { normLine } = require('../lib/diffcore');
const G = require('../lib/gen_module');
const NT = ['i32', 'i64', 'f32', 'f64'];
const NAMES = ['', ' ', 'a', 'main', '_start', 'memory', 'é', '日本', 'a b', 'x'.repeat(300), 'a/b', '.', '0', 'A', 'null', '\u{1F600}', 'f-1', '"', 'tab.le', '~'];
const IMPS = [['sched_yield', [], ['i32']], ['fd_close', ['i32'], ['i32']], ['fd_sync', ['i32'], ['i32']], ['clock_time_get', ['i32', 'i64', 'i32'], ['i32']], ['proc_exit', ['i32'], []]];
const hex = (t, v) => `${t}:${(t === 'i64' || t === 'f64' ? BigInt.asUintN(64, v) : Number(BigInt.asUintN(32, BigInt(v)))).toString(16)}`;

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  // a memory that cannot be had: refused, or of the declared size
  if (s.chance(1, 120)) { const min = s.weighted([[3, 65536], [1, s.pick([65535, 32768, 32769, 49152])]]); return { variant, huge: true, pad: null, customs: [], calls: [], risky: [], m: { types: [{ p: [], r: ['i32'] }], imports: [], globals: [], elems: [], datas: [], mem: { min, max: s.bool() ? undefined : 65536 }, funcs: [{ type: 0, locals: [], code: [['memory.size']] }], exports: [{ name: 'p', kind: 'func', idx: 0 }] } }; }
  const m = { types: [], imports: [], funcs: [], exports: [], globals: [], elems: [], datas: [], tables: [] };
  const fresh = (p, r) => { m.types.push({ p, r }); return m.types.length - 1; };
  const ty = (p, r) => { const c = m.types.map((t, i) => i).filter(i => m.types[i].p.join() === p.join() && m.types[i].r.join() === r.join()); return !c.length || s.chance(1, 8) ? fresh(p, r) : s.pick(c); };
  for (let i = s.draw(4); i > 0; i--) fresh([s.pick(NT)], s.bool() ? [s.pick(NT)] : []);
  const ni = s.weighted([[3, 0], [4, s.range(1, 6)]]);
  for (let i = 0; i < ni; i++) { const [n, p, r] = s.pick(IMPS); m.imports.push({ mod: 'wasi_snapshot_preview1', name: n, type: ty(p, r), sig: { p, r } }); }
  const hasMem = ni > 0 || s.chance(3, 4);
  if (hasMem) { const min = s.weighted([[1, 0], [6, s.range(1, 3)], [1, s.range(4, 40)]]); m.mem = { min, max: s.bool() ? undefined : min + s.draw(4) }; }
  const size = hasMem ? m.mem.min * 65536 : 0;
  // globals, also initialised from earlier immutable ones
  const ng = s.draw(9);
  for (let i = 0; i < ng; i++) {
    const c = m.globals.map((g, k) => k).filter(k => !m.globals[k].mut);
    if (c.length && s.chance(1, 6)) { const k = s.pick(c); m.globals.push({ t: m.globals[k].t, mut: s.bool(), init: ['global.get', k], v: m.globals[k].v }); continue; }
    const t = s.weighted([[3, 'i32'], [2, 'i64'], [2, 'f32'], [2, 'f64'], [1, 'funcref'], [1, 'externref']]);
    if (t.endsWith('ref')) { m.globals.push({ t, mut: s.bool(), init: ['ref.null', t], v: null }); continue; }
    const v = t === 'i32' ? G.genI32(s) : t === 'i64' ? G.genI64(s) : t === 'f32' ? (s.chance(1, 3) ? s.pick(G.F32NAN) : G.genF32(s, true)) : (s.chance(1, 3) ? s.pick(G.F64NAN) : G.genF64(s, true));
    m.globals.push({ t, mut: s.bool(), init: [t + '.const', v], v });
  }
  // functions with an identity
  const nf = s.range(1, 10); const fns = [];
  for (let i = 0; i < nf; i++) {
    const r = s.weighted([[4, ['i32']], [1, ['i64']], [1, ['f32']], [1, ['f64']], [1, ['i64', 'i32']]]); const p = s.weighted([[3, []], [1, ['i32']], [1, ['f64', 'i32']]]);
    const id = (t) => (t === 'i32' ? [['i32.const', 100 + i]] : t === 'i64' ? [['i64.const', BigInt(100 + i)]] : t === 'f32' ? [['f32.const', 0x42c80000 + (i << 17)]] : [['f64.const', 0x4059000000000000n + (BigInt(i) << 46n)]]);
    m.funcs.push({ type: ty(p, r), locals: [], code: r.flatMap(id) }); fns.push({ idx: ni + i, p, r });
  }
  // tables and their segments
  const nt = s.weighted([[2, 0], [4, 1], [2, 2], [1, 4]]); const tabs = [];
  for (let i = 0; i < nt; i++) { const min = s.weighted([[1, 0], [6, s.range(1, 12)], [1, s.range(13, 300)]]); m.tables.push({ min, max: s.bool() ? undefined : min + s.draw(9), type: i && s.chance(1, 5) ? 'externref' : 'funcref' }); }
  const ft = m.tables.map((t, i) => i).filter(i => m.tables[i].type === 'funcref');
  const anyF = () => s.draw(ni + nf);
  let refused = false;
  const oob = s.chance(1, 8) ? s.pick(['elem', 'data']) : null;
  const i32g = m.globals.map((g, k) => k).filter(k => !m.globals[k].mut && m.globals[k].t === 'i32');
  const at = (v) => { const c = i32g.filter(k => m.globals[k].v === v); return c.length ? ['global.get', c[0]] : ['i32.const', v]; };
  const seg = (limit, len) => { // offset of a segment of this length
    if (len > limit) return null;
    const c = i32g.filter(k => m.globals[k].v >= 0 && m.globals[k].v + len <= limit); if (c.length && s.chance(1, 4)) return m.globals[s.pick(c)].v;
    return s.weighted([[4, s.range(0, Math.min(40, limit - len))], [2, s.range(0, limit - len)], [1, limit - len], [1, 0]]);
  };
  const past = (limit, len) => s.pick([limit - len + 1, limit + 1, 0x7fffffff, -1, -len, limit + 65536].filter(o => (o >>> 0) + len > limit));
  if (ft.length) for (let i = s.draw(7); i > 0; i--) {
    const mode = s.weighted([[5, undefined], [3, 'exprs'], [1, 'passive'], [1, 'declarative']]);
    const t = s.pick(ft), L = m.tables[t].min; let n = s.weighted([[1, 0], [6, s.range(1, 5)], [1, s.range(6, 40)]]);
    const active = mode === undefined || mode === 'exprs';
    const bad = active && oob === 'elem' && !refused && s.bool();
    if (active && !bad) n = Math.min(n, L);
    const funcs = []; for (let k = 0; k < n; k++) funcs.push(mode === 'exprs' && s.chance(1, 3) ? null : anyF());
    if (!active) { m.elems.push({ mode, funcs, offset: null }); continue; }
    const o = bad ? past(L, n) : seg(L, n); if (bad) refused = true;
    m.elems.push({ mode, table: t, offset: at(o), funcs });
  }
  const mem = Buffer.alloc(size);
  if (hasMem) for (let i = s.draw(12); i > 0; i--) {
    let n = s.weighted([[1, 0], [6, s.range(1, 40)], [1, s.range(41, 3000)]]); const b = []; const k = s.draw(256); for (let j = 0; j < n; j++) b.push((k + j * 7) & 255);
    if (s.chance(1, 5)) { m.datas.push({ offset: null, bytes: b }); continue; }
    const bad = oob === 'data' && !refused && s.bool();
    if (!bad && n > size) { n = 0; b.length = 0; }
    const o = bad ? past(size, n) : seg(size, n); if (bad) refused = true;
    m.datas.push({ offset: at(o), bytes: b }); if (!bad) Buffer.from(b).copy(mem, o);
  }
  // probes
  const calls = []; const probe = (p, r, code, locals) => { m.funcs.push({ type: ty(p, r), locals: locals || [], code, nolocalrle: s.chance(1, 4) }); const idx = ni + m.funcs.length - 1; const name = 'p' + idx; m.exports.push({ name, kind: 'func', idx }); return name; };
  if (hasMem) { calls.push({ name: probe([], ['i32'], [['memory.size']]), params: [], results: ['i32'] }); }
  m.tables.forEach((t, k) => {
    const isnull = probe(['i32'], ['i32'], [['local.get', 0], ['table.get', k], ['ref.is_null']]);
    for (let i = 0; i < Math.min(t.min, 14); i++) calls.push({ name: isnull, params: ['i32:' + (t.min <= 14 ? i : s.draw(t.min)).toString(16)], results: ['i32'] });
    calls.push({ name: isnull, params: ['i32:' + s.pick([t.min, t.min + 1, 0xffffffff]).toString(16)], results: ['i32'], last: true });
    if (t.type === 'funcref') for (let i = s.draw(12); i > 0; i--) {
      const f = s.pick(m.imports.map(x => x.sig).concat(fns).filter(x => x.r.length)); const x = t.min ? s.draw(t.min) : 0;
      const args = f.p.map(q => (q === 'i32' ? ['i32.const', 77] : q === 'i64' ? ['i64.const', 5n] : q === 'f32' ? ['f32.const', 0] : ['f64.const', 0n]));
      calls.push({ name: probe(['i32'], f.r, [...args, ['local.get', 0], ['call_indirect', ty(f.p, f.r), k]]), params: ['i32:' + x.toString(16)], results: f.r, last: true });
    }
  });
  m.globals.forEach((g, k) => { if (!g.t.endsWith('ref') && s.bool()) calls.push({ name: probe([], [g.t], [['global.get', k]]), params: [], results: [g.t] }); });
  // locals start as zero and sit where they are declared
  for (let i = s.draw(3); i > 0; i--) {
    const p = []; for (let k = s.draw(3); k > 0; k--) p.push(s.pick(NT)); const l = []; for (let k = s.weighted([[4, s.range(1, 8)], [1, s.range(9, 120)]]); k > 0; k--) { const t = s.weighted([[8, s.pick(NT)], [1, 'funcref'], [1, 'externref']]); for (let j = s.range(1, 3); j > 0; j--) l.push(t); }
    const all = [...p, ...l]; const k = s.draw(all.length); const t = all[k];
    const code = []; for (let j = s.draw(4); j > 0; j--) { const q = s.draw(all.length); if (q !== k && !all[q].endsWith('ref')) code.push([all[q] + '.const', all[q] === 'i64' || all[q] === 'f64' ? 3n : 3], ['local.set', q]); }
    code.push(['local.get', k]); if (t.endsWith('ref')) code.push(['ref.is_null']);
    calls.push({ name: probe(p, [t.endsWith('ref') ? 'i32' : t], code, l), params: p.map(x => hex(x, x === 'i64' || x === 'f64' ? 9n : 9)), results: [t.endsWith('ref') ? 'i32' : t] });
  }
  if (hasMem) m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
  // exports
  const used = new Set(m.exports.map(e => e.name));
  for (let i = s.range(1, 8); i > 0; i--) {
    const name = s.chance(4, 5) ? s.pick(NAMES) : 'e' + i; if (used.has(name)) continue; used.add(name);
    const kind = s.weighted([[6, 'func'], [hasMem ? 1 : 0, 'mem'], [nt ? 1 : 0, 'table'], [ng ? 1 : 0, 'global']]);
    const idx = kind === 'func' ? s.draw(ni + m.funcs.length) : kind === 'mem' ? 0 : kind === 'table' ? s.draw(nt) : s.draw(ng);
    m.exports.splice(s.draw(m.exports.length + 1), 0, { name, kind, idx });
    if (kind !== 'func') { calls.push({ name, missing: true, params: [] }); continue; }
    const f = fns.find(x => x.idx === idx); if (f) calls.push({ name, params: f.p.map(x => hex(x, x === 'i64' || x === 'f64' ? 7n : 7)), results: f.r });
  }
  for (let i = s.draw(3); i > 0; i--) { const name = s.pick([...NAMES, 'p', 'p0', 'nope']); if (!used.has(name)) calls.push({ name, missing: true, params: [] }); }
  for (const n of NAMES) if (/[\t\n]/.test(n)) throw new Error('name');
  if (hasMem && s.bool()) calls.push({ name: probe(['i32'], ['i32'], [['local.get', 0], ['memory.grow']]), params: ['i32:' + s.pick([0, 1, 2, 3, 4, 5, 0x10001, 0xffffffff]).toString(16)], results: ['i32'] });
  // a call that may fail comes last, since a crash ends everything; there is one at most
  const ok = calls.filter(c => !c.last), risky = calls.filter(c => c.last);
  const customs = []; if (s.chance(1, 3)) for (let i = s.range(1, 4); i > 0; i--) customs.push([s.draw(20), s.pick(['name', '', 'producers', 'x']), new Array(s.draw(20)).fill(0).map(() => s.draw(256))]);
  let pad = null; if (s.chance(1, 5)) pad = s.u32();
  const datacount = s.bool();
  if (!datacount) m.datacount = false;
  return { m, calls: ok, risky, variant, refused, mem, customs, pad };
}
function encodeCase(c) {
  let x = c.pad; if (c.pad !== null) W.pad = () => { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; const k = x >>> 29; return k > 4 ? 0 : k; };
  try { return withCustoms(encode(c.m), c.customs); } finally { W.pad = null; }
}
function run(c) {
  const bytes = encodeCase(c);
  if (c.huge) {
    const r = runDriver(c.variant, [['load', 'guest.wasm'], ['call', 'p', '0']], new World({ files: { 'guest.wasm': bytes } }));
    const fine = !r.lines.includes('loaded') || r.lines[1] === `ret i32:${c.m.mem.min.toString(16)}`;
    return { nontrivial: true, evals: 1, counters: { [c.variant]: 1, huge: 1 }, fail: fine ? null : { sig: 'size', detail: `[${c.variant}] a memory of ${c.m.mem.min} pages is loaded with another size: ${r.lines.join(' | ')}` } };
  }
  const counters = { [c.variant]: 1, globals: c.m.globals.length, data_segments: c.m.datas.length, element_segments: c.m.elems.length, tables: c.m.tables.length, imports: c.m.imports.length, exports: c.m.exports.length, refused: c.refused ? 1 : 0, custom_sections: c.customs.length, padded: c.pad === null ? 0 : 1 };
  const nontrivial = c.m.globals.length + c.m.datas.length + c.m.elems.length >= 3;
  const bad = (sig, detail) => ({ nontrivial, counters, fail: { sig, detail: `[${c.variant}] ${detail}` } });
  let ref = null;
  try { ref = new Ref(bytes); } catch (e) { if (!c.refused || !(e instanceof WebAssembly.RuntimeError || e instanceof WebAssembly.LinkError)) throw e; }
  if (c.refused) {
    if (ref) throw new Error('V8 accepts the module');
    const r = runDriver(c.variant, [['load', 'guest.wasm'], ['mem'], ['globals']], new World({ files: { 'guest.wasm': bytes } }));
    if (r.lines.includes('loaded')) return bad('accepted', 'a module with an active segment that does not fit is instantiated');
    return { nontrivial: true, evals: 1, counters, fail: null };
  }
  const globals = 'globals ' + c.m.globals.map(g => (g.v === null ? 'ref:null' : hex(g.t, g.v))).join(',');
  const script = [['load', 'guest.wasm'], ['globals']]; const exp = ['loaded', globals];
  if (c.m.mem) { script.push(['mem']); exp.push('mem ' + c.mem.length); }
  let evals = 2;
  const one = (k) => { script.push(['call', k.name, '0', ...k.params]); exp.push(k.missing ? 'trap ExportFuncNotFound' : ref.call(k.name, k.params, k.results)); evals++; };
  for (const k of c.calls) one(k);
  const check = (script, exp) => {
    const r = runDriver(c.variant, script, new World({ files: { 'guest.wasm': bytes } }));
    const got = r.lines.map((l) => (l.startsWith('globals') || l.startsWith('trap Export') ? l : normLine(l)));
    const crashOk = r.end === 'crash' && exp[got.length] === 'trap';
    for (let i = 0; i < exp.length; i++) if (got[i] !== exp[i]) { if (crashOk && i === got.length) return null; return bad(i === 1 ? 'globals' : 'line', `${script[i].join(' ').slice(0, 80)}: chiwawa "${String(got[i]).slice(0, 400)}" expected "${exp[i]}" (${r.end} ${r.error || ''})`); }
    if (r.end !== 'ok') return bad(r.end, `${r.end} ${r.error || ''}`);
    if (c.m.mem && !r.blobs[0].equals(c.mem)) { let i = 0; while (r.blobs[0][i] === c.mem[i]) i++; return bad('memory', `memory differs at ${i}: chiwawa ${r.blobs[0].subarray(i, i + 8).toString('hex')} declared ${c.mem.subarray(i, i + 8).toString('hex')}`); }
    return null;
  };
  let f = check(script, exp); if (f) return f;
  // calls that may fail, one after the other on the same instance; a crash of the instance ends a script
  for (let from = 0; from < c.risky.length;) {
    const sc = script.slice(0, c.m.mem ? 3 : 2), ex = exp.slice(0, c.m.mem ? 3 : 2); let n = 0;
    for (const k of c.risky.slice(from)) { sc.push(['call', k.name, '0', ...k.params]); const r = new Ref(bytes).call(k.name, k.params, k.results); ex.push(r); evals++; n++; if (r === 'trap') break; }
    f = check(sc, ex); if (f) return f;
    from += n;
  }
  return { nontrivial, evals, counters, fail: null };
}
const show = (c) => `variant ${c.variant} refused ${c.refused} customs ${JSON.stringify(c.customs)} pad ${c.pad}\ncalls ${JSON.stringify(c.calls)} ${JSON.stringify(c.risky)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, encodeCase, variants: ['tco', 'legacy'], cases: { quick: 16000, thorough: 500000 }, chunk: 50,
  rule: 'Random module layouts: 0-6 imported functions, duplicate types, 0-8 globals of every type (NaN patterns, references, initialised from other globals), memories of 0-40 pages, up to 4 tables, up to 6 element segments (functions, expressions with null, passive, declarative; overlapping, empty, at the edges) and 11 data segments, segments that do not fit, strange export names, several exports of one entity, many locals, custom sections anywhere, over-long LEB128 numbers. Compared with a direct model of the declarations (globals, memory) and V8 (table entries, indirect calls, every export, sizes, locals); unknown and non-function exports must not be found. Non-trivial: at least 3 globals and segments, or a module to be refused.',
  assumptions: ['V8 implements the WebAssembly core specification', 'imported globals, tables and memories, and element segments of type externref, are not supported by the interpreter and not generated', 'a module is refused by an error or by a panic'],
};
