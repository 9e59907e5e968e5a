'use strict';
// Minimal WebAssembly binary encoder (independent of the code under test).
class W {
  constructor() { this.a = []; }
  u8(x) { this.a.push(x & 255); return this; }
  bytes(b) { for (let i = 0; i < b.length; i++) this.a.push(b[i]); return this; }
  u32(x) { // unsigned LEB
    x = x >>> 0;
    if (W.pad) { // a longer encoding of the same number
      let n = 1; for (let y = x >>> 7; y; y >>>= 7) n++;
      let k = Math.min(5, n + W.pad());
      while (--k) { this.a.push((x & 127) | 128); x >>>= 7; }
      this.a.push(x); return this;
    }
    do { let b = x & 127; x >>>= 7; if (x) b |= 128; this.a.push(b); } while (x);
    return this;
  }
  s32(x) { x |= 0; for (;;) { const b = x & 127; x >>= 7; if ((x === 0 && !(b & 64)) || (x === -1 && (b & 64))) { this.a.push(b); return this; } this.a.push(b | 128); } }
  s33(x) { return this.s64(BigInt(x)); }
  s64(x) { x = BigInt.asIntN(64, x); for (;;) { const b = Number(x & 127n); x >>= 7n; if ((x === 0n && !(b & 64)) || (x === -1n && (b & 64))) { this.a.push(b); return this; } this.a.push(b | 128); } }
  le32(x) { x >>>= 0; this.a.push(x & 255, (x >>> 8) & 255, (x >>> 16) & 255, (x >>> 24) & 255); return this; }
  le64(x) { x = BigInt.asUintN(64, x); for (let i = 0; i < 8; i++) { this.a.push(Number(x & 255n)); x >>= 8n; } return this; }
  name(s) { const b = Buffer.from(s, 'utf8'); this.u32(b.length); return this.bytes(b); }
  vec(xs, f) { this.u32(xs.length); for (const x of xs) f(this, x); return this; }
}
W.pad = null;
const VT = { i32: 0x7f, i64: 0x7e, f32: 0x7d, f64: 0x7c, funcref: 0x70, externref: 0x6f, v128: 0x7b };

// op table: name -> [prefix bytes]
const OPS = {};
const simple = {
  unreachable: 0x00, nop: 0x01, else: 0x05, end: 0x0b, return: 0x0f, drop: 0x1a, select: 0x1b,
  'i32.eqz': 0x45, 'i32.eq': 0x46, 'i32.ne': 0x47, 'i32.lt_s': 0x48, 'i32.lt_u': 0x49, 'i32.gt_s': 0x4a, 'i32.gt_u': 0x4b, 'i32.le_s': 0x4c, 'i32.le_u': 0x4d, 'i32.ge_s': 0x4e, 'i32.ge_u': 0x4f,
  'i64.eqz': 0x50, 'i64.eq': 0x51, 'i64.ne': 0x52, 'i64.lt_s': 0x53, 'i64.lt_u': 0x54, 'i64.gt_s': 0x55, 'i64.gt_u': 0x56, 'i64.le_s': 0x57, 'i64.le_u': 0x58, 'i64.ge_s': 0x59, 'i64.ge_u': 0x5a,
  'f32.eq': 0x5b, 'f32.ne': 0x5c, 'f32.lt': 0x5d, 'f32.gt': 0x5e, 'f32.le': 0x5f, 'f32.ge': 0x60,
  'f64.eq': 0x61, 'f64.ne': 0x62, 'f64.lt': 0x63, 'f64.gt': 0x64, 'f64.le': 0x65, 'f64.ge': 0x66,
  'i32.clz': 0x67, 'i32.ctz': 0x68, 'i32.popcnt': 0x69, 'i32.add': 0x6a, 'i32.sub': 0x6b, 'i32.mul': 0x6c, 'i32.div_s': 0x6d, 'i32.div_u': 0x6e, 'i32.rem_s': 0x6f, 'i32.rem_u': 0x70, 'i32.and': 0x71, 'i32.or': 0x72, 'i32.xor': 0x73, 'i32.shl': 0x74, 'i32.shr_s': 0x75, 'i32.shr_u': 0x76, 'i32.rotl': 0x77, 'i32.rotr': 0x78,
  'i64.clz': 0x79, 'i64.ctz': 0x7a, 'i64.popcnt': 0x7b, 'i64.add': 0x7c, 'i64.sub': 0x7d, 'i64.mul': 0x7e, 'i64.div_s': 0x7f, 'i64.div_u': 0x80, 'i64.rem_s': 0x81, 'i64.rem_u': 0x82, 'i64.and': 0x83, 'i64.or': 0x84, 'i64.xor': 0x85, 'i64.shl': 0x86, 'i64.shr_s': 0x87, 'i64.shr_u': 0x88, 'i64.rotl': 0x89, 'i64.rotr': 0x8a,
  'f32.abs': 0x8b, 'f32.neg': 0x8c, 'f32.ceil': 0x8d, 'f32.floor': 0x8e, 'f32.trunc': 0x8f, 'f32.nearest': 0x90, 'f32.sqrt': 0x91, 'f32.add': 0x92, 'f32.sub': 0x93, 'f32.mul': 0x94, 'f32.div': 0x95, 'f32.min': 0x96, 'f32.max': 0x97, 'f32.copysign': 0x98,
  'f64.abs': 0x99, 'f64.neg': 0x9a, 'f64.ceil': 0x9b, 'f64.floor': 0x9c, 'f64.trunc': 0x9d, 'f64.nearest': 0x9e, 'f64.sqrt': 0x9f, 'f64.add': 0xa0, 'f64.sub': 0xa1, 'f64.mul': 0xa2, 'f64.div': 0xa3, 'f64.min': 0xa4, 'f64.max': 0xa5, 'f64.copysign': 0xa6,
  'i32.wrap_i64': 0xa7, 'i32.trunc_f32_s': 0xa8, 'i32.trunc_f32_u': 0xa9, 'i32.trunc_f64_s': 0xaa, 'i32.trunc_f64_u': 0xab, 'i64.extend_i32_s': 0xac, 'i64.extend_i32_u': 0xad, 'i64.trunc_f32_s': 0xae, 'i64.trunc_f32_u': 0xaf, 'i64.trunc_f64_s': 0xb0, 'i64.trunc_f64_u': 0xb1,
  'f32.convert_i32_s': 0xb2, 'f32.convert_i32_u': 0xb3, 'f32.convert_i64_s': 0xb4, 'f32.convert_i64_u': 0xb5, 'f32.demote_f64': 0xb6, 'f64.convert_i32_s': 0xb7, 'f64.convert_i32_u': 0xb8, 'f64.convert_i64_s': 0xb9, 'f64.convert_i64_u': 0xba, 'f64.promote_f32': 0xbb,
  'i32.reinterpret_f32': 0xbc, 'i64.reinterpret_f64': 0xbd, 'f32.reinterpret_i32': 0xbe, 'f64.reinterpret_i64': 0xbf,
  'i32.extend8_s': 0xc0, 'i32.extend16_s': 0xc1, 'i64.extend8_s': 0xc2, 'i64.extend16_s': 0xc3, 'i64.extend32_s': 0xc4,
  'ref.is_null': 0xd1,
};
for (const k in simple) OPS[k] = [simple[k]];
const sat = ['i32.trunc_sat_f32_s', 'i32.trunc_sat_f32_u', 'i32.trunc_sat_f64_s', 'i32.trunc_sat_f64_u', 'i64.trunc_sat_f32_s', 'i64.trunc_sat_f32_u', 'i64.trunc_sat_f64_s', 'i64.trunc_sat_f64_u'];
sat.forEach((n, i) => { OPS[n] = [0xfc, i]; });
const MEMOPS = {
  'i32.load': [0x28, 'i32', 4], 'i64.load': [0x29, 'i64', 8], 'f32.load': [0x2a, 'f32', 4], 'f64.load': [0x2b, 'f64', 8],
  'i32.load8_s': [0x2c, 'i32', 1], 'i32.load8_u': [0x2d, 'i32', 1], 'i32.load16_s': [0x2e, 'i32', 2], 'i32.load16_u': [0x2f, 'i32', 2],
  'i64.load8_s': [0x30, 'i64', 1], 'i64.load8_u': [0x31, 'i64', 1], 'i64.load16_s': [0x32, 'i64', 2], 'i64.load16_u': [0x33, 'i64', 2], 'i64.load32_s': [0x34, 'i64', 4], 'i64.load32_u': [0x35, 'i64', 4],
  'i32.store': [0x36, 'i32', 4], 'i64.store': [0x37, 'i64', 8], 'f32.store': [0x38, 'f32', 4], 'f64.store': [0x39, 'f64', 8],
  'i32.store8': [0x3a, 'i32', 1], 'i32.store16': [0x3b, 'i32', 2], 'i64.store8': [0x3c, 'i64', 1], 'i64.store16': [0x3d, 'i64', 2], 'i64.store32': [0x3e, 'i64', 4],
};
const f32b = new DataView(new ArrayBuffer(8));

// Instruction = [name, ...immediates]
function encInstr(w, ins) {
  const n = ins[0];
  if (OPS[n]) { w.bytes(OPS[n]); return; }
  if (MEMOPS[n]) { w.u8(MEMOPS[n][0]); w.u32(ins[1].align); w.u32(ins[1].offset); return; }
  switch (n) {
    case 'i32.const': w.u8(0x41).s32(ins[1]); return;
    case 'i64.const': w.u8(0x42).s64(ins[1]); return;
    case 'f32.const': w.u8(0x43).le32(ins[1]); return; // bits
    case 'f64.const': w.u8(0x44).le64(ins[1]); return; // bits
    case 'local.get': w.u8(0x20).u32(ins[1]); return;
    case 'local.set': w.u8(0x21).u32(ins[1]); return;
    case 'local.tee': w.u8(0x22).u32(ins[1]); return;
    case 'global.get': w.u8(0x23).u32(ins[1]); return;
    case 'global.set': w.u8(0x24).u32(ins[1]); return;
    case 'table.get': w.u8(0x25).u32(ins[1]); return;
    case 'table.set': w.u8(0x26).u32(ins[1]); return;
    case 'block': w.u8(0x02); bt(w, ins[1]); return;
    case 'loop': w.u8(0x03); bt(w, ins[1]); return;
    case 'if': w.u8(0x04); bt(w, ins[1]); return;
    case 'br': w.u8(0x0c).u32(ins[1]); return;
    case 'br_if': w.u8(0x0d).u32(ins[1]); return;
    case 'br_table': w.u8(0x0e).vec(ins[1], (w, x) => w.u32(x)); w.u32(ins[2]); return;
    case 'call': w.u8(0x10).u32(ins[1]); return;
    case 'call_indirect': w.u8(0x11).u32(ins[1]).u32(ins[2]); return;
    case 'select_t': w.u8(0x1c).u32(1).u8(VT[ins[1]]); return;
    case 'memory.size': w.u8(0x3f).u8(0); return;
    case 'memory.grow': w.u8(0x40).u8(0); return;
    case 'memory.init': w.bytes([0xfc, 8]).u32(ins[1]).u8(0); return;
    case 'data.drop': w.bytes([0xfc, 9]).u32(ins[1]); return;
    case 'memory.copy': w.bytes([0xfc, 10, 0, 0]); return;
    case 'memory.fill': w.bytes([0xfc, 11, 0]); return;
    case 'table.fill': w.bytes([0xfc, 17]).u32(ins[1]); return;
    case 'ref.null': w.u8(0xd0).u8(VT[ins[1]]); return;
    case 'ref.func': w.u8(0xd2).u32(ins[1]); return;
    case 'raw': w.bytes(ins[1]); return;
  }
  throw new Error('enc ' + n);
}
// block type: null | valtype name | type index number
function bt(w, t) {
  if (t === null || t === undefined) w.u8(0x40);
  else if (typeof t === 'string') w.u8(VT[t]);
  else w.s33(t);
}
function section(w, id, f) {
  const s = new W(); f(s);
  w.u8(id).u32(s.a.length).bytes(s.a);
}
// m: {types:[{p,r}], imports:[{mod,name,type}], funcs:[{type,locals:[t..],code:[ins]}], table:{min,max,type}|tables, mem:{min,max},
//     globals:[{t,mut,init:ins}], exports:[{name,kind,idx}], start, elems:[{offset:ins|null, table, funcs:[..]}],
//     datas:[{offset:ins|null, bytes}]}
function encode(m) {
  const w = new W();
  w.bytes([0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]);
  section(w, 1, s => s.vec(m.types, (s, t) => { s.u8(0x60); s.vec(t.p, (s, x) => s.u8(VT[x])); s.vec(t.r, (s, x) => s.u8(VT[x])); }));
  const imps = m.imports || [];
  if (imps.length) section(w, 2, s => s.vec(imps, (s, i) => { s.name(i.mod); s.name(i.name); s.u8(0).u32(i.type); }));
  if (m.funcs.length) section(w, 3, s => s.vec(m.funcs, (s, f) => s.u32(f.type)));
  const tables = m.tables || (m.table ? [m.table] : []);
  const lim = (s, l) => { if (l.max === undefined || l.max === null) s.u8(0).u32(l.min); else s.u8(1).u32(l.min).u32(l.max); };
  if (tables.length) section(w, 4, s => s.vec(tables, (s, t) => { s.u8(VT[t.type || 'funcref']); lim(s, t); }));
  if (m.mem) section(w, 5, s => { s.u32(1); lim(s, m.mem); });
  if (m.globals && m.globals.length) section(w, 6, s => s.vec(m.globals, (s, g) => { s.u8(VT[g.t]); s.u8(g.mut ? 1 : 0); encInstr(s, g.init); s.u8(0x0b); }));
  if (m.exports && m.exports.length) section(w, 7, s => s.vec(m.exports, (s, e) => { s.name(e.name); s.u8({ func: 0, table: 1, mem: 2, global: 3 }[e.kind]); s.u32(e.idx); }));
  if (m.start !== undefined && m.start !== null) section(w, 8, s => s.u32(m.start));
  if (m.elems && m.elems.length) section(w, 9, s => s.vec(m.elems, (s, e) => {
    if (e.mode === 'passive') { s.u8(1).u8(0).vec(e.funcs, (s, x) => s.u32(x)); return; }
    if (e.mode === 'declarative') { s.u8(3).u8(0).vec(e.funcs, (s, x) => s.u32(x)); return; }
    if (e.mode === 'exprs') { if (e.table) s.u8(6).u32(e.table); else s.u8(4); encInstr(s, e.offset); s.u8(0x0b); if (e.table) s.u8(0x70); s.vec(e.funcs, (s, x) => { if (x === null) encInstr(s, ['ref.null', 'funcref']); else encInstr(s, ['ref.func', x]); s.u8(0x0b); }); return; }
    if (e.table) { s.u8(2).u32(e.table); encInstr(s, e.offset); s.u8(0x0b); s.u8(0); s.vec(e.funcs, (s, x) => s.u32(x)); return; }
    s.u8(0); encInstr(s, e.offset); s.u8(0x0b); s.vec(e.funcs, (s, x) => s.u32(x));
  }));
  if (m.datas && m.datas.length && m.datacount !== false) section(w, 12, s => s.u32(m.datas.length));
  if (m.funcs.length) section(w, 10, s => s.vec(m.funcs, (s, f) => {
    const b = new W();
    const runs = [];
    for (const t of f.locals) { if (runs.length && runs[runs.length - 1][1] === t && !f.nolocalrle) runs[runs.length - 1][0]++; else runs.push([1, t]); }
    b.vec(runs, (b, r) => b.u32(r[0]).u8(VT[r[1]]));
    for (const i of f.code) encInstr(b, i);
    b.u8(0x0b);
    s.u32(b.a.length).bytes(b.a);
  }));
  if (m.datas && m.datas.length) section(w, 11, s => s.vec(m.datas, (s, d) => {
    if (d.offset === null) { s.u8(1).u32(d.bytes.length).bytes(d.bytes); } else { s.u8(0); encInstr(s, d.offset); s.u8(0x0b); s.u32(d.bytes.length).bytes(d.bytes); }
  }));
  return Uint8Array.from(w.a);
}
// the same module with custom sections: list of [position, name, bytes]
function withCustoms(bytes, list) {
  const parts = [[...bytes.slice(0, 8)]]; let p = 8;
  while (p < bytes.length) { const a = p++; let n = 0, sh = 0, b; do { b = bytes[p++]; n += (b & 127) * 2 ** sh; sh += 7; } while (b & 128); p += n; parts.push([...bytes.slice(a, p)]); }
  for (const [at, name, body] of list) { const w = new W(); section(w, 0, x => x.name(name).bytes(body)); parts.splice(1 + at % parts.length, 0, w.a); }
  return Uint8Array.from(parts.flat());
}
function show(ins) {
  return ins.map(x => typeof x === 'bigint' ? x.toString() : (x && typeof x === 'object' && !Array.isArray(x)) ? `offset=${x.offset} align=${x.align}` : Array.isArray(x) ? '[' + x.join(' ') + ']' : String(x)).join(' ');
}
function wat(m) {
  const out = [];
  m.types.forEach((t, i) => out.push(`type ${i}: (${t.p.join(' ')}) -> (${t.r.join(' ')})`));
  (m.imports || []).forEach((t, i) => out.push(`import ${i}: ${t.mod}.${t.name} type ${t.type}`));
  if (m.mem) out.push(`memory ${m.mem.min} ${m.mem.max === undefined ? '' : m.mem.max}`);
  (m.tables || (m.table ? [m.table] : [])).forEach(t => out.push(`table ${t.min} ${t.max === undefined ? '' : t.max} ${t.type || 'funcref'}`));
  (m.globals || []).forEach((g, i) => out.push(`global ${i}: ${g.mut ? 'mut ' : ''}${g.t} = ${show(g.init)}`));
  (m.elems || []).forEach((e, i) => out.push(`elem ${i}: ${e.mode || 'active'} table ${e.table || 0} ${e.offset ? show(e.offset) : ''} [${e.funcs.join(' ')}]`));
  (m.datas || []).forEach((d, i) => out.push(`data ${i}: ${d.offset ? show(d.offset) : 'passive'} ${Buffer.from(d.bytes).toString('hex').slice(0, 80)}`));
  if (m.start !== undefined && m.start !== null) out.push(`start ${m.start}`);
  const ni = (m.imports || []).length;
  m.funcs.forEach((f, i) => {
    out.push(`func ${i + ni} type ${f.type} locals (${f.locals.join(' ')})`);
    let ind = 1;
    for (const ins of f.code) {
      if (ins[0] === 'end' || ins[0] === 'else') ind--;
      out.push('  '.repeat(Math.max(1, ind)) + show(ins));
      if (['block', 'loop', 'if', 'else'].includes(ins[0])) ind++;
    }
  });
  (m.exports || []).forEach(e => out.push(`export ${e.name} ${e.kind} ${e.idx}`));
  return out.join('\n');
}
module.exports = { encode, withCustoms, encInstr, W, VT, OPS, MEMOPS, wat, show };
