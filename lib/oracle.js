'use strict';
// Reference execution: the same guest module, run directly by V8 on the same host.
const { World, Exit, HostAbort } = require('./wasi');

const dv = new DataView(new ArrayBuffer(8));
function fmt(t, v) {
  switch (t) {
    case 'i32': return 'i32:' + (v >>> 0).toString(16);
    case 'i64': return 'i64:' + BigInt.asUintN(64, v).toString(16);
    case 'f32': if (v !== v) return 'f32:nan'; dv.setFloat32(0, v); return 'f32:' + dv.getUint32(0).toString(16);
    case 'f64': if (v !== v) return 'f64:nan'; dv.setFloat64(0, v); return 'f64:' + dv.getBigUint64(0).toString(16);
    default: return v === null ? 'ref:null' : t === 'funcref' ? 'ref:func' : 'ref:extern';
  }
}
function parse(p) {
  const [t, x] = p.split(':');
  switch (t) {
    case 'i32': return parseInt(x, 16) | 0;
    case 'i64': return BigInt.asIntN(64, BigInt('0x' + x));
    case 'f32': dv.setUint32(0, parseInt(x, 16)); return dv.getFloat32(0);
    case 'f64': dv.setBigUint64(0, BigInt('0x' + x)); return dv.getFloat64(0);
    default: return null;
  }
}
// chiwawa's printed value → canonical form
function norm(s) {
  const [t, x] = s.split(':');
  if (t === 'f32') { const b = parseInt(x, 16); if ((b & 0x7f800000) === 0x7f800000 && (b & 0x7fffff)) return 'f32:nan'; }
  if (t === 'f64') { const b = BigInt('0x' + x); if ((b & 0x7ff0000000000000n) === 0x7ff0000000000000n && (b & 0xfffffffffffffn)) return 'f64:nan'; }
  return s;
}
const normList = (s) => s === '' ? '' : s.split(',').map(norm).join(',');

class Ref {
  constructor(bytes, world, extra) {
    this.world = world || new World({});
    this.mod = new WebAssembly.Module(bytes);
    const imp = { wasi_snapshot_preview1: this.world.imports(() => [this.inst.exports.mem, this.inst.exports.memory].find(x => x instanceof WebAssembly.Memory)), ...extra };
    this.inst = new WebAssembly.Instance(this.mod, imp);
  }
  // → 'ret a,b' | 'trap' | 'exit N'
  call(name, params, results) {
    let r;
    try { r = this.inst.exports[name](...params.map(parse)); } catch (e) {
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) { this.lastTrap = e.message; return 'trap'; }
      if (e instanceof Exit) return 'exit ' + e.code;
      throw e;
    }
    if (results.length === 0) return 'ret ';
    if (results.length === 1) return 'ret ' + fmt(results[0], r);
    const a = [...r];
    return 'ret ' + results.map((t, i) => fmt(t, a[i])).join(',');
  }
  mem() { const m = this.inst.exports.mem; return m ? Buffer.from(m.buffer) : null; }
  globals(m) { return m.globals.map((g, i) => fmt(g.t, this.inst.exports['g' + i].value)).join(','); }
}
module.exports = { Ref, fmt, parse, norm, normList };
