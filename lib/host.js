'use strict';
// Runs builds of the interpreter (compiled to wasm32-wasip1) inside V8.
const fs = require('fs');
const path = require('path');
const { World, Exit, HostAbort } = require('./wasi');

const BUILD = process.env.CW_BUILD || path.join(__dirname, '..', 'build', 'out');
const cache = new Map();
function load(variant) {
  let m = cache.get(variant);
  if (!m) { m = new WebAssembly.Module(fs.readFileSync(path.join(BUILD, variant + '.wasm'))); cache.set(variant, m); }
  return m;
}

// Runs the driver build `variant` on `script` (array of arrays of strings) in `world`.
// → { lines, blobs, end: 'ok'|'exit'|'crash'|'hostabort', code, error }
function runDriver(variant, script, world, opts = {}) {
  const text = Buffer.from(script.map(l => l.join('\t')).join('\n') + '\n');
  const lines = [];
  const blobs = [];
  let inst;
  const mem = () => inst.exports.memory;
  const imp = { wasi_snapshot_preview1: world.imports(mem), cw: {
    script(p, cap) { if (cap === 0) return text.length; new Uint8Array(mem().buffer, p, text.length).set(text); return text.length; },
    emit(p, n) { const s = Buffer.from(new Uint8Array(mem().buffer, p >>> 0, n)).toString(); lines.push(s); if (opts.onLine) opts.onLine(s, world); },
    blob(tag, p, n) { blobs.push(Buffer.from(new Uint8Array(mem().buffer, p >>> 0, n))); },
  } };
  inst = new WebAssembly.Instance(load(variant), imp);
  const bytes = () => mem().buffer.byteLength;
  try {
    inst.exports._start();
  } catch (e) {
    if (e instanceof Exit) return { lines, blobs, end: 'exit', code: e.code, world };
    if (e instanceof HostAbort) return { lines, blobs, end: 'hostabort', error: e.message, world };
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
      const msg = world.stderr().toString().trim().split('\n').slice(-2).join(' ');
      return { lines, blobs, end: 'crash', error: `${e.message}; stderr: ${msg}`.slice(0, 500), world };
    }
    throw e;
  }
  return { lines, blobs, end: 'ok', world, bytes: bytes() };
}

// Runs chiwawa's own binary with command-line arguments.
function runBin(variant, args, world) {
  let inst;
  world.args = ['chiwawa.wasm', ...args];
  const imp = { wasi_snapshot_preview1: world.imports(() => inst.exports.memory) };
  inst = new WebAssembly.Instance(load(variant), imp);
  try { inst.exports._start(); } catch (e) {
    if (e instanceof Exit) return { end: 'exit', code: e.code, world };
    if (e instanceof HostAbort) return { end: 'hostabort', error: e.message, world };
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { end: 'crash', error: `${e.message}; ${world.stderr().toString().slice(-300)}`, world };
    throw e;
  }
  return { end: 'ok', code: 0, world };
}
module.exports = { load, runDriver, runBin, BUILD };
