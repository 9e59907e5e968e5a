'use strict';
// C07: checkpoint requests are honoured promptly, once, and only when enabled.
const { encode, wat } = require('../lib/wasmenc');
const { Ref, normList } = require('../lib/oracle');
const { runDriver } = require('../lib/host');
const { World } = require('../lib/wasi');
const { isPoll } = require('../lib/migrate');
const { countModule } = require('../lib/instrument');
const { normLine } = require('../lib/diffcore');
// every counted instruction stands for at least three executed ones (itself and two of the counter)
const GAP = Math.floor(1024 / 3);

function gen(s) {
  const variant = s.bool() ? 'tco' : 'legacy';
  const wasi = s.bool();
  const types = []; const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const m = { types, imports: [], funcs: [], exports: [], globals: [{ t: 'i64', mut: true, init: ['i64.const', 7n] }], elems: [], datas: [] };
  if (wasi) { m.imports.push({ mod: 'wasi_snapshot_preview1', name: 'sched_yield', type: ty([], ['i32']) }); }
  if (wasi || s.chance(1, 2)) m.mem = { min: 1 };
  const ni = m.imports.length;
  const mix = (k) => [['global.get', 0], ['i64.const', BigInt(k)], ['i64.mul'], ['i64.const', 11n], ['i64.rotl'], ['global.set', 0]];
  const fn = (p, r, locals, code) => { m.funcs.push({ type: ty(p, r), locals, code }); return ni + m.funcs.length - 1; };
  const leaf = fn(['i64'], ['i64'], ['i64'], [['local.get', 0], ['i64.const', 3n], ['i64.xor'], ['local.tee', 1], ['local.get', 0], ['i64.add']]);
  const chain = fn(['i64'], ['i64'], [], [['local.get', 0], ['call', leaf], ['call', leaf]]);
  const recI = ni + m.funcs.length;
  fn(['i32', 'i64'], ['i64'], ['i64'], [['local.get', 0], ['i32.eqz'], ['if', 'i64'], ['local.get', 1], ['else'], ['local.get', 0], ['i32.const', 1], ['i32.sub'], ['local.get', 1], ['i64.const', 5n], ['i64.add'], ['call', recI], ['end'], ['local.tee', 2], ['local.get', 1], ['i64.xor']]);
  const voidI = fn([], [], [], mix(3));
  m.table = { min: 4 }; m.elems.push({ offset: ['i32.const', 1], funcs: [leaf, chain] });
  const kinds = ['tight', 'calls', 'rec', 'icalls', 'straight', 'table', 'nested', 'void', 'ifs', 'floats', ...(m.mem ? ['mem', 'bulk', 'grow'] : []), ...(wasi ? ['host'] : [])];
  const code = []; const phases = [];
  const loop = (n, body) => [['i32.const', 0], ['local.set', 1], ['loop', null], ...body, ['local.get', 1], ['i32.const', 1], ['i32.add'], ['local.tee', 1], ['i32.const', n], ['i32.lt_s'], ['br_if', 0], ['end']];
  const fold = [['global.get', 0], ['i64.xor'], ['i64.const', 9n], ['i64.rotl'], ['global.set', 0]];
  const idx = [['local.get', 1], ['i64.extend_i32_u']];
  const np = s.range(1, 4), long = s.chance(1, 16) ? s.draw(np) : -1;
  for (let i = 0; i < np; i++) {
    if (i === long) { // a long time passes
      const n = s.weighted([[3, s.range(500, 4000)], [2, s.range(4000, 30000)], [1, s.range(30000, 120000)]]); phases.push('long' + n);
      const k = s.draw(3); code.push(...loop(n, k === 0 ? mix(5) : k === 1 ? [['call', voidI]] : [...idx, ['call', leaf], ...fold])); continue;
    }
    const k = s.pick(kinds), n = s.weighted([[3, s.range(1, 60)], [3, s.range(60, 240)]]);
    phases.push(k + n);
    switch (k) {
      case 'tight': code.push(...loop(n * 2, mix(5))); break;
      case 'calls': code.push(...loop(n, [...idx, ['call', s.bool() ? leaf : chain], ...fold])); break;
      case 'rec': code.push(['i32.const', Math.min(n, 400)], ['i64.const', BigInt(n)], ['call', recI], ...fold); break;
      case 'icalls': code.push(...loop(n, [...idx, ['i32.const', s.range(1, 2)], ['call_indirect', types.findIndex(t => t.p.join() === 'i64' && t.r.join() === 'i64'), 0], ...fold])); break;
      case 'straight': for (let q = 0; q < n; q++) code.push(...mix(q * 2 + 3)); break;
      case 'table': code.push(...loop(n, [['block', null], ['block', null], ['block', null], ['local.get', 1], ['i32.const', 3], ['i32.and'], ['br_table', [0, 1], 2], ['end'], ...mix(7), ['br', 1], ['end'], ...mix(9), ['end']])); break;
      case 'nested': code.push(['i32.const', 0], ['local.set', 2], ['loop', null], ...loop(1 + n % 20, mix(13)), ['local.get', 2], ['i32.const', 1], ['i32.add'], ['local.tee', 2], ['i32.const', 1 + Math.floor(n / 20)], ['i32.lt_s'], ['br_if', 0], ['end']); break;
      case 'void': code.push(...loop(n, [['call', voidI]])); break;
      case 'ifs': code.push(...loop(n, [['local.get', 1], ['i32.const', 1], ['i32.and'], ['if', null], ...mix(15), ['else'], ['call', voidI], ['end']])); break;
      case 'floats': code.push(...loop(n, [['local.get', 3], ['local.get', 1], ['f64.convert_i32_s'], ['f64.add'], ['local.tee', 3], ['i64.reinterpret_f64'], ...fold])); break;
      case 'mem': code.push(...loop(n, [['local.get', 1], ['i32.const', 7], ['i32.and'], ...idx, ['i64.store', { offset: 8, align: 0 }], ['i32.const', 9], ['i64.load', { offset: 0, align: 0 }], ...fold])); break;
      case 'bulk': code.push(...loop(n, [['i32.const', 0], ['local.get', 1], ['i32.const', 50], ['memory.fill'], ['i32.const', 20], ['i32.const', 10], ['i32.const', 30], ['memory.copy']])); break;
      case 'grow': code.push(...loop(n, [['i32.const', 0], ['memory.grow'], ['i64.extend_i32_u'], ...fold])); break;
      case 'host': code.push(...loop(n, [['call', 0], ['drop']])); break;
    }
  }
  code.push(['global.get', 0]);
  fn(['i32'], ['i64'], ['i32', 'i32', 'f64'], code);
  m.exports.push({ name: 'main', kind: 'func', idx: ni + m.funcs.length - 1 });
  if (m.mem) m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
  m.exports.push({ name: 'g0', kind: 'global', idx: 0 });
  return { m, variant, wasi, phases, r: [s.u32(), s.u32(), s.u32()], decoys: s.draw(8) };
}
class Stop extends Error { }
function run(c) {
  const cm = countModule(c.m);
  const bytes = encode(cm);
  const ref = new Ref(bytes, new World({}));
  const want = ref.call('main', ['i32:0'], ['i64']);
  const K = Number(ref.inst.exports['g' + cm.counter].value);
  const files = { 'guest.wasm': bytes };
  if (c.decoys & 1) { files['checkpoint.trigger2'] = []; files['checkpoint.trigge'] = []; files['trigger'] = []; files['xcheckpoint.trigger'] = []; }
  if (c.decoys & 2) files['checkpoint.bin'] = [1, 2, 3];
  if (c.decoys & 4) files['sub/checkpoint.trigger'] = [];
  let evals = 0, asked = 0;
  // runs with the request appearing at poll `at` (0: pending before the start, null: never)
  const go = (world, script, at) => {
    evals++;
    let n = 0, seen = 0, honoured = 0, over = false;
    if (at === 0) world.put('checkpoint.trigger', []);
    world.onCall = (name, a, h) => {
      if (!isPoll(name, a, h)) return;
      n++; seen++;
      if (at !== null && at > 0 && n === at) { world.put('checkpoint.trigger', []); asked++; }
    };
    const lines = [];
    const r = runDriver(c.variant, script, world, { onLine: (l) => { lines.push(l); if (l.includes('CheckpointRequested')) honoured++; } });
    world.onCall = null; void over; void seen;
    return { lines, polls: n, honoured, end: r.end, error: r.error, world };
  };
  const bad = (sig, detail) => ({ nontrivial: true, evals, counters: {}, fail: { sig, detail: `[${c.variant}] ${detail}` } });
  const script = (cr) => [['load', 'guest.wasm'], ['call', 'main', cr, 'i32:0'], ['globals']];
  const counter = (l) => Number(BigInt.asIntN(64, BigInt('0x' + l.split(',')[cm.counter].split(':')[1])));
  const has = (w, f) => w.lookupAbs(f) !== undefined;
  // 1: disabled, request pending
  const b = go(new World({ files }), script('0'), 0);
  if (b.polls || !has(b.world, 'checkpoint.trigger') || b.honoured) return bad('disabled', `disabled, yet ${b.polls} polls, request ${has(b.world, 'checkpoint.trigger') ? 'left' : 'consumed'}, honoured ${b.honoured}`);
  if (b.end !== 'ok' || normLine(b.lines[1]) !== want || counter(b.lines[2]) !== K) return { nontrivial: false, evals, counters: { skip_result: 1 }, fail: null }; // not about checkpoints
  // 2: enabled, nothing pending
  const a = go(new World({ files }), script('1'), null);
  if (a.end !== 'ok' || normLine(a.lines[1]) !== want) return bad('result', `enabled, no request: ${a.lines.join(' | ')} ${a.error || ''}, expected ${want}`);
  if (counter(a.lines[2]) !== K) return bad('result', `counted ${counter(a.lines[2])} instructions, reference ${K}`);
  if (a.polls < Math.floor(3 * K / 1024)) return bad('rate', `only ${a.polls} polls in a run of at least ${3 * K} instructions`);
  const P = a.polls;
  // 3: the request at chosen polls
  const cOf = new Map([[0, 0], [P + 1, K]]);
  const stopAt = (q) => {
    const w = new World({ files });
    const r = go(w, script('1'), q);
    if (r.end !== 'ok' || r.lines[1] !== 'trap CheckpointRequested' || r.honoured !== 1) return { err: bad('not-honoured', `request at poll ${q} of ${P}: ${r.lines.join(' | ')} ${r.end} ${r.error || ''}`) };
    if (r.polls !== Math.max(1, q)) return { err: bad('late', `request at poll ${q} honoured after ${r.polls}`) };
    if (has(w, 'checkpoint.trigger')) return { err: bad('not-consumed', `request at poll ${q} is still there after it was honoured`) };
    const ck = w.readFile('checkpoint.bin');
    if (!ck || ck.length < 4) return { err: bad('no-file', `request at poll ${q}: no checkpoint was written`) };
    const names = [...w.root.entries.keys()].filter(f => !(f in files) && f !== 'sub').sort().join();
    if (names !== (c.decoys & 2 ? '' : 'checkpoint.bin')) return { err: bad('files', `request at poll ${q} leaves the files ${names}`) };
    cOf.set(Math.max(1, q), counter(r.lines[2]));
    return { w, c: counter(r.lines[2]), ck };
  };
  if (P > 0) {
    const q = 1 + c.r[0] % P;
    const p = stopAt(0); if (p.err) return p.err;
    const x = stopAt(q); if (x.err) return x.err;
    if (q > 1) { const y = stopAt(q - 1); if (y.err) return y.err; }
    const z = stopAt(P); if (z.err) return z.err;
    for (const [k, v] of cOf) if (cOf.has(k + 1) && cOf.get(k + 1) - v > GAP) return bad('gap', `at least ${3 * (cOf.get(k + 1) - v)} instructions between polls ${k} and ${k + 1}`);
    // 4: the resumed run
    const res = (cr) => [['load', 'guest.wasm'], ['restore', 'checkpoint.bin', cr], ['globals']];
    const w2 = (f) => new World({ files: { ...files, 'checkpoint.bin': x.ck, ...f } });
    const r1 = go(w2({}), res('1'), null);
    if (r1.end !== 'ok' || r1.lines[1] !== 'restored' || normLine(r1.lines[2]) !== want || r1.honoured) return bad('resume', `resumed at poll ${q}, nothing pending: ${r1.lines.join(' | ')} ${r1.end} ${r1.error || ''}`);
    if (r1.polls < Math.floor(3 * (K - x.c) / 1024)) return bad('rate', `resumed run: only ${r1.polls} polls in at least ${3 * (K - x.c)} instructions`);
    const r0 = go(w2({}), res('0'), 0);
    if (r0.end !== 'ok' || normLine(r0.lines[2]) !== want || r0.polls || !has(r0.world, 'checkpoint.trigger')) return bad('disabled', `resumed with checkpointing disabled: ${r0.lines.join(' | ')} polls ${r0.polls}`);
    if (r1.polls > 0) {
      const q2 = 1 + c.r[1] % r1.polls;
      const stops = [q2]; if (q2 > 1) stops.push(q2 - 1);
      const at = new Map(); at.set(0, x.c); at.set(r1.polls + 1, K);
      for (const q of stops) {
        const r = go(w2({}), res('1'), q);
        if (r.end !== 'ok' || r.lines[2] !== 'trap CheckpointRequested' || r.polls !== q) return bad('not-honoured', `resumed run, request at poll ${q}: ${r.lines.join(' | ')} ${r.end} ${r.error || ''}`);
        if (has(r.world, 'checkpoint.trigger')) return bad('not-consumed', `resumed run: request still there`);
        at.set(q, counter(r.lines[3]));
      }
      for (const [k, v] of at) if (at.has(k + 1) && at.get(k + 1) - v > GAP) return bad('gap', `resumed run: at least ${3 * (at.get(k + 1) - v)} instructions between polls ${k} and ${k + 1}`);
    } else if (K - x.c > GAP) return bad('gap', `resumed run: no poll in at least ${3 * (K - x.c)} instructions`);
  } else if (K > GAP) return bad('gap', `no poll in at least ${3 * K} instructions`);
  return { nontrivial: P > 0, evals, counters: { long: c.phases.some(x => x.startsWith('long')) ? 1 : 0, polls: P, requests: asked, [c.variant]: 1, [c.wasi ? 'wasi' : 'no_wasi']: 1, [P ? 'polled' : 'short']: 1 }, fail: null };
}
const show = (c) => `variant ${c.variant} phases ${c.phases.join(' ')} decoys ${c.decoys} r ${c.r}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 6000, thorough: 150000 }, chunk: 10,
  rule: 'Random programs of 1-4 phases (long, tight, nested and branching loops, direct, indirect and recursive calls, straight-line code, memory and host calls), with and without WASI imports, counting a subset of their own instructions. Each is run without a request (with decoy files), with checkpointing disabled and a request pending, with the request appearing at several polls, and resumed from there with and without a further request. Checked: distance between polls, outcome, consumption, files left, results against V8. Non-trivial: the run is long enough for at least one poll.',
  assumptions: ['a request is looked for with path_filestat_get or path_open on the trigger file', 'the first preopened directory is the working directory and the program does not close it', 'V8 implements the WebAssembly core specification'],
};
