'use strict';
// C15: the command line runs the requested function with the given arguments.
const { genModule, genI32, genI64, genF32, genF64 } = require('../lib/gen_module');
const { genWasi, makeWorld } = require('../lib/gen_wasi');
const { encode, wat } = require('../lib/wasmenc');
const { Ref, fmt } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { runBin } = require('../lib/host');
const { isPoll } = require('../lib/migrate');
const { genStops, stopsFor } = require('./C06');
const NT = ['i32', 'i64', 'f32', 'f64'];
// host functions whose effect does not depend on open descriptors, on other files or on time
const STATELESS = ['fd_write', 'fd_prestat_get', 'fd_prestat_dir_name', 'args_get', 'args_sizes_get', 'environ_get', 'environ_sizes_get', 'path_create_directory', 'path_unlink_file', 'path_rename', 'path_link', 'path_symlink', 'path_readlink', 'path_remove_directory', 'sched_yield'];
const WASI = [...STATELESS, 'fd_read', 'fd_pread', 'fd_pwrite', 'fd_seek', 'fd_tell', 'path_open', 'fd_filestat_set_size', 'fd_fdstat_get', 'fd_allocate'];
const dv = new DataView(new ArrayBuffer(8));
const f32 = (b) => { dv.setUint32(0, b); return dv.getFloat32(0); };
const f64 = (b) => { dv.setBigUint64(0, BigInt.asUintN(64, b)); return dv.getFloat64(0); };
function num(x) { return Number.isNaN(x) ? 'NaN' : x === Infinity ? 'inf' : x === -Infinity ? '-inf' : Object.is(x, -0) ? '-0' : String(x); }
// a value as the command line writes it, and as the driver and the reference do
function value(s, t) {
  switch (t) {
    case 'i32': { const v = genI32(s) | 0; return { text: `I32(${v})`, p: 'i32:' + (v >>> 0).toString(16) }; }
    case 'i64': { const v = BigInt.asIntN(64, genI64(s)); return { text: `I64(${v})`, p: 'i64:' + BigInt.asUintN(64, v).toString(16) }; }
    case 'f32': { const b = genF32(s, false) >>> 0; const x = f32(b); let q = num(x); if (Number.isFinite(x) && x !== 0 && s.chance(1, 5)) { const e = Number(x).toExponential(20); if (Math.fround(Number(e)) === x) q = e; } return { text: `F32(${q})`, p: x !== x ? 'f32:7fc00000' : 'f32:' + b.toString(16) }; }
    default: { const b = BigInt.asUintN(64, genF64(s, false)); const x = f64(b); let q = num(x); if (Number.isFinite(x) && x !== 0 && s.chance(1, 5)) q = x.toExponential(20).replace('e+', s.pick(['e+', 'e', 'E'])); return { text: `F64(${q})`, p: x !== x ? 'f64:7ff8000000000000' : 'f64:' + b.toString(16) }; }
  }
}
const NAMES = ['_start', 'main', 'f', 'go-now', 'a.b', 'é', 'x y', 'I32', '0', 'restore'];
const FILES = ['guest.wasm', './guest.wasm', 'd/guest.wasm', 'g', 'd/e/pro gram.wasm', 'ünï.wasm', 'd/../g2.wasm'];
const WORDS = ['x', '--flag', '--n=3', '-v', 'hello', 'ünï', "it's", 'a,b', '\\n', '$HOME', '*', 'z'.repeat(50), '#', 'I32(5)', '--', '-', '\t', '`'];

function echo(s) { // a function that returns some of its parameters
  const np = s.weighted([[1, 0], [6, s.range(1, 4)], [1, s.range(5, 12)]]); const p = []; for (let i = 0; i < np; i++) p.push(s.pick(NT));
  const r = []; const code = []; const nr = np ? s.range(1, 3) : s.draw(2);
  for (let i = 0; i < nr; i++) { if (np) { const k = s.draw(np); r.push(p[k]); code.push(['local.get', k]); } else { r.push('i32'); code.push(['global.get', 0]); } }
  return { p, r, code };
}
function gen(s, tier) {
  const kind = s.weighted([[5, 'echo'], [3, 'core'], [3, 'wasi'], [3, 'resume'], [2, 'refuse'], [2, 'args']]);
  const d = s.bool() ? 'tco' : 'legacy';
  const c = { kind, file: s.pick(FILES), invoke: s.pick(NAMES), values: [], spec: { files: {}, args: [], env: [] }, words: [], start: null };
  let target; // index of the function invoked
  if (kind === 'echo' || kind === 'refuse') {
    const e = echo(s);
    const m = { types: [{ p: e.p, r: e.r }, { p: [], r: [] }], imports: [], funcs: [{ type: 0, locals: [], code: e.code }], globals: [{ t: 'i32', mut: true, init: ['i32.const', 7] }], exports: [], elems: [], datas: [] };
    c.m = m; c.results = e.r; c.values = e.p.map(t => value(s, t)); target = 0;
    if (s.bool()) { m.funcs.push({ type: 1, locals: [], code: [['global.get', 0], ['i32.const', 3], ['i32.mul'], ['global.set', 0]] }); c.start = 1; }
  } else if (kind === 'args') { // writes its argument vector as it gets it, and returns its length
    const A = 16 * s.range(2, 20), B = 4096 + s.draw(9), M = 'wasi_snapshot_preview1'; const st = (a, v) => [['i32.const', a], ...v, ['i32.store', { align: 2, offset: 0 }]]; const ld = (a) => [['i32.const', a], ['i32.load', { align: 2, offset: 0 }]];
    c.m = { types: [{ p: [], r: ['i32'] }, { p: ['i32', 'i32'], r: ['i32'] }, { p: ['i32', 'i32', 'i32', 'i32'], r: ['i32'] }], imports: [{ mod: M, name: 'args_sizes_get', type: 1 }, { mod: M, name: 'args_get', type: 1 }, { mod: M, name: 'fd_write', type: 2 }], mem: { min: 1 }, funcs: [{ type: 0, locals: [], code: [['i32.const', 0], ['i32.const', 4], ['call', 0], ['drop'], ['i32.const', A], ['i32.const', B], ['call', 1], ['drop'], ...st(16, ld(A)), ...st(20, ld(4)), ['i32.const', 1], ['i32.const', 16], ['i32.const', 1], ['i32.const', 24], ['call', 2], ['drop'], ...ld(0)] }], globals: [], exports: [], elems: [], datas: [] };
    c.results = ['i32']; target = 0; c.wasi = true;
    for (let i = s.draw(9); i > 0; i--) { let w = s.pick(WORDS); for (let k = s.draw(3); k > 0; k--) w += s.pick(['', ' ', '  ']) + s.pick(WORDS); c.words.push([w, 'r']); }
  } else if (kind === 'core' || (kind === 'resume' && s.chance(2, 3))) {
    const m = genModule(s, { nan: s.bool() ? 'A' : 'B', fuel: s.pick([10, 40, 120]), refs: false, maxSteps: s.pick([40, 70]) });
    target = s.draw(m.sigs.length); c.m = m; c.results = m.sigs[target].r; c.values = m.sigs[target].p.map(t => value(s, t));
    if (s.chance(1, 3)) { const k = m.sigs.findIndex(x => !x.p.length && !x.r.length); if (k >= 0 && k !== target) c.start = k; else { m.funcs.push({ type: m.gen.typeIdx([], []), locals: [], code: [['i32.const', 9], ['global.set', 0], ...(m.mem ? [['i32.const', 8], ['i64.const', -1n], ['i64.store', { offset: 0, align: 3 }]] : [])] }); c.start = m.funcs.length - 1; } }
  } else {
    const g = genWasi(s, { names: kind === 'resume' ? STATELESS : WASI, faults: false, noExit: kind === 'resume' || s.bool(), steps: 10, loops: 4 });
    const ni = g.m.imports.length; const fs = g.calls.map(k => g.m.exports.find(e => e.name === k.name).idx);
    c.m = g.m; c.spec = { ...g.spec, preopens: ['.'], shortWrite: undefined, args: [] }; c.results = ['i32']; target = s.pick(fs) - ni; c.wasi = true;
    if (s.chance(1, 3)) { g.m.funcs.push({ type: g.m.funcs[0].type, locals: [], code: [['call', s.pick(fs)], ['drop']] }); c.start = g.m.funcs.length - 1; }
    for (let i = s.draw(5); i > 0; i--) { const w = s.pick(WORDS); c.words.push(s.chance(1, 3) ? [w + ' ' + s.pick(WORDS), 'q'] : s.chance(1, 6) ? [w + s.pick(WORDS) + (s.bool() ? ' ' + s.pick(WORDS) : ''), 'm', w.length] : [w, '']); }
  }
  const ni = c.m.imports.length; c.target = ni + target; if (c.start !== null) c.start += ni;
  c.m.exports = c.m.exports.filter(e => e.name !== c.invoke); c.m.exports.push({ name: c.invoke, kind: 'func', idx: c.target });
  c.more = [];
  if (s.chance(1, 6)) c.more.push('--stats'); if (s.chance(1, 6)) c.more.push('--trace');
  c.cr = kind === 'resume' || s.chance(1, 5);
  c.variant = 'bin-' + d + (kind === 'resume' ? '-p1' : '');
  if (kind === 'resume') { c.stops = genStops(s); c.second = s.bool() ? c.variant : 'bin-' + (d === 'tco' ? 'legacy' : 'tco') + '-p1'; c.resumeCr = s.chance(3, 4); c.saved = s.pick(['checkpoint.bin', './checkpoint.bin', 'moved/c.bin']); }
  if (kind === 'refuse') {
    c.why = s.pick(['export', 'count', 'type', 'text', 'nofile', 'nocheckpoint']);
    if (c.why === 'count') { if (c.values.length && s.bool()) c.values = c.values.slice(0, s.draw(c.values.length)); else c.values.push(value(s, s.pick(NT))); }
    if (c.why === 'type') { if (!c.values.length) c.why = 'export'; else { const j = s.draw(c.values.length); c.values[j] = value(s, s.pick(NT.filter(t => !c.values[j].p.startsWith(t)))); } }
    if (c.why === 'text') { const bad = s.pick(['I32(2147483648)', 'I32(-2147483649)', 'I32()', 'I32(x)', 'I32(1.5)', 'I64(9223372036854775808)', 'F32(one)', 'F64()', 'I32', 'I64(', 'I32(0x10)']); if (c.values.length) c.values[s.draw(c.values.length)] = { text: bad }; else c.values.push({ text: bad }); }
  }
  // the command line
  const groups = [];
  const eq = (long, short, v) => s.pick([[`--${long}`, v], [`--${long}=${v}`], ...(short && !v.startsWith('=') ? [[`-${short}`, v], [`-${short}${v}`]] : [])]);
  if (c.invoke !== '_start' || s.chance(1, 4)) groups.push(eq('invoke', 'i', c.why === 'export' ? c.invoke + 'x' : c.invoke));
  else if (c.why === 'export') groups.push(['-i', 'other']);
  let variadic = null;
  if (c.values.length || s.chance(1, 8)) {
    const t = c.values.map(v => v.text);
    if (!t.length) variadic = ['--params'];
    else switch (s.draw(4)) { case 0: variadic = ['-p', t.join(',')]; break; case 1: variadic = ['--params', ...t]; break; case 2: variadic = [`--params=${t.join(',')}`]; break; default: variadic = [...t.flatMap(x => ['-p', x])]; }
  }
  if (c.words.length || s.chance(1, 8)) groups.push(s.pick([0, 1]) ? ['--app-args', lineOf(c.words, s)] : ['--app-args=' + lineOf(c.words, s)]);
  for (const x of c.more) groups.push([x]);
  if (c.cr) groups.push(['--cr']);
  groups.push([c.file]);
  for (let i = groups.length - 1; i > 0; i--) { const j = s.draw(i + 1); [groups[i], groups[j]] = [groups[j], groups[i]]; }
  if (variadic) groups.push(variadic);
  c.argv = groups.flat();
  c.argv0 = c.file;
  return c;
}
function quoted(w, s) { // quotes around any parts, and around every space
  let o = '', open = false;
  for (const ch of w) { if (open ? ch !== ' ' && s.chance(1, 4) : ch === ' ' || s.chance(1, 8)) { o += '"'; open = !open; } o += ch; }
  return o + (open ? '"' : '');
}
function lineOf(words, s) {
  const q = words.map(([w, how, at]) => (how === 'r' ? quoted(w, s) : how === 'q' ? '"' + w + '"' : how === 'm' ? w.slice(0, at) + '"' + w.slice(at) + '"' : w)).join(' '.repeat(s.range(1, 2)));
  return (s.chance(1, 6) ? ' ' : '') + q + (s.chance(1, 6) ? ' ' : '');
}
// The interpreter prints lines of text; the buffers the programs write are never such.
const OWN = /^[\x20-\x7e][\x20-\x7e\n]*\n$/;
function world(c, bytes) { const w = makeWorld(World, c.spec, { args: [], files: { [c.file.replace('d/../', '')]: bytes, 'd/keep': [1], 'moved/keep': [2] } }); return w; }
function reference(c) {
  const m = { ...c.m, start: null, exports: [...c.m.exports] };
  if (c.start !== null) m.exports.push({ name: '$start', kind: 'func', idx: c.start });
  if (m.mem) { m.exports = m.exports.filter(e => e.name !== 'mem'); m.exports.push({ name: 'mem', kind: 'mem', idx: 0 }); }
  const w = world(c, encode({ ...c.m, start: c.start }));
  w.args = [c.argv0, ...c.words.map(x => x[0])];
  const ref = new Ref(encode(m), w); const r = { w, end: 'ok', result: null };
  const steps = c.start !== null ? [['$start', [], []]] : []; steps.push([c.invoke, c.values.map(v => v.p), c.results]);
  if (c.why) { if (c.start !== null) ref.call('$start', [], []); return r; }
  for (const [n, p, q] of steps) { const x = ref.call(n, p, q); if (x === 'trap') { r.end = 'trap'; r.at = n; break; } if (x.startsWith('exit ')) { r.end = 'exit'; r.code = Number(x.slice(5)); break; } r.result = n === c.invoke && q.length ? x.slice(4).split(',').pop() : null; }
  return r;
}
// the printed result in the canonical form
function parseResult(l) {
  const a = /^Result: Num\((I32|I64|F32|F64)\((.*)\)\)$/.exec(l); if (!a) return l;
  const t = a[1].toLowerCase();
  if (t === 'i32') return fmt(t, Number(a[2])); if (t === 'i64') return fmt(t, BigInt(a[2]));
  const x = a[2] === 'NaN' ? NaN : a[2] === 'inf' ? Infinity : a[2] === '-inf' ? -Infinity : Number(a[2]);
  return fmt(t, t === 'f32' ? Math.fround(x) : x);
}
function split(w) { // what the guest wrote, and the lines of the interpreter
  return { guest: Buffer.concat(w.guestOut), own: Buffer.concat(w.ownOut).toString() };
}
// tells the writes of the guest from those of the interpreter: the latter go line by line
function tap(w) {
  w.guestOut = w.guestOut || []; w.ownOut = w.ownOut || [];
  const push = (b) => { (OWN.test(b.toString('latin1')) ? w.ownOut : w.guestOut).push(b); };
  w.out[1] = { push };
}
function run(c) {
  const bytes = encode({ ...c.m, start: c.start });
  const ref = reference(c);
  const w = world(c, bytes); tap(w);
  if (c.why === 'nofile') { w.unlink(c.file.replace('d/../', '')); }
  const argv = [...c.argv]; if (c.why === 'nocheckpoint') argv.unshift('--restore', 'nothing.bin');
  let legs = 1; let n = 0; const stops = []; let polls = null;
  const counters = { [c.kind]: 1, [c.variant]: 1, start_functions: c.start !== null ? 1 : 0, params: c.values.length, words: c.words.length, legs: 0 };
  const bad = (sig, detail) => ({ nontrivial: true, counters, fail: { sig, detail: `[${c.variant}] ${JSON.stringify(argv)}: ${detail}` } });
  if (c.kind === 'resume') {
    const w0 = world(c, bytes); tap(w0); w0.onCall = (name, a, h) => { if (isPoll(name, a, h)) n++; };
    runBin(c.variant, argv, w0); polls = n; stops.push(...stopsFor(c.stops, n));
    if (!c.resumeCr) stops.length = Math.min(stops.length, 1);
  }
  let r, args = argv, variant = c.variant;
  for (let leg = 0; ; leg++) {
    let stopped = false; n = 0; const from = w.ownOut.length;
    w.onCall = c.kind !== 'resume' ? null : (name, a, h) => { if (isPoll(name, a, h) && ++n === stops[leg]) { w.put('checkpoint.trigger', new Uint8Array(0)); stopped = true; } };
    r = runBin(variant, args, w);
    if (r.end === 'hostabort') return bad('hostabort', r.error);
    const own = Buffer.concat(w.ownOut.slice(from)).toString();
    if (!stopped) break;
    if (r.end !== 'ok' || !own.includes('Execution stopped for checkpoint.') || own.includes('Result: ')) return bad('stop', `leg ${leg}: a request at poll ${stops[leg]} of ${n}: ${r.end} ${r.code} ${r.error || ''}, printed ${JSON.stringify(own)}, stderr ${w.stderr().toString().slice(-200)}`);
    if (!w.readFile('checkpoint.bin')) return bad('stop', 'no checkpoint file');
    if (c.saved === 'moved/c.bin') { w.put('moved/c.bin', w.readFile('checkpoint.bin')); w.unlink('checkpoint.bin'); }
    args = [c.file, '--restore', c.saved, ...(c.resumeCr ? ['--cr'] : []), ...(c.words.length ? ['--app-args', c.argv.includes('--app-args') ? c.argv[c.argv.indexOf('--app-args') + 1] : c.argv.find(x => x.startsWith('--app-args=')).slice(11)] : [])];
    variant = leg & 1 ? c.variant : c.second; legs++;
    for (const fd of [...w.fds.keys()]) if (fd > 3) w.fds.delete(fd);
    if (legs > 40) break;
  }
  counters.legs = legs;
  const { guest, own } = split(w); const err = w.stderr().toString();
  const lines = own.split('\n'); const res = lines.filter(l => l.startsWith('Result: '));
  const refOut = ref.w.stdout();
  if (c.kind === 'refuse') {
    if (res.length) return bad('ran', `(${c.why}) printed ${res[0]}`);
    if (r.end === 'ok' && !err.length) return bad('silent', `(${c.why}) nothing is reported`);
    return { nontrivial: true, counters: { ...counters, [c.why]: 1 }, fail: null };
  }
  const more = `(stdout ${JSON.stringify(own.slice(0, 300))}, stderr ${JSON.stringify(err.slice(-300))}, ${r.end} ${r.code} ${r.error || ''}; legs ${legs}, polls ${polls}, stops ${stops.join()})`;
  if (ref.end === 'exit') { if (r.end !== 'exit' || r.code !== ref.code) return bad('exit', `expected exit code ${ref.code} ${more}`); if (res.length) return bad('result', `a result after an exit ${more}`); } else if (ref.end === 'trap') {
    if (res.length) return bad('result', `printed ${res[0]} where ${ref.at} traps ${more}`);
    if (r.end === 'ok' && !err.includes('Execution Error')) return bad('silent', `nothing is reported of a trap ${more}`);
  } else {
    if (r.end !== 'ok') return bad(r.end, more);
    if (ref.result === null ? res.length : res.length !== 1 || parseResult(res[0]) !== ref.result) return bad('result', `expected ${ref.result}, printed ${res.join(' / ')} = ${res.map(parseResult).join()} ${more}`);
    if (ref.result !== null && lines[lines.length - 2] !== res[0]) return bad('result', `the result is not the last line ${more}`);
  }
  if (ref.end !== 'trap' || c.wasi) {
    if (!guest.equals(refOut)) return bad('stdout', `the guest wrote ${JSON.stringify(guest.toString().slice(0, 300))}, expected ${JSON.stringify(refOut.toString().slice(0, 300))} ${more}`);
    const skip = (p) => p.startsWith('/checkpoint') || p.startsWith('/moved/c.bin');
    if (w.tree(skip) !== ref.w.tree(skip)) return bad('tree', `files: ${w.tree(skip).slice(0, 400)} expected ${ref.w.tree(skip).slice(0, 400)}`);
  }
  return { nontrivial: c.kind === 'resume' ? legs > 1 : c.values.length > 0 || c.words.length > 0 || c.start !== null, evals: legs, counters, fail: null };
}
const show = (c) => `${c.variant} ${c.second || ''} ${c.kind} ${c.why || ''} ${JSON.stringify(c.stops || null)}\nargv ${JSON.stringify(c.argv)}\nhost ${JSON.stringify({ ...c.spec, stdin: '' })}\nvalues ${JSON.stringify(c.values)} words ${JSON.stringify(c.words)} start ${c.start}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, STATELESS, parseResult, variants: ['bin-tco', 'bin-legacy', 'bin-tco-p1', 'bin-legacy-p1'], cases: { quick: 16000, thorough: 500000 }, chunk: 25,
  rule: 'The binary itself is run with random command lines: option order, long, short and attached forms, parameters of all types (boundary integers, floats incl. NaN, infinities, subnormals, long decimal texts) in one list or several, program paths, export names, quoted and unquoted application arguments, --stats and --trace on builds without them. Programs: functions returning their parameters, general random programs, programs using the host, programs writing their argument vector; a third with a start function. Resumed runs are stopped at 1-17 random instants, moved between the two builds with --restore, the checkpoint file possibly moved. Compared with V8: printed result, exit code, failure reported, everything the program writes, files, argument vector. Refused: unknown export, wrong number or type of parameters, malformed parameter, missing program or checkpoint: reported, no result. Non-trivial: parameters, application arguments, a start function, or a resumption.',
  assumptions: ['V8 implements the WebAssembly core specification', 'descriptors other than the standard streams and the first directory are not part of a checkpoint, so resumed programs do not hold any', 'an empty quoted application argument and nested quotes are outside the documented syntax and not generated', 'what the interpreter prints is told from what the program writes by being whole lines of printable text'],
};
