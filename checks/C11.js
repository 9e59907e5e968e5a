'use strict';
// C11: a guest sees the host through chiwawa as it would see it directly.
const { encode, wat } = require('../lib/wasmenc');
const { genWasi, guestLog, makeWorld, armFaults } = require('../lib/gen_wasi');
const { Ref } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { runDriver } = require('../lib/host');
const { normLine } = require('../lib/diffcore');
const { prng } = require('../lib/choices');

function gen(s) { const variant = s.bool() ? 'tco' : 'legacy'; const g = genWasi(s); return { ...g, variant, cr: s.chance(1, 4) ? '1' : '0' }; }
function reset(w, spec) { w.rng = prng('world', spec.seed); w.now = BigInt(spec.now); w.stdinPos = 0; w.out = { 1: [], 2: [] }; }
// → everything the outside sees of the run
function outside(w) { return { log: guestLog(w.log), tree: w.tree(), out: w.stdout().toString('base64'), err: w.stderr().toString('base64'), fds: w.fdTable() }; }
function reference(c, bytes) {
  const w = makeWorld(World, c.spec, { files: { 'guest.wasm': bytes } });
  reset(w, c.spec); w.log = []; armFaults(w, c.faults);
  const ref = new Ref(bytes, w); const lines = ['loaded']; let code = null;
  for (const k of c.calls) { const r = ref.call(k.name, k.params, k.results); if (r.startsWith('exit')) { code = Number(r.slice(5)); break; } lines.push(r); if (r === 'trap') break; }
  if (code === null) { lines.push('mem ' + ref.mem().length, 'globals ' + ref.globals(c.m), 'done'); }
  return { lines, code, mem: ref.mem(), ...outside(w) };
}
function run(c) {
  const bytes = encode(c.m);
  const exp = reference(c, bytes);
  const ok = exp.log.filter(l => l.endsWith('=0')).length;
  const base = { nontrivial: exp.log.length >= 3 && ok >= 1, evals: exp.log.length, counters: { host_calls: exp.log.length, successful: ok, injected_errors: c.faults.length, exits: exp.code !== null ? 1 : 0, traps: exp.lines.includes('trap') ? 1 : 0, loops: c.loops, [c.variant]: 1, ...Object.fromEntries(Object.entries(c.used).map(([k, v]) => ['used_' + k, v])) } };
  if (exp.lines.includes('trap')) return { ...base, nontrivial: false, fail: null };
  const w = makeWorld(World, c.spec, { args: ['driver'], files: { 'guest.wasm': bytes } });
  const script = [['load', 'guest.wasm', ...c.spec.args]];
  for (const k of c.calls) script.push(['call', k.name, c.cr, ...k.params]);
  script.push(['mem'], ['globals']);
  armFaults(w, c.faults);
  const poll = (name, a, h) => { if (name === 'path_filestat_get' && h.str(a[2], a[3]).endsWith('checkpoint.trigger') && w.log) w.log.pop(); };
  if (c.cr === '1') { const f = w.faults; w.faults = (name, a, h) => (name === 'path_filestat_get' && h.str(a[2], a[3]).endsWith('checkpoint.trigger') ? undefined : f(name, a, h)); w.onCall = poll; }
  const r = runDriver(c.variant, script, w, { onLine: (l) => { if (l === 'loaded') { reset(w, c.spec); w.log = []; } } });
  const got = { lines: r.lines.map(normLine), code: r.end === 'exit' ? r.code : null, mem: r.blobs[0] || null, ...outside({ log: w.log || [], tree: () => w.tree(), stdout: () => w.stdout(), stderr: () => w.stderr(), fdTable: () => w.fdTable() }) };
  const bad = (sig, detail) => ({ ...base, fail: { sig, detail: `[${c.variant}] ${detail}` } });
  const n = Math.max(got.log.length, exp.log.length);
  for (let i = 0; i < n; i++) if (got.log[i] !== exp.log[i]) return bad('hostcall ' + String(exp.log[i] || got.log[i]).split('(')[0], `host call ${i}: the host got ${String(got.log[i]).slice(0, 300)}, the guest made ${String(exp.log[i]).slice(0, 300)}`);
  if (r.end !== 'ok' && !(r.end === 'exit' && exp.code !== null)) return bad(r.end, `${r.end} ${r.error || ''} after ${got.log.length} host calls (${got.log[got.log.length - 1]})`);
  if (got.code !== exp.code) return bad('exit code', `exit code ${got.code}, expected ${exp.code}`);
  for (let i = 0; i < Math.max(got.lines.length, exp.lines.length); i++) if (got.lines[i] !== exp.lines[i]) return bad('result', `line ${i}: chiwawa "${r.lines[i]}" reference "${exp.lines[i]}"`);
  if (exp.code === null && !got.mem.equals(exp.mem)) { let i = 0; while (got.mem[i] === exp.mem[i]) i++; return bad('memory', `guest memory differs at ${i} (arena + ${(i - c.base).toString(16)}): chiwawa ${got.mem.subarray(i, i + 8).toString('hex')} reference ${exp.mem.subarray(i, i + 8).toString('hex')}`); }
  for (const k of ['out', 'err', 'tree', 'fds']) if (got[k] !== exp[k]) return bad(k, `${k}: chiwawa ${got[k].slice(0, 300)} reference ${exp[k].slice(0, 300)}`);
  return { ...base, fail: null };
}
const show = (c) => `variant ${c.variant} checkpointing ${c.cr}\nhost ${JSON.stringify({ ...c.spec, stdin: Buffer.from(c.spec.stdin).toString('hex') })}\nfaults ${JSON.stringify(c.faults)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco', 'legacy'], cases: { quick: 30000, thorough: 900000 }, chunk: 50,
  rule: 'Each case is a program making up to about 60 WASI preview 1 calls (all 46 functions) with descriptors, paths, vectors, offsets, rights, flags and output addresses that are constants, locals, globals, loaded or computed values, called directly, through helpers or through a table, in straight lines, loops, branches and callees, on a generated file tree, standard input, arguments and environment, with injected host errors, short writes and short reads. Compared with the same program run by V8 on the same host: every call the host received and its answer, results, memory, globals, exit code, both output streams, the file tree, the descriptor table. Non-trivial: at least 3 host calls of which one succeeded.',
  assumptions: ['the in-memory WASI host behaves identically for both runs; it is a model of a host, not one', 'pointers passed by the guest lie in its memory; paths hold no NUL byte', 'args_* and environ_* are answered by the interpreter and so absent from the call log (their effect on memory is compared)'],
};
