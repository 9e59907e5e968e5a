'use strict';
// A run of a program by a build of the interpreter, seen from outside: results, failures,
// memory, globals, every host call with its answer, streams, files and descriptors.
const { World } = require('./wasi');
const { runDriver } = require('./host');
const { prng } = require('./choices');
const { normList } = require('./oracle');
const { guestLog, makeWorld, armFaults } = require('./gen_wasi');
const { isPoll } = require('./migrate');

const keepKind = (l) => (l.startsWith('ret ') ? 'ret ' + normList(l.slice(4)) : l.startsWith('globals ') ? 'globals ' + normList(l.slice(8)) : l);
function reset(w, spec) { w.rng = prng('world', spec.seed || 0); w.now = BigInt(spec.now || 1000000000000); w.stdinPos = 0; w.out = { 1: [], 2: [] }; }
// opt: pre (script lines before the calls), cr, noReset, own(name, args) → a call made by the interpreter itself, skip(path) → left out of the tree
function observe(variant, m, bytes, calls, spec, faults, opt = {}) {
  const w = makeWorld(World, spec || { files: {} }, { args: ['driver'], files: { 'guest.wasm': bytes } });
  const script = [['load', 'guest.wasm', ...((spec && spec.args) || [])], ...(opt.pre || [])];
  for (const c of calls) { if (!opt.noReset) script.push(['call', '_r', '0']); script.push(['call', c.name, opt.cr ? '1' : '0', ...c.params]); }
  if (m.mem) script.push(['mem']);
  script.push(['globals']);
  w.maxFile = opt.maxFile;
  armFaults(w, faults || []);
  const f = w.faults;
  const own = (name, a, h) => isPoll(name, a, h) || (opt.own && opt.own(name, a));
  w.faults = (name, a, h) => (own(name, a, h) ? undefined : f(name, a, h));
  w.onCall = (name, a, h) => { if (w.log && own(name, a, h)) w.log.pop(); };
  let early = null;
  const r = runDriver(variant, script, w, { onLine: (l) => { if (l === 'loaded') { if (opt.early) early = opt.early(w); reset(w, spec || {}); w.log = []; } } });
  const o = { end: r.end, code: r.code === undefined ? null : r.code, error: r.error, lines: r.lines.map(keepKind), mem: r.blobs[0] || null, log: guestLog(w.log || []), out: w.stdout().toString('base64'), tree: w.tree(opt.skip), fds: w.fdTable(), err: w.stderr(), world: w, calls: (w.log || []).length, early };
  return o;
}
// a crash leaves the message of the panic behind
function noPanic(log) { let n = log.length; while (n && log[n - 1].startsWith('fd_write(2,')) n--; return log.slice(0, n); }
// → null or what differs; a, b: observations named na, nb
function differ(a, b, na, nb, opt = {}) {
  if (a.end === 'crash' && b.end === 'crash') { a = { ...a, log: noPanic(a.log) }; b = { ...b, log: noPanic(b.log) }; }
  for (let i = 0; i < Math.max(a.log.length, b.log.length); i++) if (a.log[i] !== b.log[i]) return { sig: 'hostcall', detail: `host call ${i}: ${na} ${String(a.log[i]).slice(0, 300)}, ${nb} ${String(b.log[i]).slice(0, 300)}` };
  for (let i = 0; i < Math.max(a.lines.length, b.lines.length); i++) if (a.lines[i] !== b.lines[i]) return { sig: 'line', detail: `line ${i}: ${na} "${a.lines[i]}" ${nb} "${b.lines[i]}" (${na} ${a.end} ${a.error || ''}; ${nb} ${b.end} ${b.error || ''})` };
  if (a.end !== b.end || a.code !== b.code) return { sig: 'end', detail: `${na} ended with ${a.end} ${a.code} ${a.error || ''}, ${nb} with ${b.end} ${b.code} ${b.error || ''}` };
  if (a.mem && !a.mem.equals(b.mem)) { let i = 0; while (a.mem[i] === b.mem[i]) i++; return { sig: 'memory', detail: `guest memory differs at ${i}: ${na} ${a.mem.subarray(i, i + 8).toString('hex')} ${nb} ${b.mem.subarray(i, i + 8).toString('hex')}` }; }
  for (const k of ['out', 'tree', 'fds']) if (a[k] !== b[k]) return { sig: k, detail: `${k}: ${na} ${a[k].slice(0, 300)} ${nb} ${b[k].slice(0, 300)}` };
  if (!opt.noErr && a.end !== 'crash' && !a.err.equals(b.err)) return { sig: 'stderr', detail: `stderr: ${na} ${a.err.toString().slice(0, 300)} ${nb} ${b.err.toString().slice(0, 300)}` };
  return null;
}
module.exports = { observe, differ };
