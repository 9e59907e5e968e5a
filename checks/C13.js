'use strict';
// C13: traces and statistics report exactly what was executed.
const { encode, wat } = require('../lib/wasmenc');
const { genWasi, makeWorld, armFaults } = require('../lib/gen_wasi');
const { observe } = require('../lib/outside');
const { traceModule, QUIET } = require('../lib/instrument');
const { Ref } = require('../lib/oracle');
const { World } = require('../lib/wasi');
const { prng } = require('../lib/choices');
const { genProgram } = require('./C06');
const C12 = require('./C12');
const MAX = 1500;
class TooLong extends Error { }

function gen(s) {
  const kind = s.weighted([[6, 'core'], [2, 'wasi']]);
  const p = kind === 'core' ? genProgram(s, { small: true }) : { ...genWasi(s, { noErr: true, steps: 8 }), kind };
  const events = s.weighted([[3, null], [1, ['all']], [1, ['all', 'load']], [6, 0]]);
  const res = s.weighted([[2, null], [6, 0]]);
  return { ...p, base: s.bool() ? 'tco' : 'legacy', events: events === 0 ? C12.EV.slice(1).filter(() => s.chance(1, 2)) : events, res: res === 0 ? C12.RES.filter(() => s.chance(1, 2)) : res, cas: s.draw(4), toFile: kind === 'core' && s.chance(1, 4) };
}
const isLoad = (n) => /\.load/.test(n), isStore = (n) => /\.store/.test(n);
const kindOf = (n) => (isLoad(n) ? 'load' : isStore(n) ? 'store' : n === 'call' || n === 'call_indirect' ? 'call' : n === 'br' || n === 'br_if' || n === 'br_table' ? 'branch' : null);
const val = (t, v) => (t === 'i32' ? `I32(${v | 0})` : t === 'i64' ? `I64(${v})` : t === 'f32' || t === 'f64' ? { t: t.toUpperCase(), v } : v === null ? 'RefNull' : t === 'funcref' ? 'FuncAddr' : 'RefExtern');
// a printed float stands for exactly one number
const sameVal = (got, exp) => { if (typeof exp === 'string') return got === exp; const g = /^(F32|F64)\((.*)\)$/.exec(got); if (!g || g[1] !== exp.t) return false; const x = g[2] === 'inf' ? Infinity : g[2] === '-inf' ? -Infinity : Number(g[2]); return Object.is(exp.t === 'F32' ? Math.fround(x) : x, exp.v); };
const split = (l) => { const m = /^\[(.*)\]$/.exec(l); return m && m[1] === '' ? [] : m ? m[1].split(',') : null; };

function reference(c, bytes) {
  const t = traceModule(c.m, true);
  const w = makeWorld(World, c.spec || { files: {} }, { files: { 'guest.wasm': bytes } });
  w.rng = prng('world', (c.spec || {}).seed || 0); w.now = BigInt((c.spec || {}).now || 1000000000000); w.log = []; armFaults(w, c.faults || []);
  const events = []; let locals = [];
  const probe = { ev: (i) => { events.push({ site: i, locals, globals: c.m.globals.map((g, k) => val(g.t, ref.inst.exports['g' + k].value)) }); locals = []; if (events.length > MAX) throw new TooLong(); } };
  for (const ty of t.types) probe['l_' + ty] = (v) => { locals.push(val(ty, v)); };
  const ref = new Ref(encode(t.m), w, { probe });
  const per = []; let end = 'ok';
  for (const k of c.calls) {
    events.length = 0; ref.call('_r', [], []); locals = []; const at = events.splice(0); void at;
    const r = ref.call(k.name, k.params, k.results); per.push(events.splice(0)); locals = [];
    if (r.startsWith('exit')) { end = 'exit'; break; }
  }
  return { sites: t.sites, per, end };
}
// the output of a run: per call the trace lines and the statistics block
function parseErr(text) {
  const calls = [{ lines: [], stats: null }]; let block = null; const other = [];
  for (const l of text.split('\n')) {
    if (l === '=== Execution Statistics ===') { block = []; continue; }
    if (block) { if (l === '=======================') { calls[calls.length - 1].stats = block; block = null; calls.push({ lines: [], stats: null }); } else block.push(l); continue; }
    if (l.startsWith('[') && l.endsWith(']')) calls[calls.length - 1].lines.push(l); else if (l) other.push(l);
  }
  return { calls, open: block, other };
}
function parseLine(l) { const o = {}; for (const p of l.slice(1, -1).split(' | ')) { const i = p.indexOf(':'); o[p.slice(0, i)] = p.slice(i + 1); } return o; }
function run(c) {
  const bytes = encode(c.m);
  let ref;
  try { ref = reference(c, bytes); } catch (e) { if (e instanceof TooLong) return { nontrivial: false, counters: { too_long: 1 }, fail: null }; throw e; }
  const own = (name, x) => name === 'fd_write' && x[0] === 2;
  const cs = (x) => (c.cas === 0 ? x.toUpperCase() : c.cas === 1 ? x[0].toUpperCase() + x.slice(1) : x);
  const full = (l) => (l === null ? '*' : l.map(cs).join('+'));
  const v = c.base + '-stats-trace';
  const go = (variant, events, toFile) => observe(variant, c.m, bytes, c.calls, c.spec, c.faults, { own, maxFile: 1e9, noReset: false, pre: [['stats', '1'], ['trace', full(events) + '/' + full(c.res) + '/' + (toFile ? 'trace.out' : '*')]] });
  const A = go(v, ['all'], false);
  const bad = (sig, detail) => ({ nontrivial: true, counters: {}, fail: { sig, detail: `[${v} events ${c.events} resources ${c.res}] ${detail}` } });
  const a = parseErr(A.err.toString());
  // each call of the script is a reset of the globals followed by the call itself
  const res = c.res === null ? ['pc', 'regs', 'locals', 'globals'] : c.res;
  let nev = 0, floats = 0; const total = {};
  for (let i = 0; i < ref.per.length; i++) {
    const exp = ref.per[i]; const got = (a.calls[2 * i + 1] || { lines: [] });
    const L = got.lines.map(parseLine);
    const sel = L.map((x, k) => [x, k]).filter(([x]) => !QUIET.has(x.Instr));
    const crash = A.end === 'crash' && a.calls.length <= 2 * i + 2;
    for (let k = 0; k < Math.max(exp.length, sel.length); k++) {
      const e = exp[k], g = sel[k] && sel[k][0];
      const where = `call ${i} (${c.calls[i].name}), executed instruction ${k}`;
      if (!e || !g || ref.sites[e.site].name !== g.Instr) return bad('sequence', `${where}: traced ${g ? g.Instr : 'nothing'}, executed ${e ? ref.sites[e.site].name : 'nothing'}`);
      const keys = ['PC', 'Instr', 'Regs', 'Locals', 'Globals'].filter(x => x === 'Instr' || res.includes(x.toLowerCase())).join();
      if (Object.keys(g).join() !== keys) return bad('fields', `${where}: the line has ${Object.keys(g)}, selected ${keys}`);
      for (const [f, ev] of [['Locals', e.locals], ['Globals', e.globals]]) if (g[f] !== undefined) {
        const xs = split(g[f]);
        if (!xs || xs.length !== ev.length || xs.some((x, j) => !sameVal(x, ev[j]))) return bad(f.toLowerCase(), `${where} (${g.Instr}): traced ${g[f]}, actual ${ev.map(x => (typeof x === 'string' ? x : `${x.t}(${x.v})`))}`);
        if (ev.some(x => typeof x !== 'string')) floats++;
      }
      nev++; total[g.Instr] = (total[g.Instr] || 0) + 1;
    }
    // one PC per site and one site per PC, within a function
    if (res.includes('pc')) {
      const pcOf = new Map(), siteOf = new Map();
      for (let k = 0; k < exp.length; k++) { const st = exp[k].site, pc = ref.sites[st].func + '/' + sel[k][0].PC; if ((pcOf.has(st) && pcOf.get(st) !== pc) || (siteOf.has(pc) && siteOf.get(pc) !== st)) return bad('pc', `call ${i}, instruction ${k}: PC ${pc} stands for two instructions`); pcOf.set(st, pc); siteOf.set(pc, st); }
    }
    if (crash || ref.end === 'exit') break;
    // the statistics of the call agree with its trace
    const st = got.stats;
    if (!st) return bad('stats', `call ${i}: no statistics`);
    const tot = /^Total instructions executed: (\d+)$/.exec(st[0]);
    if (!tot || Number(tot[1]) !== L.length) return bad('stats total', `call ${i}: "${st[0]}", traced ${L.length} instructions`);
    const byName = {}; for (const x of L) byName[x.Instr] = (byName[x.Instr] || 0) + 1;
    const sum = {}; let last = Infinity, rows = 0, more = 0;
    for (const l of st.slice(1)) {
      const m = /^ {2}(\S+): +(\d+) \( *(\d+\.\d)%\)$/.exec(l);
      if (m) { rows++; const n = Number(m[2]); if (n > last) return bad('stats order', `call ${i}: ${l} follows a smaller count`); last = n; sum[m[1]] = (sum[m[1]] || 0) + n; if (Math.abs(Number(m[3]) - 100 * n / L.length) > 0.0501) return bad('stats percentage', `call ${i}: ${l} of ${L.length}`); continue; }
      const o = /^ {2}\.\.\. and (\d+) more$/.exec(l); if (o) more = Number(o[1]);
    }
    for (const n in sum) if (!(sum[n] <= (byName[n] || 0)) || (!more && sum[n] !== byName[n])) return bad('stats count', `call ${i}: ${n} counted ${sum[n]} times, traced ${byName[n] || 0} times`);
    if (!more) { for (const n in byName) if (sum[n] === undefined) return bad('stats count', `call ${i}: ${n} is missing from the statistics`); } else if (rows !== 20) return bad('stats rows', `call ${i}: ${rows} rows and ${more} more`);
    if (more) { const rest = L.length - Object.values(sum).reduce((x, y) => x + y, 0); if (rest < more || rest > more * last) return bad('stats more', `call ${i}: ${more} kinds left out have ${rest} instructions, the last listed has ${last}`); }
  }
  // a selection of events gives exactly the lines of these events, on either dispatcher
  const other = c.base === 'tco' ? 'legacy-stats-trace' : 'tco-stats-trace';
  const B = go(other, c.events, c.toFile);
  const evs = c.events === null ? ['all'] : c.events;
  const keep = (l) => evs.includes('all') || evs.includes(kindOf(parseLine(l).Instr));
  if (!c.toFile) {
    const b = parseErr(B.err.toString());
    for (let i = 0; i < Math.max(a.calls.length, b.calls.length); i++) {
      const x = a.calls[i] ? a.calls[i].lines.filter(keep) : [], y = b.calls[i] ? b.calls[i].lines : [];
      for (let k = 0; k < Math.max(x.length, y.length); k++) if (x[k] !== y[k]) return bad('selection', `part ${i}, line ${k}: all events give ${x[k]}, ${other} with events ${c.events} gives ${y[k]}`);
    }
  } else { // every run of the program starts the file anew
    const text = Buffer.from(B.world.readFile('trace.out') || []).toString().split('\n').slice(0, -1);
    const part = a.calls.filter((x, i) => i < 2 * c.calls.length); const lastPart = part[B.end === 'ok' ? 2 * c.calls.length - 1 : part.length - 1];
    const x = (lastPart ? lastPart.lines : []).filter(keep);
    for (let k = 0; k < Math.max(x.length, text.length); k++) if (x[k] !== text[k]) return bad('file', `line ${k} of the file: all events give ${x[k]}, ${other} with events ${c.events} wrote ${text[k]}`);
  }
  return { nontrivial: nev > 5, evals: nev, counters: { [c.kind]: 1, executed: nev, with_floats: floats, [c.base]: 1, to_file: c.toFile ? 1 : 0, crashes: A.end === 'crash' ? 1 : 0, loads_stores: Object.entries(total).reduce((x, [n, k]) => x + (isLoad(n) || isStore(n) ? k : 0), 0), branches: (total.br || 0) + (total.br_if || 0) + (total.br_table || 0), calls: (total.call || 0) + (total.call_indirect || 0), host_calls: total.call_wasi || 0 }, fail: null };
}
const show = (c) => `${c.kind} ${c.base} events ${c.events} resources ${c.res} file ${c.toFile}\ncalls ${JSON.stringify(c.calls)}\n${c.spec ? 'host ' + JSON.stringify({ ...c.spec, stdin: Buffer.from(c.spec.stdin).toString('hex') }) + ' faults ' + JSON.stringify(c.faults) + '\n' : ''}${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco-stats-trace', 'legacy-stats-trace'], cases: { quick: 7000, thorough: 250000 }, chunk: 25,
  rule: 'Programs of every kind (up to 1500 executed instructions per call) are run with tracing of all events and statistics on one dispatcher, with a random selection of events and resources on the other, and, as a copy that reports each instruction with all locals and globals before executing it, by V8. Compared: the traced instructions with the executed ones, in order (except constants, local accesses and block structure, which the interpreter folds), the traced locals and globals with the actual values, the program counters (one per instruction), the selected fields, the filtered trace with the matching lines of the full one, and every count and percentage of the statistics with the trace. Non-trivial: more than 5 executed instructions.',
  assumptions: ['V8 implements the WebAssembly core specification', 'constants, local accesses and block structure are not compared with the execution, only between traces and statistics', 'register values are compared between the two builds only', 'NaN payloads are not compared'],
};
