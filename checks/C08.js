'use strict';
// C08: saving is atomic, failures of a save are reported, damaged checkpoints are refused.
const { genProgram } = require('./C06');
const { encode, wat } = require('../lib/wasmenc');
const { expected, normLine } = require('../lib/diffcore');
const { compareChain, isPoll } = require('../lib/migrate');
const { World } = require('../lib/wasi');
const { runDriver, runBin } = require('../lib/host');
const { parseResult } = require('./C15');

const ERR = [29, 51, 2, 69, 63, 33, 8, 27, 19, 22, 6, 76, 28]; // io nospc acces rofs perm mfile badf intr dquot fbig again notcapable inval
const ERR2 = ERR.filter(e => e !== 27); // an interrupted operation is tried again, for ever
class Crash extends Error { }
class Stop extends Error { }

// One run of the interpreter. resume: from checkpoint.bin. stop: poll at which the request
// appears (0: never). inject(k, name, a, h): called for each host call from then on.
// → { said: 'saved'|'reported'|'finished'|'refused'|'cut', lines, polls, n (host calls from the request on), r }
function leg(c, w, { resume, stop, inject, early, cr = true }) {
  const bin = c.variant.startsWith('bin-');
  let polls = 0, live = false, n = 0; const lines = []; let r; let said = null;
  w.out = { 1: [], 2: [] };
  w.onCall = (name, a, h) => {
    if (live) { const k = n++; return inject ? inject(k, name, a, h) : undefined; }
    if (isPoll(name, a, h)) { polls++; if (stop && polls === stop) { w.put('checkpoint.trigger', new Uint8Array(0)); live = true; } }
    return undefined;
  };
  if (early) live = true;
  try {
    if (bin) {
      r = runBin(c.variant, ['guest.wasm', ...(cr ? ['--cr'] : []), ...(resume ? ['--restore', 'checkpoint.bin'] : ['--invoke', c.calls[0].name, ...c.cli])], w);
    } else {
      const script = [['load', 'guest.wasm'], resume ? ['restore', 'checkpoint.bin', cr ? '1' : '0'] : ['call', c.calls[0].name, cr ? '1' : '0', ...c.calls[0].params]];
      if (c.m.mem) script.push(['mem']); script.push(['globals']);
      r = runDriver(c.variant, script, w, { onLine: (l) => { lines.push(l); if (l === 'trap CheckpointRequested') { said = 'saved'; throw new Stop(); } if (live && !early && l.startsWith('trap ')) { said = 'reported'; throw new Stop(); } if (l.startsWith('restore-error')) { said = 'refused'; throw new Stop(); } } });
    }
  } catch (e) { if (e instanceof Crash) said = 'cut'; else if (!(e instanceof Stop)) throw e; }
  w.onCall = null;
  const out = w.stdout().toString('latin1'), err = w.stderr().toString('latin1');
  if (!said) {
    if (r.end === 'hostabort') said = 'hostabort';
    else if (bin) {
      if (r.end === 'crash' || r.code) said = 'reported';
      else if (out.includes('Execution stopped for checkpoint')) said = 'saved';
      else if (/^Result: /m.test(out) || (!c.calls[0].results.length && !err)) said = 'finished';
      else said = err.length ? 'reported' : 'silent';
    } else said = r.end === 'ok' ? 'finished' : 'reported';
  }
  return { said, lines, polls, n, r, out, err };
}
const at = (w, p) => { const x = w.lookupAbs(p); return x === undefined ? 'absent' : x.type === 4 ? Buffer.from(x.data).toString('latin1') : 'type ' + x.type; };
const show1 = (s) => (s.length > 40 ? `${s.length} bytes` : JSON.stringify(s));

function gen(s) {
  let p, tries = 0;
  do { p = genProgram(s, { small: true }); tries++; } while (!p.calls.length && tries < 5);
  const call = p.calls.length ? s.pick(p.calls) : { name: '_r', params: [], results: [] };
  const c = { kind: p.kind, m: p.m, calls: [call], variant: s.weighted([[4, 'tco-p1'], [4, 'legacy-p1'], [1, 'bin-tco-p1'], [1, 'bin-legacy-p1']]) };
  if (c.variant.startsWith('bin-') && !(call.results.length < 2 && [...call.results].every(t => t === 'i32' || t === 'i64') && call.params.every(x => /^i(32|64):/.test(x)))) c.variant = c.variant.slice(4);
  c.cli = !c.variant.startsWith('bin-') ? [] : call.params.map(x => { const [t, v] = x.split(':'); return `-p=${t === 'i32' ? `I32(${Number('0x' + v) | 0})` : `I64(${BigInt.asIntN(64, BigInt('0x' + v))})`}`; });
  if (c.cli.length) c.cli = ['--params=' + c.cli.map(x => x.slice(3)).join(',')];
  c.mode = s.weighted([[3, 'save'], [2, 'load']]);
  c.stop = s.u32(); c.stop2 = s.u32();
  c.prior = s.weighted([[2, 'none'], [3, 'own'], [2, 'other'], [1, 'dir']]);
  c.tmp = s.weighted([[4, 'none'], [3, 'long'], [1, 'short'], [1, 'dir']]);
  c.r = []; for (let i = 0; i < 16; i++) c.r.push(s.u32());
  c.other = Uint8Array.from(new Array(s.range(1, 60)).fill(0).map(() => s.draw(256)));
  return c;
}
// the end of the uninterrupted run
function finished(c, exp, l) {
  if (c.variant.startsWith('bin-')) {
    const want = exp.out[1];
    if (want === 'trap') return l.said === 'reported' ? null : `${l.said}, the reference traps`;
    if (l.said !== 'finished') return `${l.said} ${l.err.slice(-200)}`;
    if (!c.calls[0].results.length) return null;
    const g = parseResult((/^Result: .*$/m.exec(l.out) || [''])[0]); return want === 'ret ' + g ? null : `printed ${g}, expected ${want}`;
  }
  const d = compareChain(c.m, exp, { got: l.lines.filter(x => x !== 'restored').map(normLine), end: l.r ? l.r.end : 'stopped', error: l.r && l.r.error, blob: l.r && l.r.blobs && l.r.blobs[0], legs: 1 });
  return d ? d.detail : null;
}
function run(c) {
  const bytes = encode(c.m); const bin = c.variant.startsWith('bin-');
  const full = expected(c.m, bytes, c.calls); // the first call is preceded by a reset: instances start reset
  const exp = { ...full, out: full.out.filter((x, i) => i !== 1) };
  const counters = { [c.mode]: 1, [c.variant]: 1, [c.kind]: 1, points: 0, runs: 0, refusals: 0, restores: 0 };
  const bad = (sig, detail) => ({ nontrivial: true, counters, fail: { sig, detail: `[${c.variant}] ${detail}` } });
  const skip = (k) => ({ nontrivial: false, counters: { ...counters, ['skip_' + k]: 1 }, fail: null });
  const fresh = () => new World({ files: { 'guest.wasm': bytes, 'keep/me': [1, 2, 3] } });
  const w0 = fresh(); const base = leg(c, w0, { stop: 0 });
  if (finished(c, exp, base)) return skip('uninterrupted'); // judged by C06
  const N = base.polls; if (N < 1) return skip('nopoll'); if (N > 3000) return skip('long');
  const stop = 1 + c.stop % Math.min(N, 600);
  // ---------------------------------------------------------------- restoring
  if (c.mode === 'load') {
    const w = fresh(); const s1 = leg(c, w, { stop });
    if (s1.said !== 'saved') return bad('save', `a request at poll ${stop} gives ${s1.said} ${s1.lines.join('|')} ${s1.err.slice(-200)}`);
    const good = Uint8Array.from(w.readFile('checkpoint.bin'));
    const tryit = (what, put, faults, mayRun) => {
      const v = fresh(); put(v); const before = v.tree(p => p === '/checkpoint.trigger');
      const l = leg(c, v, { resume: true, early: !!faults, inject: faults, cr: false }); counters.runs++;
      if (v.tree(p => p === '/checkpoint.trigger') !== before) return bad('effect', `${what}: files changed`);
      if (mayRun && finished(c, exp, l) === null) { counters.restores++; return null; }
      const crash = !faults && l.r && l.r.end === 'crash';
      if (!bin && (l.lines.includes('restored') || (l.said !== 'refused' && !(faults && l.said === 'reported')) || crash)) return bad(mayRun ? 'fault' : 'accepted', `${what} is not refused: ${l.said}, ${l.lines.join(' | ')} ${l.r ? l.r.end + ' ' + (l.r.error || '') : ''}`);
      if (bin && (l.said !== 'reported' || crash || /^Result|Resuming/m.test(l.out))) return bad(mayRun ? 'fault' : 'accepted', `${what} is not refused: ${l.said} ${l.out.slice(-200)} ${l.err.slice(-200)} ${l.r ? l.r.end + ' ' + (l.r.error || '') : ''}`);
      counters.refusals++; return null;
    };
    const file = (b) => (v) => v.put('checkpoint.bin', b);
    let f;
    if (!(!(f = tryit('the intact file', file(good), null, true)))) return f;
    if (!counters.restores) return bad('intact', 'the intact file is refused');
    const rnd = (i, n) => { const o = new Uint8Array(n); let x = (c.r[i] | 1) >>> 0; for (let k = 0; k < n; k++) { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; o[k] = 128 | (x >>> 7) & 127; } return o; };
    const L = good.length;
    const lens = [...new Set([0, 1, 7, 8, L - 1, L - 2, L - 8, ...c.r.slice(0, 10).map(x => x % L)])].filter(n => n >= 0 && n < L);
    for (const n of lens) if ((f = tryit(`a checkpoint of ${L} bytes cut at ${n}`, file(good.slice(0, n)), null, false))) return f;
    if ((f = tryit('a missing file', () => { }, null, false))) return f;
    if ((f = tryit('a directory', (v) => v.put('checkpoint.bin', { dir: true }), null, false))) return f;
    if ((f = tryit('a dangling link', (v) => v.put('checkpoint.bin', { link: 'nowhere' }), null, false))) return f;
    if ((f = tryit('the program itself', file(bytes), null, false))) return f;
    if ((f = tryit(`${L} zeros`, file(new Uint8Array(L)), null, false))) return f;
    if ((f = tryit('arbitrary bytes', file(rnd(10, 1 + c.r[11] % (2 * L))), null, false))) return f;
    if ((f = tryit('a text', file(Buffer.from('{"stacks": [], "memory": null}\n'.repeat(1 + c.r[12] % 9))), null, false))) return f;
    // reading it fails, or goes in small steps
    const ok = fresh(); file(good)(ok); const names = []; const own = new Set((c.m.imports || []).map(x => x.name || x.field || x[1])); leg(c, ok, { resume: true, early: true, inject: (k, name, a, h) => { names.push(isPoll(name, a, h) ? 'poll' : name + (name === 'fd_read' || name === 'fd_write' ? a[0] : '')); } });
    const from = names.lastIndexOf('path_open', names.indexOf('poll') < 0 ? undefined : names.indexOf('poll'));
    for (let k = Math.max(0, from); k < names.length && names[k] !== 'poll'; k++) {
      if (names[k].startsWith('fd_write')) continue;
      const e = ERR[c.r[k % 16] % ERR.length];
      counters.points++;
      if ((f = tryit(`error ${e} from ${names[k]}`, file(good), (i) => (i === k ? e : undefined), true))) return f;
      const e2 = ERR2[c.r[(k + 5) % 16] % ERR2.length];
      if ((f = tryit(`error ${e2} from ${names[k]} and every later one`, file(good), (i, name) => (i === k || (i > k && name !== 'fd_write' && !own.has(name)) ? e2 : undefined), true))) return f;
    }
    const step = 1 + c.r[14] % 97; let cut = 0;
    if (L / step < 3000 && (f = tryit(`reading ${step} bytes at a time`, file(good), (i, name, a, h) => { if (name !== 'fd_read' || cut) return undefined; const p = a[1] >>> 0; const fl = h.dv.getUint32(p + 4, true); if (fl > step) { h.dv.setUint32(p + 4, step, true); } return undefined; }, true))) return f;
    counters.bytes = L;
    return { nontrivial: N > 10, counters, evals: counters.runs, fail: null };
  }
  // ---------------------------------------------------------------- saving
  const prepare = () => {
    const w = fresh(); let resume = false;
    if (c.prior === 'own') { const s1 = leg(c, w, { stop }); if (s1.said !== 'saved') return { fail: bad('save', `a request at poll ${stop} gives ${s1.said} ${s1.lines.join('|')} ${s1.err.slice(-200)}`) }; resume = true; } else if (c.prior === 'other') w.put('checkpoint.bin', c.other); else if (c.prior === 'dir') w.put('checkpoint.bin/x', [1]);
    return { w, resume };
  };
  const p = prepare(); if (p.fail) return p.fail;
  let stop2 = stop;
  const snap = p.resume ? Uint8Array.from(p.w.readFile('checkpoint.bin')) : null;
  if (p.resume) { const rest = N - stop + 1; stop2 = 1 + c.stop2 % Math.min(rest, 300); }
  const world = () => { const w = fresh(); if (snap) w.put('checkpoint.bin', snap); else if (c.prior === 'other') w.put('checkpoint.bin', c.other); else if (c.prior === 'dir') w.put('checkpoint.bin/x', [1]); if (c.tmp === 'long') w.put('checkpoint.bin.tmp', new Uint8Array(20000).fill(7)); else if (c.tmp === 'short') w.put('checkpoint.bin.tmp', [9]); else if (c.tmp === 'dir') w.put('checkpoint.bin.tmp/y', [1]); return w; };
  const others = (w) => w.tree(q => q.startsWith('/checkpoint'));
  const go = (w, inject) => leg(c, w, { resume: p.resume, stop: stop2, inject });
  // without faults
  const w1 = world(); const old = at(w1, 'checkpoint.bin'), keep = others(w1); const names = [];
  const r1 = go(w1, (k, name, a) => { names.push([name, a[0]]); });
  const fresh1 = at(w1, 'checkpoint.bin');
  const free = c.prior !== 'dir'; // whether the save can succeed
  const stuck = (l, w) => `${l.said}, ${l.lines.join(' | ')} ${l.err.slice(-300)} (${c.prior}, ${c.tmp})`;
  if (r1.polls < stop2) return bad('lost', `only ${r1.polls} polls`);
  if (free && c.tmp !== 'dir' && r1.said !== 'saved') return bad('save', `the save does not succeed: ${stuck(r1)}`);
  if (!free && (r1.said === 'saved' || r1.said === 'silent' || r1.said === 'finished')) return bad('unreported', `the checkpoint cannot be stored, but: ${stuck(r1)}`);
  const complete = (w, what) => { // the file is a complete checkpoint: it gives the results of the uninterrupted run
    const v = fresh(); v.put('checkpoint.bin', Uint8Array.from(w.readFile('checkpoint.bin') || [])); const l = leg(c, v, { resume: true, stop: 0, cr: false }); counters.restores++;
    const d = finished(c, exp, l); return d ? `${what}: resuming gives ${d}` : null;
  };
  let d;
  if (r1.said === 'saved') { if (fresh1 === old && !p.resume) return bad('unchanged', 'saved, but the file is the old one'); if ((d = complete(w1, 'an undisturbed save'))) return bad('resume', d); }
  const judge = (w, l, what) => {
    counters.runs++;
    const now = at(w, 'checkpoint.bin');
    if (now !== old && !(now === fresh1 && r1.said === 'saved')) { const e = w.readFile('checkpoint.bin') ? complete(w, what) : `checkpoint.bin is ${show1(now)}`; if (e) return bad('torn', `${what}: checkpoint.bin is neither the previous file (${show1(old)}) nor a complete new one (${show1(fresh1)}): ${e}; ${stuck(l)}`); } else if (now === old && old !== fresh1 && (l.said === 'saved' || l.said === 'silent' || l.said === 'finished')) return bad('unreported', `${what}: nothing was saved, but ${stuck(l)}`);
    if (others(w) !== keep) return bad('effect', `${what}: other files changed`);
    return null;
  };
  let f;
  for (let k = 0; k < names.length; k++) {
    const [name, fd] = names[k]; const here = `host call ${k} after the request (${name})`; const e = ERR[c.r[k % 16] % ERR.length], e2 = ERR2[c.r[(k + 5) % 16] % ERR2.length];
    counters.points++;
    let w = world(), l = go(w, (i) => { if (i === k) throw new Crash(); });
    if ((f = judge(w, l, `stopped before ${here}`))) return f;
    // what is left behind does not disturb the next save
    if (free && c.tmp !== 'dir' && (name === 'path_rename' || name === 'fd_close' || c.r[k % 16] % 4 === 0)) {
      w.unlink('checkpoint.trigger'); if (snap) w.put('checkpoint.bin', snap); l = go(w, null); if (l.said !== 'saved') return bad('next', `after a stop before ${here}, the next save fails: ${stuck(l)}`);
      if ((d = complete(w, `the save after a stop before ${here}`))) return bad('next', d);
    }
    const print = name === 'fd_write' && fd <= 2;
    if (!(bin && print)) {
      w = world(); l = go(w, (i) => (i === k ? e : undefined)); if ((f = judge(w, l, `error ${e} from ${here}`))) return f;
      if (free && c.tmp !== 'dir' && c.r[(k + 3) % 16] % 4 === 0) { w.unlink('checkpoint.trigger'); if (snap) w.put('checkpoint.bin', snap); l = go(w, null); if (l.said !== 'saved' ) return bad('next', `after error ${e} from ${here}, the next save fails: ${stuck(l)}`); if ((d = complete(w, `the save after error ${e} from ${here}`))) return bad('next', d); }
      w = world(); l = go(w, (i, n, a) => (i >= k && !(n === 'fd_write' && a[0] <= 2) ? e2 : undefined)); if ((f = judge(w, l, `error ${e2} from ${here} and every later one`))) return f;
    }
    if (name === 'fd_write' && fd > 2) {
      const part = (a, h, most) => { // writes at most `most` bytes
        const hd = w.fds.get(a[0]); let left = most, done = 0; const o = [];
        for (let q = 0; q < a[2]; q++) { const b = h.dv.getUint32(a[1] + q * 8, true), n = Math.min(left, h.dv.getUint32(a[1] + q * 8 + 4, true)); for (let z = 0; z < n; z++) o.push(h.u8[b + z]); left -= n; done += n; }
        const data = new Uint8Array(Math.max(hd.node.data.length, hd.pos + done)); data.set(hd.node.data); data.set(o, hd.pos); hd.node.data = data; hd.pos += done; h.dv.setUint32(a[3], done, true); return done;
      };
      const most = 1 + c.r[(k + 7) % 16] % 400;
      w = world(); l = go(w, (i, n, a, h) => { if (i === k) { part(a, h, most); throw new Crash(); } }); if ((f = judge(w, l, `stopped half way through ${here}`))) return f;
      w = world(); l = go(w, (i, n, a, h) => { if (i === k) { part(a, h, most); return 0; } return i > k && n === 'fd_write' && a[0] > 2 ? 51 : undefined; }); if ((f = judge(w, l, `no space half way through ${here}`))) return f;
      w = world(); l = go(w, (i, n, a, h) => { if (i >= k && n === 'fd_write' && a[0] > 2 && i < k + 2000) { part(a, h, Math.max(most, 20)); return 0; } return undefined; });
      if ((f = judge(w, l, `short writes from ${here} on`))) return f; if (l.said === 'saved' && (d = complete(w, 'a save by short writes'))) return bad('resume', d);
      w = world(); l = go(w, (i, n, a, h) => { if (i === k) { h.dv.setUint32(a[3], 0, true); return 0; } return undefined; }); if ((f = judge(w, l, `nothing written by ${here}`))) return f;
    }
  }
  return { nontrivial: r1.said === 'saved' && N > 10, counters, evals: counters.runs, fail: null };
}
const show = (c) => `${c.variant} ${c.kind} ${c.mode} prior ${c.prior} tmp ${c.tmp} stop ${c.stop} ${c.stop2}\ncall ${JSON.stringify(c.calls)}\n${wat(c.m)}`;
module.exports = {
  gen, run, show, variants: ['tco-p1', 'legacy-p1', 'bin-tco-p1', 'bin-legacy-p1'], cases: { quick: 4500, thorough: 80000 }, chunk: 4,
  rule: 'Random programs are stopped for a checkpoint at a random instant, in a first run or in a resumed one, with no, an older, an unrelated checkpoint or a directory in its place, and with leftovers of an earlier attempt. Every host operation from the request on is, in turn, a point at which the process stops, one that fails once, and one from which everything fails; writes to the file also stop or fail half way, are short, or write nothing. Whatever happens, the checkpoint file is the previous one byte for byte, or a complete new one (byte for byte that of the undisturbed save, or one that resumes to the results of V8); a run that did not save does not say so; other files stay as they are; the next save succeeds. Restoring: cut at 0-17 lengths, missing, directory, dangling link, zeros, other files, arbitrary bytes: an error, nothing of the program runs; failing host operations: an error or the right results; short reads: the right results. Non-trivial: the run has more than 10 instants and the undisturbed save succeeds. Cases are counted by disturbed runs.',
  assumptions: ['V8 implements the WebAssembly core specification', 'a process may stop between or within host operations, and operations completed before persist (loss of power is not modelled)', 'a damaged file that still decodes (no checksum is stored) is not judged', 'the guarded hook only removes the 1-in-1024 throttle of the poll'],
};
