'use strict';
// Runs a list of calls while stopping for checkpoints at chosen polls, and resuming each
// time in a fresh interpreter (a fresh process) on the same host.
const { World } = require('./wasi');
const { runDriver } = require('./host');
const { normLine } = require('./diffcore');

const isPoll = (name, a, h) => (name === 'path_filestat_get' || name === 'path_open') && h.str(a[2], a[3]).endsWith('checkpoint.trigger');

// variants: build used by leg j is variants[j % length]. stops: how many polls leg j lets
// pass before the request appears (null: none). Guest calls are logged in world.guestLog.
// → { got: normalised observation lines, legs, polls: [per leg], end, error, blob, crash, bad }
function runChain({ m, bytes, calls, world, variants, stops, path = 'guest.wasm', obs = true, load = [], script0, keepWorld, opt = {} }) {
  const got = []; const polls = []; let leg = 0, from = 0, resume = false, blob = null;
  world.guestLog = world.guestLog || [];
  for (;;) {
    const script = [['load', path, ...load]];
    (opt.pre || []).forEach(l => script.push(l));
    const owner = []; // script line → call index
    if (resume) { script.push(['restore', 'checkpoint.bin', '1']); }
    for (let i = from + (resume ? 1 : 0); i < calls.length; i++) { if (!opt.noReset) script.push(['call', '_r', '0']); script.push(['call', calls[i].name, '1', ...calls[i].params]); }
    if (obs) { if (m.mem) script.push(['mem']); script.push(['globals']); }
    void owner;
    let n = 0, inGuest = false, stopped = false, loaded = 0;
    const stop = stops[leg];
    world.log = null;
    world.onCall = (name, a, h) => {
      if (isPoll(name, a, h)) {
        n++;
        if (stop !== undefined && stop !== null && n === stop) { world.put('checkpoint.trigger', new Uint8Array(0)); stopped = true; inGuest = false; world.log = null; }
        if (world.log) world.log.pop(); // the probe is not a call of the guest
      }
    };
    const lines = [];
    const onLine = (l) => {
      if (l === 'trap CheckpointRequested') throw new StopHere();
      lines.push(l);
      if (l === (resume ? 'restored' : 'loaded') && !inGuest) { inGuest = true; world.log = world.guestLog; }
    };
    let r;
    try { r = runDriver(variants[leg % variants.length], script, world, { onLine }); } catch (e) { if (!(e instanceof StopHere)) throw e; r = { end: 'stopped' }; }
    world.log = null; world.onCall = null;
    polls.push(n); void loaded; void keepWorld; void script0;
    // the first lines of a leg
    const body = lines.slice(resume ? 2 : 1);
    if (lines[0] !== 'loaded' || (resume && lines[1] !== 'restored')) {
      if (r.end === 'crash' && !resume && lines.length === 0) return { got, polls, legs: leg + 1, end: 'crash', error: r.error };
      return { got, polls, legs: leg + 1, end: 'bad', error: `leg ${leg}: ${lines.join(' | ')} ${r.end} ${r.error || ''}` };
    }
    if (!resume) got.push('loaded');
    for (const l of body) got.push(normLine(l));
    if (r.end === 'stopped') {
      if (!stopped) return { got, polls, legs: leg + 1, end: 'bad', error: `leg ${leg}: stopped for a checkpoint nobody requested` };
      if (!world.readFile('checkpoint.bin')) return { got, polls, legs: leg + 1, end: 'bad', error: `leg ${leg}: no checkpoint file` };
      // which call was interrupted: each call gives two lines (reset and result)
      const per = opt.noReset ? 1 : 2;
      from = Math.floor((got.length - 1) / per); resume = true; leg++;
      continue;
    }
    if (stopped) return { got, polls, legs: leg + 1, end: 'bad', error: `leg ${leg}: the request at poll ${stop} was not honoured (${body[body.length - 1]}; ${r.end} ${r.error || ''})` };
    return { got, polls, legs: leg + 1, end: r.end, code: r.code, error: r.error, blob: r.blobs && r.blobs[0] };
  }
}
class StopHere extends Error { }
function compareChain(m, exp, r) {
  const got = r.got, out = exp.out;
  const upto = got.every((l, i) => l === out[i]);
  if (r.end === 'crash' && out[got.length] === 'trap' && upto) return null;
  if (r.end !== 'ok') return { kind: r.end, detail: `${r.end} ${r.code === undefined ? '' : r.code} ${r.error || ''} in leg ${r.legs} after ${got.length} lines, expected "${out[got.length]}"` };
  for (let i = 0; i < Math.max(got.length, out.length); i++) if (got[i] !== out[i]) return { kind: 'mismatch', detail: `line ${i} (of ${r.legs} legs): chiwawa "${got[i]}" reference "${out[i]}"` };
  if (m.mem) {
    const a = r.blob, b = exp.mem;
    if (!a.equals(b)) { let i = 0; while (a[i] === b[i]) i++; return { kind: 'memory', detail: `memory differs at ${i}: chiwawa ${a.subarray(i, i + 8).toString('hex')} reference ${b.subarray(i, i + 8).toString('hex')}` }; }
  }
  return null;
}
module.exports = { runChain, compareChain, isPoll };
