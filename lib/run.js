'use strict';
// Runner: node lib/run.js <ID> <quick|thorough>   runs one check
//         node lib/run.js --replay <file>         replays a recorded failure
// Cases are numbered; case i is a pure function of (VERIF_SEED, check, i). They are
// spread over worker threads, and what is reported does not depend on the spread.
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');
const fs = require('fs');
const path = require('path');
const cp = require('child_process');
const { Source, shrink, hash32 } = require('./choices');
const ROOT = path.join(__dirname, '..');
const checkOf = (id) => require(path.join(ROOT, 'checks', id + '.js'));
const HANG_MS = 60000, CONFIRM_MS = 120000;

function runSource(check, src, tier) {
  const c = check.gen(src, tier);
  const r = check.run(c, tier) || {};
  return { c, r };
}
const text = (x) => typeof x === 'string' ? x : JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() : v);

// ---------------------------------------------------------------- worker
if (!isMainThread) {
  const { id, tier, seed, shared } = workerData;
  const check = checkOf(id);
  const sh = new Int32Array(shared);
  parentPort.on('message', async (msg) => {
    if (msg.op === 'chunk') {
      const out = { op: 'chunk', n: 0, keys: [], counters: {}, fails: [], samples: [], error: null, lo: msg.lo, hi: msg.hi };
      for (let i = msg.lo; i < msg.hi; i++) {
        Atomics.store(sh, 0, i); Atomics.add(sh, 1, 1);
        const src = new Source([seed, id, i]);
        let res;
        try { res = runSource(check, src, tier); } catch (e) { out.error = `case ${i}: ${e && e.stack || e}`; break; }
        const { c, r } = res;
        out.n += r.evals || 1;
        if (r.counters) for (const k in r.counters) out.counters[k] = (out.counters[k] || 0) + r.counters[k];
        if (r.nontrivial) {
          out.keys.push(r.key !== undefined ? r.key : hash32(JSON.stringify(src.rec)) * 4096 + (src.rec.length & 4095));
          if (i < 3 || (i % 997 === 5 && out.samples.length < 1)) out.samples.push({ case: i, shows: text(check.show(c)).slice(0, 1500) });
        }
        if (r.fail) out.fails.push({ i, sig: r.fail.sig, detail: r.fail.detail, seq: src.rec });
      }
      Atomics.store(sh, 0, -1);
      parentPort.postMessage(out);
    } else if (msg.op === 'shrink') {
      const fails = async (q) => {
        const s = new Source(null, q);
        Atomics.store(sh, 0, 0); Atomics.add(sh, 1, 1);
        const { r } = runSource(check, s, tier);
        return r.fail && r.fail.sig === msg.sig ? { seq: s.rec } : null;
      };
      const sk = await shrink(msg.seq, fails, { budgetMs: msg.budgetMs, maxEvals: 20000 });
      const s = new Source(null, sk.seq);
      const { c, r } = runSource(check, s, tier);
      Atomics.store(sh, 0, -1);
      parentPort.postMessage({ op: 'shrink', seq: s.rec, evals: sk.evals, detail: r.fail ? r.fail.detail : null, sig: r.fail ? r.fail.sig : null, shows: text(check.show(c)) });
    }
  });
  parentPort.postMessage({ op: 'ready' });
}

// ---------------------------------------------------------------- main
function loadFindings(id) {
  const f = JSON.parse(fs.readFileSync(path.join(ROOT, 'known_findings.json'), 'utf8'));
  return f.filter(x => x.property === id && x.status === 'known');
}
class Pool {
  constructor(id, tier, seed, n) { this.cfg = { id, tier, seed }; this.n = n; this.ws = []; }
  spawn(onMsg, onErr) {
    const shared = new SharedArrayBuffer(8);
    const sh = new Int32Array(shared); sh[0] = -1;
    const w = new Worker(__filename, { workerData: { ...this.cfg, shared }, resourceLimits: { maxOldGenerationSizeMb: 2048, stackSizeMb: 4 } });
    const o = { w, sh, seen: -1, since: Date.now(), dead: false };
    w.on('message', m => { if (!o.dead) onMsg(o, m); });
    w.on('error', e => { if (!o.dead) { o.dead = true; onErr(o, e); } });
    this.ws.push(o);
    return o;
  }
  kill(o) { o.dead = true; this.ws = this.ws.filter(x => x !== o); return o.w.terminate(); }
}
function nWorkers() { return Math.max(2, Math.min(+(process.env.VERIF_WORKERS || 8), require('os').availableParallelism())); }

function runCases(id, tier, seed, total, chunk, findings, deadlineMs) {
  return new Promise((resolve, reject) => {
    const pool = new Pool(id, tier, seed, nWorkers());
    const acc = { n: 0, keys: new Set(), counters: {}, fails: [], samples: [], hangs: [], cases: 0 };
    const queue = [];
    for (let lo = 0; lo < total; lo += chunk) queue.push([lo, Math.min(total, lo + chunk)]);
    let stop = false, active = 0, done = false;
    const t0 = Date.now();
    const finish = (err) => {
      if (done) return; done = true; clearInterval(timer);
      Promise.all(pool.ws.slice().map(o => pool.kill(o))).then(() => err ? reject(err) : resolve(acc));
    };
    const give = (o) => {
      if (done) return;
      if (!stop && deadlineMs && Date.now() - t0 > deadlineMs) { stop = true; acc.cut = true; }
      const q = stop ? undefined : queue.shift();
      if (!q) { o.idle = true; if (!active) finish(); return; }
      o.idle = false; o.chunk = q; active++; o.since = Date.now();
      o.w.postMessage({ op: 'chunk', lo: q[0], hi: q[1] });
    };
    const onMsg = (o, m) => {
      if (m.op === 'ready') return give(o);
      active--;
      if (m.error) return finish(new Error(m.error));
      acc.n += m.n; acc.cases += m.hi - m.lo;
      for (const k of m.keys) acc.keys.add(k);
      for (const k in m.counters) acc.counters[k] = (acc.counters[k] || 0) + m.counters[k];
      acc.samples.push(...m.samples);
      for (const f of m.fails) { acc.fails.push(f); if (!findings.some(x => x.signature === f.sig)) stop = true; }
      give(o);
    };
    const onErr = (o, e) => finish(new Error('worker: ' + (e && e.stack || e)));
    for (let i = 0; i < pool.n; i++) pool.spawn(onMsg, onErr);
    const timer = setInterval(() => {
      for (const o of pool.ws.slice()) {
        const idx = Atomics.load(o.sh, 0), tick = Atomics.load(o.sh, 1);
        if (tick !== o.seen) { o.seen = tick; o.since = Date.now(); continue; }
        if (idx >= 0 && !o.idle && Date.now() - o.since > HANG_MS) {
          // not answering: set the case aside, and go on with the others
          acc.hangs.push(idx); active--; stop = true;
          pool.kill(o);
          if (!active) finish();
        }
      }
    }, 1000);
  });
}
// runs one case (or a shrink) alone in a fresh worker with a time limit; null = no answer
function alone(id, tier, seed, msg, limitMs) {
  return new Promise((resolve, reject) => {
    const pool = new Pool(id, tier, seed, 1);
    const timer = setTimeout(() => { pool.kill(o); resolve(null); }, limitMs);
    const o = pool.spawn((o, m) => {
      if (m.op === 'ready') return o.w.postMessage(msg);
      clearTimeout(timer); pool.kill(o); resolve(m);
    }, (o, e) => { clearTimeout(timer); resolve({ error: String(e) }); });
  });
}

async function main() {
  if (process.argv[2] === '--replay') return replay(process.argv[3]);
  const [id, tier] = process.argv.slice(2);
  const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 0;
  const t0 = Date.now();
  const check = checkOf(id);
  const variants = typeof check.variants === 'function' ? check.variants(tier) : check.variants;
  const b = cp.spawnSync(path.join(ROOT, 'build.sh'), variants, { stdio: 'inherit' });
  if (b.status !== 0) { console.error('build failed'); process.exit(3); }
  const buildS = (Date.now() - t0) / 1000;
  const findings = loadFindings(id);
  const unlisted = [];
  const known = new Map();
  const note = (f) => {
    const k = findings.find(x => x.signature === f.sig);
    if (k) known.set(k.signature, k); else unlisted.push(f);
  };
  // pinned cases: fixed inputs, run first
  let pinned = 0;
  for (const p of check.pinned || []) {
    pinned++;
    const r = check.run(p.case, tier) || {};
    if (r.fail) note({ i: `pinned ${p.name}`, sig: p.sig || r.fail.sig, detail: r.fail.detail, shows: text(check.show(p.case)), pinned: p.name });
  }
  const total = Math.max(1, Math.round((check.cases[tier] || check.cases.quick) * +(process.env.VERIF_SCALE || 1)));
  const acc = await runCases(id, tier, seed, total, check.chunk || 25, findings, (check.deadlineS && check.deadlineS[tier] || 0) * 1000);
  for (const f of acc.fails.sort((a, b) => a.i - b.i)) note(f);
  for (const i of acc.hangs.sort((a, b) => a - b).slice(0, 1)) {
    const m = await alone(id, tier, seed, { op: 'chunk', lo: i, hi: i + 1 }, CONFIRM_MS);
    if (m === null) {
      const src = new Source([seed, id, i]);
      const c = check.gen(src, tier);
      note({ i, sig: 'hang', detail: `no answer within ${CONFIRM_MS / 1000} s of processor time on a case the reference finishes at once`, seq: src.rec, shows: text(check.show(c)), noshrink: true });
    } else if (m.error) throw new Error(m.error);
    else for (const f of m.fails) note(f);
  }
  for (const k of known.values()) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  let rc = 0;
  if (unlisted.length) {
    rc = 1;
    let f = unlisted[0];
    let shows = f.shows, seq = f.seq, detail = f.detail, evals = 0;
    if (seq && !f.noshrink) {
      const m = await alone(id, tier, seed, { op: 'shrink', seq, sig: f.sig, budgetMs: 40000 }, 100000);
      if (m && m.seq && m.sig === f.sig) { seq = m.seq; detail = m.detail; shows = m.shows; evals = m.evals; }
    }
    fs.mkdirSync(path.join(ROOT, 'replays'), { recursive: true });
    const file = path.join(ROOT, 'replays', `${id}-${seed}-${hash32(f.sig, JSON.stringify(seq || f.pinned)).toString(16)}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: id, tier, seed, case: f.i, pinned: f.pinned, signature: f.sig, detail, seq, shrinkEvals: evals, replay: `node /verif/lib/run.js --replay ${file}`, shows: String(shows).split('\n') }, null, 1));
    console.log(`failing case ${f.i}: ${detail}`);
    console.log(String(shows).slice(0, 6000));
    console.log(`VIOLATION property=${id} replay=${file}`);
  }
  const ev = {
    property: id, tier, seed, level: 'exploration',
    coverage: {
      evaluations: acc.n + pinned, distinct_nontrivial: acc.keys.size, rule: check.rule,
      samples: acc.samples.sort((a, b) => a.case - b.case).slice(0, 4).map(s => ({ case: s.case, shows: s.shows.split('\n') })),
      cases: acc.cases, pinned_cases: pinned, variants, counters: acc.counters, build_s: buildS, known_findings: known.size, cut_short: !!acc.cut,
    },
    assumptions: check.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations: unlisted.length,
  };
  if (!ev.coverage.samples.length) ev.coverage.samples = [{ note: 'no non-trivial case among the sampled indices' }];
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1));
  console.log(`${id} ${tier}: ${acc.n} evaluations in ${acc.cases} cases, ${acc.keys.size} distinct non-trivial, ${unlisted.length} violation(s), ${known.size} known finding(s), ${((Date.now() - t0) / 1000).toFixed(0)} s (build ${buildS.toFixed(0)} s)`);
  console.log(JSON.stringify(acc.counters));
  process.exit(rc);
}
async function replay(file) {
  const f = JSON.parse(fs.readFileSync(file, 'utf8'));
  const check = checkOf(f.property);
  const variants = typeof check.variants === 'function' ? check.variants(f.tier) : check.variants;
  if (cp.spawnSync(path.join(ROOT, 'build.sh'), variants, { stdio: 'inherit' }).status !== 0) process.exit(3);
  let c;
  if (f.pinned) c = check.pinned.find(p => p.name === f.pinned).case; else c = check.gen(new Source(null, f.seq), f.tier);
  console.log(text(check.show(c)));
  const r = check.run(c, f.tier) || {};
  console.log(r.fail ? `still fails: ${r.fail.sig}: ${r.fail.detail}` : 'does not fail');
  process.exit(r.fail ? 1 : 0);
}
if (isMainThread && require.main === module) main().catch(e => { console.error('check error:', e && e.stack || e); process.exit(3); });
