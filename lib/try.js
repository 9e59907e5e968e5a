'use strict';
// node lib/try.js ID [N] [seed] [tier]: runs cases in this process, prints distinct failures shrunk (development aid)
const { Source, shrink } = require('./choices');
(async () => {
  const [id, N = 500, seed = 1, tier = 'quick', maxShow = 3] = process.argv.slice(2);
  const check = require('../checks/' + id + '.js');
  const vs = typeof check.variants === 'function' ? check.variants(tier) : check.variants;
  if (require('child_process').spawnSync(__dirname + '/../build.sh', vs, { stdio: 'inherit' }).status) process.exit(3);
  const t0 = Date.now(); const fails = {}; const counters = {}; let nt = 0, ev = 0, shown = 0, errs = 0;
  for (const p of check.pinned || []) { const r = check.run(p.case, tier) || {}; console.log('pinned', p.name, r.fail ? 'FAILS ' + r.fail.sig + ' ' + r.fail.detail : 'ok'); }
  const norm = (f) => f.sig + ' ' + (f.sig === 'crash' ? f.detail.replace(/.*stderr:/s, '').slice(0, 100) : '');
  for (let i = 0; i < +N; i++) {
    const s = new Source([+seed, id, i]); let r, c;
    try { c = check.gen(s, tier); r = check.run(c, tier) || {}; } catch (e) { if (errs++ < 3) console.log('ERROR case', i, e.stack.slice(0, 800)); continue; }
    ev += r.evals || 1; if (r.nontrivial) nt++;
    for (const k in r.counters || {}) counters[k] = (counters[k] || 0) + r.counters[k];
    if (r.fail) {
      const key = norm(r.fail); fails[key] = (fails[key] || 0) + 1;
      if (fails[key] === 1 && shown++ < +maxShow) {
        const sh = await shrink(s.rec, async q => { const s2 = new Source(null, q); const r2 = check.run(check.gen(s2, tier), tier); return r2 && r2.fail && norm(r2.fail) === key ? { seq: s2.rec } : null; }, { budgetMs: 15000, maxEvals: 5000 });
        const c3 = check.gen(new Source(null, sh.seq), tier); const r3 = check.run(c3, tier);
        console.log('=== case', i, key, '\n', r3.fail && r3.fail.detail, '\n', String(typeof check.show(c3) === 'string' ? check.show(c3) : JSON.stringify(check.show(c3), null, 1)).slice(0, 5000));
      }
    }
  }
  console.log({ fails, errs, nt, ev, counters, msPerCase: (Date.now() - t0) / N });
})();
