'use strict';
// Copies of a module with extra instructions inserted.
const COUNTED = (n) => /^(i32|i64|f32|f64)\.(add|sub|mul|and|or|xor|shl|shr_s|shr_u|rotl|rotr|store|store8|store16|store32|eq|ne|lt|gt|le|ge|lt_s|lt_u|gt_s|gt_u|le_s|le_u|ge_s|ge_u|div_u|rem_u)$/.test(n) || ['call', 'call_indirect', 'br', 'br_if', 'br_table', 'if', 'return', 'memory.fill', 'memory.copy', 'memory.grow'].includes(n);
// adds an i64 global (exported as "g<index>") that counts the instructions `pred` selects
function countModule(m, pred = COUNTED) {
  const c = { ...m, globals: m.globals.slice(), exports: m.exports.slice(), funcs: m.funcs.map(f => ({ ...f, code: [] })) };
  const g = c.globals.length;
  c.globals.push({ t: 'i64', mut: true, init: ['i64.const', 0n] });
  c.exports.push({ name: 'g' + g, kind: 'global', idx: g });
  m.funcs.forEach((f, i) => { for (const ins of f.code) { if (pred(ins[0]) && !f.uncounted) c.funcs[i].code.push(['global.get', g], ['i64.const', 1n], ['i64.add'], ['global.set', g]); c.funcs[i].code.push(ins); } });
  c.counter = g;
  return c;
}
// adds imported functions after the others; function indices are adjusted everywhere
function addImports(m, list) {
  const n = m.imports.length, k = list.length;
  const f = (i) => (i === null ? null : i >= n ? i + k : i);
  const types = m.types.slice();
  const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const imports = [...m.imports, ...list.map(([name, p, r]) => ({ mod: 'probe', name, type: ty(p, r) }))];
  return {
    ...m, types, imports,
    start: m.start === undefined || m.start === null ? m.start : f(m.start),
    exports: m.exports.map(e => (e.kind === 'func' ? { ...e, idx: f(e.idx) } : e)),
    elems: m.elems.map(e => ({ ...e, funcs: e.funcs.map(f) })),
    funcs: m.funcs.map(g => ({ ...g, code: g.code.map(i => (i[0] === 'call' || i[0] === 'ref.func' ? [i[0], f(i[1])] : i)) })),
  };
}
// instructions that stand for themselves in a trace; the others are folded into operands or mere structure
const QUIET = new Set(['nop', 'drop', 'block', 'loop', 'else', 'end', 'local.get', 'local.set', 'local.tee', 'i32.const', 'i64.const', 'f32.const', 'f64.const', 'ref.null', 'return']);
const traceName = (m, i) => (i[0] === 'select_t' ? 'select' : i[0] === 'call' && i[1] < m.imports.length ? 'call_wasi' : i[0]);
// → a copy that reports each such instruction, with the locals, just before executing it, and the table of its sites
function traceModule(m, withLocals) {
  const T = ['i32', 'i64', 'f32', 'f64', 'funcref', 'externref'];
  const n = m.imports.length;
  const c = addImports(m, [['ev', ['i32'], []], ...T.map(t => ['l_' + t, [t], []])]);
  const sites = [];
  c.funcs = c.funcs.map((g, fi) => {
    const ts = [...m.types[g.type].p, ...g.locals]; const code = []; const orig = m.funcs[fi].code;
    g.code.forEach((ins, i) => {
      if (!QUIET.has(ins[0])) {
        if (withLocals) ts.forEach((t, k) => code.push(['local.get', k], ['call', n + 1 + T.indexOf(t)]));
        code.push(['i32.const', sites.length], ['call', n]);
        sites.push({ func: fi, name: traceName(m, orig[i]), op: ins[0], types: ts });
      }
      code.push(ins);
    });
    return { ...g, code };
  });
  return { m: c, sites, types: T };
}
module.exports = { addImports, traceModule, QUIET, countModule, COUNTED };
