'use strict';
// Generator of guest programs that talk to the host: sequences of WASI preview 1 calls with
// arguments that arrive in different ways, from straight-line code, loops, helpers and tables.
const LONG = 'n'.repeat(256);
const PATHS = ['a.txt', 'b', 'empty', 'dir', 'dir/x', 'dir/sub', 'dir/sub/y', 'link', 'dlink', 'dlink/x', 'loop', 'broken', 'new1', 'new2', 'dir/new', 'dir/../a.txt', './a.txt', '..', '.', '', 'a.txt/', 'dir/', 'nope/x', '/abs', 'é.txt', 'sp ace', 'a.txt/x', 'dir/sub/../../b', LONG, 'x', 'sub/y', 'sub'];
const SIG = { // i: i32, l: i64
  fd_write: 'iiii', fd_read: 'iiii', fd_pwrite: 'iiili', fd_pread: 'iiili', fd_close: 'i', fd_seek: 'ilii', fd_tell: 'ii', fd_sync: 'i', fd_datasync: 'i', fd_advise: 'illi', fd_allocate: 'ill',
  fd_fdstat_get: 'ii', fd_fdstat_set_flags: 'ii', fd_fdstat_set_rights: 'ill', fd_filestat_get: 'ii', fd_filestat_set_size: 'il', fd_filestat_set_times: 'illi', fd_prestat_get: 'ii', fd_prestat_dir_name: 'iii', fd_readdir: 'iiili', fd_renumber: 'ii',
  path_create_directory: 'iii', path_remove_directory: 'iii', path_unlink_file: 'iii', path_readlink: 'iiiiii', path_filestat_get: 'iiiii', path_filestat_set_times: 'iiiilli', path_open: 'iiiiillii', path_link: 'iiiiiii', path_rename: 'iiiiii', path_symlink: 'iiiii',
  args_get: 'ii', args_sizes_get: 'ii', environ_get: 'ii', environ_sizes_get: 'ii', clock_time_get: 'ili', clock_res_get: 'ii', random_get: 'ii', sched_yield: '', poll_oneoff: 'iiii', proc_raise: 'i', sock_accept: 'iii', sock_recv: 'iiiiii', sock_send: 'iiiii', sock_shutdown: 'ii', proc_exit: 'i',
};
const WEIGHT = { path_open: 9, fd_write: 7, fd_read: 6, fd_pwrite: 4, fd_pread: 4, fd_seek: 4, fd_readdir: 4, fd_close: 3, path_filestat_get: 3, fd_filestat_get: 3, poll_oneoff: 3, args_get: 1, environ_get: 1, path_rename: 3, path_link: 2, path_symlink: 2, path_readlink: 3 };
const EXT = { i: 'i32', l: 'i64' };
const A = { slots: 0, iov: 0x40, paths: 0x200, ptab: 0xc00, cells: 0xd00, subs: 0x1000, text: 0x1200, buf: 0x2000, log: 0x3000, out: 0x3800, end: 0x4000 };

// opt: keep3 (fd 3 stays the directory), names (subset of calls), noExit, steps, loops (max iterations), rich (extra statements)
function genWasi(s, opt = {}) {
  const types = []; const ty = (p, r) => { for (let i = 0; i < types.length; i++) if (types[i].p.join() === p.join() && types[i].r.join() === r.join()) return i; types.push({ p, r }); return types.length - 1; };
  const pages = s.weighted([[3, 1], [3, 2], [1, 3]]);
  const base = s.pick([0, pages * 65536 - A.end, pages > 1 ? 65536 - 0x2000 - s.range(0, 64) : 64]);
  const m = { types, imports: [], funcs: [], exports: [], globals: [{ t: 'i32', mut: true, init: ['i32.const', 0] }, { t: 'i64', mut: true, init: ['i64.const', 0n] }, { t: 'i32', mut: true, init: ['i32.const', 0] }], elems: [], datas: [], mem: { min: pages, max: s.pick([pages, undefined, pages + 2]) }, table: { min: 0 } };
  const names = (opt.names || Object.keys(SIG).filter(n => n !== 'proc_exit' && n !== 'proc_raise')).filter(() => s.chance(4, 5));
  if (!names.length) names.push('fd_write');
  const exits = !opt.noExit && s.chance(1, 4);
  if (exits) names.push('proc_exit');
  const imp = {};
  const order = names.slice(); for (let i = order.length - 1; i > 0; i--) { const j = s.draw(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
  const sigTy = (n) => ty([...SIG[n]].map(c => EXT[c]), n === 'proc_exit' ? [] : ['i32']);
  for (const n of order) { imp[n] = m.imports.length; m.imports.push({ mod: 'wasi_snapshot_preview1', name: n, type: sigTy(n) }); }
  const ni = m.imports.length;
  const tableOf = {}; const elems = [];
  const data = (rel, bytes) => m.datas.push({ offset: ['i32.const', base + rel], bytes: [...bytes] });
  data(A.slots, new Array(16).fill(0).flatMap(() => [99, 0, 0, 0]));
  // paths
  const P = []; { let o = A.paths; const all = []; const tab = []; for (const p of PATHS) { const b = [...Buffer.from(p)]; P.push([o, b.length]); tab.push(o, b.length); all.push(...b); o += b.length; } data(A.paths, all); const t = Buffer.alloc(tab.length * 4); tab.forEach((x, i) => t.writeUInt32LE(x + (i & 1 ? 0 : base), i * 4)); data(A.ptab, t); }
  { const t = []; for (let i = 0; i < 512; i++) t.push((i * 37 + (i >> 3)) & 255); data(A.text, [...Buffer.from('The quick brown fox jumps over the lazy dog. '), ...t]); }
  let cells = 0; const cell = (v, w) => { if (cells >= 64) return null; const b = Buffer.alloc(8); if (w === 8) b.writeBigInt64LE(BigInt.asIntN(64, BigInt(v))); else b.writeInt32LE(Number(v) | 0); data(A.cells + 8 * cells, b); return base + A.cells + 8 * cells++; };
  let steps = 0, ncalls = 0, loops = 0; const used = {};
  let locals, nparams, K; // of the function being built
  const L = (t) => { locals.push(t); return nparams + locals.length - 1; };
  const i32 = (v) => {
    v |= 0;
    switch (s.weighted([[8, 'c'], [2, 'l'], [1, 't'], [1, 'g'], [2, 'm'], [1, 'a'], [1, 'n']])) {
      case 'l': { const l = L('i32'); return [['i32.const', v], ['local.set', l], ['local.get', l]]; }
      case 't': { const l = L('i32'); return [['i32.const', v], ['local.tee', l]]; }
      case 'g': return [['i32.const', v], ['global.set', 2], ['global.get', 2]];
      case 'm': { const a = cell(v, 4); return a === null ? [['i32.const', v]] : [['i32.const', a], ['i32.load', { offset: 0, align: 2 }]]; }
      case 'a': { const k = s.range(0, 1000); return [['i32.const', (v - k) | 0], ['i32.const', k], ['i32.add']]; }
      case 'n': return [['i64.const', BigInt(v)], ['i32.wrap_i64']];
      default: return [['i32.const', v]];
    }
  };
  const i64 = (v) => {
    v = BigInt.asIntN(64, BigInt(v));
    switch (s.weighted([[6, 'c'], [2, 'l'], [1, 'm'], [1, 'a'], [v >= -(1n << 31n) && v < (1n << 31n) ? 2 : 0, 'e'], [K !== null && v >= 0n && v < 1000n ? 2 : 0, 'k']])) {
      case 'l': { const l = L('i64'); return [['i64.const', v], ['local.set', l], ['local.get', l]]; }
      case 'm': { const a = cell(v, 8); return a === null ? [['i64.const', v]] : [['i32.const', a], ['i64.load', { offset: 0, align: 3 }]]; }
      case 'a': { const k = BigInt(s.range(0, 1000)); return [['i64.const', BigInt.asIntN(64, v - k)], ['i64.const', k], ['i64.add']]; }
      case 'e': return [...i32(Number(v)), ['i64.extend_i32_s']];
      case 'k': return [['local.get', K], ['i64.extend_i32_u'], ['i64.const', v + 1n], ['i64.mul']];
      default: return [['i64.const', v]];
    }
  };
  const slot = () => s.draw(6);
  const fd = () => {
    switch (s.weighted([[12, 'slot'], [2, 'dir'], [2, 'std'], [1, 'small'], [1, 'bad']])) {
      case 'slot': return [...i32(base + A.slots + 4 * slot()), ['i32.load', { offset: 0, align: 2 }]];
      case 'dir': return i32(3); case 'std': return i32(s.draw(opt.noErr ? 2 : 3)); case 'small': return i32(s.range(3, 9));
      default: return i32(s.pick([99, -1, 0x7fffffff, 64]));
    }
  };
  const dirfd = () => (s.chance(5, 6) ? i32(3) : fd());
  const path = () => {
    if (K !== null && s.chance(1, 3)) { // the counter picks the path
      const l = L('i32'); const o = s.draw(PATHS.length - 8);
      return [['local.get', K], ['i32.const', 7], ['i32.and'], ['i32.const', 3], ['i32.shl'], ['i32.const', base + A.ptab + 8 * o], ['i32.add'], ['local.tee', l], ['i32.load', { offset: 0, align: 2 }], ['local.get', l], ['i32.load', { offset: 4, align: 2 }]];
    }
    const [o, n] = s.chance(2, 3) ? P[s.draw(18)] : s.pick(P);
    return [...i32(base + o), ...i32(n)];
  };
  const out = (n) => i32(base + (s.chance(1, 8) ? A.end - n : A.out + s.pick([0, 8, 16, 64, 128]) + 64 * s.draw(28) + (s.chance(1, 6) ? s.draw(8) : 0)));
  const buf = (n) => i32(base + (s.chance(1, 8) ? A.end - n : A.buf + s.draw(0x1000 - n)));
  let iovs = 0;
  const iov = (write) => { // → [statements before, ptr, count]
    const n = s.weighted([[5, 1], [2, 2], [2, 3], [1, 0]]);
    const at = A.iov + 24 * (iovs++ % 16); const pre = [];
    const stat = s.bool() && iovs <= 16; const b = Buffer.alloc(24);
    for (let i = 0; i < n; i++) {
      const len = s.weighted([[1, 0], [6, s.range(1, 20)], [2, s.range(20, 200)], [1, s.range(0, 600)]]);
      const p = len === 0 && s.bool() ? s.pick([0, -1, 0x7fffffff]) : base + (write ? A.text + s.draw(0x200) : (s.chance(1, 8) ? A.end - len : A.buf + s.draw(0x1000 - len)));
      if (stat) { b.writeInt32LE(p, i * 8); b.writeInt32LE(len, i * 8 + 4); } else pre.push(['i32.const', base + at + i * 8], ...i32(p), ['i32.store', { offset: 0, align: 2 }], ['i32.const', base + at], ...i32(len), ['i32.store', { offset: i * 8 + 4, align: 2 }]);
    }
    if (stat) data(at, b.subarray(0, n * 8));
    return [pre, i32(base + at), i32(n)];
  };
  const off = () => i64(s.weighted([[5, s.range(0, 40)], [2, s.range(0, 400)], [1, -s.range(1, 20)], [1, s.pick([0x7fffffffffffffffn, -1n, 1n << 32n, (1n << 32n) + 3n, -(1n << 63n)])]]));
  const time = () => i64(s.pick([0n, 1n, BigInt(s.u32()), (BigInt(s.u32()) << 32n) | BigInt(s.u32()), -1n]));
  const fst = () => i32(s.weighted([[5, s.draw(16)], [1, s.range(16, 300)]]));
  function args(n) { // → [statements before, operands]
    switch (n) {
      case 'fd_write': { const [p, a, b] = iov(true); return [p, [...fd(), ...a, ...b, ...out(4)]]; }
      case 'fd_read': { const [p, a, b] = iov(false); return [p, [...fd(), ...a, ...b, ...out(4)]]; }
      case 'fd_pwrite': { const [p, a, b] = iov(true); return [p, [...fd(), ...a, ...b, ...off(), ...out(4)]]; }
      case 'fd_pread': { const [p, a, b] = iov(false); return [p, [...fd(), ...a, ...b, ...off(), ...out(4)]]; }
      case 'fd_close': return [[], opt.keep3 ? [...i32(base + A.slots + 4 * slot()), ['i32.load', { offset: 0, align: 2 }]] : fd()];
      case 'fd_sync': case 'fd_datasync': return [[], fd()];
      case 'fd_seek': return [[], [...fd(), ...off(), ...i32(s.weighted([[9, s.draw(3)], [1, s.range(3, 300)]])), ...out(8)]];
      case 'fd_tell': return [[], [...fd(), ...out(8)]];
      case 'fd_advise': return [[], [...fd(), ...off(), ...off(), ...i32(s.weighted([[6, s.draw(6)], [1, s.pick([6, 7, 128, 255])]]))]];
      case 'fd_allocate': return [[], [...fd(), ...off(), ...off()]];
      case 'fd_fdstat_get': return [[], [...fd(), ...out(24)]];
      case 'fd_fdstat_set_flags': return [[], [...fd(), ...i32(s.weighted([[6, s.draw(32)], [1, s.range(32, 99)]]))]];
      case 'fd_fdstat_set_rights': return [[], [...fd(), ...i64(s.pick([0n, 0x1fffffffn, 0x1ffffffn, 127n, -1n, 1n << 40n])), ...i64(s.pick([0n, 0x1fffffffn, 127n, 1n]))]];
      case 'fd_filestat_get': return [[], [...fd(), ...out(64)]];
      case 'fd_filestat_set_size': return [[], [...fd(), ...off()]];
      case 'fd_filestat_set_times': return [[], [...fd(), ...time(), ...time(), ...fst()]];
      case 'fd_prestat_get': return [[], [...(s.bool() ? i32(3) : fd()), ...out(8)]];
      case 'fd_prestat_dir_name': { const n = s.range(0, 12); return [[], [...(s.bool() ? i32(s.range(3, 4)) : fd()), ...buf(16), ...i32(n)]]; }
      case 'fd_readdir': { const n = s.weighted([[4, s.range(0, 600)], [1, s.range(0, 40)]]); return [[], [...dirfd(), ...buf(n), ...i32(n), ...i64(s.weighted([[4, 0], [3, s.range(0, 8)], [1, 1n << 32n]])), ...out(4)]]; }
      case 'fd_renumber': return [[], [...i32(base + A.slots + 4 * slot()), ['i32.load', { offset: 0, align: 2 }], ...(opt.keep3 ? [...i32(base + A.slots + 4 * slot()), ['i32.load', { offset: 0, align: 2 }]] : fd())]];
      case 'path_create_directory': case 'path_remove_directory': case 'path_unlink_file': return [[], [...dirfd(), ...path()]];
      case 'path_readlink': { const n = s.range(0, 12); return [[], [...dirfd(), ...path(), ...buf(n), ...i32(n), ...out(4)]]; }
      case 'path_filestat_get': return [[], [...dirfd(), ...i32(s.draw(2)), ...path(), ...out(64)]];
      case 'path_filestat_set_times': return [[], [...dirfd(), ...i32(s.draw(2)), ...path(), ...time(), ...time(), ...fst()]];
      case 'path_open': return [[], [...dirfd(), ...i32(s.draw(2)), ...path(), ...i32(s.weighted([[5, s.pick([0, 1, 9, 8])], [2, s.draw(16)]])), ...i64(s.pick([0x1fffffffn, 0x1ffffffn, 66n, 2n, 64n, (1n << 29n) - 1n])), ...i64(s.pick([0n, 0x1fffffffn, 66n])), ...i32(s.weighted([[4, 0], [2, s.draw(32)]])), ...i32(base + A.slots + 4 * slot())]];
      case 'path_link': return [[], [...dirfd(), ...i32(s.draw(3)), ...path(), ...dirfd(), ...path()]];
      case 'path_rename': return [[], [...dirfd(), ...path(), ...dirfd(), ...path()]];
      case 'path_symlink': return [[], [...path(), ...dirfd(), ...path()]];
      case 'args_get': case 'environ_get': { const c = s.pick([4, 0, 40]); return [[], [...i32(base + A.out + s.draw(200)), ...i32(base + A.out + 240 + c + s.draw(100))]]; }
      case 'args_sizes_get': case 'environ_sizes_get': return [[], [...out(4), ...out(4)]];
      case 'clock_time_get': return [[], [...i32(s.weighted([[5, s.draw(4)], [1, s.range(4, 9)]])), ...i64(s.pick([0, 1, 1000, -1])), ...out(8)]];
      case 'clock_res_get': return [[], [...i32(s.weighted([[5, s.draw(4)], [1, s.range(4, 9)]])), ...out(8)]];
      case 'random_get': { const n = s.weighted([[1, 0], [4, s.range(1, 40)], [1, s.range(0, 600)]]); return [[], [...buf(n), ...i32(n)]]; }
      case 'sched_yield': return [[], []];
      case 'proc_raise': return [[], i32(s.range(1, 31))];
      case 'poll_oneoff': {
        const n = s.range(0, 3); const pre = []; const at = base + A.subs + 48 * s.draw(5);
        for (let i = 0; i < n; i++) {
          const o = i * 48; const st = (op, rel, v, al) => pre.push(['i32.const', at], ...v, [op, { offset: o + rel, align: al }]);
          st('i64.store', 0, i64(s.u32()), 3); const tag = s.draw(3); st('i64.store', 8, i64(tag), 3);
          if (tag === 0) { st('i64.store', 16, i64(s.draw(5)), 3); st('i64.store', 24, i64(s.pick([0, 5, 1000, 100000000])), 3); st('i64.store', 32, i64(0), 3); st('i64.store', 40, i64(s.draw(2)), 3); } else { st('i32.store', 16, fd(), 2); }
        }
        return [pre, [...i32(at), ...i32(base + A.buf + 8 * s.draw(400)), ...i32(n), ...out(4)]];
      }
      case 'sock_accept': return [[], [...fd(), ...i32(s.pick([0, 4])), ...out(4)]];
      case 'sock_recv': { const [p, a, b] = iov(false); return [p, [...(s.bool() ? i32(0) : fd()), ...a, ...b, ...i32(s.draw(4)), ...out(4), ...out(4)]]; }
      case 'sock_send': { const [p, a, b] = iov(true); return [p, [...(s.bool() ? i32(1) : fd()), ...a, ...b, ...i32(0), ...out(4)]]; }
      case 'sock_shutdown': return [[], [...fd(), ...i32(s.range(1, 3))]];
      case 'proc_exit': return [[], i32(s.pick([0, 1, 3, 42, 126, 255, 70000]))];
    }
    throw new Error(n);
  }
  const wrappers = {};
  const invoke = (n) => {
    ncalls++; used[n] = (used[n] || 0) + 1;
    switch (s.weighted([[6, 'direct'], [2, 'wrap'], [2, 'table']])) {
      case 'wrap': if (wrappers[n] === undefined) { const t = sigTy(n); wrappers[n] = ni + m.funcs.length; m.funcs.push({ type: t, locals: [], code: [...[...SIG[n]].map((_, i) => ['local.get', i]), ['call', imp[n]]] }); } return [['call', wrappers[n]]];
      case 'table': { let t = tableOf[n]; if (t === undefined) { t = tableOf[n] = elems.length; elems.push(imp[n]); } return [...i32(t), ['call_indirect', sigTy(n), 0]]; }
      default: return [['call', imp[n]]];
    }
  };
  // what becomes of the errno
  const sink = (call) => {
    const a = base + A.log + 4 * (steps++ % 512);
    switch (s.weighted([[5, 'store'], [2, 'local'], [1, 'drop'], [1, 'if'], [1, 'acc'], [1, 'select'], [1, 'below'], [1, 'br']])) {
      case 'local': { const l = L('i32'); return [...call, ['local.set', l], ['i32.const', a], ['local.get', l], ['i32.store', { offset: 0, align: 2 }]]; }
      case 'drop': return [...call, ['drop']];
      case 'if': return [...call, ['if', null], ['i32.const', a], ['i32.const', 1001], ['i32.store', { offset: 0, align: 2 }], ['else'], ['i32.const', a], ['i32.const', 1000], ['i32.store', { offset: 0, align: 2 }], ['end']];
      case 'acc': return [['global.get', 0], ['i32.const', 31], ['i32.mul'], ...call, ['i32.add'], ['global.set', 0]];
      case 'select': return [['i32.const', a], ['i32.const', 7], ['i32.const', 8], ...call, ['select'], ['i32.store', { offset: 0, align: 2 }]];
      case 'below': return [['i64.const', 5n], ...call, ['i64.extend_i32_u'], ['i64.add'], ['global.get', 1], ['i64.const', 7n], ['i64.rotl'], ['i64.xor'], ['global.set', 1]];
      case 'br': return [['block', null], ...call, ['br_if', 0], ['i32.const', a], ['i32.const', 2000], ['i32.store', { offset: 0, align: 2 }], ['end']];
      default: return [['i32.const', a], ...call, ['i32.store', { offset: 0, align: 2 }]];
    }
  };
  const step = () => {
    const n = s.weighted(names.filter(x => x !== 'proc_exit').map(x => [WEIGHT[x] || 1, x]));
    if (n === undefined) return [];
    const [pre, a] = args(n);
    return [...pre, ...sink([...a, ...invoke(n)])];
  };
  const body = (n, d) => {
    const c = [];
    for (let i = 0; i < n; i++) {
      switch (s.weighted([[12, 'step'], [d ? 2 : 0, 'loop'], [1, 'copy'], [subs.length ? 2 : 0, 'sub'], [d ? 1 : 0, 'if'], [m.mem.max !== pages ? 1 : 0, 'grow']])) {
        case 'step': c.push(...step()); break;
        case 'loop': {
          const k = L('i32'), o = K; K = k; loops++;
          const n = s.range(2, opt.loops || 6);
          c.push(['i32.const', 0], ['local.set', k], ['loop', null], ...body(s.range(1, 2), 0), ['local.get', k], ['i32.const', 1], ['i32.add'], ['local.tee', k], ['i32.const', n], ['i32.lt_u'], ['br_if', 0], ['end']);
          K = o; break;
        }
        case 'copy': { const n = s.range(1, 64); c.push(['i32.const', base + A.text + s.draw(0x200)], ['i32.const', base + A.buf + s.draw(0xf00)], ['i32.const', n], ['memory.copy']); break; }
        case 'sub': c.push(...i32(s.draw(100)), ['call', s.pick(subs)], ['global.get', 0], ['i32.add'], ['global.set', 0]); break;
        case 'if': c.push(['global.get', 0], ['i32.const', 1], ['i32.and'], ['if', null], ...step(), ['else'], ...step(), ['end']); break;
        case 'grow': c.push(['i32.const', 1], ['memory.grow'], ['global.get', 0], ['i32.add'], ['global.set', 0]); break;
      }
    }
    return c;
  };
  const subs = [];
  const fn = (p, r, f) => { const o = [locals, nparams, K]; locals = []; nparams = p.length; K = null; const code = f(); const idx = ni + m.funcs.length; m.funcs.push({ type: ty(p, r), locals, code }); [locals, nparams, K] = o; return idx; };
  fn([], [], () => []); m.exports.push({ name: '_r', kind: 'func', idx: ni });
  for (let n = s.draw(3); n > 0; n--) subs.push(fn(['i32'], ['i32'], () => [...body(s.range(1, 3), 1), ['local.get', 0], ['i32.const', 3], ['i32.mul']]));
  // open files to work on
  const prologue = () => {
    const c = []; if (imp.path_open === undefined) return c;
    for (let i = s.weighted([[1, 0], [3, 2], [3, 4]]); i > 0; i--) {
      const [o, n] = s.chance(1, 4) ? s.pick([P[3], P[5]]) : s.pick([P[0], P[1], P[4], P[12]]);
      used.path_open = (used.path_open || 0) + 1; ncalls++;
      c.push(...i32(3), ...i32(1), ...i32(base + o), ...i32(n), ...i32(o === P[3][0] || o === P[5][0] ? 0 : 1), ...i64(o === P[3][0] || o === P[5][0] ? 0x1fffffbfn : 0x1fffffffn), ...i64(0x1fffffffn), ...i32(s.weighted([[6, 0], [1, 1]])), ...i32(base + A.slots + 4 * slot()), ...invoke('path_open'), ['drop']);
    }
    return c;
  };
  const calls = [];
  const nf = s.range(1, 3); const per = opt.steps || 14;
  for (let f = 0; f < nf; f++) {
    const idx = fn([], ['i32'], () => {
      const c = [...(f === 0 ? prologue() : []), ...body(s.range(1, per), 1)];
      if (exits && f === nf - 1) { const [, a] = args('proc_exit'); const x = [...a, ...invoke('proc_exit')]; if (s.bool()) c.push(...x); else c.push(['global.get', 0], ['i32.const', 1], ['i32.and'], ['if', null], ...x, ['end']); }
      return [...c, ['global.get', 0]];
    });
    m.exports.push({ name: 'f' + f, kind: 'func', idx }); calls.push({ name: 'f' + f, params: [], results: ['i32'] });
  }
  m.table = elems.length ? { min: elems.length } : undefined; if (elems.length) m.elems.push({ offset: ['i32.const', 0], funcs: elems }); else delete m.table;
  m.exports.push({ name: 'mem', kind: 'mem', idx: 0 });
  m.globals.forEach((g, i) => m.exports.push({ name: 'g' + i, kind: 'global', idx: i }));
  // the host
  const txt = (n) => { const b = []; const k = s.draw(200); for (let i = 0; i < n; i++) b.push((k + i * 11) & 255); return b; };
  const files = {};
  const put = (p, v) => { if (s.chance(3, 4)) files[p] = v; };
  put('a.txt', txt(s.range(0, 300))); put('b', txt(s.range(0, 40))); put('empty', []); put('dir', { dir: true });
  put('dir/x', txt(s.range(0, 60))); put('dir/sub/y', txt(9)); put('link', { link: 'a.txt' }); put('dlink', { link: 'dir' }); put('loop', { link: 'loop' }); put('broken', { link: 'nowhere' }); put('é.txt', txt(5)); put('sp ace', txt(3));
  const two = 'dir/x' in files && s.chance(1, 4);
  const strs = (n, f) => { const r = []; for (let i = s.draw(n); i > 0; i--) r.push(f()); return r; };
  const word = () => s.pick(['', 'x', 'hello', '--flag=1', 'ünï', 'a b', 'z'.repeat(40)]);
  const spec = { files, args: strs(4, word), env: strs(3, () => s.pick(['A', 'PATH', 'ÄX']) + '=' + word()), stdin: Uint8Array.from(txt(s.range(0, 200))), seed: s.draw(1000), now: 1000000000000, preopens: two ? ['.', 'dir'] : ['.'], shortWrite: s.chance(1, 4) ? s.range(1, 30) : undefined, stdinChunk: s.chance(1, 3) ? s.range(1, 30) : undefined };
  const faults = []; if (opt.faults !== false && s.chance(1, 2)) for (let i = s.range(1, 6); i > 0; i--) faults.push([s.draw(40), s.pick([6, 8, 21, 27, 28, 29, 44, 51, 52, 58, 63, 76, 1])]);
  return { m, calls, spec, faults, steps, ncalls, loops, used, base, pages, fetched: names.length };
}
// calls of which the interpreter makes its own choice: answered from its own arguments, or split
const OWN = /^(args_|environ_)/;
const guestLog = (log) => log.filter(e => !OWN.test(e.n) && !(e.n === 'random_get' && e.a && e.a[0] === 0)).map(e => e.n + '(' + (e.a || []).map(x => typeof x === 'number' ? x >>> 0 : typeof x === 'bigint' ? BigInt.asUintN(64, x) : x).join(',') + ')=' + e.r);
function makeWorld(W, spec, extra = {}) { const w = new W({ ...spec, args: extra.args || spec.args, files: { ...spec.files, ...extra.files } }); w.shortWrite = spec.shortWrite; w.stdinChunk = spec.stdinChunk; return w; }
// injected host errors, by number of the guest's call
function armFaults(w, list) {
  const at = new Map(list); let n = 0;
  w.faults = (name, a) => { if (!w.log || OWN.test(name) || name === 'proc_exit' || (name === 'random_get' && !a[1])) return undefined; return at.get(n++); };
}
module.exports = { genWasi, guestLog, makeWorld, armFaults, SIG };
