'use strict';
// In-memory, deterministic WASI preview1 host. The same host implementation serves
// the interpreter under test and, directly, the guest module (the oracle run).
const { prng } = require('./choices');

const E = { OK: 0, TOOBIG: 1, ACCES: 2, AGAIN: 6, BADF: 8, EXIST: 20, FAULT: 21, INVAL: 28, IO: 29, ISDIR: 31, LOOP: 32, MFILE: 33, NAMETOOLONG: 37, NOENT: 44, NOSPC: 51, NOSYS: 52, NOTDIR: 54, NOTEMPTY: 55, NOTSOCK: 57, NOTSUP: 58, PERM: 63, PIPE: 64, ROFS: 69, SPIPE: 70, NOTCAPABLE: 76 };
const T = { CHR: 2, DIR: 3, REG: 4, LNK: 7 };

class Exit extends Error { constructor(code) { super('exit ' + code); this.code = code; } }
class HostAbort extends Error { }

class Node {
  constructor(ino, type) { this.ino = ino; this.type = type; this.nlink = 1; this.atim = 0n; this.mtim = 0n; this.ctim = 0n; if (type === T.DIR) this.entries = new Map(); else if (type === T.REG) { this.data = new Uint8Array(0); } }
}

class World {
  // spec: { files: {path: Uint8Array|{dir:true}|{link:target}}, args:[..], env:['K=V'], stdin: Uint8Array, preopens: ['.'] , seed }
  constructor(spec = {}) {
    this.nextIno = 1;
    this.root = this.mk(T.DIR);
    this.args = spec.args || [];
    this.env = spec.env || [];
    this.stdin = spec.stdin || new Uint8Array(0);
    this.stdinPos = 0;
    this.out = { 1: [], 2: [] };
    this.rng = prng('world', spec.seed || 0);
    this.now = BigInt(spec.now || 1000000000000);
    this.fds = new Map();
    this.log = null; // array while recording
    this.faults = null; // function(name, args) → errno|undefined
    this.calls = 0;
    this.maxCalls = spec.maxCalls || 5000000;
    const chr = (n) => { const x = this.mk(T.CHR); return { node: x, kind: n, pos: 0, flags: 0, rb: 0xffffffffn, ri: 0n }; };
    this.fds.set(0, chr('stdin')); this.fds.set(1, chr('stdout')); this.fds.set(2, chr('stderr'));
    for (const p in spec.files || {}) this.put(p, spec.files[p]);
    let fd = 3;
    for (const p of spec.preopens || ['.']) {
      const node = p === '.' ? this.root : this.lookupAbs(p);
      this.fds.set(fd++, { node, kind: 'dir', preopen: p, pos: 0, flags: 0, rb: 0xffffffffn, ri: 0xffffffffn });
    }
  }
  mk(type) { return new Node(this.nextIno++, type); }
  put(path, v) {
    const parts = path.split('/').filter(x => x && x !== '.');
    let d = this.root;
    for (let i = 0; i < parts.length - 1; i++) {
      let n = d.entries.get(parts[i]);
      if (!n) { n = this.mk(T.DIR); d.entries.set(parts[i], n); }
      d = n;
    }
    const name = parts[parts.length - 1];
    let n;
    if (v && v.dir) n = this.mk(T.DIR);
    else if (v && v.link !== undefined) { n = this.mk(T.LNK); n.target = v.link; } else { n = this.mk(T.REG); n.data = Uint8Array.from(v); }
    d.entries.set(name, n);
    return n;
  }
  lookupAbs(path) {
    let d = this.root;
    for (const p of path.split('/').filter(x => x && x !== '.')) { d = d && d.entries && d.entries.get(p); }
    return d;
  }
  readFile(path) { const n = this.lookupAbs(path); return n && n.type === T.REG ? n.data : null; }
  unlink(path) { const parts = path.split('/').filter(x => x && x !== '.'); const d = this.lookupAbs(parts.slice(0, -1).join('/')) || this.root; d.entries.delete(parts[parts.length - 1]); }
  // canonical dump of the tree for comparisons
  tree(skip) {
    const out = [];
    const seen = new Map();
    const rec = (n, p) => {
      if (skip && skip(p)) return;
      if (n.type === T.REG) {
        let id = seen.get(n); if (id === undefined) { id = seen.size; seen.set(n, id); }
        out.push(`${p} file#${id} ${n.data.length} ${Buffer.from(n.data).toString('base64')} a${n.atim} m${n.mtim} l${n.nlink}`);
      } else if (n.type === T.LNK) out.push(`${p} -> ${n.target}`);
      else { out.push(`${p}/`); for (const k of [...n.entries.keys()].sort()) rec(n.entries.get(k), p + '/' + k); }
    };
    rec(this.root, '');
    return out.join('\n');
  }
  fdTable() { return [...this.fds.entries()].sort((a, b) => a[0] - b[0]).map(([k, f]) => `${k}:${f.kind}:${f.pos}:${f.flags}`).join(' '); }

  // path resolution relative to directory node; returns {parent, name, node, trailing} or errno number
  resolve(dir, path, follow, depth = 0) {
    if (depth > 8) return E.LOOP;
    if (path.length === 0) return E.NOENT;
    if (path.includes('\0')) return E.INVAL;
    if (path.startsWith('/')) return E.PERM;
    const trailing = path.endsWith('/');
    const parts = path.split('/').filter(x => x && x !== '.');
    const stack = [dir];
    let node = dir, name = '.', parent = dir;
    for (let i = 0; i < parts.length; i++) {
      const p = parts[i];
      const last = i === parts.length - 1;
      const cur = stack[stack.length - 1];
      if (cur.type !== T.DIR) return E.NOTDIR;
      if (p === '..') { if (stack.length === 1) return E.PERM; stack.pop(); node = stack[stack.length - 1]; parent = node; name = '.'; continue; }
      if (p.length > 255) return E.NAMETOOLONG;
      const n = cur.entries.get(p);
      if (!n) {
        if (last) return { parent: cur, name: p, node: null, trailing };
        return E.NOENT;
      }
      if (n.type === T.LNK && (!last || follow || trailing)) {
        const rest = parts.slice(i + 1).join('/');
        const np = n.target + (rest ? '/' + rest : '') + (trailing ? '/' : '');
        // relative to cur; cannot escape the stack bottom
        if (n.target.startsWith('/')) return E.PERM;
        const prefix = stack.length - 1;
        const r = this.resolveFrom(stack, np, follow, depth + 1);
        return r;
      }
      if (last) { parent = cur; name = p; node = n; } else { stack.push(n); node = n; }
    }
    if (trailing && node && node.type !== T.DIR) return { parent, name, node, trailing, notdir: true };
    return { parent, name, node, trailing };
  }
  resolveFrom(stack, path, follow, depth) {
    if (depth > 8) return E.LOOP;
    const trailing = path.endsWith('/');
    const parts = path.split('/').filter(x => x && x !== '.');
    stack = stack.slice();
    let node = stack[stack.length - 1], parent = node, name = '.';
    for (let i = 0; i < parts.length; i++) {
      const p = parts[i];
      const last = i === parts.length - 1;
      const cur = stack[stack.length - 1];
      if (cur.type !== T.DIR) return E.NOTDIR;
      if (p === '..') { if (stack.length === 1) return E.PERM; stack.pop(); node = stack[stack.length - 1]; parent = node; name = '.'; continue; }
      const n = cur.entries.get(p);
      if (!n) { if (last) return { parent: cur, name: p, node: null, trailing }; return E.NOENT; }
      if (n.type === T.LNK && (!last || follow || trailing)) {
        const rest = parts.slice(i + 1).join('/');
        return this.resolveFrom(stack, n.target + (rest ? '/' + rest : '') + (trailing ? '/' : ''), follow, depth + 1);
      }
      if (last) { parent = cur; name = p; node = n; } else { stack.push(n); node = n; }
    }
    if (trailing && node && node.type !== T.DIR) return { parent, name, node, trailing, notdir: true };
    return { parent, name, node, trailing };
  }
  allocFd() { let i = 0; while (this.fds.has(i)) i++; return i; }

  imports(getMem) {
    const w = this;
    const S = {};
    const td = new TextDecoder('utf-8', { fatal: false });
    const te = new TextEncoder();
    let dv, u8;
    const refresh = () => { const b = getMem().buffer; if (!u8 || u8.buffer !== b) { dv = new DataView(b); u8 = new Uint8Array(b); } };
    const inb = (p, n) => (p >>> 0) + n <= u8.length;
    const str = (p, n) => td.decode(u8.slice(p >>> 0, (p >>> 0) + (n >>> 0)));
    const iovs = (p, n) => {
      p >>>= 0; n >>>= 0; const r = [];
      if (n > 1024) return E.INVAL;
      if (!inb(p, n * 8)) return E.FAULT;
      for (let i = 0; i < n; i++) { const b = dv.getUint32(p + i * 8, true), l = dv.getUint32(p + i * 8 + 4, true); if (l && !inb(b, l)) return E.FAULT; r.push([b, l]); }
      return r;
    };
    const gather = (v) => { let t = 0; for (const [, l] of v) t += l; const o = new Uint8Array(t); t = 0; for (const [b, l] of v) { o.set(u8.subarray(b, b + l), t); t += l; } return o; };
    const scatter = (v, data) => { let o = 0; for (const [b, l] of v) { const c = Math.min(l, data.length - o); if (c <= 0) break; u8.set(data.subarray(o, o + c), b); o += c; } return o; };
    const filestat = (p, n) => {
      dv.setBigUint64(p, 1n, true); dv.setBigUint64(p + 8, BigInt(n.ino), true);
      dv.setBigUint64(p + 16, BigInt(n.type), true); u8.fill(0, p + 17, p + 24);
      dv.setBigUint64(p + 24, BigInt(n.nlink), true);
      dv.setBigUint64(p + 32, BigInt(n.type === T.REG ? n.data.length : n.type === T.LNK ? n.target.length : 0), true);
      dv.setBigUint64(p + 40, n.atim, true); dv.setBigUint64(p + 48, n.mtim, true); dv.setBigUint64(p + 56, n.ctim, true);
    };
    const F = (fd) => w.fds.get(fd >>> 0);
    const def = (name, f) => {
      S[name] = (...a) => {
        refresh();
        if (++w.calls > w.maxCalls) throw new HostAbort('too many host calls');
        const entry = { n: name, a: null, r: null };
        if (w.log) w.log.push(entry);
        const note = (...x) => { entry.a = x; };
        let r;
        if (w.onCall) { r = w.onCall(name, a, { u8, dv, str }); }
        if (r === undefined && w.faults) { r = w.faults(name, a, { u8, dv, str }); }
        if (r === undefined) r = f(note, ...a);
        entry.r = r;
        return r;
      };
    };
    const tick = () => { w.now += 1000n; return w.now; };
    def('args_sizes_get', (note, a, b) => { note(); dv.setUint32(a, w.args.length, true); dv.setUint32(b, w.args.reduce((s, x) => s + te.encode(x).length + 1, 0), true); return 0; });
    const strings = (list, pp, bp) => { pp >>>= 0; bp >>>= 0; for (const s of list) { dv.setUint32(pp, bp, true); pp += 4; const b = te.encode(s); u8.set(b, bp); u8[bp + b.length] = 0; bp += b.length + 1; } return 0; };
    def('args_get', (note, a, b) => { note(); return strings(w.args, a, b); });
    def('environ_sizes_get', (note, a, b) => { note(); dv.setUint32(a, w.env.length, true); dv.setUint32(b, w.env.reduce((s, x) => s + te.encode(x).length + 1, 0), true); return 0; });
    def('environ_get', (note, a, b) => { note(); return strings(w.env, a, b); });
    def('clock_time_get', (note, id, prec, p) => { note(id, prec); if (id >>> 0 > 3) return E.INVAL; dv.setBigUint64(p >>> 0, tick() + BigInt(id) * 7777777n, true); return 0; });
    def('clock_res_get', (note, id, p) => { note(id); if (id >>> 0 > 3) return E.INVAL; dv.setBigUint64(p >>> 0, 1000n + BigInt(id), true); return 0; });
    def('sched_yield', (note) => { note(); return 0; });
    def('random_get', (note, p, n) => { note(n); p >>>= 0; n >>>= 0; if (!inb(p, n)) return E.FAULT; for (let i = 0; i < n; i++) u8[p + i] = w.rng() & 255; return 0; });
    def('proc_exit', (note, c) => { note(c); throw new Exit(c >>> 0); });
    def('proc_raise', (note, s) => { note(s); return E.NOSYS; });
    const nfd = (name, kinds, f) => def(name, (note, fd, ...a) => { const h = F(fd); note(fd >>> 0, ...a.filter(x => typeof x === 'bigint')); if (!h) return E.BADF; return f(note, h, fd >>> 0, ...a); });
    nfd('fd_close', null, (note, h, fd) => { w.fds.delete(fd); return 0; });
    nfd('fd_sync', null, (note, h) => (h.kind === 'file' ? 0 : E.INVAL));
    nfd('fd_datasync', null, (note, h) => (h.kind === 'file' ? 0 : E.INVAL));
    nfd('fd_advise', null, (note, h, fd, off, len, adv) => { note(fd, off, len, adv); if (h.kind !== 'file') return E.SPIPE; return (adv & 255) > 5 ? E.INVAL : 0; });
    nfd('fd_allocate', null, (note, h, fd, off, len) => { note(fd, off, len); if (h.kind !== 'file') return E.BADF; if (len === 0n) return E.INVAL; const end = BigInt.asUintN(64, off + len); if (end > 1000000n) return E.NOSPC; if (Number(end) > h.node.data.length) resize(h.node, Number(end)); return 0; });
    const resize = (n, len) => { const old = n.data.length; if (!n.room || n.data.buffer !== n.room.buffer || n.room.length < len) { n.room = new Uint8Array(Math.max(len, old * 2)); n.room.set(n.data.subarray(0, Math.min(len, old))); } else if (len > old) n.room.fill(0, old, len); n.data = n.room.subarray(0, len); };
    nfd('fd_fdstat_get', null, (note, h, fd, p) => { p >>>= 0; u8.fill(0, p, p + 24); u8[p] = h.node.type; dv.setUint16(p + 2, h.flags, true); dv.setBigUint64(p + 8, h.rb, true); dv.setBigUint64(p + 16, h.ri, true); return 0; });
    nfd('fd_fdstat_set_flags', null, (note, h, fd, fl) => { note(fd, fl); if (fl & ~31) return E.INVAL; h.flags = fl; return 0; });
    nfd('fd_fdstat_set_rights', null, (note, h, fd, b, i) => { note(fd, b, i); b = BigInt.asUintN(64, b); i = BigInt.asUintN(64, i); if ((b & ~h.rb) || (i & ~h.ri)) return E.NOTCAPABLE; h.rb = b; h.ri = i; return 0; });
    nfd('fd_filestat_get', null, (note, h, fd, p) => { filestat(p >>> 0, h.node); return 0; });
    nfd('fd_filestat_set_size', null, (note, h, fd, sz) => { note(fd, sz); if (h.kind !== 'file') return E.INVAL; sz = BigInt.asUintN(64, sz); if (sz > 1000000n) return E.INVAL; resize(h.node, Number(sz)); return 0; });
    const times = (n, at, mt, fl) => { if (fl & ~15) return E.INVAL; if ((fl & 3) === 3 || (fl & 12) === 12) return E.INVAL; if (fl & 1) n.atim = BigInt.asUintN(64, at); if (fl & 2) n.atim = tick(); if (fl & 4) n.mtim = BigInt.asUintN(64, mt); if (fl & 8) n.mtim = tick(); return 0; };
    nfd('fd_filestat_set_times', null, (note, h, fd, at, mt, fl) => { note(fd, at, mt, fl); return times(h.node, at, mt, fl & 0xffff); });
    const readAt = (h, pos, n) => h.node.data.slice(Math.min(pos, h.node.data.length), Math.min(pos + n, h.node.data.length));
    const total = (v) => v.reduce((s, [, l]) => s + l, 0);
    nfd('fd_read', null, (note, h, fd, ip, il, rp) => {
      const v = iovs(ip, il); note(fd, Array.isArray(v) ? v.map(x => x[1]).join() : 'bad');
      if (!Array.isArray(v)) return v;
      let d;
      if (h.kind === 'stdin') { const n = Math.min(total(v), w.stdinChunk || 1e9); d = w.stdin.slice(w.stdinPos, w.stdinPos + n); w.stdinPos += d.length; } else if (h.kind === 'file') { d = readAt(h, h.pos, total(v)); h.pos += d.length; } else if (h.kind === 'dir') return E.ISDIR; else return E.BADF;
      scatter(v, d); dv.setUint32(rp >>> 0, d.length, true); return 0;
    });
    nfd('fd_pread', null, (note, h, fd, ip, il, off, rp) => {
      const v = iovs(ip, il); note(fd, off, Array.isArray(v) ? v.map(x => x[1]).join() : 'bad');
      if (!Array.isArray(v)) return v;
      if (h.kind === 'dir') return E.ISDIR;
      if (h.kind !== 'file') return E.SPIPE;
      off = BigInt.asUintN(64, off); if (off > 0x7fffffffffffffffn) return E.INVAL;
      const d = readAt(h, Number(off), total(v)); scatter(v, d); dv.setUint32(rp >>> 0, d.length, true); return 0;
    });
    const writeAt = (n, pos, d) => { if (!d.length) return 0; const end = pos + d.length; if (end > n.data.length) resize(n, end); n.data.set(d, pos); return 0; };
    nfd('fd_write', null, (note, h, fd, ip, il, np) => {
      const v = iovs(ip, il); const d = Array.isArray(v) ? gather(v) : null; note(fd, d ? Buffer.from(d).toString('base64') : 'bad', Array.isArray(v) ? v.map(x => x[1]).join() : '');
      if (!d) return v;
      let n = d.length;
      if (h.kind === 'stdout' || h.kind === 'stderr') { n = Math.min(n, w.shortWrite || 1e9); w.out[h.kind === 'stdout' ? 1 : 2].push(Buffer.from(d.slice(0, n))); } else if (h.kind === 'file') { if (h.flags & 1) h.pos = h.node.data.length; if (h.pos + n > (w.maxFile || 1e6)) return E.NOSPC; n = Math.min(n, w.shortWrite || 1e9); writeAt(h.node, h.pos, d.subarray(0, n)); h.pos += n; } else return E.BADF;
      dv.setUint32(np >>> 0, n, true); return 0;
    });
    nfd('fd_pwrite', null, (note, h, fd, ip, il, off, np) => {
      const v = iovs(ip, il); const d = Array.isArray(v) ? gather(v) : null; note(fd, off, d ? Buffer.from(d).toString('base64') : 'bad');
      if (!d) return v;
      if (h.kind === 'dir') return E.BADF;
      if (h.kind !== 'file') return E.SPIPE;
      off = BigInt.asUintN(64, off); if (off + BigInt(d.length) > 1000000n) return E.INVAL;
      writeAt(h.node, Number(off), d); dv.setUint32(np >>> 0, d.length, true); return 0;
    });
    nfd('fd_seek', null, (note, h, fd, off, wh, rp) => {
      note(fd, off, wh); if (h.kind !== 'file') return h.kind === 'dir' ? E.BADF : E.SPIPE;
      let base; if (wh === 0) base = 0n; else if (wh === 1) base = BigInt(h.pos); else if (wh === 2) base = BigInt(h.node.data.length); else return E.INVAL;
      const np = base + off; if (np < 0n || np > 0x7fffffffn) return E.INVAL;
      h.pos = Number(np); dv.setBigUint64(rp >>> 0, np, true); return 0;
    });
    nfd('fd_tell', null, (note, h, fd, rp) => { if (h.kind !== 'file') return h.kind === 'dir' ? E.BADF : E.SPIPE; dv.setBigUint64(rp >>> 0, BigInt(h.pos), true); return 0; });
    nfd('fd_prestat_get', null, (note, h, fd, p) => { if (h.preopen === undefined) return E.BADF; p >>>= 0; u8[p] = 0; u8.fill(0, p + 1, p + 4); dv.setUint32(p + 4, te.encode(h.preopen).length, true); return 0; });
    nfd('fd_prestat_dir_name', null, (note, h, fd, p, n) => { note(fd, n); if (h.preopen === undefined) return E.BADF; const b = te.encode(h.preopen); if (b.length > (n >>> 0)) return E.NAMETOOLONG; u8.set(b, p >>> 0); return 0; });
    nfd('fd_readdir', null, (note, h, fd, bp, bl, cookie, up) => {
      note(fd, bl, cookie); if (h.kind !== 'dir') return E.NOTDIR; bp >>>= 0; bl >>>= 0;
      const ents = [['.', h.node], ['..', h.node], ...[...h.node.entries.entries()].filter(([k]) => !(w.hide && w.hide(k)))];
      let out = [];
      for (let i = Number(BigInt.asUintN(32, cookie)); i < ents.length && out.length < bl; i++) {
        const [nm, n] = ents[i]; const nb = te.encode(nm); const hd = Buffer.alloc(24);
        hd.writeBigUInt64LE(BigInt(i + 1), 0); hd.writeBigUInt64LE(BigInt(n.ino), 8); hd.writeUInt32LE(nb.length, 16); hd[20] = n.type;
        out.push(...hd, ...nb);
      }
      out = out.slice(0, bl); u8.set(out, bp); dv.setUint32(up >>> 0, out.length, true); return 0;
    });
    nfd('fd_renumber', null, (note, h, fd, to) => { note(fd, to); if (!F(to)) return E.BADF; w.fds.set(to >>> 0, h); if (fd !== to >>> 0) w.fds.delete(fd); return 0; });
    const dirOf = (fd) => { const h = F(fd); if (!h) return E.BADF; if (h.kind !== 'dir') return E.NOTDIR; return h.node; };
    const R = (fd, p, n, follow) => { const d = dirOf(fd); if (typeof d === 'number') return d; if (!inb(p, n >>> 0)) return E.FAULT; return w.resolve(d, str(p, n), follow); };
    def('path_create_directory', (note, fd, p, n) => { note(fd >>> 0, str(p, n)); const r = R(fd, p, n, false); if (typeof r === 'number') return r; if (r.node) return E.EXIST; r.parent.entries.set(r.name, w.mk(T.DIR)); return 0; });
    def('path_filestat_get', (note, fd, fl, p, n, o) => { note(fd >>> 0, fl, str(p, n)); const r = R(fd, p, n, !!(fl & 1)); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.notdir) return E.NOTDIR; filestat(o >>> 0, r.node); return 0; });
    def('path_filestat_set_times', (note, fd, fl, p, n, at, mt, ff) => { note(fd >>> 0, fl, str(p, n), at, mt, ff); const r = R(fd, p, n, !!(fl & 1)); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.notdir) return E.NOTDIR; return times(r.node, at, mt, ff & 0xffff); });
    def('path_link', (note, fd, fl, p, n, fd2, p2, n2) => {
      note(fd >>> 0, fl, str(p, n), fd2 >>> 0, str(p2, n2)); if (fl & ~1) return E.INVAL; const r = R(fd, p, n, !!(fl & 1)); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.notdir) return E.NOTDIR; if (r.node.type === T.DIR) return E.PERM;
      const q = R(fd2, p2, n2, false); if (typeof q === 'number') return q; if (q.node) return E.EXIST; if (q.trailing) return E.NOENT; q.parent.entries.set(q.name, r.node); r.node.nlink++; return 0;
    });
    def('path_symlink', (note, p, n, fd, p2, n2) => { note(str(p, n), fd >>> 0, str(p2, n2)); const t = str(p, n); if (!t) return E.NOENT; if (t.includes('\0')) return E.INVAL; if (t.startsWith('/')) return E.PERM; const q = R(fd, p2, n2, false); if (typeof q === 'number') return q; if (q.node) return E.EXIST; if (q.trailing) return E.NOENT; const l = w.mk(T.LNK); l.target = t; q.parent.entries.set(q.name, l); return 0; });
    def('path_readlink', (note, fd, p, n, b, bl, up) => { note(fd >>> 0, str(p, n), bl); const r = R(fd, p, n, false); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.node.type !== T.LNK) return E.INVAL; const d = te.encode(r.node.target).slice(0, bl >>> 0); u8.set(d, b >>> 0); dv.setUint32(up >>> 0, d.length, true); return 0; });
    def('path_remove_directory', (note, fd, p, n) => { note(fd >>> 0, str(p, n)); const r = R(fd, p, n, false); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.node.type !== T.DIR) return E.NOTDIR; if (r.name === '.') return E.INVAL; if (r.node.entries.size) return E.NOTEMPTY; r.parent.entries.delete(r.name); return 0; });
    def('path_unlink_file', (note, fd, p, n) => { note(fd >>> 0, str(p, n)); const r = R(fd, p, n, false); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.notdir) return E.NOTDIR; if (r.node.type === T.DIR) return E.ISDIR; r.parent.entries.delete(r.name); r.node.nlink--; return 0; });
    def('path_rename', (note, fd, p, n, fd2, p2, n2) => {
      note(fd >>> 0, str(p, n), fd2 >>> 0, str(p2, n2)); const r = R(fd, p, n, false); if (typeof r === 'number') return r; if (!r.node) return E.NOENT; if (r.notdir) return E.NOTDIR; if (r.name === '.') return E.INVAL;
      const q = R(fd2, p2, n2, false); if (typeof q === 'number') return q; if (q.name === '.') return E.INVAL;
      if (q.node === r.node) return 0;
      if (q.trailing && r.node.type !== T.DIR) return E.NOTDIR;
      // moving a directory into itself
      if (r.node.type === T.DIR) { let bad = false; const chk = (x) => { if (x === q.parent) bad = true; for (const c of x.entries.values()) if (c.type === T.DIR) chk(c); }; chk(r.node); if (bad) return E.INVAL; }
      if (q.node) { if (r.node.type === T.DIR) { if (q.node.type !== T.DIR) return E.NOTDIR; if (q.node.entries.size) return E.NOTEMPTY; } else if (q.node.type === T.DIR) return E.ISDIR; else q.node.nlink--; }
      r.parent.entries.delete(r.name); q.parent.entries.set(q.name, r.node); return 0;
    });
    def('path_open', (note, fd, df, p, n, of, rb, ri, ff, op) => {
      note(fd >>> 0, df, str(p, n), of, BigInt.asUintN(64, rb), BigInt.asUintN(64, ri), ff);
      const r = R(fd, p, n, !!(df & 1)); if (typeof r === 'number') return r;
      of &= 0xffff; ff &= 0xffff;
      let node = r.node;
      if (r.notdir) return E.NOTDIR;
      if (node && (of & 1) && (of & 4)) return E.EXIST;
      if (!node) { if (!(of & 1)) return E.NOENT; if (of & 2) return E.INVAL; if (r.trailing) return E.ISDIR; node = w.mk(T.REG); r.parent.entries.set(r.name, node); }
      if (node.type === T.LNK) return E.LOOP;
      if ((of & 2) && node.type !== T.DIR) return E.NOTDIR;
      const wr = !!(BigInt.asUintN(64, rb) & 64n);
      if (node.type === T.DIR && (wr || (of & 8))) return E.ISDIR;
      if (of & 8) node.data = new Uint8Array(0);
      if (w.fds.size > 64) return E.MFILE;
      const nf = w.allocFd();
      w.fds.set(nf, { node, kind: node.type === T.DIR ? 'dir' : 'file', pos: 0, flags: ff & 31, rb: BigInt.asUintN(64, rb), ri: BigInt.asUintN(64, ri) });
      dv.setUint32(op >>> 0, nf, true);
      return 0;
    });
    def('poll_oneoff', (note, ip, op, n, np) => {
      ip >>>= 0; op >>>= 0; n >>>= 0; const subs = Buffer.from(u8.slice(ip, ip + n * 48)).toString('base64'); note(n, subs);
      if (n === 0) return E.INVAL;
      if (n > 64) return E.INVAL;
      const evs = []; let minClock = null;
      for (let i = 0; i < n; i++) {
        const b = ip + i * 48; const ud = dv.getBigUint64(b, true); const tag = u8[b + 8];
        if (tag === 0) { const id = dv.getUint32(b + 16, true); const to = dv.getBigUint64(b + 24, true); const fl = dv.getUint16(b + 40, true); if (id > 3) { evs.push([ud, E.INVAL, 0, 0n]); continue; } const at = fl & 1 ? to : w.now + to; if (minClock === null || at < minClock[0]) minClock = [at, ud]; } else if (tag === 1 || tag === 2) { const h = F(dv.getUint32(b + 16, true)); if (!h) evs.push([ud, E.BADF, tag, 0n]); else { let nb = tag === 1 ? (h.kind === 'file' ? Math.max(0, h.node.data.length - h.pos) : h.kind === 'stdin' ? w.stdin.length - w.stdinPos : 0) : 0; evs.push([ud, 0, tag, BigInt(nb)]); } } else return E.INVAL;
      }
      if (!evs.length && minClock) { if (minClock[0] > w.now) w.now = minClock[0]; evs.push([minClock[1], 0, 0, 0n]); }
      evs.forEach(([ud, er, tag, nb], i) => { const o = op + i * 32; u8.fill(0, o, o + 32); dv.setBigUint64(o, ud, true); dv.setUint16(o + 8, er, true); u8[o + 10] = tag; dv.setBigUint64(o + 16, nb, true); });
      dv.setUint32(np >>> 0, evs.length, true); return 0;
    });
    const sock = (name, f) => def(name, (note, fd, ...a) => { const h = F(fd); if (!h) { note(fd >>> 0); return E.BADF; } return f(note, h, fd >>> 0, ...a); });
    sock('sock_accept', (note, h, fd, fl, p) => { note(fd, fl); if (h.kind !== 'stdin') return E.NOTSOCK; dv.setUint32(p >>> 0, 77, true); return 0; });
    sock('sock_shutdown', (note, h, fd, how) => { note(fd, how); return h.kind === 'stdin' ? 0 : E.NOTSOCK; });
    // stdin/stdout double as a socket pair so that the transfer calls have a visible effect
    sock('sock_recv', (note, h, fd, ip, il, fl, rp, ofp) => { const v = iovs(ip, il); note(fd, fl, Array.isArray(v) ? v.map(x => x[1]).join() : 'bad'); if (!Array.isArray(v)) return v; if (h.kind !== 'stdin') return E.NOTSOCK; const d = w.stdin.slice(w.stdinPos, w.stdinPos + total(v)); w.stdinPos += d.length; scatter(v, d); dv.setUint32(rp >>> 0, d.length, true); dv.setUint16(ofp >>> 0, 0, true); return 0; });
    sock('sock_send', (note, h, fd, ip, il, fl, np) => { const v = iovs(ip, il); const d = Array.isArray(v) ? gather(v) : null; note(fd, fl, d ? Buffer.from(d).toString('base64') : 'bad'); if (!d) return v; if (h.kind !== 'stdout') return E.NOTSOCK; w.out[1].push(Buffer.from(d)); dv.setUint32(np >>> 0, d.length, true); return 0; });
    return S;
  }
  stdout() { return Buffer.concat(this.out[1]); }
  stderr() { return Buffer.concat(this.out[2]); }
}
module.exports = { World, Exit, HostAbort, E, T };
