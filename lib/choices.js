'use strict';
// Choice-sequence data source (in the style of Hypothesis) and a generic shrinker.
// A test case is a pure function of the sequence of integers it draws; shrinking
// edits that sequence and replays it.

function hash32(...xs) {
  let h = 0x811c9dc5 >>> 0;
  for (const x of xs) {
    const s = String(x);
    for (let i = 0; i < s.length; i++) {
      h ^= s.charCodeAt(i);
      h = Math.imul(h, 0x01000193) >>> 0;
    }
    h ^= 0xff; h = Math.imul(h, 0x01000193) >>> 0;
  }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13;
  h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}

function sfc32(a, b, c, d) {
  return function () {
    a |= 0; b |= 0; c |= 0; d |= 0;
    const t = (a + b | 0) + d | 0;
    d = d + 1 | 0;
    a = b ^ b >>> 9;
    b = c + (c << 3) | 0;
    c = (c << 21 | c >>> 11);
    c = c + t | 0;
    return t >>> 0;
  };
}

function prng(...seed) {
  const r = sfc32(hash32('a', ...seed), hash32('b', ...seed), hash32('c', ...seed), 1);
  for (let i = 0; i < 12; i++) r();
  return r;
}

class Overrun extends Error {}

class Source {
  // seedParts: array → random; replay: array of ints → replayed, zeros past the end
  constructor(seedParts, replay) {
    this.rng = seedParts ? prng(...seedParts) : null;
    this.replay = replay || null;
    this.rec = [];
    this.max = 200000;
  }
  // integer in [0, n)
  draw(n) {
    if (n <= 1) return 0;
    if (this.rec.length >= this.max) throw new Overrun('overrun');
    let v;
    if (this.replay) {
      v = this.rec.length < this.replay.length ? this.replay[this.rec.length] : 0;
      if (v >= n) v = n - 1;
    } else if (n <= 0x100000000) {
      v = Math.floor(this.rng() / 0x100000000 * n);
    } else throw new Error('draw range');
    this.rec.push(v);
    return v;
  }
  u32() { return this.draw(0x100000000); }
  bool() { return this.draw(2) === 1; }
  // true with probability num/den (false is the simple value)
  chance(num, den) { return this.draw(den) >= den - num; }
  range(lo, hi) { return lo + this.draw(hi - lo + 1); }
  pick(arr) { return arr[this.draw(arr.length)]; }
  // weighted pick: [[w, x], ...]; first alternative is the simplest
  weighted(ws) {
    let t = 0;
    for (const [w] of ws) t += w;
    let r = this.draw(t);
    for (const [w, x] of ws) { if (r < w) return x; r -= w; }
    return ws[0][1];
  }
}

// Shrinks `seq` while `fails(seq)` (→ {seq: recorded, ...} or null) keeps holding.
// `fails` must replay the sequence and return the recorded sequence when it still fails.
async function shrink(seq, fails, { budgetMs = 60000, maxEvals = 3000 } = {}) {
  const t0 = Date.now();
  let evals = 0;
  let best = seq;
  const smaller = (a, b) => {
    if (a.length !== b.length) return a.length < b.length;
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return a[i] < b[i];
    return false;
  };
  const out = () => Date.now() - t0 > budgetMs || evals >= maxEvals;
  const attempt = async (cand) => {
    if (out()) return false;
    evals++;
    let r = null;
    try { r = await fails(cand); } catch (e) { r = null; }
    if (r) {
      let s = r.seq;
      while (s.length && s[s.length - 1] === 0) s = s.slice(0, -1);
      if (smaller(s, best)) { best = s; return true; }
    }
    return false;
  };
  let changed = true;
  while (changed && !out()) {
    changed = false;
    // delete chunks
    for (let size = Math.min(64, best.length >> 1); size >= 1 && !out(); size = size > 8 ? size >> 1 : size - 1) {
      for (let i = best.length - size; i >= 0 && !out();) {
        const cand = best.slice(0, i).concat(best.slice(i + size));
        if (await attempt(cand)) { changed = true; i = Math.min(i, best.length - size); } else i -= size > 4 ? size >> 1 : 1;
      }
    }
    // zero chunks
    for (let size = 16; size >= 1 && !out(); size >>= 1) {
      for (let i = 0; i + size <= best.length && !out(); i += size) {
        let nz = false;
        for (let k = i; k < i + size; k++) if (best[k]) nz = true;
        if (!nz) continue;
        const cand = best.slice();
        for (let k = i; k < i + size; k++) cand[k] = 0;
        if (await attempt(cand)) changed = true;
      }
    }
    // minimise single values
    for (let i = 0; i < best.length && !out(); i++) {
      let lo = 0, hi = best[i];
      if (hi === 0) continue;
      let guard = 0;
      while (lo < hi && guard++ < 34 && !out() && i < best.length) {
        const mid = Math.floor((lo + hi) / 2);
        const cand = best.slice(); cand[i] = mid;
        if (await attempt(cand)) { changed = true; hi = mid; if (i >= best.length) break; } else lo = mid + 1;
      }
    }
  }
  return { seq: best, evals };
}

module.exports = { Source, Overrun, shrink, hash32, prng };
