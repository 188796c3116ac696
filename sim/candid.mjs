// Minimal candid codec. Encoding is driven by a type DSL; decoding is driven by the type table on
// the wire (so what the canister really sent is what the caller sees), with field names recovered
// from a dictionary of hashes.
export class CandidError extends Error {}

const names = new Map();
const hashCache = new Map();
const te = new TextEncoder();
const td = new TextDecoder('utf-8', { fatal: true });
export function hash(name) {
  let h = hashCache.get(name);
  if (h !== undefined) return h;
  if (/^_\d+_$/.test(name)) h = Number(name.slice(1, -1)) >>> 0;
  else {
    h = 0;
    for (const c of te.encode(name)) h = (Math.imul(h, 223) + c) >>> 0;
  }
  hashCache.set(name, h);
  names.set(h, name);
  return h;
}
export function learn(...xs) { for (const x of xs) hash(x); }

// ---------------------------------------------------------------- types
const PRIM = { null: -1, bool: -2, nat: -3, int: -4, nat8: -5, nat16: -6, nat32: -7, nat64: -8,
  int8: -9, int16: -10, int32: -11, int64: -12, float32: -13, float64: -14, text: -15, reserved: -16,
  empty: -17, principal: -24 };
export const T = {};
for (const k of Object.keys(PRIM)) T[k] = { k };
T.opt = (t) => ({ k: 'opt', t });
T.vec = (t) => ({ k: 'vec', t });
T.blob = { k: 'vec', t: T.nat8, blob: true };
const fields = (o) => {
  const fs = Object.entries(o).map(([n, t]) => ({ n, h: hash(n), t }));
  fs.sort((a, b) => a.h - b.h);
  return fs;
};
T.rec = (o) => ({ k: 'record', fs: fields(o) });
T.variant = (o) => ({ k: 'variant', fs: fields(o) });
T.tuple = (...ts) => {
  const r = { k: 'record', tuple: true, fs: ts.map((t, i) => ({ n: `_${i}_`, h: i, t })) };
  return r;
};
T.ref = (f) => ({ k: 'ref', f }); // lazy, for recursive types
T.func = { k: 'func' };
const deref = (t) => { while (t.k === 'ref') t = t.v ?? (t.v = t.f()); return t; };

// ---------------------------------------------------------------- writer
class W {
  constructor() { this.b = new Uint8Array(256); this.n = 0; }
  need(k) { if (this.n + k > this.b.length) { const nb = new Uint8Array(Math.max(this.b.length * 2, this.n + k)); nb.set(this.b.subarray(0, this.n)); this.b = nb; } }
  u8(x) { this.need(1); this.b[this.n++] = x; }
  bytes(x) { this.need(x.length); this.b.set(x, this.n); this.n += x.length; }
  leb(x) {
    if (typeof x === 'number' && x < 0x80000000) { let v = x; while (v >= 128) { this.u8((v & 127) | 128); v >>>= 7; } this.u8(v); return; }
    let v = BigInt(x);
    if (v < 0n) throw new CandidError('negative nat');
    while (v >= 128n) { this.u8(Number(v & 127n) | 128); v >>= 7n; }
    this.u8(Number(v));
  }
  sleb(x) {
    let v = BigInt(x);
    for (;;) { const b = Number(v & 127n); v >>= 7n; if ((v === 0n && !(b & 64)) || (v === -1n && (b & 64))) { this.u8(b); return; } this.u8(b | 128); }
  }
  fixed(x, n) { let v = BigInt.asUintN(n * 8, BigInt(x)); for (let i = 0; i < n; i++) { this.u8(Number(v & 255n)); v >>= 8n; } }
  done() { return this.b.slice(0, this.n); }
}

// ---------------------------------------------------------------- principals
const B32 = 'abcdefghijklmnopqrstuvwxyz234567';
const crcT = (() => { const t = new Uint32Array(256); for (let i = 0; i < 256; i++) { let c = i; for (let k = 0; k < 8; k++) c = c & 1 ? 0xedb88320 ^ (c >>> 1) : c >>> 1; t[i] = c >>> 0; } return t; })();
const crc32 = (b) => { let c = ~0 >>> 0; for (const x of b) c = (crcT[(c ^ x) & 255] ^ (c >>> 8)) >>> 0; return ~c >>> 0; };
const ptCache = new Map();
const ptBack = new Map();
export function principalText(b) {
  const key = Buffer.from(b).toString('hex');
  let r = ptCache.get(key);
  if (r) return r;
  const c = crc32(b);
  const all = [c >>> 24, (c >>> 16) & 255, (c >>> 8) & 255, c & 255, ...b];
  let s = '', acc = 0, n = 0;
  for (const x of all) { acc = (acc << 8) | x; n += 8; while (n >= 5) { s += B32[(acc >>> (n - 5)) & 31]; n -= 5; } acc &= (1 << n) - 1; }
  if (n) s += B32[(acc << (5 - n)) & 31];
  r = s.match(/.{1,5}/g).join('-');
  ptCache.set(key, r); ptBack.set(r, Uint8Array.from(b));
  return r;
}
export function principalBytes(t) {
  const c = ptBack.get(t);
  if (c) return c;
  let acc = 0, n = 0; const out = [];
  for (const ch of t.replace(/-/g, '')) { const v = B32.indexOf(ch); if (v < 0) throw new CandidError('bad principal ' + t); acc = (acc << 5) | v; n += 5; if (n >= 8) { out.push((acc >>> (n - 8)) & 255); n -= 8; } acc &= (1 << n) - 1; }
  const b = Uint8Array.from(out.slice(4));
  if (principalText(b) !== t) throw new CandidError('bad principal ' + t);
  return b;
}
export const ANON = principalText([4]);
export const MGMT = principalText([]);

// ---------------------------------------------------------------- encode
export function encode(types, values) {
  const w = new W();
  w.bytes(te.encode('DIDL'));
  const table = [];
  const ids = new Map();
  const idOf = (t0) => {
    const t = deref(t0);
    if (t.k in PRIM) return PRIM[t.k];
    if (ids.has(t)) return ids.get(t);
    const id = table.length; ids.set(t, id); table.push(null);
    const e = new W();
    if (t.k === 'opt' || t.k === 'vec') { e.sleb(t.k === 'opt' ? -18 : -19); e.sleb(idOf(t.t)); }
    else if (t.k === 'record' || t.k === 'variant') {
      const fs = t.fs.map((f) => [f.h, idOf(f.t)]);
      e.sleb(t.k === 'record' ? -20 : -21); e.leb(fs.length);
      for (const [h, i] of fs) { e.leb(h); e.sleb(i); }
    } else throw new CandidError('encode type ' + t.k);
    table[id] = e.done();
    return id;
  };
  const tids = types.map(idOf);
  w.leb(table.length);
  for (const e of table) w.bytes(e);
  w.leb(tids.length);
  for (const i of tids) w.sleb(i);
  types.forEach((t, i) => put(w, t, values[i]));
  return w.done();
}
function put(w, t0, v) {
  const t = deref(t0);
  switch (t.k) {
    case 'null': case 'reserved': return;
    case 'bool': w.u8(v ? 1 : 0); return;
    case 'nat': w.leb(typeof v === 'bigint' ? v : BigInt(v)); return;
    case 'int': w.sleb(v); return;
    case 'nat8': w.u8(v); return;
    case 'nat16': w.fixed(v, 2); return;
    case 'nat32': w.fixed(v, 4); return;
    case 'nat64': w.fixed(v, 8); return;
    case 'int8': w.fixed(v, 1); return;
    case 'int16': w.fixed(v, 2); return;
    case 'int32': w.fixed(v, 4); return;
    case 'int64': w.fixed(v, 8); return;
    case 'float64': { const b = Buffer.alloc(8); b.writeDoubleLE(v); w.bytes(b); return; }
    case 'text': { const b = te.encode(v); w.leb(b.length); w.bytes(b); return; }
    case 'principal': { const b = principalBytes(v); w.u8(1); w.leb(b.length); w.bytes(b); return; }
    case 'opt': if (v === null || v === undefined) w.u8(0); else { w.u8(1); put(w, t.t, v); } return;
    case 'vec':
      if (t.blob || (v instanceof Uint8Array)) { w.leb(v.length); w.bytes(Uint8Array.from(v)); return; }
      w.leb(v.length); for (const x of v) put(w, t.t, x); return;
    case 'record':
      if (t.tuple) { t.fs.forEach((f, i) => put(w, f.t, v[i])); return; }
      for (const f of t.fs) {
        if (!(f.n in v) && deref(f.t).k !== 'opt' && deref(f.t).k !== 'null') throw new CandidError('missing field ' + f.n);
        put(w, f.t, v[f.n]);
      }
      return;
    case 'variant': {
      const key = Object.keys(v)[0];
      const i = t.fs.findIndex((f) => f.n === key);
      if (i < 0) throw new CandidError('no variant ' + key);
      w.leb(i); put(w, t.fs[i].t, v[key]); return;
    }
    default: throw new CandidError('encode ' + t.k);
  }
}

// ---------------------------------------------------------------- decode
export function decode(buf, limit = Infinity) {
  let p = 0, items = 0;
  const err = (m) => { throw new CandidError(m + ' at ' + p); };
  const u8 = () => { if (p >= buf.length) err('eof'); return buf[p++]; };
  const lebN = () => { let r = 0, m = 1; for (;;) { const b = u8(); r += (b & 127) * m; if (!(b & 128)) return r; m *= 128; if (m > 2 ** 53) err('leb too big'); } };
  const lebB = () => { // bigint
    const s = p; let r = 0, m = 1;
    for (let i = 0; i < 7; i++) { const b = u8(); r += (b & 127) * m; if (!(b & 128)) return BigInt(r); m *= 128; }
    p = s; let v = 0n, sh = 0n; for (;;) { const b = u8(); v |= BigInt(b & 127) << sh; if (!(b & 128)) return v; sh += 7n; }
  };
  const slebB = () => { let v = 0n, sh = 0n; for (;;) { const b = u8(); v |= BigInt(b & 127) << sh; sh += 7n; if (!(b & 128)) { if (b & 64) v -= 1n << sh; return v; } } };
  const fixed = (n, signed) => { let v = 0n; for (let i = 0; i < n; i++) v |= BigInt(u8()) << BigInt(8 * i); return signed ? BigInt.asIntN(8 * n, v) : v; };
  if (buf.length < 4 || buf[0] !== 0x44 || buf[1] !== 0x49 || buf[2] !== 0x44 || buf[3] !== 0x4c) err('no DIDL');
  p = 4;
  const nt = lebN(); const table = [];
  const sl = () => Number(slebB());
  for (let i = 0; i < nt; i++) {
    const op = sl();
    if (op === -18 || op === -19) table.push({ op, t: sl() });
    else if (op === -20 || op === -21) {
      const n = lebN(); const fs = [];
      for (let j = 0; j < n; j++) { const h = lebN(); fs.push({ h, n: names.get(h) ?? `_${h}_`, t: sl() }); }
      table.push({ op, fs, tuple: op === -20 && n > 0 && fs.every((f, j) => f.h === j) });
    } else if (op === -22) {
      const a = lebN(); const as = []; for (let j = 0; j < a; j++) as.push(sl());
      const r = lebN(); for (let j = 0; j < r; j++) sl();
      const m = lebN(); for (let j = 0; j < m; j++) u8();
      table.push({ op });
    } else if (op === -23) {
      const n = lebN(); for (let j = 0; j < n; j++) { const l = lebN(); p += l; sl(); }
      table.push({ op });
    } else err('bad type op ' + op);
  }
  const na = lebN(); const ats = []; for (let i = 0; i < na; i++) ats.push(sl());
  const get = (ti) => {
    switch (ti) {
      case -1: return null;
      case -2: { const b = u8(); if (b > 1) err('bad bool'); return b === 1; }
      case -3: return lebB();
      case -4: return slebB();
      case -5: return u8();
      case -6: return Number(fixed(2));
      case -7: return Number(fixed(4));
      case -8: return fixed(8);
      case -9: return Number(fixed(1, true));
      case -10: return Number(fixed(2, true));
      case -11: return Number(fixed(4, true));
      case -12: return fixed(8, true);
      case -13: { const v = Buffer.from(buf.buffer, buf.byteOffset + p, 4).readFloatLE(); p += 4; return v; }
      case -14: { const v = Buffer.from(buf.buffer, buf.byteOffset + p, 8).readDoubleLE(); p += 8; return v; }
      case -15: { const n = lebN(); if (p + n > buf.length) err('eof'); const s = td.decode(buf.subarray(p, p + n)); p += n; return s; }
      case -16: return null;
      case -17: return err('empty');
      case -24: return prin();
    }
    const t = table[ti];
    if (!t) err('bad type ' + ti);
    switch (t.op) {
      case -18: { const b = u8(); if (b === 0) return null; if (b !== 1) err('bad opt'); return get(t.t); }
      case -19: {
        const n = lebN();
        if (t.t === -5) { if (p + n > buf.length) err('eof'); const r = buf.slice(p, p + n); p += n; return Uint8Array.from(r); }
        const out = []; for (let i = 0; i < n; i++) { if (++items > limit) err('too many items'); out.push(get(t.t)); } return out;
      }
      case -20:
        if (t.tuple) return t.fs.map((f) => get(f.t));
        { const o = {}; for (const f of t.fs) o[f.n] = get(f.t); return o; }
      case -21: { const i = lebN(); const f = t.fs[i]; if (!f) err('bad variant'); return { [f.n]: get(f.t) }; }
      case -22: { const b = u8(); if (b !== 1) err('opaque func'); const pr = prin(); const n = lebN(); const m = td.decode(buf.subarray(p, p + n)); p += n; return { func: [pr, m] }; }
      case -23: return prin();
    }
    return err('type');
  };
  const prin = () => { const b = u8(); if (b !== 1) err('opaque principal'); const n = lebN(); if (n > 29 || p + n > buf.length) err('bad principal'); const r = principalText(buf.subarray(p, p + n)); p += n; return r; };
  const out = ats.map(get);
  if (p !== buf.length) err('trailing bytes');
  return out;
}

// Canonical JSON-able form used for comparisons, printing and replay files.
export function show(v) {
  return JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? `${x}n` : x instanceof Uint8Array ? `0x${Buffer.from(x).toString('hex')}` : x));
}
export function unshow(s) {
  return JSON.parse(s, (k, x) => (typeof x === 'string' ? (/^-?\d+n$/.test(x) ? BigInt(x.slice(0, -1)) : /^0x([0-9a-f]{2})*$/.test(x) ? Uint8Array.from(Buffer.from(x.slice(2), 'hex')) : x) : x));
}
