// Seeded randomness and small helpers. Every random choice of every check comes from here.
import { ANON, principalText } from '../sim/candid.mjs';

export class Rng {
  constructor(seed) { // sfc32 seeded from a string through xmur3
    let h = 1779033703 ^ seed.length;
    for (let i = 0; i < seed.length; i++) { h = Math.imul(h ^ seed.charCodeAt(i), 3432918353); h = (h << 13) | (h >>> 19); }
    const next = () => { h = Math.imul(h ^ (h >>> 16), 2246822507); h = Math.imul(h ^ (h >>> 13), 3266489909); return (h ^= h >>> 16) >>> 0; };
    this.a = next(); this.b = next(); this.c = next(); this.d = 1;
    for (let i = 0; i < 15; i++) this.u32();
  }
  u32() {
    let { a, b, c, d } = this;
    const t = (((a + b) | 0) + d) | 0;
    d = (d + 1) | 0; a = b ^ (b >>> 9); b = (c + (c << 3)) | 0; c = ((c << 21) | (c >>> 11)); c = (c + t) | 0;
    this.a = a; this.b = b; this.c = c; this.d = d;
    return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  int(lo, hi) { return lo + Math.floor(this.f() * (hi - lo + 1)); } // inclusive
  p(x) { return this.f() < x; }
  pick(xs) { return xs[Math.floor(this.f() * xs.length)]; }
  w(pairs) { // weighted choice: [[weight, value], ...]
    let s = 0; for (const [k] of pairs) s += k;
    let x = this.f() * s;
    for (const [k, v] of pairs) { if ((x -= k) < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  bytes(n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255; return b; }
  shuffle(xs) { const a = [...xs]; for (let i = a.length - 1; i > 0; i--) { const j = this.int(0, i); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}

export const hex = (b) => Buffer.from(b).toString('hex');
const ZERO = '00'.repeat(32);
export const subHex = (s) => (s == null ? ZERO : hex(s));
export const akey = (a) => `${a.owner}|${subHex(a.subaccount)}`;
export const sameAcc = (a, b) => akey(a) === akey(b);
export const P = (n) => principalText(Uint8Array.from([n, 1, 2, 3, 4, 5, 6, 7, 8, 2]));
export const ADMIN = P(1);
export { ANON };
// Texts a rejected call may come with.
const REJ = { 1: ['No route to canister'], 2: ['Canister queue is full', 'Couldn\'t send message', 'IC0207: Canister is out of cycles', 'injected'], 3: ['IC0301: Canister aaaaa-aa not found', 'injected'], 4: ['refused', 'Unauthorized', 'injected', ''], 5: ['IC0503: Canister called `ic0.trap` with message: boom', 'IC0508: Canister is stopped', 'injected'], 6: ['call deadline expired', 'injected'] };
export const rejText = (code, k) => { const t = REJ[code] ?? ['injected']; return t[k % t.length]; };
const fill = (n) => new Uint8Array(32).fill(n);
const last = (n) => { const b = new Uint8Array(32); b[31] = n; return b; };
export const SUBS = [null, fill(0), last(1), fill(255), last(2)];
export const MS = 1_000_000n, SEC = 1_000_000_000n, HOUR = 3600n * SEC, DAY = 24n * HOUR;
export const maxN = (a, b) => (a > b ? a : b);
