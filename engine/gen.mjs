// Generators: installations, calls and the passing of time. An op is concrete and self-contained:
//   {dt, by, m, args}   an update call made dt ns after the previous op ({$t: d} stands for "now + d")
//   {dt, up: true}      an upgrade
// so that a history can be re-run, cut and simplified without the generator.
import { ADMIN, ANON, P, SUBS, MS, SEC, HOUR, DAY, akey, maxN } from './util.mjs';
import crypto from 'node:crypto';
import { PERMS } from '../sim/core.mjs';

export const USERS = [P(2), P(3), P(4), P(5)];
export const PRINCIPALS = [ADMIN, ...USERS, ANON];
export const ACCOUNTS = [...USERS.flatMap((owner) => [SUBS[0], SUBS[2], SUBS[3]].map((subaccount) => ({ owner, subaccount }))), { owner: ADMIN, subaccount: null }, { owner: ANON, subaccount: null }, { owner: ANON, subaccount: SUBS[2] }];

export const PATHS = ['/a.png', 'b.bin', '/dir/e.txt', 'c-d_1'];
// Spellings that share a URL with another path, that no URL leads to, or whose URL is taken.
export const ODD_PATHS = ['a.png', '/b.bin', '/c-d_1', 'dir/e.txt', 's p.txt', '/q?x=1', '/q#x', '/p%41', 'metrics', '/logs', '/traces', '', '/'];
export const T = (d) => ({ $t: BigInt(d) });
const QUARTER = 900n * SEC;
const U64 = (1n << 64n) - 1n;
// Limits that mean "none": beyond what a machine integer of 32 or 64 bits holds, or the last it holds.
const HUGE = [(1n << 32n) - 1n, 1n << 32n, (1n << 32n) + 1n, (1n << 63n), U64 - 1n, U64, U64 + 1n, U64 + 2n, 10n ** 30n];
export function resolve(v, now) {
  if (v === null || typeof v !== 'object' || v instanceof Uint8Array) return v;
  if ('$t' in v) { const x = now + BigInt(v.$t); return x < 0n ? 0n : x > U64 ? U64 : x; }
  if (Array.isArray(v)) return v.map((x) => resolve(x, now));
  const o = {}; for (const k of Object.keys(v)) o[k] = resolve(v[k], now); return o;
}

const NEEDS_TOKEN = new Set(['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_transfer_from', 'burn_nft', 'update_nft_metadata']);
const NEEDS_UPLOAD = new Set(['store_chunk', 'finalize_upload', 'cancel_upload']);
export class Gen {
  constructor(rng, profile) { this.r = rng; this.p = profile; this.history = []; this.paths = profile.paths ?? PATHS; }
  // ---------------------------------------------------------------- installation
  init() {
    const r = this.r, p = this.p; const o = {};
    const maybe = (k, xs, prob) => { if (r.p(p.setting?.[k] ?? prob ?? 0.3)) o[k] = typeof xs[0] === 'bigint' && (k !== 'tx_window' || p.hugeWindow) && r.p(p.huge ?? 0.04) ? r.pick(HUGE) : r.pick(xs); };
    maybe('tx_window', p.windows ?? [0n, 200n * MS, SEC, 10n * SEC, 60n * SEC, 1_234_567_891n], 0.4);
    maybe('permitted_drift', [0n, MS, 50n * MS, SEC]);
    maybe('supply_cap', [3n, 6n, 10n, 30n], 0.2);
    maybe('max_update_batch_size', [1n, 2n, 3n, 5n], 0.25);
    maybe('max_query_batch_size', [1n, 2n, 5n, 1000n], 0.25);
    maybe('max_take_value', [1n, 3n, 5n, 1000n], 0.25);
    maybe('default_take_value', [0n, 1n, 2n, 5n, 1000n], 0.25);
    maybe('max_memo_size', [0n, 1n, 4n, 32n], 0.25);
    maybe('atomic_batch_transfers', [false, true], 0.3);
    maybe('description', ['', 'a description', 'ünï✓'], 0.3);
    maybe('logo', ['https://example.com/logo.png', 'data:,x'], 0.3);
    maybe('max_canister_storage_threshold', [1000n, 10n ** 12n], 0.1);
    if (r.p(0.5)) { o.symbol = r.pick(['S', 'SYM', '']); o.name = r.pick(['N', 'some name', '✓']); }
    const a = {};
    if (r.p(p.setting?.approvals ?? 0.4)) a.max_approvals_per_token_or_collection = r.pick(r.p(p.huge ?? 0.04) ? HUGE : [1n, 2n, 3n]);
    if (r.p(p.setting?.revoke ?? 0.3)) a.max_revoke_approvals = r.pick(r.p(p.huge ?? 0.04) ? HUGE : [1n, 2n, 3n]);
    o.approval_init = a;
    o.test_mode = !r.p(p.noTest ?? 0.1);
    const ups = [];
    if (!o.test_mode) ups.push([ADMIN, PERMS.map((x) => ({ [x]: null }))]);
    for (const u of r.shuffle([...USERS, ANON])) if (r.p(p.initPerm ?? 0.15)) ups.push([u, r.shuffle(PERMS).slice(0, r.int(0, 4)).map((x) => ({ [x]: null }))]);
    o.permissions = { user_permissions: ups };
    return o;
  }
  // ---------------------------------------------------------------- pieces
  sub(s) { return s == null && this.r.p(0.3) ? SUBS[1] : s; } // null and zeros name the same account
  account() { const a = this.r.pick(ACCOUNTS); return { owner: a.owner, subaccount: this.sub(a.subaccount) }; }
  user() { const r = this.r; const a = { owner: r.pick(USERS), subaccount: r.p(0.6) ? null : r.pick(SUBS) }; return { owner: a.owner, subaccount: this.sub(a.subaccount) }; }
  caller() { const r = this.r; return r.w([[12, r.pick(USERS)], [1, ADMIN], [1, ANON]]); }
  memo(m) {
    const r = this.r; const lim = m.maxMemo;
    return r.w([[6, () => null], [2, () => Uint8Array.from([r.int(1, 3)])], [1, () => r.bytes(r.int(0, 40))],
      [lim < 100n ? 2 : 0, () => new Uint8Array(Number(lim) + r.int(0, 1)).fill(7)]])();
  }
  value(d = 0) {
    const r = this.r;
    return r.w([[3, () => ({ Text: r.pick(['', 'a', 'hello', 'ünï✓', 'x'.repeat(r.int(1, 200)), '0n', '\u0000']) })],
      [2, () => ({ Blob: r.bytes(r.pick([0, 1, 32, 300])) })],
      [3, () => ({ Nat: r.pick([0n, 1n, 255n, (1n << 32n) - 1n, (1n << 53n) + 1n, (1n << 63n), (1n << 64n) - 1n, 1n << 64n, (1n << 127n) + 3n, 10n ** 40n]) })],
      [3, () => ({ Int: r.pick([0n, -1n, 5n, -(1n << 31n), -(1n << 63n), (1n << 63n), -(1n << 64n), 1n << 70n, -(10n ** 38n)]) })],
      [d < 3 ? 1.5 : 0, () => ({ Array: Array.from({ length: r.int(0, 3) }, () => this.value(d + 1)) })],
      [d < 3 ? 1.5 : 0, () => ({ Map: this.entries(r.int(0, 3), d + 1) })]])();
  }
  entries(n, d = 0) { const r = this.r; return Array.from({ length: n }, () => [r.pick(['a', 'b', 'name', 'icrc97:metadata', '', 'ключ', `k${r.int(0, 9)}`, ...(this.p.oddKeys ? ['A', ' a', 'a ', 'a\n', '\u0000a', 'Name', 'é', 'e\u0301', 'k'.repeat(300)] : [])]), this.value(d)]); }
  // Many keys, none twice.
  many(n) { const r = this.r; const small = () => r.w([[3, () => ({ Nat: BigInt(r.int(0, 99)) })], [1, () => ({ Text: 'v' })], [0.2, () => ({ Map: this.p.oddKeys ? Array.from({ length: r.int(16, 40) }, (_, i) => [`n${i}`, { Nat: BigInt(i) }]) : [] })]])(); return r.shuffle(Array.from({ length: n }, (_, i) => [`key ${i}`, small()])); }
  meta() { const r = this.r; if (this.p.oddKeys && r.p(0.06)) return this.many(r.int(9, 60)); return this.entries(r.w([[3, 0], [4, 1], [3, r.int(2, 4)], [1, 8]])); }
  someToken(m, pred = () => true) {
    const r = this.r; const xs = []; for (const [id, t] of m.tokens) if (pred(id, t)) xs.push(id);
    return xs.length ? r.pick(xs) : null;
  }
  anyId(m) { const r = this.r; return r.w([[8, () => this.someToken(m) ?? 1n], [2, () => BigInt(r.int(0, Number(m.nextId) + 1))], [0.3, () => 1n << 70n]])(); }
  created(m, w) { // a creation time around the edges of the window
    const r = this.r; const win = m.txWindow, d = m.drift;
    return r.w([[w.none ?? 0, () => null], [4, () => T(0)], [1, () => T(-1n)], [2, () => T(-BigInt(r.int(0, 1_000_000)))], [1, () => T(d)], [1, () => T(d + 1n)], [0.5, () => T(d + SEC)],
      [1, () => T(-win)], [1, () => T(-win - 1n)], [0.7, () => T(-win - d)], [0.7, () => T(-win - d - 1n)], [0.3, () => T(-win - d - DAY)], [0.2, () => 0n], [0.1, () => T(-BigInt(r.int(0, 20)) * SEC)]])();
  }
  createdOk(m) { const r = this.r; const win = m.txWindow, d = m.drift; return r.w([[6, T(0)], [1, T(d)], [1, T(-win)], [1, T(win > 1000n ? -BigInt(r.int(0, 1000)) : 0n)]]); }
  expiry(now) { const r = this.r; return r.w([[5, () => null], [2, () => T(QUARTER)], [2, () => T(r.pick([SEC, 150n * MS, 400n * MS]))], [1, () => T(1n)], [0.6, () => T(0)], [0.6, () => T(-SEC)], [0.3, () => U64], [0.3, () => 0n]])(); }
  // ---------------------------------------------------------------- time
  dt(m, now) {
    const r = this.r;
    if (this.p.dt) return this.p.dt(r, m, now);
    if (m.mayThrottle(now) && m.window < DAY && r.p(0.7)) return m.window + BigInt(r.int(100, 130)) * MS + 1n;
    return r.w([[2, 0n], [1, 1n], [2, BigInt(r.int(1, 20)) * MS], [1, BigInt(r.pick([59, 60, 61])) * MS], [10, BigInt(r.int(30, 200)) * MS], [3, SEC], [1, 10n * SEC], [0.25, QUARTER], [this.p.day ?? 0.01, DAY]]);
  }
  // ---------------------------------------------------------------- calls
  call(m, now) {
    const r = this.r;
    const dt = this.dt(m, now);
    if (this.history.length && r.p(this.p.repeat ?? 0.06)) { // again, with the creation time it had
      const h = r.p(0.7) ? this.history[this.history.length - 1] : r.pick(this.history.slice(-8));
      const args = this.again(h.args, now + dt);
      if (r.p(this.p.vary ?? 0)) this.vary(args[0]);
      return { dt, by: h.by, m: h.m, args, again: true };
    }
    let name = r.w(Object.entries(this.p.ops).map(([k, w]) => [w, k]));
    // Not too many calls about nothing: most need a token or an upload to exist.
    if (this.p.ops.mint && !m.tokens.size && NEEDS_TOKEN.has(name) && r.p(0.6)) name = 'mint';
    if (this.p.ops.init_upload && !m.uploads.size && NEEDS_UPLOAD.has(name) && r.p(0.7)) name = 'init_upload';
    if (name === 'upgrade') return { dt, up: true };
    return { dt, ...this[name](m, now + dt) };
  }
  // The arguments of an earlier call, with the times they had.
  again(args, now) {
    const back = (v) => { if (v === null || typeof v !== 'object' || v instanceof Uint8Array) return v; if (Array.isArray(v)) return v.map(back); const o = {}; for (const k of Object.keys(v)) o[k] = (k === 'created_at_time' || k === 'expires_at') && v[k] !== null ? T(v[k] - now) : back(v[k]); return o; };
    return back(args);
  }
  // Changes one field of one item: what differs from a logged call is not a repeat of it.
  vary(items) {
    const r = this.r; if (!Array.isArray(items) || !items.length) return;
    const it = r.pick(items), f = it.approval_info ?? it;
    const k = r.pick(['memo', 'created_at_time', 'to', 'spender', 'expires_at', 'token_id']);
    if (k === 'memo') f.memo = f.memo === null || f.memo === undefined ? Uint8Array.from([1]) : r.p(0.5) ? null : Uint8Array.from([...f.memo, 0]);
    else if (k === 'created_at_time') f.created_at_time = f.created_at_time === null || f.created_at_time === undefined ? T(0) : T(BigInt(f.created_at_time.$t ?? 0n) + r.pick([1n, -1n]));
    else if (k === 'to' && it.to) it.to = this.user();
    else if (k === 'spender' && f.spender) f.spender = this.user();
    else if (k === 'expires_at' && 'expires_at' in f) f.expires_at = this.expiry();
    else if (k === 'token_id' && 'token_id' in it) it.token_id = it.token_id === 1n ? 2n : 1n;
  }
  record(op, args) { this.history.push({ by: op.by, m: op.m, args }); if (this.history.length > 30) this.history.shift(); }
  size(m, max) { const r = this.r; const lim = Number(max > 20n ? 20n : max); return r.w([[this.p.single ?? 8, 1], [3, r.int(2, 3)], [this.p.empty ?? 0.3, 0], [lim <= 6 ? 1.5 : 0, lim + r.int(0, 1)], [0.3, r.int(4, 7)]]); }
  // Items of one batch mostly share their caller.
  icrc7_transfer(m, now) {
    const r = this.r; const n = this.size(m, m.maxUpdate);
    const first = this.someToken(m); const owner = first !== null ? m.tokens.get(first).owner.owner : r.pick(USERS);
    const by = r.p(0.88) ? owner : this.caller();
    const items = [];
    for (let k = 0; k < n; k++) {
      const id = k === 0 && first !== null && r.p(0.9) ? first : r.p(0.75) ? (this.someToken(m, (i, t) => t.owner.owner === by) ?? this.anyId(m)) : this.anyId(m);
      const t = m.tokens.get(id);
      const good = r.p(this.p.valid ?? 0.75);
      let to = this.user(); if (!good && r.p(0.5)) to = r.w([[2, () => (t ? { owner: t.owner.owner, subaccount: this.sub(t.owner.subaccount) } : this.account())], [1, () => this.account()], [1, () => ({ owner: ANON, subaccount: r.pick(SUBS) })]])();
      const fs = t && (good || r.p(0.5)) ? this.sub(t.owner.subaccount) : r.w([[5, r.pick(SUBS)], [1, r.bytes(31)], [0.3, new Uint8Array(0)]]);
      items.push({ to, token_id: id, memo: this.memo(m), from_subaccount: fs, created_at_time: good ? r.w([[6, null], [3, this.createdOk(m)]]) : this.created(m, { none: 6 }) });
    }
    return { by, m: 'icrc7_transfer', args: [items] };
  }
  approvalInfo(m, from, good) {
    const r = this.r;
    const spender = good ? this.user() : r.p(0.4) ? { owner: ANON, subaccount: r.pick(SUBS) } : this.account();
    return { spender, from_subaccount: good ? this.sub(from.subaccount) : r.pick(SUBS), expires_at: this.expiry(), memo: r.p(0.7) ? null : this.memo(m), created_at_time: good || r.p(0.5) ? this.createdOk(m) : this.created(m, {}) };
  }
  icrc37_approve_tokens(m) {
    const r = this.r; const n = this.size(m, 100n);
    const first = this.someToken(m); const o = first !== null ? m.tokens.get(first).owner : this.user();
    const by = r.p(0.9) ? o.owner : this.caller(); const items = [];
    for (let k = 0; k < n; k++) {
      const good = r.p(this.p.valid ?? 0.75);
      const id = good ? (k === 0 && first !== null ? first : this.someToken(m, (i, t) => t.owner.owner === by) ?? this.anyId(m)) : this.anyId(m);
      const t = m.tokens.get(id);
      const ai = this.approvalInfo(m, t?.owner ?? o, good);
      if (r.p(0.15) && m.tokAppr.get(id)?.size) ai.spender = r.pick([...m.tokAppr.get(id).values()]).spender;
      items.push({ token_id: id, approval_info: ai });
    }
    return { by, m: 'icrc37_approve_tokens', args: [items] };
  }
  icrc37_approve_collection(m) {
    const r = this.r; const n = this.size(m, 100n);
    const first = this.someToken(m); const o = first !== null && r.p(0.9) ? m.tokens.get(first).owner : this.user();
    const by = r.p(0.95) ? o.owner : this.caller(); const items = [];
    for (let k = 0; k < n; k++) {
      const ai = this.approvalInfo(m, o, r.p(this.p.valid ?? 0.75));
      const map = m.collAppr.get(akey(o)); if (r.p(0.15) && map?.size) ai.spender = r.pick([...map.values()]).spender;
      items.push({ approval_info: ai });
    }
    return { by, m: 'icrc37_approve_collection', args: [items] };
  }
  pickSpender(map) { const r = this.r; const xs = [...(map?.values() ?? [])]; return r.w([[xs.length ? 6 : 0, () => ({ ...r.pick(xs).spender })], [2, () => null], [1.5, () => this.user()]])(); }
  icrc37_revoke_token_approvals(m) {
    const r = this.r; const n = this.size(m, BigInt(m.revokeLimit));
    const first = this.someToken(m, (i) => m.tokAppr.get(i)?.size) ?? this.someToken(m); const o = first !== null ? m.tokens.get(first).owner : this.user();
    const by = r.p(0.9) ? o.owner : this.caller(); const items = [];
    for (let k = 0; k < n; k++) {
      const good = r.p(this.p.valid ?? 0.75);
      const id = good ? (k === 0 && first !== null ? first : this.someToken(m, (i, t) => t.owner.owner === by) ?? this.anyId(m)) : this.anyId(m);
      const t = m.tokens.get(id); const sp = this.pickSpender(m.tokAppr.get(id)); if (sp) sp.subaccount = this.sub(sp.subaccount);
      items.push({ spender: sp, from_subaccount: t && (good || r.p(0.3)) ? this.sub(t.owner.subaccount) : r.pick(SUBS), token_id: id, memo: r.p(0.8) ? null : this.memo(m), created_at_time: good ? r.w([[3, null], [1, this.createdOk(m)]]) : this.created(m, { none: 8 }) });
    }
    return { by, m: 'icrc37_revoke_token_approvals', args: [items] };
  }
  icrc37_revoke_collection_approvals(m) {
    const r = this.r; const n = this.size(m, BigInt(m.revokeLimit));
    const keys = [...m.collAppr].filter(([, v]) => v.size).map(([k]) => k);
    const k0 = keys.length && r.p(0.85) ? r.pick(keys) : null;
    const acc = k0 ? ACCOUNTS.find((a) => akey(a) === k0) ?? this.user() : this.user();
    const by = r.p(0.92) ? acc.owner : this.caller(); const items = [];
    for (let k = 0; k < n; k++) {
      const good = r.p(this.p.valid ?? 0.75);
      const sp = this.pickSpender(m.collAppr.get(akey(acc))); if (sp) sp.subaccount = this.sub(sp.subaccount);
      items.push({ spender: sp, from_subaccount: good ? this.sub(acc.subaccount) : r.pick(SUBS), memo: r.p(0.8) ? null : this.memo(m), created_at_time: good ? r.w([[3, null], [1, this.createdOk(m)]]) : this.created(m, { none: 8 }) });
    }
    return { by, m: 'icrc37_revoke_collection_approvals', args: [items] };
  }
  spendersOf(m, id) { const t = m.tokens.get(id); if (!t) return []; return [...(m.tokAppr.get(id)?.values() ?? []), ...(m.collAppr.get(akey(t.owner))?.values() ?? [])].map((a) => a.spender); }
  icrc37_transfer_from(m) {
    const r = this.r; const n = this.size(m, 100n);
    const first = this.someToken(m, (i) => this.spendersOf(m, i).length) ?? this.someToken(m);
    const sp0 = first !== null && this.spendersOf(m, first).length && r.p(0.85) ? r.pick(this.spendersOf(m, first)) : r.p(0.5) && first !== null ? m.tokens.get(first).owner : this.user();
    const by = sp0.owner; const items = [];
    for (let k = 0; k < n; k++) {
      const good = r.p(this.p.valid ?? 0.75);
      const id = k === 0 && first !== null && r.p(0.9) ? first : good ? (this.someToken(m, (i) => this.spendersOf(m, i).some((s) => s.owner === by)) ?? this.anyId(m)) : this.anyId(m);
      const t = m.tokens.get(id);
      const mine = this.spendersOf(m, id).filter((s) => s.owner === by);
      const ss = good ? (mine.length ? r.pick(mine).subaccount : sp0.subaccount) : r.pick(SUBS);
      let to = this.user(); if (!good && r.p(0.4)) to = this.account();
      const from = t && (good || r.p(0.5)) ? { owner: t.owner.owner, subaccount: this.sub(t.owner.subaccount) } : this.user();
      items.push({ spender_subaccount: this.sub(ss), from, to, token_id: id, memo: r.p(0.8) ? null : this.memo(m), created_at_time: good ? r.w([[3, null], [1, this.createdOk(m)]]) : this.created(m, { none: 8 }) });
    }
    return { by, m: 'icrc37_transfer_from', args: [items] };
  }
  holder(m, perm) { const r = this.r; const hs = [...m.perms].filter(([, s]) => s.has(perm)).map(([p]) => p); return hs.length && r.p(this.p.permOk ?? 0.93) ? r.pick(hs) : r.pick([...USERS, ANON, ADMIN]); }
  mint(m, now) {
    const r = this.r; const room = Number(m.cap - BigInt(m.tokens.size) > 20n ? 20n : maxN(m.cap - BigInt(m.tokens.size), 0n));
    const lim = Number(m.maxUpdate > 20n ? 20n : m.maxUpdate);
    const n = r.w([[6, 1], [4, r.int(2, 4)], [0.3, 0], [room <= 5 ? 1 : 0.1, room + r.int(0, 1)], [lim <= 6 ? 1 : 0, lim + r.int(0, 1)], [0.2, r.int(5, 7)]]);
    if (this.p.bigMint && r.p(this.p.bigMint)) { // many at once, all to a few accounts
      const k = Number(m.maxUpdate < 300n ? m.maxUpdate : 300n), left = m.cap - BigInt(m.tokens.size);
      const all = Math.min(k, left < 300n ? Number(maxN(left, 0n)) : 300, r.pick([9, 11, 12, 13, 14, 21, 65]));
      if (all > 7) { const a = this.user(), b = this.user(); m.count('mint of more than seven'); return { by: this.holder(m, 'Minting'), m: 'mint', args: [{ mint_requests: Array.from({ length: all }, () => ({ token_owner: r.p(0.5) ? a : b, memo: null, metadata: r.p(0.05) ? this.meta() : [] })) }] }; }
    }
    return { by: this.holder(m, 'Minting'), m: 'mint', args: [{ mint_requests: Array.from({ length: n }, () => ({ token_owner: r.p(0.9) ? this.user() : this.account(), memo: this.memo(m), metadata: r.p(this.p.metaHeavy ? 0.9 : 0.4) ? this.meta() : [] })) }] };
  }
  burn_nft(m) {
    const r = this.r; const id = r.p(0.85) ? this.someToken(m) ?? this.anyId(m) : this.anyId(m); const t = m.tokens.get(id);
    return { by: t && r.p(0.75) ? t.owner.owner : this.caller(), m: 'burn_nft', args: [id] };
  }
  update_nft_metadata(m) { return { by: this.holder(m, 'UpdateMetadata'), m: 'update_nft_metadata', args: [{ token_id: this.anyId(m), metadata: this.meta() }] }; }
  update_collection_metadata(m) {
    const r = this.r; const o = {};
    const ks = { description: ['d1', '', 'ünï'], symbol: ['A', 'B2', ''], name: ['n', 'm m'], logo: ['https://a.b/c', 'not a url', ''], supply_cap: [0n, 2n, 5n, 9n, 40n, 10n ** 30n], max_query_batch_size: [0n, 1n, 3n, 6n, 500n], max_update_batch_size: [0n, 1n, 2n, 4n, 60n],
      max_take_value: [1n, 2n, 4n, 500n], default_take_value: [0n, 1n, 3n, 500n], max_memo_size: [0n, 1n, 8n, 64n], atomic_batch_transfers: [true, false], tx_window: [0n, 100n * MS, 2n * SEC, 30n * SEC, 333_333_333n], permitted_drift: [0n, 1n, 80n * MS, 2n * SEC], max_canister_storage_threshold: [0n, 77n] };
    const names = r.shuffle(Object.keys(ks)).slice(0, r.w([[5, 1], [3, 2], [2, r.int(3, 14)], [0.5, 0]]));
    for (const k of names) o[k] = typeof ks[k][0] === 'bigint' && r.p(this.p.huge ?? 0.04) ? r.pick(HUGE) : r.pick(ks[k]);
    if (r.p(0.2)) o.collection_metadata = this.entries(r.int(0, 2));
    return { by: this.holder(m, 'UpdateCollectionMetadata'), m: 'update_collection_metadata', args: [o] };
  }
  perm(m, name) { const r = this.r; const p = r.pick(PERMS); const target = name === 'revoke_permission' && r.p(0.7) ? r.pick([...m.perms.keys()]) : r.pick(PRINCIPALS); return { by: this.holder(m, 'ManageAuthorities'), m: name, args: [{ principal: target, permission: { [name === 'revoke_permission' && m.perms.get(target)?.size && r.p(0.8) ? r.pick([...m.perms.get(target)]) : p]: null } }] }; }
  grant_permission(m) { return this.perm(m, 'grant_permission'); }
  revoke_permission(m) {
    const op = this.perm(m, 'revoke_permission');
    // keep one holder of ManageAuthorities most of the time, or the rest of the history is all refusals
    const a = op.args[0]; if ('ManageAuthorities' in a.permission && a.principal === ADMIN && this.r.p(0.9)) a.permission = { ReadUploads: null };
    return op;
  }

  // ---------------------------------------------------------------- uploads
  uploader(m) { return this.holder(m, 'UpdateUploads'); }
  plan(path) { // what is being uploaded to a path
    const r = this.r; const data = r.bytes(r.w([[4, r.int(1, 30)], [1, 1], [0.4, 200], [this.p.bigFiles ?? 0, r.pick([1048576, 1048577, 2100000])]]));
    const chunk = data.length > 1000 ? r.pick([null, 1048576n, 700001n]) : this.p.oneChunk && r.p(this.p.oneChunk) ? BigInt(data.length) : r.w([[4, BigInt(r.int(1, 12))], [1, BigInt(data.length)], [1, null], [0.3, 1000n]]);
    const p = { data, chunk, hash: r.p(0.92) ? crypto.createHash('sha256').update(data).digest('hex') : r.pick(['', 'zz', '00'.repeat(32)]) };
    (this.files ??= new Map()).set(path, p); return p;
  }
  path(m, state) { const r = this.r; const xs = [...m.uploads].filter(([, u]) => !state || state(u)).map(([k]) => k); return xs.length && r.p(0.9) ? r.pick(xs) : r.pick(this.paths); }
  init_upload(m) {
    const r = this.r; const free = this.paths.filter((p) => !m.uploads.has(p)); const file_path = r.p(this.p.oddPaths ?? 0) ? r.pick(ODD_PATHS) : free.length && r.p(0.85) ? r.pick(free) : r.pick(this.paths);
    const p = m.uploads.has(file_path) ? { data: new Uint8Array(3), chunk: 3n, hash: 'x' } : this.plan(file_path);
    return { by: this.uploader(m), m: 'init_upload', args: [{ file_path, file_hash: p.hash, file_size: r.w([[20, BigInt(p.data.length)], [1, BigInt(p.data.length) + 1n], [0.5, 2n ** 31n + 1n], [0.3, 2n ** 63n]]), chunk_size: r.w([[20, p.chunk], [0.5, 0n], [0.5, 5_000_000n]]) }] };
  }
  store_chunk(m) {
    const r = this.r; let file_path = this.path(m, (u) => u.state !== 'Finalized');
    const open = [...m.uploads].filter(([, u]) => u.state !== 'Finalized' && !u.gone && !m.content(u)).map(([k]) => k); if (open.length && r.p(0.7)) file_path = r.pick(open);
    const p = this.files?.get(file_path) ?? { data: new Uint8Array(5), chunk: 5n }; const u = m.uploads.get(file_path);
    const c = Number(p.chunk ?? 1048576n), n = Math.max(1, Math.ceil(p.data.length / c)); let id = r.int(0, n - 1);
    const missing = []; for (let k = 0; k < n; k++) if (!u?.chunks.has(BigInt(k))) missing.push(k);
    if (missing.length && r.p(0.93)) id = r.pick(missing);
    let data = p.data.slice(id * c, id * c + c); let cid = BigInt(id);
    if (r.p(0.05)) data = r.w([[1, () => data.slice(1)], [1, () => new Uint8Array([...data, 1])], [1, () => r.bytes(data.length)]])();
    if (r.p(0.03)) cid = r.pick([BigInt(n), BigInt(n + 3)]);
    return { by: this.uploader(m), m: 'store_chunk', args: [{ file_path, chunk_id: cid, chunk_data: data }] };
  }
  file(m, dt = 0n) { // a whole upload at once
    const r = this.r; const data = r.bytes(r.int(1, 30)); const free = this.paths.filter((p) => !m.uploads.has(p));
    return { dt, x: 'file', args: [{ by: this.uploader(m), path: r.pick(free.length ? free : this.paths), data, chunk: BigInt(r.pick([data.length, 7, 100])), hash: crypto.createHash('sha256').update(data).digest('hex') }] };
  }
  fault() { const r = this.r; return { n: r.int(0, 5), len: r.w([[1, 1], [1, 2], [4, r.int(3, 6)], [2, 100]]), how: r.p(0.75) ? 'before' : 'perform', code: r.pick([1, 2, 3, 4, 5]) }; }
  finalize_upload(m) {
    const r = this.r; const ready = [...m.uploads].filter(([, u]) => u.state === 'InProgress' && !u.gone && m.content(u)).map(([k]) => k);
    return { by: this.uploader(m), m: 'finalize_upload', args: [{ file_path: ready.length && r.p(0.8) ? r.pick(ready) : this.path(m) }] };
  }
  cancel_upload(m) { const r = this.r; return { by: this.uploader(m), m: 'cancel_upload', args: [{ file_path: this.path(m, r.p(0.8) ? (u) => u.state !== 'Finalized' : null) }] }; }
}
