// Reference model of the ledger canister, written from the properties (not from the code's data
// structures). `step` is given a call and the answer the real canister gave; it decides whether that
// answer is one the properties allow, records a deviation if not, and then follows the canister, so
// that one wrong answer does not make everything after it look wrong as well.
//
// A deviation is {kind:'res'|'view', m, causes:[...], got, msg}; each check owns the deviations its
// property speaks about (see props.mjs) and ignores the others.
import crypto from 'node:crypto';
import { akey, ANON, MS, SEC, DAY, hex, subHex } from './util.mjs';
import { show } from '../sim/candid.mjs';
import { PERMS, SETTINGS } from '../sim/core.mjs';

const sha256 = (b) => crypto.createHash('sha256').update(b).digest('hex');
const RATE_NS = 60n * MS;
const variantOf = (e) => (typeof e === 'object' && e !== null ? Object.keys(e)[0] : String(e));
export const normAcc = (a) => ({ owner: a.owner, subaccount: a.subaccount == null || subHex(a.subaccount) === '00'.repeat(32) ? null : a.subaccount });

export function canonMeta(entries) { // last entry of a key wins, keys sorted
  const m = new Map();
  for (const [k, v] of entries) m.set(k, v);
  return [...m].sort((a, b) => cmpText(a[0], b[0])).map(([k, v]) => [k, canonValue(v)]);
}
const cmpText = (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b));
export function canonValue(v) {
  const k = variantOf(v);
  if (k === 'Array') return { Array: v.Array.map(canonValue) };
  if (k === 'Map') return { Map: canonMeta(v.Map) };
  if (k === 'Blob') return { Blob: Uint8Array.from(v.Blob) };
  return { [k]: v[k] };
}

// The URL path of a file, and whether requests for it can be answered with the file.
export const urlOf = (p) => (p.startsWith('/') ? p : `/${p}`);
export const servable = (url) => !/[ ?#]|%[0-9a-fA-F]{2}/.test(url) && !['/metrics', '/logs', '/traces'].includes(url);
export class Model {
  constructor(init, installer) {
    this.tokens = new Map(); // id -> {owner, meta}
    this.everMinted = new Set();
    this.nextId = 1n;
    this.tokAppr = new Map(); // id -> Map(spender key -> approval)
    this.collAppr = new Map(); // owner key -> Map
    this.log = []; // blocks that must exist, in order
    this.window = BigInt(init.tx_window ?? 0n); // of the transaction log
    this.rate = new Map();
    this.uploads = new Map();
    this.settings = {};
    for (const s of SETTINGS) this.settings[s] = init[s] ?? null;
    this.settings.symbol = init.symbol ?? 'VP'; this.settings.name = init.name ?? 'Verif';
    this.maxAppr = init.approval_init?.max_approvals_per_token_or_collection ?? null;
    this.maxRevoke = init.approval_init?.max_revoke_approvals ?? null;
    this.perms = new Map();
    for (const [p, ps] of init.permissions?.user_permissions ?? []) this.perms.set(p, new Set(ps.map(variantOf)));
    if (init.test_mode ?? true) this.perms.set(installer, new Set([...(this.perms.get(installer) ?? []), ...PERMS]));
    this.devs = [];
    this.stats = {};
    this.lost = false; // the model no longer knows the state
  }
  count(k) { this.stats[k] = (this.stats[k] ?? 0) + 1; }
  dev(kind, m, causes, got, msg) { this.devs.push({ kind, m, causes: [...causes], got, msg }); }
  set(name, dflt) { const v = this.settings[name]; return v === null || v === undefined ? dflt : BigInt(v); }
  get drift() { return this.set('permitted_drift', 50n * MS); }
  get txWindow() { return this.set('tx_window', 10n * SEC); }
  get maxUpdate() { return this.set('max_update_batch_size', 100n); }
  get maxQuery() { return this.set('max_query_batch_size', 100n); }
  get maxTake() { return this.set('max_take_value', 100n); }
  get defTake() { return this.set('default_take_value', 100n); }
  get maxMemo() { return this.set('max_memo_size', 1_000_000n); }
  get cap() { return this.set('supply_cap', 10_000n); }
  get apprLimit() { return Number(this.maxAppr ?? 10n); }
  get revokeLimit() { return Number(this.maxRevoke ?? 10n); }
  has(p, perm) { return this.perms.get(p)?.has(perm) ?? false; }
  owned(key) { const r = []; for (const [id, t] of this.tokens) if (akey(t.owner) === key) r.push(id); return r; }
  ownsAny(p) { for (const t of this.tokens.values()) if (t.owner.owner === p) return true; return false; }

  // ---------------------------------------------------------------- transaction log
  inWindow(now, slack = 0n) { // entries logged within the window (they are in order of time)
    const r = [];
    for (let i = this.log.length - 1; i >= 0; i--) { const b = this.log[i]; if (b.ts + this.window + slack >= now) r.push(i); else break; }
    return r;
  }
  // The log holds 1000 blocks that are not archived; `archived` is what is known to be.
  mayFull(extra = 0) { return this.log.length + extra - (this.archived ?? 0) >= 1000; }
  mayThrottle(now, extra = 0) { return this.mayFull(extra) || this.inWindow(now, 100n * MS).length + extra >= 5; }
  txKey(b) { return show([b.op, b.tid ?? null, b.from?.owner ?? null, b.to?.owner ?? null, b.spender?.owner ?? null, b.memo ?? null, b.created ?? null, b.exp ?? null, b.meta ?? null]); }
  // 'must' (a repeat inside the window), 'may' (on the edge of it) or null; at: block index.
  duplicate(b, now) {
    const k = this.txKey(b);
    for (const i of this.inWindow(now, 100n * MS)) if (this.log[i].key === k) return { sure: this.log[i].ts + this.window >= now ? 'must' : 'may', at: i };
    return null;
  }
  push(b, now) { b.ts = now; b.key = this.txKey(b); this.log.push(b); }

  // ---------------------------------------------------------------- rate limit
  rateHit(id, now) { // true: the call must be limited
    const k = String(id);
    const h = (this.rate.get(k) ?? []).filter((t) => now - t < RATE_NS);
    this.rate.set(k, h);
    if (h.length >= 5) { this.count('rate-limited'); return true; }
    h.push(now); return false;
  }
  timing(created, now, strict) { // strict: icrc7_transfer, which adds the drift to the window
    if (created > now + this.drift) return 'CreatedInFuture';
    if (created + this.txWindow + (strict ? this.drift : 0n) < now) return 'TooOld';
    return null;
  }

  // ---------------------------------------------------------------- approvals
  live(a, now) { return a.exp === null || a.exp > now; }
  approved(id, spender, now) {
    const t = this.tokens.get(id); if (!t) return false;
    const k = akey(spender);
    const a = this.tokAppr.get(id)?.get(k); if (a && this.live(a, now)) return true;
    const c = this.collAppr.get(akey(t.owner))?.get(k); return !!(c && this.live(c, now));
  }
  // Whether one more spender exceeds the limit: true, false or 'maybe' (expired approvals may count).
  overLimit(map, spender, now) {
    if (!map) return false;
    const mine = map.get(akey(spender)); if (mine && this.live(mine, now)) return false;
    let live = 0; for (const a of map.values()) if (this.live(a, now)) live++;
    if (live >= this.apprLimit) return mine ? 'maybe' : true;
    return map.size - (mine ? 1 : 0) >= this.apprLimit ? 'maybe' : false; // an expired approval of this spender may be gone already
  }
  dropToken(id) { this.tokAppr.delete(id); }

  // ---------------------------------------------------------------- deciding one item
  // conds: Map of allowed error variant -> cause; opts: {maybe: [variants also allowed], dup, throttleErr}
  judge(m, conds, maybe, actual, what, dup, extra = {}) {
    const must = conds.size > 0;
    const causes = [...conds.values()];
    if (actual === null || actual === undefined) { this.dev('res', m, causes, 'none', `${m}: no answer for ${what}`); return 'err'; }
    if ('Ok' in actual) {
      if (must) this.dev('res', m, causes, 'Ok', `${m} succeeded, expected ${[...conds.keys()].join(' or ')} (${causes}): ${what}`);
      return 'ok';
    }
    const e = variantOf(actual.Err);
    this.count(`${m}:${e}`);
    if (conds.has(e) || maybe.has(e)) {
      if (e === 'CreatedInFuture' && actual.Err[e].ledger_time !== extra.now) this.dev('res', m, ['time'], e, `${m}: CreatedInFuture says ledger_time ${actual.Err[e].ledger_time}, it is ${extra.now}`);
      return 'err';
    }
    this.dev('res', m, causes, e, must ? `${m} answered ${show(actual.Err)}, expected ${[...conds.keys()].join(' or ')} (${causes}): ${what}` : `${m} answered ${show(actual.Err)}, expected success: ${what}`);
    return 'err';
  }
  // What logging `b` adds to the verdict of an otherwise valid item.
  logging(m, b, now, conds, maybe) {
    const dup = this.duplicate(b, now);
    const dupErr = m === 'icrc7_transfer' || m === 'icrc37_transfer_from' ? 'Duplicate' : 'GenericError';
    if (dup) { if (dup.sure === 'must') conds.set(dupErr, 'dup'); else maybe.add(dupErr); this.count('duplicate'); }
    if (this.mayThrottle(now)) { maybe.add('GenericError'); this.count('maythrottle'); }
    return dup;
  }
  checkDup(m, dup, actual, now) {
    if (!dup || !actual?.Err?.Duplicate) return;
    const got = actual.Err.Duplicate.duplicate_of;
    this.count('duplicate ids');
    if (got !== BigInt(dup.at)) this.dev('dupid', m, ['dup'], 'Duplicate', `${m}: duplicate_of is ${got}, the original is block ${dup.at} of ${this.log.length}`);
  }
  okId(m, actual) { if (actual.Ok !== BigInt(this.log.length)) this.dev('res', m, ['txid'], 'Ok', `${m} answered transaction ${actual.Ok}, it is number ${this.log.length} of the log`); }

  // ---------------------------------------------------------------- calls
  // res: {v} or {rej}. Returns 'ok' if anything succeeded, 'fail' otherwise.
  step(now, by, m, args, res) {
    const f = this[`do_${m}`];
    this.count(`call:${m}`);
    const n = this.log.length;
    const r = f.call(this, now, by, args[0], res, args);
    this.count(`${r}:${m}`);
    this.lastLogged = this.log.length - n;
    return r;
  }
  rejected(m, res, causes = ['trap']) { this.dev('res', m, causes, res.rej.trapped ? 'trap' : 'reject', `${m} was rejected: ${res.rej.msg.slice(0, 300)}`); return 'fail'; }

  do_icrc7_transfer(now, by, items, res) {
    const m = 'icrc7_transfer';
    const atomic = this.settings.atomic_batch_transfers === true;
    const saved = atomic ? this.save() : null;
    if (res.rej) {
      if (items.some((i) => (i.to.subaccount && i.to.subaccount.length !== 32))) return 'fail'; // does not decode
      if (!atomic || items.length < 2) return this.rejected(m, res);
      // all or none: the trap must be justified by an item that had to, or could, fail
      const verdict = this.simulateAtomic(now, by, items);
      this.load(saved);
      if (verdict === 'ok') this.dev('res', m, ['atomic'], 'trap', `atomic batch trapped though every transfer is valid: ${res.rej.msg.slice(0, 200)}`);
      this.count('atomic-trap');
      return 'fail';
    }
    const out = res.v;
    if (!Array.isArray(out)) { this.dev('res', m, ['shape'], 'shape', show(out)); this.lost = true; return 'fail'; }
    if (items.length === 0) { if (out.length) this.dev('res', m, ['batch'], 'shape', `empty batch answered ${show(out)}`); return 'fail'; }
    const whole = (cause) => {
      const bad = out.some((x) => x && 'Ok' in x) || !out.length || out.some((x) => !x?.Err?.GenericError);
      if (bad) { this.dev('res', m, [cause], out.some((x) => x && 'Ok' in x) ? 'Ok' : 'shape', `${m} (${cause}) answered ${show(out)}`); this.lost = true; }
      return 'fail';
    };
    if (atomic && BigInt(items.length) > this.maxUpdate) return whole('batch');
    if (by === ANON) return whole('anon');
    const n = items.length > this.maxUpdate ? Number(this.maxUpdate) : items.length;
    if (n < items.length) this.count('truncated');
    if (out.length !== n) { this.dev('res', m, ['batch'], 'shape', `${m} answered ${out.length} results for ${items.length} items (limit ${this.maxUpdate})`); if (out.length > items.length) { this.lost = true; return 'fail'; } }
    let ok = 0;
    for (let i = 0; i < out.length; i++) if (this.transfer(now, by, items[i], out[i])) ok++;
    if (atomic && ok > 0 && ok < out.length) this.dev('res', m, ['atomic'], 'mixed', `atomic batch transferred ${ok} of ${out.length} tokens`);
    if (atomic && ok > 1) this.count('atomic-ok');
    return ok ? 'ok' : 'fail';
  }
  transferConds(now, by, a) {
    const m = 'icrc7_transfer';
    const conds = new Map(), maybe = new Set();
    if (this.rateHit(a.token_id, now)) { conds.set('GenericError', 'rate'); return { conds, maybe, limited: true }; }
    const t = this.tokens.get(a.token_id);
    if (a.memo != null && BigInt(a.memo.length) > this.maxMemo) conds.set('GenericError', 'memo');
    const created = a.created_at_time ?? now;
    const time = this.timing(created, now, true);
    if (time) conds.set(time, 'time');
    if (!t) conds.set('NonExistingTokenId', 'exist');
    else {
      if (t.owner.owner !== by) { conds.set('InvalidRecipient', 'owner'); conds.set('Unauthorized', 'owner'); }
      else if (subHex(a.from_subaccount) !== subHex(t.owner.subaccount)) conds.set('Unauthorized', 'subaccount');
      if (a.to.owner === ANON || akey(a.to) === akey(t.owner)) conds.set('InvalidRecipient', 'recipient');
    }
    if (conds.size) return { conds, maybe };
    const b = { op: '7xfer', tid: a.token_id, from: t.owner, to: a.to, memo: a.memo ?? null, created };
    const dup = this.logging(m, b, now, conds, maybe);
    return { conds, maybe, b, dup };
  }
  transfer(now, by, a, actual) {
    const m = 'icrc7_transfer';
    const { conds, maybe, b, dup } = this.transferConds(now, by, a);
    const v = this.judge(m, conds, maybe, actual, show({ by, ...a, now }), dup, { now });
    this.checkDup(m, dup, actual, now);
    if (v !== 'ok') return false;
    const t = this.tokens.get(a.token_id);
    this.push(b ?? { op: '7xfer', tid: a.token_id, from: t?.owner ?? { owner: by }, to: a.to, memo: a.memo ?? null, created: a.created_at_time ?? now }, now);
    this.okId(m, actual);
    if (!t) { this.lost = true; return true; }
    t.owner = normAcc(a.to); this.dropToken(a.token_id); this.count('transferred');
    return true;
  }
  simulateAtomic(now, by, items) { // 'ok' if every item has to succeed
    if (BigInt(items.length) > this.maxUpdate || by === ANON) return 'err';
    let n = 0;
    for (const a of items) {
      const { conds, maybe, b } = this.transferConds(now, by, a);
      if (conds.size || maybe.size) return 'err';
      this.push(b, now); const t = this.tokens.get(a.token_id); this.tokens.set(a.token_id, { ...t, owner: normAcc(a.to) }); n++;
    }
    return 'ok';
  }
  save() { return { tokens: new Map(this.tokens), log: [...this.log], rate: new Map([...this.rate].map(([k, v]) => [k, [...v]])) }; }
  load(s) { this.tokens = s.tokens; this.log = s.log; this.rate = s.rate; }

  // Runs a vector call whose answer is {Ok: [opt result]} (or just the vector).
  batch(m, items, limit, res, one) {
    if (res.rej) return this.rejected(m, res);
    let out = res.v;
    if (out && out.Ok) out = out.Ok;
    else if (out && out.Err) { this.dev('res', m, ['batch'], variantOf(out.Err), `${m} answered ${show(out)} for the whole batch`); return 'fail'; }
    if (!Array.isArray(out)) { this.dev('res', m, ['shape'], 'shape', show(out)); this.lost = true; return 'fail'; }
    const n = Math.min(items.length, limit);
    if (n < items.length) this.count('truncated');
    if (out.length !== n) { this.dev('res', m, ['batch'], 'shape', `${m} answered ${out.length} results for ${items.length} items (limit ${limit})`); if (out.length > items.length) { this.lost = true; return 'fail'; } }
    let ok = 0;
    for (let i = 0; i < out.length; i++) if (one(items[i], out[i])) ok++;
    return ok ? 'ok' : 'fail';
  }

  do_icrc37_approve_tokens(now, by, items, res) {
    const m = 'icrc37_approve_tokens';
    return this.batch(m, items, Infinity, res, (a, actual) => {
      const conds = new Map(), maybe = new Set(); let b, dup;
      const i = a.approval_info; const from = { owner: by, subaccount: i.from_subaccount ?? null };
      const t = this.tokens.get(a.token_id);
      if (this.rateHit(a.token_id, now)) conds.set('GenericError', 'rate');
      else {
        const time = this.timing(i.created_at_time, now, false); if (time) conds.set(time, 'time');
        if (!t) conds.set('NonExistingTokenId', 'exist');
        else if (akey(t.owner) !== akey(from)) conds.set('Unauthorized', 'owner');
        if (i.spender.owner === ANON) conds.set('InvalidSpender', 'spender');
        const over = this.overLimit(this.tokAppr.get(a.token_id), i.spender, now);
        if (over === 'maybe') maybe.add('GenericError'); else if (over) conds.set('GenericError', 'limit');
        if (!conds.size) {
          b = { op: '37approve', tid: a.token_id, from, spender: i.spender, memo: i.memo ?? null, created: i.created_at_time, exp: i.expires_at ?? null };
          dup = this.logging(m, b, now, conds, maybe);
        }
      }
      if (this.judge(m, conds, maybe, actual, show({ by, ...a, now }), dup, { now }) !== 'ok') return false;
      this.push(b ?? { op: '37approve', tid: a.token_id, from, spender: i.spender, memo: i.memo ?? null, created: i.created_at_time, exp: i.expires_at ?? null }, now);
      this.okId(m, actual);
      this.approve(this.tokAppr, a.token_id, i, from, now);
      return true;
    });
  }
  approve(map, key, i, from, now) {
    if (!map.has(key)) map.set(key, new Map());
    map.get(key).set(akey(i.spender), { spender: normAcc(i.spender), from: normAcc(from), exp: i.expires_at ?? null, memo: i.memo ?? null, at: now });
  }
  do_icrc37_approve_collection(now, by, items, res) {
    const m = 'icrc37_approve_collection';
    return this.batch(m, items, Infinity, res, (a, actual) => {
      const conds = new Map(), maybe = new Set(); let b, dup;
      const i = a.approval_info; const from = { owner: by, subaccount: i.from_subaccount ?? null };
      const mk = () => ({ op: '37approve_coll', from, spender: i.spender, memo: i.memo ?? null, created: i.created_at_time, exp: i.expires_at ?? null });
      if (this.rateHit(0n, now)) conds.set('GenericError', 'rate');
      else {
        const time = this.timing(i.created_at_time, now, false); if (time) conds.set(time, 'time');
        if (i.spender.owner === ANON) conds.set('InvalidSpender', 'spender');
        if (!this.ownsAny(by)) conds.set('GenericError', 'owner');
        const over = this.overLimit(this.collAppr.get(akey(from)), i.spender, now);
        if (over === 'maybe') maybe.add('GenericError'); else if (over) conds.set('GenericError', 'limit');
        if (!conds.size) { b = mk(); dup = this.logging(m, b, now, conds, maybe); }
      }
      if (this.judge(m, conds, maybe, actual, show({ by, ...a, now }), dup, { now }) !== 'ok') return false;
      this.push(b ?? mk(), now); this.okId(m, actual);
      this.approve(this.collAppr, akey(from), i, from, now);
      return true;
    });
  }
  // Removing: [conds, maybe] for the named spender (null: all) of an approval map.
  revokeConds(map, spender, now, conds, maybe) {
    const targets = spender ? [map?.get(akey(spender))].filter(Boolean) : [...(map?.values() ?? [])];
    if (!targets.length) conds.set('ApprovalDoesNotExist', 'approval');
    else if (!targets.some((a) => this.live(a, now))) maybe.add('ApprovalDoesNotExist');
  }
  doRevoke(map, spender) { if (!map) return; if (spender) map.delete(akey(spender)); else map.clear(); }
  do_icrc37_revoke_token_approvals(now, by, items, res) {
    const m = 'icrc37_revoke_token_approvals';
    if (items.length && !res.rej && this.rateHit(items[0].token_id, now)) {
      const v = variantOf(res.v);
      const fails = v === 'Err' ? variantOf(res.v.Err) === 'GenericError' : Array.isArray(res.v?.Ok) && res.v.Ok.length > 0 && res.v.Ok[0]?.Err?.GenericError;
      if (!fails) { this.dev('res', m, ['rate'], 'Ok', `${m} answered ${show(res.v)} beyond the rate limit`); this.lost = true; }
      return 'fail';
    }
    if (items.length && !res.rej && res.v?.Err) { this.dev('res', m, [], variantOf(res.v.Err), `${m} answered ${show(res.v)}`); return 'fail'; }
    return this.batch(m, items, this.revokeLimit, res, (a, actual) => {
      const conds = new Map(), maybe = new Set(); let b, dup;
      const from = { owner: by, subaccount: a.from_subaccount ?? null };
      const mk = () => ({ op: '37revoke', tid: a.token_id, from, spender: a.spender ?? null, memo: a.memo ?? null, created: a.created_at_time ?? null });
      const t = this.tokens.get(a.token_id);
      if (a.created_at_time != null) { const time = this.timing(a.created_at_time, now, false); if (time) conds.set(time, 'time'); }
      if (!t) conds.set('NonExistingTokenId', 'exist');
      else if (akey(t.owner) !== akey(from)) conds.set('Unauthorized', 'owner');
      const map = this.tokAppr.get(a.token_id);
      this.revokeConds(map, a.spender, now, conds, maybe);
      if (!conds.size) { b = mk(); dup = this.logging(m, b, now, conds, maybe); }
      if (this.judge(m, conds, maybe, actual, show({ by, ...a, now }), dup, { now }) !== 'ok') return false;
      this.push(b ?? mk(), now); this.okId(m, actual);
      this.doRevoke(map, a.spender); this.count('revoked');
      return true;
    });
  }
  do_icrc37_revoke_collection_approvals(now, by, items, res) {
    const m = 'icrc37_revoke_collection_approvals';
    return this.batch(m, items, this.revokeLimit, res, (a, actual) => {
      const conds = new Map(), maybe = new Set(); let b, dup;
      const from = { owner: by, subaccount: a.from_subaccount ?? null };
      const mk = () => ({ op: '37revoke_coll', from, spender: a.spender ?? null, memo: a.memo ?? null, created: a.created_at_time ?? null });
      const map = this.collAppr.get(akey(from));
      if (this.rateHit(0n, now)) conds.set('GenericError', 'rate');
      else {
        if (a.created_at_time != null) { const time = this.timing(a.created_at_time, now, false); if (time) conds.set(time, 'time'); }
        this.revokeConds(map, a.spender, now, conds, maybe);
        if (!conds.size) { b = mk(); dup = this.logging(m, b, now, conds, maybe); }
      }
      if (this.judge(m, conds, maybe, actual, show({ by, ...a, now }), dup, { now }) !== 'ok') return false;
      this.push(b ?? mk(), now); this.okId(m, actual);
      this.doRevoke(map, a.spender); this.count('revoked');
      return true;
    });
  }
  do_icrc37_transfer_from(now, by, items, res) {
    const m = 'icrc37_transfer_from';
    return this.batch(m, items, Infinity, res, (a, actual) => {
      const conds = new Map(), maybe = new Set(); let b, dup;
      const spender = { owner: by, subaccount: a.spender_subaccount ?? null };
      const mk = () => ({ op: '37xfer', tid: a.token_id, from: a.from, to: a.to, spender, memo: a.memo ?? null, created: a.created_at_time ?? null });
      const t = this.tokens.get(a.token_id);
      if (this.rateHit(a.token_id, now)) conds.set('GenericError', 'rate');
      else {
        if (a.created_at_time != null) { const time = this.timing(a.created_at_time, now, false); if (time) conds.set(time, 'time'); }
        if (!t) conds.set('NonExistingTokenId', 'exist');
        if (akey(a.from) === akey(a.to) || a.to.owner === ANON) conds.set('InvalidRecipient', 'recipient');
        if (t && akey(t.owner) !== akey(a.from)) conds.set('Unauthorized', 'owner');
        else if (t && akey(spender) !== akey(a.from) && !this.approved(a.token_id, spender, now)) conds.set('Unauthorized', 'approval');
        if (!conds.size) { b = mk(); dup = this.logging(m, b, now, conds, maybe); this.count(akey(spender) === akey(a.from) ? 'tf-by-owner' : 'tf-by-spender'); }
      }
      if (this.judge(m, conds, maybe, actual, show({ by, ...a, now }), dup, { now }) !== 'ok') { this.checkDup(m, dup, actual, now); return false; }
      this.push(b ?? mk(), now); this.okId(m, actual);
      if (!t) { this.lost = true; return true; }
      t.owner = normAcc(a.to); this.dropToken(a.token_id); this.count('transferred-from');
      if (!this.owned(akey(a.from)).length) this.collAppr.delete(akey(a.from));
      return true;
    });
  }

  // ---------------------------------------------------------------- management
  // Permission guard: returns true if the call was (rightly or not) refused for lack of it.
  denied(m, by, perm, res) {
    const may = this.has(by, perm);
    if (!may) {
      this.count(`denied:${m}`);
      if (!res.rej || res.rej.trapped) { this.dev('res', m, ['perm'], res.rej ? 'trap' : variantOf(res.v), `${m} was not rejected for ${by}, who lacks ${perm}: ${show(res)}`); return !('Ok' in (res.v ?? {})); }
      return true;
    }
    if (res.rej && !res.rej.trapped) { this.dev('res', m, ['perm-held'], 'reject', `${m} rejected ${by}, who holds ${perm}: ${res.rej.msg}`); return true; }
    return false;
  }
  do_mint(now, by, arg, res) {
    const m = 'mint';
    if (this.denied(m, by, 'Minting', res)) return 'fail';
    const reqs = arg.mint_requests, n = BigInt(reqs.length);
    const conds = new Map(), maybe = new Set();
    if (n > this.maxUpdate) conds.set('ExceedMaxAllowedSupplyCap', 'batch');
    if (BigInt(this.tokens.size) + n > this.cap) conds.set('ExceedMaxAllowedSupplyCap', 'cap');
    if (reqs.some((r) => r.memo != null && BigInt(r.memo.length) > this.maxMemo)) conds.set('InvalidMemo', 'memo');
    const w = this.inWindow(now, 100n * MS).length;
    let mayTrap = false;
    if (!conds.size && n > 0n) { if (w >= 5 || this.mayFull()) maybe.add('StorageCanisterError'); if (w + reqs.length > 5 || this.mayFull(reqs.length - 1)) mayTrap = true; }
    if (res.rej) { if (!mayTrap || !res.rej.trapped) return this.rejected(m, res); this.count('mint-throttled'); return 'fail'; }
    if (this.judge(m, conds, maybe, res.v, show({ by, n, now, supply: this.tokens.size }), null) !== 'ok') return 'fail';
    if (res.v.Ok !== this.nextId) this.dev('res', m, ['id'], 'Ok', `mint answered first id ${res.v.Ok}, expected ${this.nextId}`);
    let id = res.v.Ok;
    if (n > 0n && w + reqs.length > 5) this.count('mint-over-window');
    for (const r of reqs) {
      if (this.everMinted.has(id)) { this.dev('res', m, ['id'], 'Ok', `mint reuses id ${id}`); this.lost = true; }
      this.everMinted.add(id);
      this.tokens.set(id, { owner: normAcc(r.token_owner), meta: canonMeta(r.metadata) });
      this.push({ op: '7mint', tid: id, to: r.token_owner, memo: r.memo ?? null, created: now }, now);
      id++;
    }
    this.nextId = id;
    return n > 0n ? 'ok' : 'fail';
  }
  do_burn_nft(now, by, id, res) {
    const m = 'burn_nft';
    if (res.rej) return this.rejected(m, res);
    const conds = new Map(), maybe = new Set();
    const t = this.tokens.get(id);
    if (!t) conds.set('TokenDoesNotExist', 'exist'); else if (t.owner.owner !== by) conds.set('NotTokenOwner', 'owner');
    else if (this.mayThrottle(now)) maybe.add('StorageCanisterError');
    if (this.judge(m, conds, maybe, res.v, show({ by, id, now }), null) !== 'ok') return 'fail';
    this.push({ op: '7burn', tid: id, from: t?.owner ?? { owner: by }, created: now }, now);
    if (!t) { this.lost = true; return 'ok'; }
    this.tokens.delete(id); this.dropToken(id);
    return 'ok';
  }
  do_update_nft_metadata(now, by, arg, res) {
    const m = 'update_nft_metadata';
    if (this.denied(m, by, 'UpdateMetadata', res)) return 'fail';
    if (res.rej) return this.rejected(m, res);
    const conds = new Map(), maybe = new Set();
    const t = this.tokens.get(arg.token_id);
    let b;
    if (!t) conds.set('TokenDoesNotExist', 'exist');
    else {
      b = { op: '7update_token', tid: arg.token_id, from: { owner: by }, created: now, meta: { Map: [['icrc7:new_metadata', { Map: canonMeta(arg.metadata) }], ['icrc7:previous_metadata', { Map: t.meta }]] } };
      if (this.duplicate(b, now)) conds.set('StorageCanisterError', 'dup');
      if (this.mayThrottle(now)) maybe.add('StorageCanisterError');
    }
    if (this.judge(m, conds, maybe, res.v, show({ by, ...arg, now }), null) !== 'ok') return 'fail';
    if (!t) { this.lost = true; return 'ok'; }
    if (res.v.Ok !== arg.token_id) this.dev('res', m, ['id'], 'Ok', `update_nft_metadata answered ${res.v.Ok} for token ${arg.token_id}`);
    this.push(b, now); t.meta = canonMeta(arg.metadata);
    return 'ok';
  }
  do_update_collection_metadata(now, by, arg, res) {
    const m = 'update_collection_metadata';
    if (this.denied(m, by, 'UpdateCollectionMetadata', res)) return 'fail';
    if (res.rej) return this.rejected(m, res);
    if (this.judge(m, new Map(), new Set(), res.v, show({ by, ...arg }), null) !== 'ok') return 'fail';
    for (const s of SETTINGS) if (arg[s] !== null && arg[s] !== undefined) { this.settings[s] = arg[s]; this.count(`set:${s}`); }
    return 'ok';
  }
  do_grant_permission(now, by, arg, res) {
    const m = 'grant_permission';
    if (this.denied(m, by, 'ManageAuthorities', res)) return 'fail';
    if (res.rej) return this.rejected(m, res);
    if (this.judge(m, new Map(), new Set(), res.v, show(arg), null) !== 'ok') return 'fail';
    if (!this.perms.has(arg.principal)) this.perms.set(arg.principal, new Set());
    this.perms.get(arg.principal).add(variantOf(arg.permission));
    return 'ok';
  }
  do_revoke_permission(now, by, arg, res) {
    const m = 'revoke_permission';
    if (this.denied(m, by, 'ManageAuthorities', res)) return 'fail';
    if (res.rej) return this.rejected(m, res);
    if (this.judge(m, new Map(), new Set(), res.v, show(arg), null) !== 'ok') return 'fail';
    this.perms.get(arg.principal)?.delete(variantOf(arg.permission));
    return 'ok';
  }

  // ---------------------------------------------------------------- uploads
  // path -> {state, gone, size, chunk, hash, chunks: Map(id -> bytes), at}. `gone`: the storage canister
  // dropped the data after refusing to finalize it. The storage canister itself is not under test:
  // where its answer depends on more than the properties say, both answers are allowed.
  uploadCall(m, by, arg, res) {
    if (this.denied(m, by, 'UpdateUploads', res)) return 'denied';
    if (res.rej) { this.rejected(m, res); return 'denied'; }
    const u = this.uploads.get(arg.file_path) ?? null;
    if (u?.unsure) { // the clean-up may have dropped it while nobody could look: the answer tells
      const e = Object.keys(res.v?.Err ?? {})[0]; const absent = { init_upload: e !== 'FileAlreadyExists', cancel_upload: e === 'UploadNotInitialized', store_chunk: e === 'UploadNotInitialized', finalize_upload: e === 'UploadNotStarted' }[m];
      if (absent && (m === 'store_chunk' || m === 'finalize_upload') && (u.gone || (u.state === 'Init' && m === 'finalize_upload'))) return u;
      if (absent) { this.uploads.delete(arg.file_path); return null; }
      u.unsure = false;
    }
    return u;
  }
  mayFail() { return new Set(this.fault ? ['StorageCanisterError'] : []); }
  do_init_upload(now, by, a, res) {
    const m = 'init_upload'; const u = this.uploadCall(m, by, a, res); if (u === 'denied') return 'fail';
    const conds = new Map(), maybe = this.mayFail();
    const url = urlOf(a.file_path);
    const other = u ? null : [...this.uploads].find(([p]) => urlOf(p) === url);
    if (u || (other && !other[1].unsure)) conds.set('FileAlreadyExists', 'upload'); else if (other) maybe.add('FileAlreadyExists');
    if (!servable(url)) conds.set('StorageCanisterError', 'upload');
    if (conds.size) this.count(u ? 'path taken' : 'odd path');
    else if (a.file_size > 2n ** 31n) conds.set('StorageCanisterError', 'upload');
    else if (a.chunk_size !== null && a.chunk_size !== undefined && (a.chunk_size === 0n || a.chunk_size > 1048576n)) maybe.add('StorageCanisterError');
    if (this.judge(m, conds, maybe, res.v, show({ ...a, state: u?.state }), null) !== 'ok') return 'fail';
    if (other) this.uploads.delete(other[0]);
    this.uploads.set(a.file_path, { state: 'Init', size: a.file_size, chunk: a.chunk_size ?? 1048576n, hash: a.file_hash, chunks: new Map(), bad: false, at: now });
    return 'ok';
  }
  do_store_chunk(now, by, a, res) {
    const m = 'store_chunk'; const u = this.uploadCall(m, by, a, res); if (u === 'denied') return 'fail';
    const conds = new Map(), maybe = this.mayFail(); let exact = false;
    if (!u) conds.set('UploadNotInitialized', 'upload');
    else if (u.state === 'Finalized') conds.set('UploadAlreadyFinalized', 'upload');
    else if (u.gone === true) conds.set('UploadNotInitialized', 'upload');
    else {
      const off = a.chunk_id * u.chunk; const len = off < u.size ? (u.size - off < u.chunk ? u.size - off : u.chunk) : -1n;
      exact = len === BigInt(a.chunk_data.length) && !u.chunks.has(a.chunk_id);
      if (u.gone) maybe.add('UploadNotInitialized');
      if (!exact || u.bad || u.gone) { maybe.add('StorageCanisterError'); this.count('odd-chunk'); }
    }
    if (this.judge(m, conds, maybe, res.v, show({ ...a, chunk_data: a.chunk_data.length, state: u?.state }), null) !== 'ok') return 'fail';
    if (!u) { this.lost = true; return 'ok'; }
    u.state = 'InProgress'; if (exact) u.chunks.set(a.chunk_id, Uint8Array.from(a.chunk_data)); else u.bad = true;
    return 'ok';
  }
  content(u) { // the file if complete and matching its hash, or null
    const n = u.chunk > 0n ? (u.size + u.chunk - 1n) / u.chunk : 0n;
    if (BigInt(u.chunks.size) !== n) return null;
    const b = Buffer.concat([...u.chunks].sort((x, y) => (x[0] < y[0] ? -1 : 1)).map((x) => x[1]));
    return sha256(b) === u.hash ? b : null;
  }
  do_finalize_upload(now, by, a, res) {
    const m = 'finalize_upload'; const u = this.uploadCall(m, by, a, res); if (u === 'denied') return 'fail';
    const conds = new Map(), maybe = this.mayFail();
    const data = u && u.state === 'InProgress' && u.gone !== true ? this.content(u) : null;
    if (!u || u.state === 'Init') conds.set('UploadNotStarted', 'upload');
    else if (u.state === 'Finalized') conds.set('UploadAlreadyFinalized', 'upload');
    else if (u.gone === true) conds.set('UploadNotStarted', 'upload');
    else if (!data) { conds.set('IncompleteUpload', 'upload'); conds.set('StorageCanisterError', 'upload'); this.count('finalize-refused'); }
    if (u?.gone) maybe.add('UploadNotStarted');
    if (u?.bad) { maybe.add('IncompleteUpload'); maybe.add('StorageCanisterError'); } // after chunks that do not belong
    if (this.judge(m, conds, maybe, res.v, show({ ...a, state: u?.state, have: u?.chunks.size, size: u?.size }), null) !== 'ok') { if (u && u.state === 'InProgress' && u.gone !== true) u.gone = !this.fault ? true : data ? u.gone : 'maybe'; return 'fail'; }
    if (!u) { this.lost = true; return 'ok'; }
    u.state = 'Finalized'; u.data = data;
    this.count('finalized');
    const path = a.file_path.startsWith('/') ? a.file_path : `/${a.file_path}`;
    if (this.selfId && res.v.Ok.url !== `https://${this.selfId}.raw.icp0.io${path}`) this.dev('res', m, ['url'], 'Ok', `finalize_upload answered ${res.v.Ok.url}, expected https://${this.selfId}.raw.icp0.io${path}`);
    return 'ok';
  }
  do_cancel_upload(now, by, a, res) {
    const m = 'cancel_upload'; const u = this.uploadCall(m, by, a, res); if (u === 'denied') return 'fail';
    const conds = new Map(), maybe = this.mayFail();
    if (!u) conds.set('UploadNotInitialized', 'upload'); else if (u.state === 'Finalized') conds.set('UploadAlreadyFinalized', 'upload');
    if (this.judge(m, conds, maybe, res.v, show({ ...a, state: u?.state, gone: u?.gone }), null) !== 'ok') return 'fail';
    this.uploads.delete(a.file_path); this.count('cancelled');
    return 'ok';
  }
  // The daily clean-up, run at times t0, t0 + 1 day, ...: drops unfinished uploads older than a day.
}
