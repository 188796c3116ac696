// Any argument. In generated states, methods of the ledger and of the index are called with arguments
// that are of the declared type but far from ordinary (huge numbers, long texts, deep values, long lists,
// any principal), and with bytes that are not. Oracle: what is of the declared type is answered; what is
// rejected has changed nothing; afterwards an upgrade works, and both canisters answer what they answer.
import { historyProperty } from '../engine/history.mjs';
import { Observer } from '../engine/observe.mjs';
import { apart, raw } from '../engine/batch.mjs';
import { resolve, USERS } from '../engine/gen.mjs';
import { OPS } from '../engine/indexer.mjs';
import { ADMIN, ANON, SEC, MS } from '../engine/util.mjs';
import { n } from '../engine/own.mjs';
import { SIG, out } from '../sim/core.mjs';
import { Index, GetBlocks } from '../sim/index.mjs';
import { T, encode, decode, principalText, show } from '../sim/candid.mjs';

const deref = (t) => { while (t.k === 'ref') t = t.v ?? (t.v = t.f()); return t; };
const bad = (w, m, msg) => w.model.devs.push({ kind: 'any', m, causes: [], got: '', msg });
const METHODS = { ...SIG, get_lo: undefined }; delete METHODS.get_lo;
const INDEX = { get_blocks: [GetBlocks], status: [], ledger_id: [] };
const SUBS = ['subaccount', 'from_subaccount', 'spender_subaccount'];
const U = (k) => (1n << BigInt(k)) - 1n;
const B64 = (1n << 63n) - 1n;
const NATS = [0n, 1n, 2n, 3n, 5n, 100n, 1000n, U(16), U(31), U(31) + 1n, U(32), U(32) + 1n, U(53), U(63), U(63) + 1n, U(64) - 1n, U(64), U(64) + 1n, U(128), U(128) + 1n, 1n << 200n, 10n ** 60n];
const TEXTS = ['', ' ', '/', '//', '/a', '..', 'a'.repeat(70000), '✓', '\u0000', '\ud83d\ude00', '%', '%zz', '?', '#', 'http://[', 'icrc7_transfer', '-1', 'e\u0301', '/metrics', '/metrics?x=%', 'a\r\nb: c', '{}', 'null', '\u202e'];
const fit = (v, bits) => (v > U(bits) ? U(bits) : v);
function gen(r, t0, name, w, d = 0) {
  const t = deref(t0), m = w.model;
  switch (t.k) {
    case 'null': return null; case 'bool': return r.p(0.5);
    case 'nat': return r.w([[4, () => r.pick(NATS)], [5, () => BigInt(r.int(0, Number(m.nextId)))], [1, () => (1n << BigInt(r.int(0, 300)))]])();
    case 'int': return r.w([[4, () => r.pick(NATS)], [4, () => -r.pick(NATS)], [2, () => BigInt(r.int(-9, 9))]])();
    case 'nat64': return r.w([[3, () => fit(r.pick(NATS), 64)], [1, () => U(64) - BigInt(r.int(0, 5))], [2, () => w.r.now + BigInt(r.int(-5, 5))], [2, () => BigInt(r.int(0, 300))]])();
    case 'nat16': return r.pick([0, 1, 2, 3, 255, 65535]); case 'int16': return r.pick([0, 1, -1, 32767, -32768]);
    case 'text': if (name === 'method' && d === 0 && w.http) return r.pick(['GET', 'POST', 'HEAD', 'OPTIONS', 'PUT']); return r.w([[4, () => r.pick(TEXTS)], [2, () => r.pick([...(w.spec?.paths ?? []), ...m.uploads.keys(), 'x'])], [1, () => String.fromCodePoint(...Array.from({ length: r.int(1, 12) }, () => r.pick([r.int(1, 127), r.int(128, 0xd7ff), r.int(0x10000, 0x10ffff)])))]])();
    case 'principal': return r.w([[6, () => r.pick(USERS)], [1, ADMIN], [1, ANON], [1, 'aaaaa-aa'], [1, () => w.core.id], [2, () => principalText(r.bytes(r.int(0, 29)))]].map(([k, f]) => [k, typeof f === 'string' ? () => f : f]))();
    case 'opt': return r.p(0.35) ? null : gen(r, t.t, name, w, d);
    case 'vec': {
      if (t.blob) return SUBS.includes(name) ? r.pick([new Uint8Array(32), new Uint8Array(32).fill(255), r.bytes(32)]) : r.bytes(r.w([[3, 0], [3, r.int(1, 40)], [1, 32], [1, 33], [0.4, 5000], [0.1, 400000]]));
      const k = r.w([[2, 0], [6, 1], [3, 2], [1, r.int(3, 8)], [d === 0 ? 0.7 : 0.1, r.pick([20, 50, 51, 100, 101, 257, 1001])], [d === 0 ? 0.06 : 0, 20000]]);
      const same = k > 20 ? gen(r, t.t, name, w, d + 1) : null;
      return Array.from({ length: k }, () => (same !== null && r.p(0.97) ? same : gen(r, t.t, name, w, d + 1)));
    }
    case 'record': if (!t.tuple && t.fs.length === 2 && t.fs.every((f) => f.n === 'owner' || f.n === 'subaccount') && r.p(0.55)) { const a = accounts(m); if (a.length) return r.pick(a); } return t.tuple ? t.fs.map((f) => gen(r, f.t, name, w, d + 1)) : Object.fromEntries(t.fs.map((f) => [f.n, gen(r, f.t, f.n, w, d)]));
    case 'variant': { const fs = d > 4 ? t.fs.filter((f) => !['Array', 'Map'].includes(f.n)) : t.fs; const f = r.pick(fs); const v = f.n === 'Array' && d < 3 && r.p(0.1) ? nest(r.int(20, 600)) : null; return { [f.n]: v ? v.Array : gen(r, f.t, f.n, w, d + 1) }; }
    default: throw new Error('no generator for ' + t.k);
  }
}
const accounts = (m) => [...m.tokens.values()].map((t) => t.owner).concat([...m.tokAppr.values(), ...m.collAppr.values()].flatMap((x) => [...x.values()].flatMap((a) => [a.spender, a.from]))).filter((a) => a?.owner);
// A page of approvals that exist, after one that exists.
function page(r, w, m) {
  const own = m === 'icrc37_get_token_approvals'; const keys = own ? [...w.model.tokAppr.keys()] : [...w.model.collAppr.values()].flatMap((x) => [...x.values()].map((a) => a.from)); if (!keys.length) return null;
  const of = r.pick(keys); const x = w.core.query(ANON, m, of, null, null).v; return Array.isArray(x) && x.length ? [of, r.p(0.8) ? r.pick(x) : null, r.p(0.2) ? null : r.pick(NATS)] : null;
}
const nest = (k) => { let v = { Nat: 1n }; for (let i = 0; i < k; i++) v = i % 2 ? { Array: [v] } : { Map: [['k', v]] }; return { Array: [v] }; };
// One place of a value replaced by something of the same type.
function vary(r, t0, v, name, w) {
  const t = deref(t0); const again = () => gen(r, t, name, w, 1);
  if (t.k === 'opt') return v === null || v === undefined || r.p(0.25) ? gen(r, t, name, w, 1) : vary(r, t.t, v, name, w);
  if (t.k === 'record' && !t.tuple) { const f = r.pick(t.fs); return { ...v, [f.n]: vary(r, f.t, v[f.n], f.n, w) }; }
  if (t.k === 'record') { const i = r.int(0, t.fs.length - 1); return v.map((x, k) => (k === i ? vary(r, t.fs[i].t, x, name, w) : x)); }
  if (t.k === 'vec' && !t.blob && v.length && r.p(0.85)) { const i = r.int(0, v.length - 1); return v.map((x, k) => (k === i ? vary(r, t.t, x, name, w) : x)); }
  if (t.k === 'variant') { const [k] = Object.keys(v); const f = t.fs.find((x) => x.n === k); return r.p(0.6) && f ? { [k]: vary(r, f.t, v[k], k, w) } : again(); }
  return again();
}
function scramble(r, b) {
  b = Uint8Array.from(b);
  for (let k = r.w([[5, 1], [3, 2], [1, 6]]); k > 0; k--) {
    const i = r.int(0, Math.max(0, b.length - 1));
    const how = r.int(0, 3);
    if (how === 0 && b.length) b[i] ^= 1 << r.int(0, 7); else if (how === 1 && b.length) b[i] = r.pick([0, 1, 127, 128, 255, 0x6c, 0x6d, 0x6e, 0x6b, 0x68, 0x7f, 0x70]);
    else if (how === 2) b = b.slice(0, i); else b = Uint8Array.from([...b.slice(0, i), ...r.bytes(r.int(1, 3)), ...b.slice(i)]);
  }
  return b;
}
// {to, by, m, arg, typed, update}
function probe(r, w, g) {
  const to = r.p(0.12) ? 'index' : 'core'; const sig = to === 'index' ? INDEX : METHODS;
  let m = to === 'index' ? r.w([[6, 'get_blocks'], [1, 'status'], [1, 'ledger_id']]) : r.pick(Object.keys(METHODS));
  let types = sig[m], args = null;
  if (to === 'core' && g.p.ops[m] && r.p(0.6)) { // an ordinary call with something out of the ordinary
    const ops = g.p.ops, h = g.history; g.p.ops = { [m]: 1 }; g.history = []; const c = g.call(w.model, w.r.now); g.p.ops = ops; g.history = h;
    if (c.m === m) { args = resolve(c.args, w.r.now); const i = r.int(0, types.length - 1); if (types.length && r.p(0.9)) args = args.map((a, k) => (k === i ? vary(r, types[i], a, '', w) : a)); }
  }
  if (/^icrc37_get_.*approvals$/.test(m) && r.p(0.7)) args = page(r, w, m);
  w.http = m === 'http_request';
  args ??= types.map((t) => gen(r, t, '', w));
  let by = r.w([[5, ADMIN], [5, r.pick(USERS)], [1, ANON]]);
  const owner = args.flat().map((x) => x?.token_id ?? (typeof x === 'bigint' ? x : null)).map((id) => w.model.tokens.get(id)?.owner.owner).find((x) => x); if (owner && r.p(0.6)) by = owner;
  let arg; try { arg = encode(types, args); } catch (e) { arg = encode(types, types.map((t) => gen(r, t, '', w, 1))); }
  let typed = true;
  const how = r.w([[10, 'typed'], [2, 'scrambled'], [0.5, 'random'], [0.4, 'more'], [0.5, 'other'], [0.15, 'deep']]);
  if (how === 'scrambled') arg = scramble(r, arg); else if (how === 'random') arg = r.bytes(r.int(0, 80)); else if (how === 'more') arg = encode([...types, T.text, T.opt(T.nat)], [...args, 'more', 5n]);
  else if (how === 'other') { const o = r.pick(Object.keys(METHODS)); arg = encode(METHODS[o], METHODS[o].map((t) => gen(r, t, '', w, 1))); }
  else if (how === 'deep') arg = Uint8Array.from([0x44, 0x49, 0x44, 0x4c, 1, 0x6e, 0, 1, 0, ...Array(r.int(50, 3000)).fill(1), 0]);
  if (!['typed', 'more'].includes(how)) { typed = false; try { decode(arg, 20000); } catch (e) { if (/too many/.test(e.message)) arg = r.bytes(8); } }
  if (arg.length > 2000000) arg = arg.slice(0, 40), typed = false;
  return { to, by, m, arg, typed, how, update: r.p(0.3) && !['icrc3_get_tip_certificate', 'http_request'].includes(m), dt: r.w([[3, 0n], [3, SEC], [0.3, 61n * SEC]]), up: r.p(0.4) };
}
const text = (p) => `${p.m} (${p.how} argument 0x${Buffer.from(p.arg).toString('hex').slice(0, 400)}${p.arg.length > 200 ? `, ${p.arg.length} bytes` : ''}: ${said(p)})`;
const said = (p) => { try { return show(decode(p.arg, 20000)).slice(0, 400); } catch (e) { return 'not decodable'; } };
// Rejections of well-typed calls that are part of how the canister works.
function allowed(w, p, rej) {
  if (!rej.trapped) return true;
  const a = decode(p.arg); const limit = (m, none) => { const x = w.core.query(ANON, m); return x.v === null || (Array.isArray(x.v) && !x.v.length) ? none : x.v; };
  if (p.m === 'http_request') return true; // what is no request for something stored
  if (p.m === 'icrc7_transfer' && String(w.core.query(ANON, 'icrc7_atomic_batch_transfers').v) === 'true') return /Atomic batch transfer failed/.test(rej.msg); // all or nothing
  if (p.m === 'mint') return /Failed to log transaction/.test(rej.msg); // taken back as a whole
  if (['icrc7_owner_of', 'icrc7_balance_of', 'icrc7_token_metadata', 'icrc37_is_approved'].includes(p.m)) return BigInt(a[0].length) > limit('icrc7_max_query_batch_size', 100n);
  if (p.m === 'icrc7_tokens') return a[1] !== null && a[1] > limit('icrc7_max_take_value', 100n);
  if (p.m === 'icrc7_tokens_of') return a[2] !== null && a[2] > limit('icrc7_max_take_value', 100n);
  if (p.m === 'update_nft_metadata') return wide(a[0].metadata); // blocks have room for integers of 128 bits
  return false;
}
const wide = (v) => (Array.isArray(v) ? v.some(wide) : v && typeof v === 'object' ? ('Int' in v ? v.Int >= 1n << 127n || v.Int < -(1n << 127n) : Object.values(v).some(wide)) : false);
function probes(w, ps) {
  const { r, core, model } = w; let k = 0;
  apart(w, () => {
    for (const p of ps) {
      r.advance(p.dt); r.hooks.fault = null;
      const id = p.to === 'index' ? w.ix.id : core.id; const ex = r.get(id).inst.exports;
      const query = `canister_query ${p.m}` in ex && !p.update;
      const before = !query && p.to === 'core' ? raw(w) : null;
      const x = out(r[query ? 'query' : 'update'](id, p.by, p.m, p.arg));
      model.count(`${p.how} ${x.rej ? 'rejected' : x.v?.Err ? 'refused' : 'answered'}`); if (!x.rej && p.typed) model.count(`answers:${p.m}`);
      if (x.rej) {
        if (p.typed && !allowed(w, p, x.rej)) bad(w, p.m, `${text(p)} is not answered: ${x.rej.msg.slice(0, 300)}`);
        if (before) { model.count('rejected calls compared'); for (const d of Observer.diff(before, raw(w)).slice(0, 1)) bad(w, p.m, `${text(p)} was rejected (${x.rej.msg.slice(0, 200)}), but ${d}`); }
      } else k++;
      if (model.devs.some((d) => d.kind === 'any')) return;
    }
    // whatever was accepted, both canisters can be upgraded and answer
    const last = () => ps.map((p) => text(p).slice(0, 200)).join('; ').slice(0, 900);
    if (ps[0].dt !== 0n) r.advance(61n * SEC);
    if (!ps[0].up) return;
    const a = raw(w);
    const u = core.upgrade(w.mods.core, ADMIN); if (u.trap !== undefined) { bad(w, 'upgrade', `after ${last()} the upgrade of the ledger traps: ${u.trap.slice(0, 300)}`); return; }
    const v = ps.some((p) => p.to === 'index') ? w.ix.upgrade(w.mods.index, ADMIN) : {}; if (v.trap !== undefined) { bad(w, 'upgrade', `after ${last()} the upgrade of the index traps: ${v.trap.slice(0, 300)}`); return; }
    model.count('upgrades after strange calls');
    for (const d of Observer.diff(a, raw(w)).slice(0, 1)) bad(w, 'upgrade', `after ${last()} an upgrade changes ${d}`);
    for (const m of ['status', 'ledger_id']) { const x = w.ix[m === 'status' ? 'status' : 'ledgerId'](ANON); if (x.rej) bad(w, m, `after ${last()} the index rejects ${m}: ${x.rej.msg.slice(0, 200)}`); }
    for (const [k2, x] of Object.entries(a)) if (/^rej:trap/.test(x) && !/^(owner_of|metadata|balance_of|is_approved)/.test(k2)) { bad(w, k2, `after ${last()} ${k2} traps`); break; }
  });
  return `${k} of ${ps.length} answered`;
}
const FILES = ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload'];
export default historyProperty({
  id: 'P28', cases: { quick: 400, thorough: 9000 }, len: [10, 24],
  rule: 'A case is one generated history with groups of strange calls made on copies of its states. Non-trivial: at least six strange calls of at least four methods were answered, two were rejected or refused, and both canisters were upgraded afterwards; distinct by the sequence of calls and outcomes.',
  profile: { ops: { ...OPS, grant_permission: 0.7, revoke_permission: 0.4, update_collection_metadata: 1, init_upload: 1.5, store_chunk: 2, finalize_upload: 1, cancel_upload: 0.3, upgrade: 0.4 }, initPerm: 0.3, permOk: 0.97, valid: 0.92, setting: { supply_cap: 0.1 } },
  hooks(w) {
    w.ix = Index.install(w.r, w.mods.index, w.core.id, ADMIN); if (w.ix.trap !== undefined) bad(w, 'index', `the installation of the index trapped: ${w.ix.trap.slice(0, 200)}`);
    w.ext = (op) => probes(w, op.args[0]); return {};
  },
  opgen(op, r, w, g) {
    if (r.p(0.02)) return g.file(w.model, op.dt);
    return w.model.tokens.size && r.p(0.4) || r.p(0.06) ? { dt: 0n, x: 'strange', args: [Array.from({ length: r.int(3, 10) }, () => probe(r, w, g))] } : op;
  },
  views: ['owner', 'settings'], viewRate: { owner: 0.1, settings: 0.1 },
  owns: (d) => d.kind === 'any',
  nontrivial: (s) => Object.keys(s).filter((k) => k.startsWith('answers:')).length >= 4 && n(s, 'typed answered') >= 6 && Object.keys(s).reduce((a, k) => a + (/ (rejected|refused)$/.test(k) ? s[k] : 0), 0) >= 2 && n(s, 'upgrades after strange calls') > 0,
});
