import { historyProperty } from '../engine/history.mjs';
import { Observer } from '../engine/observe.mjs';
import { raw, FEW } from '../engine/batch.mjs';
import { resolve } from '../engine/gen.mjs';
import { ANON } from '../engine/util.mjs';
import { SIG, out } from '../sim/core.mjs';
import { T, encode, decode, show } from '../sim/candid.mjs';

const n = (s, k) => Object.keys(s).filter((x) => x.startsWith(k)).reduce((a, x) => a + s[x], 0);
const METHODS = ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_transfer_from'];
const COUNTED = ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_revoke_token_approvals', 'icrc37_transfer_from'];
const OTHERS = ['mint', 'burn_nft', 'icrc7_owner_of', 'init_upload', 'icrc37_transfer', 'icrc7_transfer_from', 'ICRC7_TRANSFER', ' icrc7_transfer', 'icrc7_transfer ', 'icrc7_transfe', 'icrc7_transferx', 'icrc37_approve', '', '\u0000', '✓', 'icrc21_canister_call_consent_message', 'x'.repeat(5000)];
const HUGE = [0n, 1n, (1n << 64n) - 1n, 1n << 64n, 1n << 200n];
const isRec = (t) => t.k === 'record' && !t.tuple;
const rec = (t, fs) => ({ ...t, fs: [...fs].sort((a, b) => a.h - b.h) });
// Another type whose values decode as the same (a supertype's view), with the value that goes with it.
function vary(r, t, vs) {
  if (!isRec(t)) return [t, vs];
  let fs = [...t.fs]; vs = vs.map((v) => ({ ...v }));
  for (const f of t.fs) {
    if (isRec(f.t) && r.p(0.3)) { const [t2, v2] = vary(r, f.t, vs.map((v) => v[f.n])); fs = fs.map((x) => (x.n === f.n ? { ...x, t: t2 } : x)); vs.forEach((v, i) => { v[f.n] = v2[i]; }); }
    if (f.t.k !== 'opt') continue;
    const how = r.w([[5, 0], [1, 1], [1, 2], [1, 3]]);
    if (how === 1) fs = fs.filter((x) => x.n !== f.n); // left out
    else if (how === 2) { fs = fs.map((x) => (x.n === f.n ? { ...x, t: T.text } : x)); vs.forEach((v) => { v[f.n] = 'not what it was'; }); } // another type: reads as absent
    else if (how === 3 && vs.every((v) => v[f.n] !== null && v[f.n] !== undefined)) fs = fs.map((x) => (x.n === f.n ? { ...x, t: f.t.t } : x)); // given without opt
  }
  if (r.p(0.4)) { const e = T.rec({ [r.pick(['more', 'zz', 'aaaa'])]: r.pick([T.text, T.nat, T.bool]) }).fs[0]; fs.push(e); vs.forEach((v) => { v[e.n] = e.t === T.text ? 'x' : e.t === T.nat ? 1n << 80n : true; }); }
  return [rec(t, fs), vs];
}
// The same made undecodable: a required field gone or of another type, or something else altogether.
function spoil(r, t, vs) {
  const item = t.t; const req = item.fs.filter((f) => f.t.k !== 'opt');
  const how = r.w([[3, 'gone'], [3, 'type'], [1, 'text'], [1, 'none'], [1, 'record'], [1, 'opt']]);
  if (how === 'none') return encode([], []);
  if (how === 'text' || !req.length) return encode([T.text], ['icrc7_transfer']);
  if (how === 'record') return encode([T.rec({ token_id: T.nat })], [{ token_id: 1n }]);
  if (how === 'opt') return encode([T.vec(T.nat)], [vs.map(() => 1n)]);
  const f = r.pick(req);
  if (how === 'gone') return encode([T.vec(rec(item, item.fs.filter((x) => x !== f)))], [vs]);
  const wrong = f.t.k === 'bool' ? T.nat : T.bool;
  return encode([T.vec(rec(item, item.fs.map((x) => (x === f ? { ...x, t: wrong } : x))))], [vs.map((v) => ({ ...v, [f.n]: true }))]);
}
function mutate(r, b) {
  b = Uint8Array.from(b);
  for (let k = r.w([[5, 1], [3, 2], [1, 6]]); k > 0; k--) {
    const i = r.int(0, Math.max(0, b.length - 1));
    const how = r.int(0, 4);
    if (how === 0 && b.length) b[i] ^= 1 << r.int(0, 7); else if (how === 1 && b.length) b[i] = r.pick([0, 1, 127, 128, 255, 0x6c, 0x6d, 0x6e, 0x6b, 0x68, 0x7f, 0x70]);
    else if (how === 2) b = Uint8Array.from([...b.slice(0, i), ...b.slice(i + r.int(1, 3))]); else if (how === 3) b = Uint8Array.from([...b.slice(0, i), ...r.bytes(r.int(1, 3)), ...b.slice(i)]);
    else { const j = r.int(0, Math.max(0, b.length - 1)); b = Uint8Array.from([...b.slice(0, Math.min(i, j)), ...b.slice(Math.min(i, j), Math.max(i, j)), ...b.slice(Math.min(i, j))]); }
  }
  return b;
}
// {method, arg, prefs, kind: 'good' | 'bad' | 'any', items, spender, update}
function question(r, w, gen) {
  const method = r.p(0.88) ? r.pick(METHODS) : r.p(0.8) ? r.pick(OTHERS) : String.fromCodePoint(...Array.from({ length: r.int(1, 8) }, () => r.int(1, 0x2fff)));
  const real = METHODS.includes(method); const base = real ? method : r.pick(METHODS); const t = SIG[base][0];
  const m = w.model; let items;
  const ops = gen.p.ops; gen.p.ops = { [base]: 1 }; const h = gen.history; gen.history = [];
  const c = gen.call(m, w.r.now); gen.p.ops = ops; gen.history = h;
  items = c.m === base ? resolve(c.args, w.r.now)[0] : [];
  const more = r.w([[8, 0], [2, r.int(1, 6)], [0.6, r.int(20, 260)]]);
  if (items.length) for (let i = 0; i < more; i++) items = items.concat([{ ...r.pick(items) }]);
  if (r.p(0.1)) items = items.map((x) => ('token_id' in x ? { ...x, token_id: r.pick(HUGE) } : x));
  if (r.p(0.06)) items = [];
  if (r.p(0.15)) { const who = { owner: r.pick([ANON, 'aaaaa-aa']), subaccount: null }; items = items.map((x) => { const o = { ...x }; for (const k of ['to', 'from', 'spender']) if (k in o && r.p(0.6)) o[k] = who; if (o.approval_info && r.p(0.6)) o.approval_info = { ...o.approval_info, spender: who }; return o; }); }
  const fix = (a) => (a && a.subaccount && a.subaccount.length !== 32 ? { ...a, subaccount: null } : a);
  items = items.map((x) => { const o = { ...x }; for (const k of ['to', 'from', 'spender']) if (k in o) o[k] = fix(o[k]); if (o.approval_info) o.approval_info = { ...o.approval_info, spender: fix(o.approval_info.spender) }; for (const q of [o, o.approval_info ?? {}]) for (const k of ['from_subaccount', 'spender_subaccount']) if (q[k] && q[k].length !== 32) q[k] = null; return o; });
  const good = encode([t], [items]);
  let kind = 'good', arg = good;
  const how = r.w([[6, 'plain'], [3, 'vary'], [1, 'extra'], [1.5, 'cut'], [1.5, 'tail'], [2.5, 'spoil'], [4, 'mutate'], [1.2, 'random'], [0.5, 'deep'], [1, 'other']]);
  if (how === 'vary') { const [t2, v2] = vary(r, t.t, items); arg = encode([T.vec(t2)], [v2]); } else if (how === 'extra') arg = encode([t, T.text, T.opt(T.nat)], [items, 'more', 5n]);
  else if (how === 'cut') { arg = good.slice(0, r.int(0, good.length - 1)); kind = 'bad'; } else if (how === 'tail') { arg = Uint8Array.from([...good, ...r.bytes(r.int(1, 4))]); kind = 'bad'; } else if (how === 'spoil') { arg = spoil(r, t, items); kind = 'bad'; if (items.length === 0) kind = 'any'; } else if (how === 'mutate') { arg = mutate(r, good); kind = 'any'; } else if (how === 'random') { arg = r.p(0.5) ? r.bytes(r.int(0, 60)) : Uint8Array.from([0x44, 0x49, 0x44, 0x4c, ...r.bytes(r.int(0, 40))]); kind = 'any'; } else if (how === 'deep') { const k = r.int(50, 3000); arg = Uint8Array.from([0x44, 0x49, 0x44, 0x4c, 1, 0x6e, 0, 1, 0, ...Array(k).fill(1), 0]); kind = 'any'; /* opt of itself, k deep */ } else if (how === 'other') { const o = r.pick(METHODS.filter((x) => x !== base)); arg = encode(SIG[o], [[]]); kind = 'any'; }
  if (kind === 'any') try { decode(arg, 20000); } catch (e) { if (/too many/.test(e.message)) { arg = good; kind = 'good'; } } // no unbounded work
  const prefs = { metadata: { language: r.pick(['en', 'de-CH', '', '✓', 'x'.repeat(300), 'fr']), utc_offset_minutes: r.pick([null, 0, 60, -720, 32767, -32768, 840]) }, device_spec: r.pick([null, { GenericDisplay: null }, { FieldsDisplay: null }, { LineDisplay: { characters_per_line: r.pick([0, 1, 30, 65535]), lines_per_page: r.pick([0, 1, 4, 65535]) } }]) };
  return { method, arg, kind, items: items.length, spender: items[0]?.approval_info?.spender.owner ?? null, prefs, how, update: r.p(0.06) };
}
function ask(w, q) {
  const dev = (msg) => w.model.devs.push({ kind: 'consent', m: q.method, causes: [q.kind], got: '', msg: `consent message for ${q.method.slice(0, 60)} with ${q.how} argument 0x${Buffer.from(q.arg).toString('hex').slice(0, 300)} (${q.items} items): ${msg}` });
  const c = (k) => w.model.count(k);
  const arg = { method: q.method, arg: q.arg, user_preferences: q.prefs };
  const before = q.update ? raw(w) : null;
  const x = w.core[q.update ? 'update' : 'query'](w.caller, 'icrc21_canister_call_consent_message', arg);
  if (before) { c('asked as an update'); for (const d of Observer.diff(before, raw(w)).slice(0, 1)) dev(`the state changed: ${d}`); }
  if (x.rej) { dev(`rejected: ${x.rej.msg.slice(0, 200)}`); return 'trap'; }
  const err = x.v.Err, ok = x.v.Ok;
  if (err) {
    if (!('UnsupportedCanisterCall' in err) || typeof err.UnsupportedCanisterCall?.description !== 'string') dev(`answers ${show(err).slice(0, 200)}, expected UnsupportedCanisterCall`);
    if (METHODS.includes(q.method) && q.kind === 'good') dev(`answers ${show(err).slice(0, 200)} although the argument is well-formed`);
    c(METHODS.includes(q.method) ? `refused ${q.how}` : 'unsupported method'); return 'refused';
  }
  if (!METHODS.includes(q.method)) { dev(`answers ${show(ok).slice(0, 200)} although the method is not supported`); return 'ok'; }
  if (q.kind === 'bad') { dev(`answers ${show(ok).slice(0, 200)} although the argument cannot be decoded`); return 'ok'; }
  if (ok?.metadata?.language !== q.prefs.metadata.language || ok?.metadata?.utc_offset_minutes !== q.prefs.metadata.utc_offset_minutes) dev(`returns the metadata ${show(ok?.metadata).slice(0, 200)}, given ${show(q.prefs.metadata).slice(0, 200)}`);
  const text = ok?.consent_message?.GenericDisplayMessage ?? show(ok?.consent_message ?? null);
  if (!text.includes(q.method) || METHODS.some((m) => m !== q.method && text.includes(m))) dev(`the message does not name the method: ${text.slice(0, 300)}`);
  if (q.kind === 'good') {
    if (COUNTED.includes(q.method) && q.items > 1 && !new RegExp(`\\b${q.items}\\b`).test(text.split(q.method).join(''))) dev(`the message does not tell the number of tokens: ${text.slice(0, 300)}`);
    if (q.method === 'icrc37_approve_collection' && q.spender && !text.includes(q.spender)) dev(`the message does not name the spender ${q.spender}: ${text.slice(0, 300)}`);
    c(`described ${q.method}`); if (q.items > 1) c('several items');
  } else c('described mutated');
  return 'ok';
}
export default historyProperty({
  id: 'P23', cases: { quick: 2600, thorough: 40000 },
  rule: 'A case is a small ledger history with twenty to sixty requests for consent messages: every supported method and others, with arguments that are well-formed (also with left-out, added or differently typed optional fields), truncated, spoiled, mutated or random, and every kind of preferences. Non-trivial: at least five well-formed arguments described and two refused; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 3, icrc7_transfer: 2, icrc37_approve_tokens: 2, icrc37_approve_collection: 1.5, icrc37_revoke_token_approvals: 1, icrc37_revoke_collection_approvals: 1, icrc37_transfer_from: 2 }, valid: 0.85, repeat: 0.02 },
  hooks: (w) => { w.ext = (op) => ask(w, op.args); return {}; },
  opgen: (op, r, w, gen) => (r.p(0.8) && w.model.log.length ? { dt: 0n, x: 'consent', args: question(r, w, gen) } : op),
  views: [], len: [25, 75], world: { accounts: FEW, spenders: FEW },
  owns: (d) => d.kind === 'consent',
  nontrivial: (s) => n(s, 'described icrc') >= 5 && n(s, 'refused') >= 2,
});
