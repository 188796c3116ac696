// What the ledger says about itself, and what it answers when it is asked for parts of its log. Oracle:
// the model's log and settings, and the lists of methods that the standards prescribe.
import { historyProperty } from '../engine/history.mjs';
import { Observer } from '../engine/observe.mjs';
import { OPS } from '../engine/indexer.mjs';
import { MS, SEC } from '../engine/util.mjs';
import { n } from '../engine/own.mjs';
import { encodeCall, out } from '../sim/core.mjs';
import { show } from '../sim/candid.mjs';

const S7 = 'collection_metadata symbol name description logo total_supply supply_cap max_query_batch_size max_update_batch_size default_take_value max_take_value max_memo_size atomic_batch_transfers tx_window permitted_drift token_metadata owner_of balance_of tokens tokens_of'.split(' ');
const STANDARDS = {
  'ICRC-3': { query: ['icrc3_get_archives', 'icrc3_get_blocks', 'icrc3_get_tip_certificate', 'icrc3_supported_block_types'] },
  'ICRC-7': { query: S7.map((m) => `icrc7_${m}`), update: ['icrc7_transfer'] },
  'ICRC-10': { query: ['icrc10_supported_standards'] },
  'ICRC-21': { any: ['icrc21_canister_call_consent_message'] },
  'ICRC-37': { query: ['metadata', 'max_approvals_per_token_or_collection', 'max_revoke_approvals', 'is_approved', 'get_token_approvals', 'get_collection_approvals'].map((m) => `icrc37_${m}`), update: ['approve_tokens', 'approve_collection', 'revoke_token_approvals', 'revoke_collection_approvals', 'transfer_from'].map((m) => `icrc37_${m}`) },
};
const bad = (w, m, msg, kind = 'self') => w.model.devs.push({ kind, m, causes: [], got: '', msg });
const ask = (w, m, ...args) => { const x = w.core.query(w.caller, m, ...args); if (x.rej) { bad(w, m, `rejected: ${x.rej.msg.slice(0, 200)}`); return null; } return x.v; };

function standards(w) {
  const list = ask(w, 'icrc10_supported_standards', null); if (!list) return;
  const ex = w.r.get(w.core.id).inst.exports; const has = (kind, m) => `canister_${kind} ${m}` in ex;
  const names = list.map((e) => e.name);
  if (new Set(names).size !== names.length) bad(w, 'icrc10_supported_standards', `lists a standard twice: ${names.join(', ')}`);
  for (const s of Object.keys(STANDARDS)) {
    const e = list.find((x) => x.name === s);
    if (!e) { bad(w, 'icrc10_supported_standards', `${s} is not listed`); continue; }
    const file = s.replace('-', '.?');
    if (!new RegExp(`^https://.*${file}(?![0-9])`, 'i').test(e.url.replace(/_/g, '-'))) bad(w, 'icrc10_supported_standards', `${s} is listed with the URL ${e.url}`);
    for (const m of STANDARDS[s].query ?? []) if (!has('query', m) && !has('composite_query', m)) bad(w, m, `${s} is listed as supported, and there is no query ${m}`);
    for (const m of STANDARDS[s].update ?? []) if (!has('update', m)) bad(w, m, `${s} is listed as supported, and there is no update ${m}`);
    for (const m of STANDARDS[s].any ?? []) if (!has('query', m) && !has('update', m)) bad(w, m, `${s} is listed as supported, and there is no method ${m}`);
  }
  if (new Set(list.map((e) => e.url)).size !== list.length) bad(w, 'icrc10_supported_standards', 'two standards have the same URL');
  w.model.count('standards checked');
}
// The approval limits, as metadata.
function limits(w) {
  const v = ask(w, 'icrc37_metadata'); if (!v) return;
  for (const k of ['max_approvals_per_token_or_collection', 'max_revoke_approvals']) {
    const e = v.filter(([x]) => x === `icrc37:${k}`).map(([, x]) => x.Nat); const q = ask(w, `icrc37_${k}`);
    const want = w.init.approval_init[k] ?? null;
    if (show(q) !== show(want)) bad(w, `icrc37_${k}`, `answers ${show(q)}, the collection was installed with ${show(want)}`);
    if (show(e) !== show(want === null ? [] : [want])) bad(w, 'icrc37_metadata', `has ${show(e)} for icrc37:${k}, the collection was installed with ${show(want)}`);
  }
}
function types(w, all) {
  const list = ask(w, 'icrc3_supported_block_types', null); if (!list) return;
  const names = list.map((e) => e.block_type);
  if (new Set(names).size !== names.length) bad(w, 'icrc3_supported_block_types', `lists a type twice: ${names.join(', ')}`);
  if (new Set(list.map((e) => e.url)).size !== list.length) bad(w, 'icrc3_supported_block_types', 'two types have the same URL');
  for (const e of list) {
    const std = /^37/.test(e.block_type) ? 'ICRC-37' : 'ICRC-7';
    if (!e.url.startsWith('https://') || !e.url.includes(`${std}.md`)) bad(w, 'icrc3_supported_block_types', `${e.block_type} is described at ${e.url}`);
  }
  for (const b of all) {
    const t = Observer.flat(b.block).btype?.Text; w.model.count(`type ${t}`);
    if (!names.includes(t)) bad(w, 'icrc3_supported_block_types', `block ${b.id} is of type ${t}, which is not listed`);
  }
}
function properties(w) {
  const v = ask(w, 'icrc3_get_properties', null); if (!v) return;
  const s = show(v); w.props ??= s;
  if (s !== w.props) bad(w, 'icrc3_get_properties', `was ${w.props.slice(0, 300)}, is now ${s.slice(0, 300)}`);
}
// Several ranges in one call, read on through the archives they lead to.
function ranges(w, rng, all) {
  const N = BigInt(all.length), cut = BigInt(all.filter((b) => b.from !== 'ledger').length);
  const near = (x) => { const y = x + BigInt(rng.int(-2, 2)); return y < 0n ? 0n : y; };
  const start = () => rng.w([[4, BigInt(rng.int(0, Number(N) + 2))], [2, near(cut)], [2, near(N)], [1, 0n], [0.6, rng.pick([10n ** 6n, (1n << 64n) - 1n, 1n << 64n, 10n ** 30n])]]);
  const length = () => rng.w([[4, BigInt(rng.int(0, 6))], [2, BigInt(rng.int(0, Number(N) + 5))], [1, 0n], [1, 1n], [0.6, 1000n], [1, rng.pick([1n << 64n, 10n ** 30n])]]);
  const req = Array.from({ length: rng.w([[1, 0], [4, 1], [3, 2], [2, rng.int(3, 6)]]) }, () => ({ start: start(), length: length() }));
  const text = req.map((q) => `[${q.start}, +${q.length}]`).join(' ');
  const x = w.core.query(w.caller, 'icrc3_get_blocks', req);
  if (x.rej) { bad(w, 'icrc3_get_blocks', `of ${text}, with ${N} blocks: ${x.rej.msg.slice(0, 200)}`); return; }
  const got = x.v.blocks.map((b) => b);
  if (x.v.log_length !== N) bad(w, 'icrc3_get_blocks', `log_length is ${x.v.log_length}, there are ${N} blocks`);
  for (const a of x.v.archived_blocks) {
    const [canister, method] = a.callback.func ?? [];
    const y = out(w.r.query(canister, w.caller, method, encodeCall('icrc3_get_blocks', [a.args])));
    if (y.rej) { bad(w, 'icrc3_get_blocks', `the archive ${canister} it leads to: ${y.rej.msg.slice(0, 200)}`); return; }
    got.push(...y.v.blocks);
  }
  const want = [];
  for (const q of req) for (let i = q.start; i < N && i < q.start + q.length; i++) want.push(i);
  const sort = (xs) => xs.map(Number).sort((a, b) => a - b).join(' ');
  if (sort(want) !== sort(got.map((b) => b.id))) bad(w, 'icrc3_get_blocks', `of ${text}, with ${N} blocks: gives ${sort(got.map((b) => b.id)) || 'none'}, expected ${sort(want) || 'none'}`);
  for (const b of got) if (show(b.block) !== w.text[Number(b.id)]) { bad(w, 'icrc3_get_blocks', `of ${text}: block ${b.id} differs from what it is alone`); break; }
  w.model.count('ranges asked for'); if (req.length > 1) w.model.count('several ranges in one call'); if (req.some((q) => q.start < N && q.start + q.length > N)) w.model.count('ranges beyond the end');
  if (req.some((q) => q.start < cut && q.start + q.length > cut)) w.model.count('ranges across the archive');
}
// The certificate of the tip: its hash tree has the hash that the ledger certifies, and names the last block.
function tip(w, all) {
  const v = ask(w, 'icrc3_get_tip_certificate', null); if (!v || !all.length) return;
  const c = Array.isArray(v) ? v[0] : v; if (!c) { bad(w, 'icrc3_get_tip_certificate', 'no certificate', 'tip'); return; }
  const t = Uint8Array.from(c.hash_tree ?? []);
  if (t.length === 32) bad(w, 'icrc3_get_tip_certificate', 'hash_tree is 32 bytes, a hash, and not an encoded hash tree: nothing can be verified with it', 'tip');
  else if (![0xd9, 0x83, 0x82, 0x81].includes(t[0])) bad(w, 'icrc3_get_tip_certificate', `hash_tree is no encoded hash tree: ${t.length} bytes that start with ${t[0]}`);
  w.model.count('tip certificates read');
}

export default historyProperty({
  id: 'P27', cases: { quick: 800, thorough: 7000 }, len: [8, 24],
  rule: 'A case is one generated history with archive jobs and upgrades, during which ranges of blocks are asked for and the ledger describes itself. Non-trivial: at least three different types of blocks were logged, several ranges were asked for in one call and a range ran beyond the end or across the archive; distinct by the sequence of calls and outcomes.',
  profile: { ops: { ...OPS, upgrade: 1.2 }, initPerm: 0.05, permOk: 0.97, valid: 0.92, repeat: 0.04, setting: { tx_window: 0.7, supply_cap: 0, approvals: 0.6, revoke: 0.5 }, windows: [0n, 200n * MS, SEC],
    dt: (r, m, now) => (m.mayThrottle(now) && r.p(0.85) ? m.window + 130n * MS : r.w([[7, BigInt(r.int(1, 300)) * MS], [1, BigInt(r.int(50, 130)) * SEC], [1.6, 660n * SEC], [0.2, 3700n * SEC]])) },
  views: ['blocks'], viewRate: { blocks: 0.2 },
  hooks(w) { w.text = []; standards(w); limits(w); return {}; },
  step(w, vr, kase, op, o, last) {
    if (op.up) { standards(w); limits(w); properties(w); }
    if (!last && !vr.p(0.35)) return;
    const x = Observer.blocks(w.core, w.caller, 0n, BigInt(w.model.log.length + 5));
    if (x.rej || x.v.blocks.length !== w.model.log.length) { w.model.count('log not read'); return; } // P08 and P09 see to that
    const all = x.v.blocks.sort((a, b) => (a.id < b.id ? -1 : 1)); w.text = all.map((b) => show(b.block));
    for (let i = vr.int(1, 4); i > 0; i--) ranges(w, vr, all);
    if (last || vr.p(0.3)) { types(w, all); properties(w); limits(w); tip(w, all); }
  },
  known: (d) => (d.kind === 'tip' ? 'tip' : null),
  owns: (d) => d.kind === 'self',
  nontrivial: (s) => Object.keys(s).filter((k) => k.startsWith('type ')).length >= 3 && n(s, 'several ranges in one call') > 0 && n(s, 'ranges beyond the end') + n(s, 'ranges across the archive') > 0,
});
