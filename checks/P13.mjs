import { historyProperty } from '../engine/history.mjs';
import { view, n } from '../engine/own.mjs';
import { akey, MS, SUBS, P } from '../engine/util.mjs';
import { USERS } from '../engine/gen.mjs';
import { show } from '../sim/candid.mjs';
import { canonMeta } from '../engine/model.mjs';

const asc = (xs) => [...xs].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0));
// One random paged or batched query, compared with what the model says its answer is.
export function ask(w, r) {
  const m = w.model, now = w.r.now; const q = (...a) => w.core.query(w.caller, ...a);
  const dev = (msg) => w.obs.dev('page', msg);
  const ids = asc(m.tokens.keys());
  const anyId = () => r.w([[6, () => (ids.length ? r.pick(ids) : 1n)], [2, () => BigInt(r.int(0, Number(m.nextId) + 2))], [0.5, () => 1n << 80n], [0.5, () => 0n]])();
  const acc = () => { const a = r.p(0.7) && ids.length ? m.tokens.get(r.pick(ids)).owner : r.pick(w.accounts); return { owner: a.owner, subaccount: a.subaccount === null && r.p(0.4) ? SUBS[1] : a.subaccount }; };
  const take = () => r.w([[2, () => null], [1, () => 0n], [4, () => BigInt(r.int(1, 6))], [2, () => m.maxTake], [2, () => m.maxTake + 1n], [1, () => BigInt(ids.length)], [0.5, () => 1n << 70n]])();
  const prev = () => r.w([[3, () => null], [5, anyId], [0.5, () => (ids.length ? ids[ids.length - 1] : 0n)]])();
  const size = (lim) => Number(r.w([[1, 0n], [5, BigInt(r.int(1, 8))], [lim < 130n ? 1.5 : 0, lim], [lim < 130n ? 1.5 : 0, lim + 1n]]));
  const batch = (method, n, mk, want, norm = (v) => v) => {
    const args = Array.from({ length: n }, mk); const x = q(method, args);
    m.count(`q:${method}`);
    if (BigInt(n) > m.maxQuery) { m.count('over the batch limit'); if (!x.rej) dev(`${method} answers ${n} entries, the limit is ${m.maxQuery}`); return; }
    if (x.rej) { dev(`${method} with ${n} entries (limit ${m.maxQuery}) is rejected: ${x.rej.msg.slice(0, 200)}`); return; }
    const e = args.map(want);
    if (show(x.v.map(norm)) !== show(e)) dev(`${method}(${show(args).slice(0, 600)}) answers ${show(x.v).slice(0, 600)}, expected ${show(e).slice(0, 600)}`);
  };
  const paged = (method, all, t, p, x) => {
    m.count(`q:${method}`);
    if (t !== null && t > m.maxTake) { m.count('over the take limit'); if (!x.rej) dev(`${method} answers a take of ${t}, the limit is ${m.maxTake}`); return; }
    if (x.rej) { dev(`${method}(${p}, ${t}) is rejected: ${x.rej.msg.slice(0, 200)}`); return; }
    const k = Number(t ?? m.defTake);
    const e = all.filter((i) => p === null || i > p).slice(0, k);
    if (e.length === k && all.length > k) m.count('full pages');
    if (show(x.v) !== show(e)) dev(`${method}(prev ${p}, take ${t}) answers ${show(x.v).slice(0, 800)}, expected ${show(e).slice(0, 800)}`);
  };
  const listed = (what, method, map, args) => { // approvals: pages of what the whole list says
    m.count(`q:${method}`);
    const whole = q(method, args[0], null, 1000n); if (whole.rej) { dev(`${method} rejected: ${whole.rej.msg.slice(0, 200)}`); return; }
    // The order stays the same while nothing about these approvals changes, or pages taken at different times would not fit together.
    const sig = show([...(map ?? [])].map((e) => show(e)).sort()), old = (w.lists ??= new Map()).get(what); const live = (xs) => xs.filter((e) => e.approval_info.expires_at === null || e.approval_info.expires_at > now);
    if (old && old.sig === sig) { if (old.at < w.trace.length && whole.v.length > 1) m.count('order compared later'); if (show(live(old.list)) !== show(live(whole.v))) dev(`${method} of ${what} lists ${show(live(whole.v)).slice(0, 500)}, and before, with the same approvals, ${show(live(old.list)).slice(0, 500)}`); }
    w.lists.set(what, { sig, list: whole.v, at: w.trace.length });
    const p = whole.v.length && r.p(0.7) ? r.int(0, whole.v.length - 1) : null, t = r.w([[2, null], [4, BigInt(r.int(0, 4))], [1, 1n << 66n]]);
    const x = q(method, args[0], p === null ? null : whole.v[p], t);
    const from = p === null ? 0 : p + 1; const e = whole.v.slice(from, from + Number(t ?? 10n));
    if (map && whole.v.length > map.size) dev(`${what} lists ${whole.v.length} approvals of ${map.size}`);
    if (p !== null) m.count('approval pages');
    if (x.rej || show(x.v) !== show(e)) dev(`${method} of ${what} after entry ${p}, take ${t}, answers ${show(x.rej ?? x.v).slice(0, 600)}, expected ${show(e).slice(0, 600)}`);
  };
  const metaOf = (i) => (m.tokens.has(i) ? m.tokens.get(i).meta : null);
  r.w([
    [4, () => { const p = prev(), t = take(); paged('icrc7_tokens', ids, t, p, q('icrc7_tokens', p, t)); }],
    [4, () => { const a = acc(), p = prev(), t = take(); paged('icrc7_tokens_of', asc(m.owned(akey(a))), t, p, q('icrc7_tokens_of', a, p, t)); }],
    [2, () => batch('icrc7_owner_of', size(m.maxQuery), anyId, (i) => (m.tokens.has(i) ? akey(m.tokens.get(i).owner) : null), (v) => (v ? akey(v) : null))],
    [2, () => batch('icrc7_balance_of', size(m.maxQuery), acc, (a) => BigInt(m.owned(akey(a)).length))],
    [1.5, () => { const n = size(m.maxQuery), args = Array.from({ length: n }, anyId); m.count('q:icrc7_token_metadata'); const x = q('icrc7_token_metadata', args); if (BigInt(n) > m.maxQuery) { m.count('over the batch limit'); if (!x.rej) dev(`icrc7_token_metadata answers ${n} entries, the limit is ${m.maxQuery}`); return; } const got = x.rej ? show(x.rej) : show(x.v.map((v) => (v === null ? null : canonMeta(v)))), e = show(args.map(metaOf)); if (got !== e) dev(`icrc7_token_metadata(${show(args)}) answers ${got.slice(0, 600)}, expected ${e.slice(0, 600)}`); }],
    [1.5, () => { const args = Array.from({ length: r.int(0, 8) }, () => { const sp = acc(); return { spender: sp, from_subaccount: r.p(0.5) ? sp.subaccount : r.pick(SUBS), token_id: anyId() }; }); m.count('q:icrc37_is_approved'); const x = q('icrc37_is_approved', args); const e = args.map((a) => { const t = m.tokens.get(a.token_id); return !!t && (akey(t.owner) === akey({ owner: a.spender.owner, subaccount: a.from_subaccount }) || m.approved(a.token_id, a.spender, now)); }); if (x.rej || show(x.v) !== show(e)) dev(`icrc37_is_approved(${show(args).slice(0, 700)}) answers ${show(x.rej ?? x.v)}, expected ${show(e)}`); }],
    [1.5, () => { const seen = [...m.tokAppr].filter(([, x]) => x.size > 1).map(([i]) => i); const i = seen.length && r.p(0.7) ? r.pick(seen) : anyId(); listed(`token ${i}`, 'icrc37_get_token_approvals', m.tokAppr.get(i), [i]); }],
    [1, () => { const a = acc(); listed(akey(a), 'icrc37_get_collection_approvals', m.collAppr.get(akey(a)), [a]); }],
    [0.7, () => { // following the pages lists everything once
      const a = r.p(0.5) ? acc() : null; const t = BigInt(r.int(1, Number(m.maxTake > 40n ? 40n : m.maxTake < 1n ? 1n : m.maxTake))); if (t > m.maxTake) return;
      const all = []; let p = null; m.count('page walks');
      for (let k = 0; k <= ids.length + 1; k++) { const x = a ? q('icrc7_tokens_of', a, p, t) : q('icrc7_tokens', p, t); if (x.rej) { dev(`page after ${p} rejected: ${x.rej.msg.slice(0, 200)}`); return; } all.push(...x.v); if (BigInt(x.v.length) < t) break; p = x.v[x.v.length - 1]; }
      const e = a ? asc(m.owned(akey(a))) : ids; if (show(all) !== show(e)) dev(`pages of ${t} list ${show(all).slice(0, 800)}, expected ${show(e).slice(0, 800)}`);
    }],
  ])();
}
export default historyProperty({
  id: 'P13', cases: { quick: 1700, thorough: 15000 },
  rule: 'A case is one generated history with several generated queries after each call. Non-trivial: at least one full page with more behind it, and at least one query at or over a limit; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 8, icrc7_transfer: 3, icrc37_approve_tokens: 3, icrc37_approve_collection: 2, icrc37_transfer_from: 1, burn_nft: 1.5, update_collection_metadata: 1.5, upgrade: 0.5 }, initPerm: 0.05, setting: { supply_cap: 0, max_query_batch_size: 0.4, max_take_value: 0.4, default_take_value: 0.3, max_update_batch_size: 0.1 } },
  // A third of the cases start with more tokens than the default page.
  prepare: (kase, gen, rng) => { if (!rng.p(0.3)) return; delete kase.init.supply_cap; delete kase.init.max_update_batch_size; delete kase.init.max_memo_size; delete kase.init.tx_window; kase.len = rng.int(4, 8); const k = rng.int(15, 26); for (let i = 0; i < k; i++) { const u = rng.p(0.6) ? { owner: USERS[0], subaccount: null } : gen.user(); kase.ops.push({ dt: 300n * MS, by: P(1), m: 'mint', args: [{ mint_requests: Array.from({ length: 5 }, () => ({ token_owner: u, memo: null, metadata: [] })) }] }); } },
  // Several approvals of one token given at one time.
  opgen: (op, rng, w, gen) => { if (op.up || op.again || !rng.p(0.12)) return op; const m = w.model; const id = gen.someToken(m); if (id === null || m.maxUpdate < 2n) return op; const t = m.tokens.get(id); return { dt: op.dt, by: t.owner.owner, m: 'icrc37_approve_tokens', args: [rng.shuffle(USERS.filter((u) => u !== t.owner.owner)).slice(0, Math.min(Number(m.maxUpdate), rng.int(2, 4))).map((u) => ({ token_id: id, approval_info: { spender: { owner: u, subaccount: null }, from_subaccount: t.owner.subaccount, expires_at: null, memo: null, created_at_time: { $t: 0n } } }))] }; },
  views: [], len: [8, 24],
  step: (w, r, kase, op, o, last) => { const n = kase.ops.length > 26 ? (last ? 60 : w.trace.length < 24 ? 0 : 10) : last ? 20 : 5; for (let k = 0; k < n; k++) ask(w, r); },
  owns: view('page'),
  nontrivial: (s) => n(s, 'full pages') >= 1 && n(s, 'over the take limit') + n(s, 'over the batch limit') >= 1,
});
