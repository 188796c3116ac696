import { historyProperty } from '../engine/history.mjs';
import { any, res, view, cause, n } from '../engine/own.mjs';
import { T } from '../engine/gen.mjs';
import { MS, SEC, akey } from '../engine/util.mjs';
const OPS = ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_transfer_from'];
export default historyProperty({
  id: 'P19', cases: { quick: 1500, thorough: 14000 },
  rule: 'A case is one generated history. Non-trivial: a call was refused for its creation time, or a call that had succeeded was repeated within the window; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 4, icrc7_transfer: 7, icrc37_approve_tokens: 4, icrc37_approve_collection: 3, icrc37_revoke_token_approvals: 2, icrc37_revoke_collection_approvals: 2, icrc37_transfer_from: 5, burn_nft: 0.2, update_nft_metadata: 0.6, update_collection_metadata: 0.5, upgrade: 0.7 }, initPerm: 0.05, valid: 0.72, repeat: 0.3, vary: 0.25, setting: { tx_window: 0.7, permitted_drift: 0.5, atomic_batch_transfers: 0.1, max_update_batch_size: 0.1 } },
  views: ['owner', 'approvals', 'coll', 'blocks'], often: [], viewRate: { owner: 0.4, blocks: 0.3, approvals: 0.2, coll: 0.1 },
  len: [14, 36],
  // A transfer cannot simply be repeated: the token has left. So it is sent back first.
  opgen(op, r, w, gen) {
    const todo = w.todo ??= [], m = w.model;
    if (todo.length) { const f = todo.shift(); const x = f(op); if (x) return x; todo.length = 0; return op; }
    const h = gen.history[gen.history.length - 1]; if (!h || !['icrc7_transfer', 'icrc37_transfer_from'].includes(h.m) || h.args[0].length !== 1 || !r.p(0.5)) return op;
    const it = h.args[0][0], t = m.tokens.get(it.token_id); if (!t || it.created_at_time == null || akey(t.owner) !== akey(it.to)) return op;
    const dt = () => (m.mayThrottle(w.r.now) && r.p(0.5) ? m.window + 130n * MS : BigInt(r.int(0, 40)) * MS);
    const was = h.m === 'icrc7_transfer' ? { owner: h.by, subaccount: it.from_subaccount } : it.from;
    todo.push(() => { const d = r.w([[3, dt()], [1, m.window], [0.5, m.window + 100n * MS], [0.5, m.window - 1n]]); return { dt: d, by: h.by, m: h.m, args: gen.again(h.args, w.r.now + d), again: true }; });
    return { dt: dt(), by: it.to.owner, m: 'icrc7_transfer', args: [[{ to: was, token_id: it.token_id, memo: null, from_subaccount: it.to.subaccount, created_at_time: r.p(0.5) ? null : T(0) }]] };
  },
  owns: any((d) => d.kind === 'dupid', cause('time', 'dup'), (d) => d.kind === 'res' && OPS.includes(d.m) && !d.causes.length && ['TooOld', 'CreatedInFuture', 'Duplicate', 'GenericError', 'trap'].includes(d.got), view('owner', 'approvals', 'coll', 'blocks')),
  nontrivial: (s) => n(s, 'duplicate') > 0 || OPS.some((m) => n(s, `${m}:TooOld`) + n(s, `${m}:CreatedInFuture`) > 0),
});
