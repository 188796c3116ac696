import { historyProperty } from '../engine/history.mjs';
import { any, res, view, cause, n } from '../engine/own.mjs';
import { MS } from '../engine/util.mjs';
const OPS = ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_transfer_from'];
// Many operations on few tokens within tens of milliseconds; most of them fail for another reason, so
// that the transaction log's own throttle does not blur which refusals are the rate limit's.
export default historyProperty({
  id: 'P18', cases: { quick: 2500, thorough: 15000 },
  rule: 'A case is one generated history of closely spaced operations. Non-trivial: at least one item was over the limit and at least five below it were answered on their merits; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 1.2, icrc7_transfer: 5, icrc37_approve_tokens: 4, icrc37_approve_collection: 3, icrc37_revoke_token_approvals: 4, icrc37_revoke_collection_approvals: 3, icrc37_transfer_from: 5, burn_nft: 0.2 }, initPerm: 0.05, valid: 0.35, repeat: 0.1, setting: { tx_window: 0, atomic_batch_transfers: 0.05, max_update_batch_size: 0.1 },
    dt: (r) => r.w([[5, 0n], [2, 1n], [3, BigInt(r.int(1, 14)) * MS], [2, 15n * MS], [2, BigInt(r.int(19, 21)) * MS], [2, BigInt(r.int(59, 61)) * MS], [1, 60n * MS - 1n], [0.7, 60n * MS + 1n], [1.5, 230n * MS]]) },
  init: (gen) => { const o = gen.init(); o.supply_cap = 3n; delete o.max_memo_size; return o; },
  views: ['owner', 'approvals', 'coll', 'blocks'], often: [], viewRate: { owner: 0.3, blocks: 0.2, approvals: 0.1 },
  len: [20, 50],
  owns: any((d) => d.kind === 'res' && OPS.includes(d.m) && (d.causes.includes('rate') || d.got === 'GenericError'), (d) => d.kind === 'res' && d.m === 'icrc37_revoke_token_approvals' && d.got === 'shape', view('owner', 'approvals', 'coll', 'blocks')),
  nontrivial: (s) => n(s, 'rate-limited') >= 1 && OPS.reduce((a, m) => a + n(s, `call:${m}`), 0) - n(s, 'rate-limited') >= 5,
});
