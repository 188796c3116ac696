import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P06', cases: { quick: 900, thorough: 10000 },
  rule: 'A case is one generated history, the approval queries being asked after most calls. Non-trivial: at least three approvals were given and at least one ended (revoked, replaced, used, expired or dropped by a transfer or burn); distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 4, icrc37_approve_tokens: 8, icrc37_approve_collection: 6, icrc37_revoke_token_approvals: 3, icrc37_revoke_collection_approvals: 3, icrc37_transfer_from: 3, icrc7_transfer: 2, burn_nft: 0.8, upgrade: 0.6 }, initPerm: 0.05, valid: 0.9 },
  views: ['approvals', 'coll', 'is_approved'], often: ['approvals', 'coll'], viewRate: { is_approved: 0.6 },
  len: [12, 32],
  owns: view('approvals', 'coll', 'is_approved'),
  // A listed, unexpired approval must be usable: try one of them.
  nontrivial: (s) => n(s, 'ok:icrc37_approve_tokens') + n(s, 'ok:icrc37_approve_collection') >= 3 && n(s, 'revoked') + n(s, 'transferred') + n(s, 'transferred-from') + n(s, 'ok:burn_nft') >= 1,
});
