import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P05', cases: { quick: 1300, thorough: 14000 },
  rule: 'A case is one generated history. Non-trivial: at least one icrc37_transfer_from by a spender other than the owner succeeded and at least one was refused; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 4, icrc37_transfer_from: 11, icrc37_approve_tokens: 5, icrc37_approve_collection: 4, icrc37_revoke_token_approvals: 1, icrc37_revoke_collection_approvals: 1, icrc7_transfer: 1.5, burn_nft: 0.6, update_collection_metadata: 0.3, upgrade: 0.6 }, initPerm: 0.05, valid: 0.75 },
  views: ['owner', 'balance', 'approvals', 'coll', 'is_approved', 'blocks'], often: ['owner'], viewRate: { approvals: 0.4, coll: 0.3, is_approved: 0.3 },
  len: [12, 36],
  owns: any(res(['icrc37_transfer_from']), view('owner', 'balance', 'approvals', 'coll')),
  nontrivial: (s) => n(s, 'transferred-from') >= 1 && n(s, 'tf-by-spender') >= 1 && ['NonExistingTokenId', 'Unauthorized', 'InvalidRecipient'].reduce((a, e) => a + n(s, `icrc37_transfer_from:${e}`), 0) >= 1,
});
