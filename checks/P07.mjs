import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P07', cases: { quick: 1100, thorough: 12000 },
  rule: 'A case is one generated history. Non-trivial: at least two approvals given, one revoked, and one approve or revoke item refused; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 4, icrc37_approve_tokens: 8, icrc37_approve_collection: 6, icrc37_revoke_token_approvals: 5, icrc37_revoke_collection_approvals: 5, icrc37_transfer_from: 1, icrc7_transfer: 1.5, burn_nft: 0.5, upgrade: 0.6 }, initPerm: 0.05, valid: 0.75, setting: { approvals: 0.6, revoke: 0.5 } },
  views: ['approvals', 'coll', 'is_approved', 'owner'], often: ['approvals', 'coll'], viewRate: { is_approved: 0.15 },
  len: [12, 34],
  owns: any(res(['icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals']), view('approvals', 'coll', 'is_approved', 'owner')),
  nontrivial: (s) => n(s, 'ok:icrc37_approve_tokens') + n(s, 'ok:icrc37_approve_collection') >= 2 && n(s, 'revoked') >= 1 && ['icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals'].some((m) => ['NonExistingTokenId', 'Unauthorized', 'InvalidSpender', 'ApprovalDoesNotExist', 'GenericError'].some((e) => n(s, `${m}:${e}`) > 0)),
});
