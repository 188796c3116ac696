import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P03', cases: { quick: 1100, thorough: 14000 },
  rule: 'A case is one generated history. Non-trivial: at least two items of icrc7_transfer succeeded and at least two were refused for a stated reason; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 4, icrc7_transfer: 12, icrc37_approve_tokens: 2.5, icrc37_approve_collection: 0.7, icrc37_transfer_from: 1.5, burn_nft: 0.7, update_collection_metadata: 0.4, upgrade: 0.5 }, initPerm: 0.1, valid: 0.65 },
  views: ['owner', 'balance', 'tokens_of', 'approvals', 'is_approved', 'blocks', 'metadata'], often: ['owner', 'balance'], viewRate: { approvals: 0.5, is_approved: 0.3, tokens_of: 0.15 },
  len: [12, 32],
  owns: any(res(['icrc7_transfer']), view('owner', 'balance', 'tokens_of', 'approvals', 'is_approved', 'metadata')),
  nontrivial: (s) => n(s, 'transferred') >= 2 && ['NonExistingTokenId', 'Unauthorized', 'InvalidRecipient', 'GenericError'].reduce((a, e) => a + n(s, `icrc7_transfer:${e}`), 0) >= 2,
});
