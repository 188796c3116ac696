import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
// After a burn the views and calls below must treat the token as one that never was.
export default historyProperty({
  id: 'P04', cases: { quick: 1000, thorough: 14000 },
  rule: 'A case is one generated history. Non-trivial: at least one token was burned, and at least one burn was refused or a call named a burned token later; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 6, burn_nft: 8, icrc7_transfer: 3, icrc37_approve_tokens: 4, icrc37_approve_collection: 1.2, icrc37_revoke_token_approvals: 1, icrc37_transfer_from: 2.5, update_nft_metadata: 1, upgrade: 0.8 }, initPerm: 0.1, setting: { supply_cap: 0.3 } },
  views: ['owner', 'balance', 'tokens', 'tokens_of', 'supply', 'metadata', 'approvals', 'is_approved', 'coll'], often: ['owner', 'balance', 'supply', 'tokens', 'metadata', 'approvals'], viewRate: { is_approved: 0.4, tokens_of: 0.4 },
  len: [12, 30],
  owns: any(res(['burn_nft']), (d) => d.kind === 'res' && (d.causes.includes('exist') || d.causes.includes('id') || d.causes.includes('cap') || (d.m === 'mint' && !d.causes.length)), view('owner', 'balance', 'tokens', 'tokens_of', 'supply', 'metadata', 'approvals', 'is_approved')),
  nontrivial: (s) => n(s, 'ok:burn_nft') >= 1 && (n(s, 'fail:burn_nft') >= 1 || ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_transfer_from'].some((m) => n(s, `${m}:NonExistingTokenId`) > 0)),
});
