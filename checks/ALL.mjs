// Not a registered check: everything at once, to look for disagreements between model and canister.
import { historyProperty } from '../engine/history.mjs';
export default historyProperty({
  id: 'ALL', cases: { quick: 600, thorough: 12000 }, rule: 'x',
  profile: { ops: { mint: 5, icrc7_transfer: 5, icrc37_approve_tokens: 4, icrc37_approve_collection: 3, icrc37_revoke_token_approvals: 2, icrc37_revoke_collection_approvals: 2, icrc37_transfer_from: 4, burn_nft: 1, update_nft_metadata: 1, update_collection_metadata: 0.6, upgrade: 0.6, grant_permission: 1, revoke_permission: 1, init_upload: 2, store_chunk: 4, finalize_upload: 2, cancel_upload: 1 }, initPerm: 0.2 },
  views: ['owner', 'balance', 'tokens', 'tokens_of', 'supply', 'metadata', 'approvals', 'coll', 'is_approved', 'blocks', 'settings', "perms", "uploads", "redirects", "files"],
  len: [12, 40], owns: (d) => true, nontrivial: () => true,
});
