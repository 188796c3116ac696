import { historyProperty } from '../engine/history.mjs';
import { any, res, view, cause, n } from '../engine/own.mjs';
const LOGGED = ['mint', 'burn_nft', 'icrc7_transfer', 'icrc37_transfer_from', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'update_nft_metadata'];
export default historyProperty({
  id: 'P08', cases: { quick: 1100, thorough: 12000 },
  rule: 'A case is one generated history. Non-trivial: at least four different kinds of logged calls succeeded and at least one call was refused; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 5, icrc7_transfer: 4, icrc37_approve_tokens: 4, icrc37_approve_collection: 3, icrc37_revoke_token_approvals: 2.5, icrc37_revoke_collection_approvals: 2.5, icrc37_transfer_from: 4, burn_nft: 2, update_nft_metadata: 3, update_collection_metadata: 0.5, grant_permission: 0.4, upgrade: 0.8 }, initPerm: 0.1, valid: 0.85 },
  views: ['blocks', 'replay'], often: ['blocks'], viewRate: { replay: 0.1 },
  len: [14, 36],
  owns: any(view('blocks', 'replay'), cause('txid')),
  end: (w) => { w.obs.blocks(true); },
  nontrivial: (s) => LOGGED.filter((m) => n(s, `ok:${m}`) > 0).length >= 4 && LOGGED.some((m) => n(s, `fail:${m}`) > 0),
});
