import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P02', cases: { quick: 1100, thorough: 14000 },
  rule: 'A case is one generated history. Non-trivial: at least two successful mints and at least one refused mint or burn in between; distinct by the sequence of calls and outcomes.',
  profile: { bigMint: 0.02, ops: { mint: 12, burn_nft: 3, icrc7_transfer: 1.5, icrc37_transfer_from: 0.3, update_nft_metadata: 1, update_collection_metadata: 1.5, grant_permission: 0.7, revoke_permission: 0.7, upgrade: 1 }, initPerm: 0.3, permOk: 0.85, repeat: 0.03, setting: { supply_cap: 0.45, max_update_batch_size: 0.4, max_memo_size: 0.4 } },
  views: ['owner', 'supply', 'tokens', 'balance', 'metadata', 'blocks'], often: ['owner', 'supply', 'metadata', 'blocks'],
  len: [12, 30],
  owns: any(res(['mint']), view('owner', 'supply', 'tokens', 'balance', 'metadata', 'blocks')),
  nontrivial: (s) => n(s, 'ok:mint') >= 2 && n(s, 'fail:mint') + n(s, 'ok:burn_nft') >= 1,
});
