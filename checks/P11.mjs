import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P11', cases: { quick: 1100, thorough: 15000 },
  rule: 'A case is one generated history, the metadata of every token being read after most calls. Non-trivial: at least one token minted with metadata and at least one successful update of a token; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 5, update_nft_metadata: 9, icrc7_transfer: 2, burn_nft: 1.2, icrc37_approve_tokens: 0.5, icrc37_transfer_from: 0.7, update_collection_metadata: 0.5, upgrade: 1.5 }, initPerm: 0.1, metaHeavy: true, oddKeys: true, repeat: 0.04 },
  views: ['metadata', 'owner', 'blocks'], often: ['metadata'],
  len: [10, 28],
  owns: any(res(['update_nft_metadata']), view('metadata'), (d) => d.kind === 'res' && d.m === 'upgrade', (d) => d.kind === 'res' && d.m === 'mint' && d.got === 'trap'),
  nontrivial: (s) => n(s, 'ok:mint') >= 1 && n(s, 'ok:update_nft_metadata') >= 1,
});
