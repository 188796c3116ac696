import { historyProperty } from '../engine/history.mjs';
export default historyProperty({
  id: 'P01', cases: { quick: 1200, thorough: 12000 },
  rule: 'A case is one generated history. Non-trivial: at least three of its calls changed ownership (mint, transfer, approved transfer or burn), at least one of them not a mint; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 5, icrc7_transfer: 7, icrc37_approve_tokens: 2, icrc37_approve_collection: 1, icrc37_transfer_from: 4, burn_nft: 3, update_nft_metadata: 0.5, update_collection_metadata: 0.4, upgrade: 0.6 }, initPerm: 0.1 },
  views: ['owner', 'balance', 'tokens', 'tokens_of', 'supply'], often: ['owner', 'balance', 'tokens', 'supply'], viewRate: { tokens_of: 0.4 },
  len: [12, 34],
  owns: (d) => d.kind === 'view' && ['owner', 'balance', 'tokens', 'tokens_of', 'supply'].includes(d.m),
  nontrivial: (s) => (s['ok:mint'] ?? 0) + (s.transferred ?? 0) + (s['transferred-from'] ?? 0) + (s['ok:burn_nft'] ?? 0) >= 3 && (s.transferred ?? 0) + (s['transferred-from'] ?? 0) + (s['ok:burn_nft'] ?? 0) >= 1,
});
