import { historyProperty } from '../engine/history.mjs';
import { any, res, view, cause, n } from '../engine/own.mjs';
const MG = ['mint', 'update_nft_metadata', 'update_collection_metadata', 'grant_permission', 'revoke_permission', 'init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload'];
export default historyProperty({
  id: 'P10', cases: { quick: 850, thorough: 12000 },
  rule: 'A case is one generated history. Non-trivial: at least one permission was granted or revoked, at least two management calls were rejected for lack of a permission and at least three succeeded; distinct by the sequence of calls and outcomes.',
  profile: { ops: { grant_permission: 7, revoke_permission: 5, mint: 3, update_nft_metadata: 3, update_collection_metadata: 2, init_upload: 2, store_chunk: 2, finalize_upload: 1.2, cancel_upload: 1, icrc7_transfer: 0.7, burn_nft: 0.3, upgrade: 1.2 }, initPerm: 0.4, permOk: 0.55, noTest: 0.4, repeat: 0.03 },
  views: ['perms', 'guards', 'uploads', 'settings', 'owner', 'metadata', 'blocks'], often: ['perms'], viewRate: { perms: 0.35, guards: 0.25, uploads: 0.4, settings: 0.2 },
  len: [12, 34],
  owns: any(cause('perm', 'perm-held'), res(['grant_permission', 'revoke_permission']), view('perms', 'guards', 'uploads', 'settings', 'owner', 'metadata', 'blocks')),
  nontrivial: (s) => n(s, 'ok:grant_permission') + n(s, 'ok:revoke_permission') >= 1 && MG.reduce((a, m) => a + n(s, `denied:${m}`), 0) >= 2 && MG.reduce((a, m) => a + n(s, `ok:${m}`), 0) >= 3,
});
