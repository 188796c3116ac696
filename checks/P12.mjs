import { historyProperty } from '../engine/history.mjs';
import { any, res, view, cause, n } from '../engine/own.mjs';
export default historyProperty({
  id: 'P12', install: true, cases: { quick: 1300, thorough: 12000 },
  rule: 'A case is one generated history. Non-trivial: at least three settings were changed and at least one call met a limit (batch, memo, supply cap, time or a query limit); distinct by the sequence of calls and outcomes.',
  profile: { ops: { update_collection_metadata: 9, mint: 4, icrc7_transfer: 4, icrc37_approve_tokens: 1.5, icrc37_approve_collection: 0.7, icrc37_transfer_from: 1, burn_nft: 0.4, update_nft_metadata: 0.3, upgrade: 1 }, initPerm: 0.1, huge: 0.15, hugeWindow: true, valid: 0.6, repeat: 0.03, setting: { supply_cap: 0.4, max_update_batch_size: 0.4, max_query_batch_size: 0.4, max_take_value: 0.4, default_take_value: 0.4, max_memo_size: 0.4, permitted_drift: 0.4, approvals: 0.5, revoke: 0.4, logo: 0.5, description: 0.5 } },
  views: ['settings', 'limits', 'owner', 'supply'], often: ['settings'], viewRate: { settings: 0.6, limits: 0.4 },
  len: [10, 28],
  owns: any((d) => d.kind === 'res' && d.got === 'trap' && d.causes.includes('trap'), res(['update_collection_metadata']), cause('batch', 'memo', 'cap', 'time', 'atomic'), (d) => d.kind === 'res' && !d.causes.length && (['TooOld', 'CreatedInFuture', 'GenericError', 'ExceedMaxAllowedSupplyCap', 'InvalidMemo', 'trap'].includes(d.got)), view('settings', 'limits', 'owner', 'supply')),
  nontrivial: (s) => Object.keys(s).filter((k) => k.startsWith('set:')).reduce((a, k) => a + s[k], 0) >= 3 && (n(s, 'query limit met') > 0 || n(s, 'truncated') > 0 || ['mint:ExceedMaxAllowedSupplyCap', 'mint:InvalidMemo', 'icrc7_transfer:TooOld', 'icrc7_transfer:CreatedInFuture'].some((k) => n(s, k) > 0)),
});
