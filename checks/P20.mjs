import { historyProperty } from '../engine/history.mjs';
import { view, n, cause } from '../engine/own.mjs';
import { BATCH, items, isOk, errOf, apart, call, raw } from '../engine/batch.mjs';
import { Observer } from '../engine/observe.mjs';
import { show } from '../sim/candid.mjs';
const LOGS = [...BATCH, 'mint', 'burn_nft', 'update_nft_metadata'];
// On a copy, the log is filled up at the instant of the call until it takes no more blocks; whatever the
// call answers then, its failed items have changed nothing.
function whenFull(w, op) {
  const m = w.model; const by = [...m.perms].find(([, s]) => s.has('Minting'))?.[0]; if (!by || m.fault) return;
  apart(w, () => {
    const one = () => w.core.update(by, 'mint', { mint_requests: [{ token_owner: { owner: by, subaccount: new Uint8Array(32).fill(9) }, memo: null, metadata: [] }] });
    let k = 0; while (k < 30 && one().v?.Ok !== undefined) k++;
    if (k === 30 || k < 1) return; // too little room for tokens, or the log takes everything
    const a = raw(w); const x = call(w, op, op.args);
    const out = BATCH.includes(op.m) ? items(x) : null;
    if (!x.rej && !x.v?.Err && (!out || out.some(isOk))) { m.count('accepted although the log is full'); return; }
    m.count(`with a full log:${op.m}`);
    for (const d of Observer.diff(a, raw(w)).slice(0, 2)) w.obs.dev('failed call', `${op.m}, refused with a full log (${show(x.rej ?? x.v).slice(0, 200)}), but ${d}`);
  });
}
const UP = ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload'];
export default historyProperty({
  id: 'P20', cases: { quick: 580, thorough: 8000 },
  rule: 'A case is one generated history; every observable answer is recorded before each call and compared after each call that failed. Non-trivial: at least three failed calls of different methods and at least three successful ones; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 5, icrc7_transfer: 6, icrc37_approve_tokens: 4, icrc37_approve_collection: 3, icrc37_revoke_token_approvals: 3, icrc37_revoke_collection_approvals: 2.5, icrc37_transfer_from: 4, burn_nft: 2, update_nft_metadata: 2, update_collection_metadata: 1, grant_permission: 1, revoke_permission: 1, init_upload: 2, store_chunk: 2.5, finalize_upload: 1.5, cancel_upload: 1 }, initPerm: 0.2, permOk: 0.8, valid: 0.62, single: 4, setting: { atomic_batch_transfers: 0.5, supply_cap: 0.35, max_update_batch_size: 0.3, max_memo_size: 0.35 } },
  views: ['owner', 'blocks'], often: [], viewRate: { owner: 0.2, blocks: 0.1 },
  len: [10, 26],
  opgen: (op, r, w, g) => { if (UP.includes(op.m) && r.p(0.25)) op.fault = g.fault(); return op; },
  hooks: () => {
    let a = null;
    return {
      before(w, op) {
        a = op.up ? null : raw(w); if (!op.up && LOGS.includes(op.m) && (w.turn = (w.turn ?? 0) + 1) % 3 === 0) whenFull(w, op);
        if (op.up || !BATCH.includes(op.m) || op.args[0].length < 2) return;
        apart(w, (s0) => { // the failed items of a batch leave nothing behind
          const x = call(w, op, op.args); const out = items(x);
          if (!out || !out.some(isOk) || out.every(isOk)) return;
          w.model.count('mixed batches');
          const full = raw(w);
          w.r.restore(s0); const only = op.args[0].filter((_, i) => isOk(out[i]));
          const y = items(call(w, op, [only]));
          if (y && y.length === only.length && y.every(isOk)) for (const d of Observer.diff(full, raw(w)).slice(0, 2)) w.obs.dev('failed items', `${op.m}: the items that failed changed something (without them first): ${d}`);
          else if (!y || y.some((e) => !isOk(e) && errOf(e) !== 'GenericError')) w.obs.dev('failed items', `${op.m}: items succeed only together with items that fail`);
        });
      },
      after(w, op, o) {
        if (!a || o.kind !== 'fail') return;
        const skip = UP.includes(op.m) ? (k) => k === 'storage' : () => false; // a storage canister created in vain
        w.model.count('failed calls compared'); w.model.count(`unchanged:${op.m}`);
        for (const d of Observer.diff(a, raw(w), skip).slice(0, 2)) w.obs.dev('failed call', `${op.m} failed (${JSON.stringify(o.res.rej ?? o.res.v, (k, x) => (typeof x === 'bigint' ? String(x) : x)).slice(0, 200)}) but ${d}`);
      },
    };
  },
  owns: (d) => view('failed call', 'failed items')(d) || (d.causes.includes('atomic') && d.kind === 'res'),
  nontrivial: (s) => Object.keys(s).filter((k) => k.startsWith('unchanged:')).length >= 3 && Object.keys(s).filter((k) => k.startsWith('ok:')).reduce((x, k) => x + s[k], 0) >= 3,
});
