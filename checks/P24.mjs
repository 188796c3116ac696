import { historyProperty } from '../engine/history.mjs';
import { view, n } from '../engine/own.mjs';
import { BATCH, items, isOk, errOf, apart, call, raw } from '../engine/batch.mjs';
import { Observer } from '../engine/observe.mjs';
import { ANON, MS } from '../engine/util.mjs';
import { show } from '../sim/candid.mjs';

// Before a batch call is made, its future is compared with that of its items made one at a time at the
// same instant, both starting from the same state.
export default historyProperty({
  id: 'P24', cases: { quick: 800, thorough: 10000 },
  rule: 'A case is one generated history; every batch call in it is compared with the sequence of its items. Non-trivial: at least two compared batches of two or more items, at least one of them with a successful item; distinct by the sequence of calls and outcomes.',
  profile: { ops: { mint: 4, icrc7_transfer: 6, icrc37_approve_tokens: 6, icrc37_approve_collection: 4, icrc37_revoke_token_approvals: 5, icrc37_revoke_collection_approvals: 4, icrc37_transfer_from: 6, burn_nft: 0.5, update_collection_metadata: 0.3, upgrade: 0.2 }, initPerm: 0.05, valid: 0.75, single: 2, empty: 0.6, repeat: 0.08, again: true, setting: { atomic_batch_transfers: 0.1, max_update_batch_size: 0.35, revoke: 0.5, approvals: 0.4, supply_cap: 0.1 },
    dt: (r, m) => m.window + BigInt(r.pick([200, 250, 400])) * MS },
  init: (gen, r) => { const o = gen.init(); if (r.p(0.7)) o.tx_window = r.pick([0n, 200n * MS]); return o; },
  opgen: (op, r) => { // repeats inside one batch
    if (!op.up && BATCH.includes(op.m) && op.args[0].length && op.args[0].length < 4 && r.p(0.12)) op.args = [[...op.args[0], r.pick(op.args[0])]];
    else if (!op.up && BATCH.includes(op.m) && op.args[0].length && r.p(0.012)) { // and long ones
      const k = r.pick([20, 51, 70, 101, 130]); const it = op.args[0];
      op.args = [Array.from({ length: k }, (_, i) => { const x = r.pick(it); return 'token_id' in x && r.p(0.6) ? { ...x, token_id: BigInt(1 + (i % 12)) } : x; })];
    }
    return op;
  },
  views: [], len: [10, 24],
  hooks: () => ({
    before(w, op) {
      if (op.up || !BATCH.includes(op.m)) return;
      const m = w.model; if (op.m === 'icrc7_transfer' && m.settings.atomic_batch_transfers === true) return;
      const list = op.args[0];
      const a0 = list.length ? null : raw(w);
      apart(w, (s0) => {
        const whole = call(w, op, op.args); const out = items(whole); const A = raw(w);
        if (list.length === 0) { m.count('empty batches'); if (!out || out.length) w.obs.dev('batch', `an empty ${op.m} answers ${show(whole)}`); for (const d of Observer.diff(a0, A).slice(0, 1)) w.obs.dev('batch', `an empty ${op.m} changed ${d}`); return; }
        if (!out) { w.obs.dev('batch', `${op.m} answers ${show(whole).slice(0, 300)}`); return; }
        if (op.by === ANON && op.m === 'icrc7_transfer') { if (out.some(isOk)) w.obs.dev('batch', `${op.m} of the anonymous caller succeeds`); return; }
        const lim = op.m === 'icrc7_transfer' ? Number(m.maxUpdate) : op.m.startsWith('icrc37_revoke') ? m.revokeLimit : Infinity;
        const k = Math.min(list.length, lim);
        if (out.length !== k && !out.some((x) => errOf(x) === 'GenericBatchError')) w.obs.dev('batch', `${op.m} of ${list.length} items answers ${out.length}`);
        if (k < list.length) m.count('beyond the limit');
        w.r.restore(s0);
        const one = []; let refused = false; const free = Number(m.maxUpdate) >= 1;
        for (let i = 0; i < k; i++) {
          const x = items(call(w, op, [[list[i]]]));
          if (!x || x.length !== 1) { if (k > 5) { m.count('set aside: rate limit or throttle'); return; } if (free) w.obs.dev('batch', `${op.m} of one item answers ${show(x)}`); return; }
          one.push(x[0]);
        }
        // Every batch starts with an empty window, so that neither the rate limit nor the throttle of the
        // log can refuse anything in batches of up to five.
        refused = k > 5 && [...one, ...out].some((x) => errOf(x) === 'GenericError');
        if (refused) { m.count('set aside: rate limit or throttle'); return; }
        if (list.length > 1) { m.count('batches compared'); if (list.length > 19) m.count('batches of twenty and more compared'); if (out.some(isOk)) m.count('batches with success'); if (out.some(isOk) && !out.every(isOk)) m.count('mixed batches'); }
        if (show(out) !== show(one)) w.obs.dev('batch', `${op.m} answers ${show(out).slice(0, 500)}, its items one by one ${show(one).slice(0, 500)}`);
        for (const d of Observer.diff(A, raw(w)).slice(0, 2)) w.obs.dev('batch', `${op.m} as a batch and item by item leave different states: ${d}`);
      });
    },
  }),
  owns: view('batch'),
  nontrivial: (s) => n(s, 'batches compared') >= 2 && n(s, 'batches with success') >= 1,
});
