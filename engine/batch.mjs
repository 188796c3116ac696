// Helpers for checks that compare the futures of one state.
import { Observer } from './observe.mjs';
import { resolve } from './gen.mjs';
export const BATCH = ['icrc7_transfer', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals', 'icrc37_transfer_from'];
// The per-item results of a batch call, or null if it has none.
export function items(res) { if (res.rej) return null; const v = res.v?.Ok ?? res.v; return Array.isArray(v) ? v : null; }
export const isOk = (x) => !!x && 'Ok' in x;
export const errOf = (x) => (x?.Err ? Object.keys(x.Err)[0] : null);
// Runs f on a copy of the world's canisters and undoes everything.
export function apart(w, f) { const s = w.r.snapshot(); try { return f(s); } finally { w.r.restore(s); } }
export const call = (w, op, args) => w.core.update(op.by, op.m, ...resolve(args, w.r.now));
export const raw = (w, o) => Observer.raw(w, o);
// A smaller cast, so that a full snapshot of the views is cheap.
import { P, SUBS } from './util.mjs';
export const FEW = [P(2), P(3)].flatMap((owner) => [SUBS[0], SUBS[2]].map((subaccount) => ({ owner, subaccount }))).concat([{ owner: P(4), subaccount: null }]);
