// A history with upgrades in it against the same history without them: every answer of every call, and
// every view at the end, must be the same; and right at an upgrade no view may change.
import { World, clone } from '../engine/history.mjs';
import { Gen } from '../engine/gen.mjs';
import { Rng, MS } from '../engine/util.mjs';
import { Observer } from '../engine/observe.mjs';
import { raw } from '../engine/batch.mjs';
import { show } from '../sim/candid.mjs';

const profile = { day: 0, ops: { mint: 5, icrc7_transfer: 5, icrc37_approve_tokens: 4, icrc37_approve_collection: 3, icrc37_revoke_token_approvals: 1.5, icrc37_revoke_collection_approvals: 1.5, icrc37_transfer_from: 4, burn_nft: 1, update_nft_metadata: 3, update_collection_metadata: 1, grant_permission: 1, revoke_permission: 0.7, init_upload: 1.5, store_chunk: 2.5, finalize_upload: 1.5, cancel_upload: 0.5 }, initPerm: 0.2, metaHeavy: true, repeat: 0.15, valid: 0.8 };
// Many files, little else.
const files = { ...profile, ops: { mint: 1, init_upload: 6, store_chunk: 7, finalize_upload: 6, cancel_upload: 0.3, icrc7_transfer: 0.5, grant_permission: 0.2 }, oneChunk: 0.9, permOk: 1, valid: 1, repeat: 0.02 };
const strip = (res) => (res.rej ? 'rej:' + (res.rej.trapped ? 'trap' : res.rej.msg) : show(res.v));

// Canisters the ledger has made, by their kind alone: which identifier a new canister gets is not the
// ledger's doing, and which of several storage canisters takes a file is not promised.
function named(w, text) {
  for (const c of w.r.canisters.values()) if (c.createdBy === w.core.id && text.includes(c.id)) text = text.replaceAll(c.id, `${kind(c)} canister`);
  return text;
}
const kind = (c) => (!c.mod ? 'empty' : WebAssembly.Module.exports(c.mod.module).some((e) => /init_upload/.test(e.name)) ? 'storage' : 'archive');
const allNamed = (w, o) => { for (const k of Object.keys(o)) o[k] = named(w, o[k]); return o; };
const reads = (w) => { const f = {}; for (const v of ['files', 'http']) { w.model.devs.length = 0; w.obs.run([v], []); if (w.model.devs.length) f[v] = w.model.devs[0].msg; } w.model.devs.length = 0; return f; };
function run(mods, kase, gen) {
  const plain = new World(mods, clone(kase.init), {});
  if (plain.trap !== undefined) throw new Error(plain.trap);
  const A = [];
  const n = gen ? kase.len : kase.ops.length;
  for (let i = 0; i < n; i++) {
    if (gen && kase.ops.length <= i) { if (gen.r.p(0.13)) kase.ops.push({ dt: 0n, up: true }); else { const op = gen.call(plain.model, plain.r.now); kase.ops.push(op); } }
    const op = kase.ops[i];
    if (op.up) { A.push(null); continue; }
    const o = plain.exec(op); if (gen) gen.record(op, o.args); A.push(named(plain, strip(o.res)));
  }
  const stats = plain.model.stats;
  stats.upgrades = kase.ops.filter((o) => o.up).length;
  if (plain.model.lost) return { stats, trace: plain.trace };
  const w = new World(mods, clone(kase.init), {});
  const bad = (m, msg, at) => ({ kind: 'upgrade', m, causes: [], got: '', msg, at });
  for (let i = 0; i < n; i++) {
    const op = kase.ops[i];
    if (op.up) {
      const before = { ...raw(w), ...reads(w) };
      const o = w.exec({ dt: 0n, up: true });
      if (o.res.trap !== undefined) return { stats, trace: plain.trace, dev: bad('trap', `the upgrade traps: ${o.res.trap.slice(0, 300)}`, i) };
      const d = Observer.diff(before, { ...raw(w), ...reads(w) });
      if (d.length) return { stats, trace: plain.trace, dev: bad('view', `the upgrade changes ${d[0]}`, i) };
      continue;
    }
    const o = w.exec(op);
    const b = named(w, strip(o.res));
    if (b !== A[i]) return { stats, trace: plain.trace, dev: bad('result', `${op.m} answers ${b.slice(0, 400)} after an upgrade, ${A[i].slice(0, 400)} without one`, i) };
  }
  // When blocks move to the archive depends on when the ledger was last started.
  const d = Observer.diff(allNamed(plain, { ...raw(plain), ...reads(plain) }), allNamed(w, { ...raw(w), ...reads(w) }), (k) => k === 'archives');
  stats['queries compared'] = w.r.stats.queries;
  return { stats, trace: plain.trace, dev: d.length ? bad('end', `after the same calls, with upgrades: ${d[0]}`, n - 1) : null };
}
const describe = (kase) => kase.ops.map((o) => (o.up ? 'UPGRADE (second run only)' : `+${o.dt} ${o.by.slice(0, 5)} ${o.m} ${show(o.args).slice(0, 260)}`));
export default {
  id: 'P14', cases: { quick: 480, thorough: 8000 }, level: 'exploration',
  rule: 'A case is one generated history run with and without upgrades. Non-trivial: at least one upgrade with at least one successful call before it and one after it; distinct by the sequence of calls and outcomes.',
  runCase(mods, seed) {
    const rng = new Rng(seed); const gen = new Gen(rng, { ...(rng.p(0.2) ? files : profile), bigFiles: 0.02 });
    const kase = { init: gen.init(), ops: [], len: rng.int(10, 28) };
    const x = run(mods, kase, gen);
    const first = kase.ops.findIndex((o) => o.up), last = kase.ops.findLastIndex?.((o) => o.up) ?? -1;
    const oks = (ops) => ops.some((o) => !o.up);
    const nt = first > 0 && oks(kase.ops.slice(0, first)) && oks(kase.ops.slice(first)) && Object.keys(x.stats).filter((k) => k.startsWith('ok:')).reduce((a, k) => a + x.stats[k], 0) >= 2;
    return { stats: { ...x.stats, 'calls checked': kase.ops.length }, nontrivial: nt ? x.trace.join(',') + kase.ops.map((o) => (o.up ? 1 : 0)).join('') : null, sample: () => ({ init: show(kase.init).slice(0, 300), history: describe(kase).slice(0, 12) }), violation: x.dev ? { kase: { init: kase.init, ops: kase.ops }, dev: x.dev } : null };
  },
  rerun(mods, kase) { return run(mods, clone(kase), null).dev ?? null; },
  describe,
};
