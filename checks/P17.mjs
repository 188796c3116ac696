// Schedules: calls are submitted without waiting for earlier ones, messages are delivered one at a time
// in an order drawn by the generator, inter-canister calls fail, the ledger is upgraded while calls are
// out. Oracle: while a guarded call is in progress every other one is refused and changes nothing; all
// other answers are the reference model's; in the end everything is answered and nothing stays locked.
import { Rng, ADMIN, rejText } from '../engine/util.mjs';
import { Gen, USERS, resolve } from '../engine/gen.mjs';
import { World, clone } from '../engine/history.mjs';
import { Observer } from '../engine/observe.mjs';
import { raw, FEW } from '../engine/batch.mjs';
import { out } from '../sim/core.mjs';
import { show } from '../sim/candid.mjs';

const PERM = { update_collection_metadata: 'UpdateCollectionMetadata', mint: 'Minting', update_nft_metadata: 'UpdateMetadata', burn_nft: null, init_upload: 'UpdateUploads', store_chunk: 'UpdateUploads', finalize_upload: 'UpdateUploads', cancel_upload: 'UpdateUploads', grant_permission: 'ManageAuthorities', revoke_permission: 'ManageAuthorities' };
const UP = ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload'];
const PROFILE = { ops: { mint: 2.5, icrc7_transfer: 1, icrc37_approve_tokens: 0.7, burn_nft: 1, update_nft_metadata: 1.2, update_collection_metadata: 1.2, grant_permission: 1.2, revoke_permission: 1, init_upload: 6, store_chunk: 6, finalize_upload: 4, cancel_upload: 2.5 }, initPerm: 0.5, permOk: 0.93, valid: 0.9, repeat: 0.02, oneChunk: 0.6, setting: { tx_window: 0, supply_cap: 0.05, max_update_batch_size: 0.05 },
  dt: (r, m, now) => (m.mayThrottle(now) && r.p(0.4) ? m.window + 130_000_000n : BigInt(r.w([[4, 0], [2, r.int(1, 100)], [3, r.int(1, 200) * 1_000_000]]))) };

class Sched {
  constructor(mods, kase) { this.w = new World(mods, kase.init, { accounts: FEW, spenders: FEW }); this.flying = []; this.cut = []; this.wild = new Set(); this.devs = []; this.trace = []; }
  dev(m, msg) { this.devs.push({ kind: 'lock', m, causes: [], got: '', msg }); }
  eligible() { // calls from one canister to another stay in order; everything else may overtake
    const seen = new Set(); const r = [];
    this.w.r.queue.forEach((m, i) => {
      if (m.kind === 'request' && !m.origin?.ticket) { const k = `${m.from}>${m.to}`; if (seen.has(k)) return; seen.add(k); }
      r.push(i);
    });
    return r;
  }
  deliver(pick) { // one message
    const { w } = this; const e = this.eligible(); if (!e.length) return false;
    const i = e[pick % e.length], msg = w.r.queue[i], t = msg.origin?.ticket?.call ? msg.origin.ticket : null;
    if (!t) { w.r.step(() => i); this.answers(); return true; }
    const c = t.call; const busy = this.flying.length > 0; const guarded = c.m in PERM;
    const may = PERM[c.m] === null || w.model.has(c.by, PERM[c.m]);
    const before = busy && guarded ? raw(w) : null;
    if (!busy && guarded) this.faults(c);
    t.at = w.r.now; w.r.step(() => i);
    if (before) {
      w.model.count('overlapping calls');
      const who = `${c.m} during ${this.flying[0].call.m}`;
      if (!t.res) { this.dev(c.m, `${who} was not refused`); this.flying.push(t); return true; }
      const x = out(t.res); this.trace.push(`${c.m} refused`);
      if (may ? !(x.v?.Err && (x.v.Err === 'ConcurrentManagementCall' || 'ConcurrentManagementCall' in Object(x.v.Err))) : !x.rej || x.rej.trapped) this.dev(c.m, `${who} answered ${show(x).slice(0, 300)}, expected ${may ? 'ConcurrentManagementCall' : 'to be rejected'}`);
      w.model.count(may ? `overlap:${c.m}` : 'overlap without permission');
      for (const d of Observer.diff(before, raw(w)).slice(0, 2)) this.dev(c.m, `${who} was refused but ${d}`);
      return true;
    }
    if (!t.res) { this.flying.push(t); w.model.count(`waiting:${c.m}`); if (!guarded) this.dev(c.m, `${c.m} waits for another canister`); return true; }
    this.judge(t); return true;
  }
  faults(c) {
    const { r, model } = this.w; r.hooks.fault = null; r.hooks.perform = null; model.fault = null;
    if (!c.fault) return; const f = c.fault; let k = 0;
    const hit = () => { const i = k++; if (i < f.n || i >= f.n + f.len) return false; model.fault = f; model.count(`fault ${f.how}`); return true; };
    if (f.how === 'perform') r.hooks.perform = () => hit();
    else r.hooks.fault = (m) => (m.from === this.w.core.id && !m.method.startsWith('<') && hit() ? { code: f.code, msg: rejText(f.code, f.n), when: 'before' } : null);
  }
  judge(t) {
    const { w } = this; const c = t.call; const x = out(t.res);
    if (UP.includes(c.m) && this.wild.has(c.args[0].file_path) && w.model.has(c.by, 'UpdateUploads')) {
      if (x.rej || (x.v?.Err && (x.v.Err === 'ConcurrentManagementCall' || 'ConcurrentManagementCall' in Object(x.v.Err)))) this.dev(c.m, `${c.m} answered ${show(x).slice(0, 300)} although no other call is in progress`);
      this.trace.push(`${c.m} ?`);
    } else this.trace.push(`${c.m} ${w.model.step(w.r.now, c.by, c.m, c.args, x)}`);
    if (!this.flying.length) { w.r.hooks.fault = null; w.r.hooks.perform = null; w.model.fault = null; }
  }
  answers() { for (const t of [...this.flying]) if (t.res) { this.flying = this.flying.filter((x) => x !== t); this.judge(t); } }
  settle() {
    for (let i = 0; this.w.r.queue.length; i++) { if (i > 5000) throw new Error('does not settle'); this.deliver(0); }
    for (const t of this.flying) this.dev(t.call.m, `${t.call.m} is never answered`);
    this.flying = [];
  }
  run(op) {
    const { w } = this; const { r } = w;
    r.advance(BigInt(op.dt ?? 0), { settle: false });
    if (op.up) {
      for (const t of this.flying) { this.cut.push(t); if (UP.includes(t.call.m)) { const p = t.call.args[0].file_path; this.wild.add(p); w.model.uploads.delete(p); } w.model.count(`cut off:${t.call.m}`); }
      this.flying = []; r.hooks.fault = null; r.hooks.perform = null; w.model.fault = null;
      const q = r.queue; r.queue = []; // the upgrade itself, with everything on its way
      const x = w.core.upgrade(w.mods.core, ADMIN); r.queue = q.concat(r.queue);
      if (x.trap !== undefined) this.dev('upgrade', `upgrade trapped: ${x.trap.slice(0, 300)}`);
      w.model.count('upgrade'); this.trace.push('upgrade');
    } else if (op.settle) { this.settle(); } else {
      const call = { by: op.by, m: op.m, args: resolve(op.args, r.now), fault: op.fault };
      w.core.submit(op.by, op.m, ...call.args).call = call;
    }
    for (const p of op.picks ?? []) if (!this.deliver(p)) break;
  }
  finish() {
    const { w } = this; this.settle();
    for (const m of Object.keys(PERM)) { // nothing stays locked: harmless calls are let through
      w.r.advance(w.model.window + 200_000_000n);
      const by = m === 'burn_nft' ? USERS[0] : [...w.model.perms].find(([, s]) => s.has(PERM[m]))?.[0]; if (!by) continue;
      const file_path = '/never';
      const arg = { update_collection_metadata: { description: 'end' }, mint: { mint_requests: [] }, update_nft_metadata: { token_id: 10n ** 9n, metadata: [] }, burn_nft: 10n ** 9n, init_upload: { file_path, file_hash: '', file_size: 2n ** 40n, chunk_size: null }, store_chunk: { file_path, chunk_id: 0n, chunk_data: new Uint8Array(1) }, finalize_upload: { file_path }, cancel_upload: { file_path }, grant_permission: { principal: ADMIN, permission: { ReadUploads: null } }, revoke_permission: { principal: USERS[3], permission: { ReadUploads: null } } }[m];
      const x = w.core.update(by, m, arg); w.model.step(w.r.now, by, m, [arg], x); w.model.count('probes');
    }
    w.obs.since = ['end'];
    for (const v of ['owner', 'settings', 'perms', 'metadata', 'blocks']) w.obs[v]();
    if (!this.wild.size) w.obs.uploads();
  }
  owned() { return this.devs[0] ?? this.w.model.devs.find((d) => d.got === 'ConcurrentManagementCall') ?? null; }
}

const run = (mods, kase, gen) => {
  const s = new Sched(mods, kase); const m = s.w.model;
  const n = gen ? kase.len : kase.ops.length;
  for (let i = 0; i < n && !s.owned() && !m.lost; i++) {
    if (gen) {
      const r = gen.r; const x = r.f(); let op;
      if (x < 0.045) op = { dt: gen.dt(m, s.w.r.now), up: true }; else if (x < 0.17) op = { dt: gen.dt(m, s.w.r.now), settle: true };
      else { op = gen.call(m, s.w.r.now); if (op.up) op = { dt: 0n, settle: true }; if (UP.includes(op.m) && r.p(0.25)) op.fault = gen.fault(); }
      // enough steps for the call to get somewhere, but seldom to the end
      op.picks = Array.from({ length: r.w([[2, 0], [5, r.int(1, 3)], [2, r.int(4, 9)], [2, 30]]) }, () => r.int(0, 5));
      kase.ops.push(op);
    }
    s.run(kase.ops[i]);
  }
  if (!m.lost) s.finish();
  return { s, owned: s.owned(), stats: m.stats };
};
const describe = (kase) => kase.ops.map((o) => `+${o.dt} ${o.up ? 'upgrade' : o.settle ? 'settle' : `${o.by.slice(0, 5)} ${o.m} ${show(o.args).slice(0, 200)}${o.fault ? ` fault ${show(o.fault)}` : ''}`}, then deliver ${o.picks?.length ?? 0}`);
const n = (s, k) => Object.keys(s).filter((x) => x.startsWith(k)).reduce((a, x) => a + s[x], 0);
export default {
  id: 'P17', level: 'fault_enumeration', cases: { quick: 650, thorough: 9000 },
  rule: 'A case is one generated schedule: calls submitted without waiting, the order of every message delivery, failing inter-canister calls and upgrades in between. Non-trivial: at least two guarded calls were delivered while another one was waiting for a storage canister and at least one ended later; distinct by the sequence of outcomes.',
  runCase(mods, seed) {
    const rng = new Rng(seed); const gen = new Gen(rng, PROFILE);
    const kase = { init: gen.init(), ops: [], len: rng.int(14, 45) };
    kase.init.test_mode = true;
    const { s, owned, stats } = run(mods, kase, gen);
    const sig = s.trace.join(',');
    return { stats: { ...stats, 'messages delivered': s.w.r.stats.msgs }, nontrivial: n(stats, 'overlap') >= 2 && n(stats, 'waiting:') > n(stats, 'cut off:') ? sig : null, sample: () => ({ schedule: describe(kase).slice(0, 14), outcome: s.trace.slice(0, 14) }), known: {}, other: s.w.model.devs.filter((d) => d !== owned), violation: owned ? { kase: { init: kase.init, ops: kase.ops }, dev: owned } : null };
  },
  rerun(mods, kase) { return run(mods, clone(kase), null).owned; },
  describe,
};
