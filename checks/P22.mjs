// Schedules of the index: update rounds, queries and clean-ups are started without waiting for earlier
// ones, messages are delivered one at a time in a drawn order, calls of the index fail or lose their
// answer, both canisters are upgraded in between, time stands still for days. Oracle: the ledger's log;
// the position never goes back, every answer is right for the position it was given at, no job traps
// unless a call of its own failed, and after undisturbed rounds everything is indexed exactly once.
import { Rng, ADMIN, SEC, DAY, rejText } from '../engine/util.mjs';
import { Gen, resolve } from '../engine/gen.mjs';
import { World, clone } from '../engine/history.mjs';
import { FEW } from '../engine/batch.mjs';
import { OPS, bulk, genQuery, IndexOracle } from '../engine/indexer.mjs';
import { out } from '../sim/core.mjs';
import { show } from '../sim/candid.mjs';

const PROFILE = { ops: OPS, initPerm: 0.05, permOk: 0.97, valid: 0.9, repeat: 0.02, metaHeavy: true, setting: { tx_window: 0, supply_cap: 0, max_update_batch_size: 0, max_memo_size: 0.1, atomic_batch_transfers: 0.1 } };
const MIN = 60n * SEC;

class Sched {
  constructor(mods, kase) {
    this.w = new World(mods, kase.init, { accounts: FEW, spenders: FEW }); this.o = new IndexOracle(this.w);
    this.flying = []; this.later = []; this.trace = []; this.troubles = 0; this.arm = null; this.clean = 0n;
    this.ix = this.w.r.get(this.o.ix.id); this.core = this.w.r.get(this.w.core.id); this.fetches = 0;
    const { r } = this.w;
    r.hooks.fault = (m) => { if (m.from !== this.ix.id || m.method.startsWith('<')) return null; this.fetches++; return this.hit('call') ? { code: this.arm.code, msg: rejText(this.arm.code, this.arm.n), when: this.arm.when } : null; };
    r.hooks.perform = (c) => c === this.ix && this.hit('perform');
  }
  hit(how) { const a = this.arm; if (!a || a.how !== how) return false; const i = a.k++; if (i < a.n || i >= a.n + a.len) return false; this.troubles++; this.count(`fault ${how}${a.when === 'after' ? ' (answer lost)' : ''}`); return true; }
  count(k) { this.w.model.count(k); }
  archiving() { return this.core.pendingCallbacks.size > 0; }
  eligible() { // calls from one canister to another stay in order; everything else may overtake
    const seen = new Set(); const e = [];
    this.w.r.queue.forEach((m, i) => { if (m.kind === 'request' && !m.origin?.ticket) { const k = `${m.from}>${m.to}`; if (seen.has(k)) return; seen.add(k); } e.push(i); });
    return e;
  }
  deliver(pick) {
    const { r } = this.w; const e = this.eligible(); if (!e.length) return false;
    return this.one(e[pick % e.length]);
  }
  one(i) {
    const { w, o } = this; const { r } = w; const m = r.queue[i]; const t = m.origin?.ticket;
    if (t?.q) { t.n = o.status(); t.lo = w.model.log.length; t.troubles = this.troubles; this.flying.push(t); }
    const bad = m.kind === 'response' && m.to === this.ix.id && m.res.ok === undefined; if (bad) { this.troubles++; this.count('failed calls of the index'); }
    const lock = this.archiving(); const before = this.troubles; const own = this.ix.lastTrap; this.ix.lastTrap = null;
    r.step(() => i);
    if (this.ix.lastTrap && !bad && before === this.troubles) o.dev('trap', `the index trapped although no call of it failed: ${this.ix.lastTrap.slice(0, 300)}`);
    if (this.ix.lastTrap) this.count('index traps');
    if (m.to === this.ix.id || m.from === this.ix.id) o.status();
    for (const t of [...this.flying]) if (t.res) {
      this.flying = this.flying.filter((x) => x !== t);
      this.later.push([t.q, out(t.res), t.n, t.lo, w.model.log.length, o.last, t.troubles !== this.troubles]);
      this.trace.push(t.res.ok ? 'answer' : 'failed');
    }
    return true;
  }
  judge() { if (this.archiving()) return; for (const a of this.later.splice(0)) this.o.judge(...a); }
  settle() { for (let i = 0; this.w.r.queue.length; i++) { if (i > 20000) throw new Error('does not settle'); this.one(0); } for (const t of this.flying) this.o.dev('get_blocks', `get_blocks ${show(t.q).slice(0, 200)} is never answered`); this.flying = []; this.judge(); }
  // The next messages of the ledger itself first, so that archiving does not hold its log.
  unlock() { const { r } = this.w; for (let i = 0; this.archiving(); i++) { const k = r.queue.findIndex((m) => (m.kind === 'request' ? m.from === this.core.id || (m.to !== this.ix.id && m.from !== this.ix.id && !m.origin?.ticket) : m.to === this.core.id || m.to !== this.ix.id)); if (k < 0 || i > 2000) return false; this.one(k); } return true; }
  advance(dt) { // timers fire on the way, their messages wait for delivery
    this.w.r.advance(BigInt(dt), { settle: false });
  }
  run(op) {
    const { w, o } = this; const { r } = w;
    if (op.stall) r.now += BigInt(op.stall); // the subnet stands still: timers are late
    if (op.stall || op.dt) this.advance(op.dt ?? 0);
    if (op.fault) this.arm = { ...op.fault, k: 0 };
    if (op.x === 'query') { const t = o.ix.submit(w.caller, op.args); t.q = op.args; this.count('queries in flight'); }
    else if (op.x === 'settle') { this.settle(); this.trace.push(`settled at ${o.status()}`); }
    else if (op.x === 'wait') { /* only the deliveries below */ }
    else if (op.x === 'audit') { this.arm = null; this.settle(); o.audit(); }
    else if (op.x === 'upgrade index') {
      if (this.flying.length || this.ix.pendingCallbacks.size) this.count('index upgraded while waiting');
      this.flying = []; const q = r.queue; r.queue = []; this.troubles++; // the calls under way are cut off
      if (o.ix.upgrade(w.mods.index, ADMIN).trap !== undefined) o.dev('upgrade', 'the upgrade of the index trapped');
      r.queue = q.concat(r.queue); o.status(); this.count('upgrade index'); this.trace.push('upgrade index');
    } else if (op.up) {
      if (!this.unlock()) return;
      const q = r.queue; r.queue = []; const x = w.core.upgrade(w.mods.core, ADMIN); r.queue = q.concat(r.queue);
      if (x.trap !== undefined) { w.model.lost = true; return; }
      this.count('upgrade ledger'); this.trace.push('upgrade ledger');
    } else if (op.m) {
      if (!this.unlock()) return;
      const args = resolve(op.args, r.now); const t = w.core.submit(op.by, op.m, ...args); this.one(r.queue.length - 1);
      if (!t.res) { w.model.lost = true; return; }
      this.trace.push(`${op.m} ${w.model.step(r.now, op.by, op.m, args, out(t.res))}`);
    }
    for (const p of op.picks ?? []) if (!this.deliver(p)) break;
    this.judge();
  }
  finish() {
    const { w, o } = this; const { r } = w; this.arm = null; this.settle();
    const rounds = Math.ceil((w.model.log.length - Number(o.last)) / 100) + 2;
    const watch = () => { this.ix.lastTrap = null; };
    for (let i = 0; i < rounds; i++) { this.advance(MIN + SEC); this.settle(); }
    const n = o.status();
    if (n !== BigInt(w.model.log.length)) o.dev('catch up', `after ${rounds} undisturbed rounds the index covers ${n} of ${w.model.log.length} blocks`);
    watch(); o.audit();
    // the daily clean-up empties the cache: the blocks are fetched anew, and are the same
    if (w.model.log.length) {
      this.settle(); r.now += DAY; this.advance(2n * MIN); this.settle(); o.status();
      const f0 = this.fetches; o.ask({ start: 0n, length: 1n, filters: [], sort_by: { Ascending: null } });
      if (this.fetches === f0) o.dev('clean-up', 'a day later block 0 is still answered from the cache'); else this.count('clean-ups seen');
    }
    if (o.ix.upgrade(w.mods.index, ADMIN).trap !== undefined) o.dev('upgrade', 'the upgrade of the index trapped');
    if (o.status() !== n) o.dev('upgrade', `the upgrade moved the position from ${n} to ${o.last}`);
    o.audit(); if (w.model.log.length) o.ask({ start: 0n, length: 200n, filters: [], sort_by: null });
  }
  owned() { return this.w.model.devs.find((d) => d.kind === 'index') ?? null; }
}
const DT = (r) => r.w([[4, 0n], [4, () => BigInt(r.int(1, 5)) * 7n * SEC], [6, MIN + SEC], [2, 2n * MIN + SEC], [0.8, 11n * MIN]]);
const run = (mods, kase, gen) => {
  const s = new Sched(mods, kase); const m = s.w.model;
  const n = gen ? kase.len : kase.ops.length;
  for (let i = 0; i < n && !s.owned() && !m.lost; i++) {
    if (gen && kase.ops.length <= i) {
      const r = gen.r; const x = r.f(); let op; const dt0 = DT(r); const dt = typeof dt0 === 'function' ? dt0() : dt0;
      if (x < 0.25) op = { dt, x: 'query', args: genQuery(r, s.w) };
      else if (x < 0.5) op = { dt: dt || MIN + SEC, x: 'wait' };
      else if (x < 0.53) op = { dt, x: 'upgrade index' };
      else if (x < 0.55) op = { dt, up: true };
      else if (x < 0.60) op = { dt, x: 'settle' };
      else if (x < 0.62) op = { dt, x: 'audit' };
      else if (x < 0.64) op = { dt: 0n, stall: r.pick([DAY, 3n * MIN, 2n * DAY + SEC]), x: 'wait' };
      else { op = gen.call(m, s.w.r.now); if (op.up) op = { dt: 0n, x: 'settle' }; if (op.dt > MIN) op.dt = SEC; }
      if (r.p(0.14)) op.fault = { how: r.w([[3, 'call'], [1, 'perform']]), n: r.int(0, 3), len: r.w([[4, 1], [2, 2], [1, 9]]), code: r.pick([2, 3, 4, 5, 6]), when: r.p(0.4) ? 'after' : 'before' };
      op.picks = Array.from({ length: r.w([[3, 0], [5, r.int(1, 3)], [3, r.int(4, 12)], [2, 60]]) }, () => r.int(0, 6));
      kase.ops.push(op);
    }
    s.run(kase.ops[i]);
  }
  if (!m.lost && !s.owned()) s.finish();
  return { s, owned: s.owned(), stats: m.stats };
};
const describe = (kase) => kase.ops.map((o) => `+${o.dt ?? 0}${o.stall ? ` (stall ${o.stall})` : ''} ${o.up ? 'upgrade ledger' : o.x ? `${o.x} ${o.args ? show(o.args).slice(0, 200) : ''}` : `${o.by.slice(0, 5)} ${o.m} ${show(o.args).slice(0, 160)}`}${o.fault ? ` fault ${show(o.fault)}` : ''}, then deliver ${o.picks?.length ?? 0}`);
export default {
  id: 'P22', level: 'fault_enumeration', cases: { quick: 600, thorough: 9000 },
  rule: 'A case is one generated schedule of ledger calls, update rounds of the index, queries in flight, clean-ups, stalls, failing and lost calls of the index and upgrades of both canisters, with every message delivered in a drawn order. Non-trivial: at least ten blocks, two queries answered while in flight with other messages, and a failed call or an upgrade of the index; distinct by the sequence of outcomes.',
  runCase(mods, seed) {
    const rng = new Rng(seed); const gen = new Gen(rng, PROFILE);
    const kase = { init: { ...gen.init(), tx_window: 0n }, ops: [], len: rng.int(25, 60) };
    if (rng.p(0.25)) kase.ops.push(...bulk(rng.int(15, 60)).map((o) => ({ ...o, picks: [] })));
    kase.len += kase.ops.length;
    const { s, owned, stats } = run(mods, kase, gen); const m = s.w.model;
    const sig = s.trace.join(',');
    const n = (k) => Object.keys(stats).filter((x) => x.startsWith(k)).reduce((a, x) => a + stats[x], 0);
    return { stats: { ...stats, 'messages delivered': s.w.r.stats.msgs, blocks: m.log.length }, nontrivial: m.log.length >= 10 && n('queries in flight') >= 2 && n('fault') + n('upgrade index') > 0 ? sig : null, sample: () => ({ schedule: describe(kase).slice(0, 14), outcome: s.trace.slice(0, 14) }), known: {}, other: m.devs.filter((d) => d !== owned), violation: owned ? { kase: { init: kase.init, ops: kase.ops }, dev: owned } : null };
  },
  rerun(mods, kase) { return run(mods, clone(kase), null).owned; },
  describe,
};
