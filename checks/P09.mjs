// Archiving: blocks move to archive canisters every ten minutes, while calls are made, inter-canister
// calls fail, the log fills up and the ledger is upgraded. Oracle: the model's log. Every block is
// compared when it is logged; from then on it has to be served, unchanged and exactly once, by the
// ledger or by the archive the ledger points to.
import { historyProperty } from '../engine/history.mjs';
import { Observer } from '../engine/observe.mjs';
import { OPS, bulk } from '../engine/indexer.mjs';
import { ADMIN, MS, SEC } from '../engine/util.mjs';
import { resolve } from '../engine/gen.mjs';
import { out, encodeCall } from '../sim/core.mjs';
import { show } from '../sim/candid.mjs';

const TEN = 600n * SEC;
const LOGGING = new Set(Object.keys(OPS));
const bad = (w, m, msg, kind = 'log') => w.model.devs.push({ kind, m, causes: [], got: '', msg });

// The whole log, wherever it is.
function check(w) {
  const { model, core } = w; const st = w.log09;
  const x = Observer.blocks(core, w.caller, 0n, BigInt(model.log.length + 5));
  if (x.rej) { bad(w, 'icrc3_get_blocks', `the log cannot be read: ${x.rej.msg.slice(0, 300)}`); return null; }
  model.count('whole logs read');
  if (x.v.log_length !== BigInt(model.log.length)) bad(w, 'icrc3_get_blocks', `log_length is ${x.v.log_length}, ${model.log.length} blocks were logged`);
  const ids = x.v.blocks.map((b) => b.id).sort((a, b) => (a < b ? -1 : 1));
  for (let i = 0; i < model.log.length; i++) if (ids[i] !== BigInt(i)) { bad(w, 'icrc3_get_blocks', `the log read from 0 has ${ids[i] === undefined ? 'no' : `block ${ids[i]} in place of`} block ${i} of ${model.log.length}`); return null; }
  if (ids.length > model.log.length) bad(w, 'icrc3_get_blocks', `the log has ${ids.length} blocks, ${model.log.length} were logged`);
  let archived = 0;
  for (const b of x.v.blocks) {
    const i = Number(b.id), s = show(b.block);
    if (st.text[i] === undefined) st.text[i] = s; else if (st.text[i] !== s) bad(w, 'icrc3_get_blocks', `block ${i} was ${st.text[i].slice(0, 400)}, is now ${s.slice(0, 400)} (from ${b.from})`);
    if (b.from !== 'ledger') { archived = Math.max(archived, i + 1); st.where.add(b.from); }
  }
  if (archived < st.archived) bad(w, 'icrc3_get_blocks', `${st.archived} blocks were archived, now ${archived} are`);
  if (archived > st.archived) { model.stats['blocks archived'] = (model.stats['blocks archived'] ?? 0) + archived - st.archived; model.count('archivings seen'); }
  st.archived = archived; model.archived = archived;
  return x.v;
}
// With nothing under way: the archives hold the archived blocks and no others, and are listed.
function places(w) {
  const st = w.log09, { core, model } = w;
  const a = core.query(w.caller, 'icrc3_get_archives', null);
  if (a.rej) { bad(w, 'icrc3_get_archives', `rejected: ${a.rej.msg.slice(0, 300)}`); return; }
  if (st.archived) {
    if (a.v.length !== 1) bad(w, 'icrc3_get_archives', `${a.v.length} archives are listed, ${st.where.size} hold blocks`);
    for (const e of a.v) {
      if (e.start !== 0n || e.end !== BigInt(st.archived - 1)) bad(w, 'icrc3_get_archives', `archive ${e.canister_id} is listed with blocks ${e.start} to ${e.end}, it holds 0 to ${st.archived - 1}`, e.start === 0n && e.end === BigInt(st.archived) && st.failed ? 'end' : 'log');
      if (!st.where.has(e.canister_id)) bad(w, 'icrc3_get_archives', `${e.canister_id} is listed and holds no block`);
    }
  }
  for (const id of st.where) {
    const n = out(w.r.query(id, w.caller, 'total_transactions', encodeCall('icrc3_get_archives', [null])));
    if (n.rej) { bad(w, 'archive', `archive ${id} does not answer: ${n.rej.msg.slice(0, 200)}`); continue; }
    if (BigInt(n.v) !== BigInt(st.archived)) bad(w, 'archive', `archive ${id} holds ${n.v} blocks, the ledger points to ${st.archived}`);
  }
}
// The last run of the job moved all blocks that were older than two minutes, and none younger.
function prompt(w) {
  const st = w.log09, { model, r } = w; if (!model.log.length) return;
  if (st.archived && model.log[st.archived - 1].ts + 120n * SEC >= r.now) bad(w, 'archive', `block ${st.archived - 1} is archived, not yet two minutes after it was logged`);
  const run = w.restart + ((r.now - w.restart) / TEN) * TEN;
  if (st.failed || st.long === w.restart || run <= w.restart || run <= st.held || st.archived === model.log.length) return;
  model.count('runs of the job checked');
  if (model.log[st.archived].ts + 120n * SEC < run) bad(w, 'archive', `block ${st.archived} of ${model.log.length} was older than two minutes when the job last ran undisturbed, and is not archived`);
}
// Two undisturbed runs of the job leave no block behind that is older than two minutes.
function drain(w, calls = []) {
  const { r, model } = w; r.advance(1325n * SEC);
  const v = check(w); if (!v) return;
  places(w);
  if (w.log09.archived !== model.log.length) {
    const empty = [...r.canisters.values()].some((c) => c.createdBy === w.core.id && !c.inst && !w.log09.where.has(c.id));
    bad(w, 'archive', `after 22 quiet minutes ${model.log.length - w.log09.archived} of ${model.log.length} blocks are not archived`, empty && w.log09.failed ? 'stuck' : 'log');
  } else if (model.log.length) model.count('logs drained');
}

function ext(w, op) {
  const { r, core, model } = w; const [a] = op.args;
  w.obs.since = [op.x];
  if (op.x === 'bulk') {
    for (const o of bulk(a.calls, model.window + 101n * MS)) { const x = w.exec(o); if (model.lost || (x.kind !== 'ok' && !model.mayFull(5))) break; }
    return model.mayFull() ? 'full' : 'ok';
  }
  if (op.x === 'drain') { drain(w); return 'ok'; }
  // archiving: the job starts, one of its calls is held back, calls are made meanwhile
  const next = w.restart + ((r.now - w.restart) / TEN + 1n) * TEN;
  r.advance(next - 1n - r.now);
  if (a.fault) { w.inject(a.fault); w.log09.failed = true; }
  r.advance(1n, { settle: false });
  let stop = null, seen = 0;
  const out1 = (m) => m.kind === 'request' && m.from === core.id && !m.method.startsWith('<');
  for (let i = 0; i < 2000 && r.queue.length; i++) {
    const k = r.queue.findIndex(out1);
    if (k >= 0 && seen++ >= a.skip) { stop = r.queue[k]; break; }
    r.step();
  }
  r.hooks.fault = null; r.hooks.perform = null; model.fault = null;
  let trapped = 0;
  if (stop) {
    model.count('calls held back'); model.count(`held:${stop.method}`);
    const free = () => { for (let i = 0; i < 500; i++) { const k = r.queue.findIndex((m) => m !== stop); if (k < 0) break; r.step(() => k); } };
    for (const c of a.calls) {
      r.advance(BigInt(c.dt ?? 0), { settle: false }); free();
      if (c.up) {
        const x = core.upgrade(w.mods.core, ADMIN);
        model.count(x.trap === undefined ? 'upgrade' : 'upgrade refused while archiving'); if (x.trap === undefined) w.restart = r.now; continue;
      }
      const args = resolve(c.args, r.now); const t = core.submit(c.by, c.m, ...args); free();
      const res = t.res ? out(t.res) : { rej: { code: 6, msg: 'no answer' } };
      model.count('calls while archiving');
      if (res.rej?.trapped && LOGGING.has(c.m)) { trapped++; bad(w, c.m, `${c.m} traps while ${stop.method} is under way: ${res.rej.msg.slice(0, 200)}`, 'held'); continue; }
      w.trace.push(`held ${c.m} ${model.step(r.now, c.by, c.m, args, res)}`);
    }
    const q = core.query(w.caller, 'icrc3_get_blocks', [{ start: 0n, length: 1n }]);
    if (q.rej) bad(w, 'icrc3_get_blocks', `the log cannot be read while ${stop.method} is under way: ${q.rej.msg.slice(0, 200)}`, 'held');
    w.obs.run(['owner', 'balance', 'approvals', 'metadata', 'settings'], [op.x]);
    if (a.long) { r.advance(a.long, { settle: false }); free(); }
  }
  r.settle(); if (stop) { w.log09.held = r.now; if (a.long) w.log09.long = w.restart; } // the runs that came due meanwhile shift the next
  if (a.calls.length) w.obs.run(['blocks', 'owner', 'approvals'], [op.x]);
  return stop ? `held ${stop.method}${trapped ? ' trap' : ''}` : 'nothing to archive';
}

export default historyProperty({
  id: 'P09', level: 'fault_enumeration', cases: { quick: 450, thorough: 6000 }, len: [8, 26],
  rule: 'A case is one generated history with archive jobs, held back and failing archive calls, bulk mints and upgrades. Non-trivial: blocks were archived and the log was read as a whole afterwards; distinct by the sequence of calls and outcomes.',
  profile: { ops: { ...OPS, grant_permission: 0.5, update_collection_metadata: 0.7, upgrade: 2 }, initPerm: 0.05, permOk: 0.97, valid: 0.92, repeat: 0.04, metaHeavy: true, setting: { tx_window: 0.7, supply_cap: 0, max_update_batch_size: 0.1, max_memo_size: 0.1 }, windows: [0n, 200n * MS],
    dt: (r, m, now) => (m.mayThrottle(now) && r.p(0.85) ? m.window + 130n * MS : r.w([[6, BigInt(r.int(1, 300)) * MS], [1.5, BigInt(r.int(50, 130)) * SEC], [1.2, BigInt(r.pick([119, 120, 121, 480, 599, 600, 601])) * SEC], [1.5, 660n * SEC], [0.4, 3700n * SEC], [0.05, 90000n * SEC]])) },
  views: ['blocks', 'owner'], often: ['blocks'],
  init(gen, rng) { const o = gen.init(); delete o.supply_cap; o.supply_cap = 1n << 60n; o.max_update_batch_size = 10n; return o; },
  prepare(kase, gen, rng) {
    if (rng.p(0.35)) kase.ops.push({ dt: 0n, x: 'bulk', args: [{ calls: rng.w([[6, rng.int(2, 15)], [2, rng.int(40, 80)], [1, 199 + rng.int(0, 3)]]) }] });
  },
  opgen(op, rng, w, gen) {
    const x = rng.f();
    if (x < 0.2) {
      const calls = Array.from({ length: rng.w([[2, 0], [3, 1], [3, rng.int(2, 4)]]) }, () => { if (rng.p(0.12)) return { dt: 0n, up: true }; const c = gen.call(w.model, w.r.now); return c.up ? { dt: 0n, up: true } : { ...c, dt: BigInt(c.dt) < SEC ? c.dt : 1n }; });
      return { dt: rng.p(0.7) ? 130n * SEC : 0n, x: 'archiving', args: [{ calls, skip: rng.w([[3, 0], [3, rng.int(1, 4)], [2, rng.int(2, 30)]]), long: rng.p(0.15) ? BigInt(rng.pick([601, 3601, 1300])) * SEC : 0n, fault: rng.p(0.35) ? gen.fault() : null }] };
    }
    if (x < 0.25) return { dt: 0n, x: 'drain', args: [null] };
    if (x < 0.32 && x > 0.3) return gen.file(w.model, op.dt);
    if (x < 0.3) return { dt: 0n, x: 'bulk', args: [{ calls: rng.int(1, 4) }] };
    if (!op.up && BigInt(op.dt) > 100n * SEC && rng.p(0.35)) op.tfault = gen.fault();
    return op;
  },
  hooks(w) { w.log09 = { text: [], archived: 0, where: new Set(), failed: false, held: -1n }; w.ext = (op) => ext(w, op); return {}; },
  step(w, vr, kase, op, o, last) {
    if (op.tfault) w.log09.failed = true;
    w.model.devs.length && w.model.devs.some((d) => d.kind === 'log') ? null : (vr.p(0.5) || last) && check(w) && w.r.queue.length === 0 && (places(w), prompt(w));
  },
  end(w) { drain(w); },
  known: (d) => (['held', 'stuck', 'end'].includes(d.kind) ? d.kind : null),
  owns: (d) => d.kind === 'log' || (d.kind === 'view' && d.m === 'blocks') || d.m === 'upgrade',
  nontrivial: (s) => (s['blocks archived'] ?? 0) > 0 && (s['whole logs read'] ?? 0) > 0,
});
