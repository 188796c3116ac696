import { historyProperty } from '../engine/history.mjs';
import { n } from '../engine/own.mjs';
import { OPS, bulk, genQuery, IndexOracle } from '../engine/indexer.mjs';
import { SEC, DAY, ADMIN } from '../engine/util.mjs';
export default historyProperty({
  id: 'P21', cases: { quick: 600, thorough: 9000 },
  rule: 'A case is one generated ledger history with the index next to it: blocks of every type, some logs of several hundred blocks, archiving, clean-ups of the index cache and upgrades of both; queries with up to four filters, pages and orders around every edge are compared with the ledger. Non-trivial: at least four filtered pages with blocks and a range were compared; distinct by the sequence of calls and outcomes.',
  profile: (r) => ({ ops: OPS, initPerm: 0.05, permOk: 0.97, valid: 0.9, repeat: 0.02, metaHeavy: true, setting: { tx_window: 0, supply_cap: 0, max_update_batch_size: 0, max_memo_size: 0.1, atomic_batch_transfers: 0.1 } }),
  init: (gen) => ({ ...gen.init(), tx_window: 0n }),
  prepare: (kase, gen, r) => { if (r.p(0.15)) kase.ops.push(...bulk(r.int(15, 60))); },
  hooks: (w) => { const o = w.index = new IndexOracle(w); w.ext = (op) => (op.x === 'upgrade index' ? (o.ix.upgrade(w.mods.index, ADMIN).trap !== undefined ? (o.dev('upgrade', 'the upgrade of the index trapped'), 'trap') : 'ok') : op.x === 'audit' ? (o.audit(), 'ok') : op.x === 'wait' ? 'ok' : o.ask(op.args)); return {}; },
  opgen: (op, r, w) => {
    const x = r.f();
    if (x < 0.38) return { dt: r.w([[6, 0n], [2, 61n * SEC]]), x: 'query', args: genQuery(r, w) };
    if (x < 0.45) return { dt: r.w([[5, 61n * SEC], [2, 130n * SEC], [1.4, 800n * SEC], [w.model.log.length < 60 ? 0.12 : 0, DAY]]), x: 'wait' };
    if (x < 0.47) return { dt: 0n, x: 'upgrade index' };
    if (x < 0.48) return { dt: 0n, up: true };
    if (x < 0.51) return { dt: 0n, x: 'audit' };
    return { ...op, dt: op.dt > 3600n * SEC ? SEC : op.dt };
  },
  views: [], len: [25, 60],
  end: (w) => { w.r.advance(61n * SEC * BigInt(2 + Math.ceil(w.model.log.length / 100))); w.index.audit(); },
  owns: (d) => d.kind === 'index',
  nontrivial: (s) => n(s, 'filtered page with blocks') >= 4 && n(s, 'range') > 0,
});
