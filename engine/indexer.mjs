// The index canister next to the ledger: what it must answer, told from the ledger's own log.
import { Observer } from './observe.mjs';
import { Index } from '../sim/index.mjs';
import { show } from '../sim/candid.mjs';
import { ADMIN, P } from './util.mjs';
import { USERS } from './gen.mjs';

export const OPS = { mint: 4, icrc7_transfer: 5, icrc37_approve_tokens: 3, icrc37_approve_collection: 2, icrc37_revoke_token_approvals: 1.5, icrc37_revoke_collection_approvals: 1.5, icrc37_transfer_from: 4, burn_nft: 1.5, update_nft_metadata: 2 };
const BTYPES = ['7mint', '7xfer', '37xfer', '7burn', '37approve', '37approve_coll', '37revoke', '37revoke_coll', '7update_token'];
const STRANGER = P(77);
export const bulk = (n, dt = 101_000_000n) => Array.from({ length: n }, (_, i) => ({ dt, by: ADMIN, m: 'mint', args: [{ mint_requests: Array.from({ length: 5 }, (_, k) => ({ token_owner: { owner: USERS[(i + k * 3) % 4], subaccount: null }, memo: null, metadata: [] })) }] }));
// Filters and pages, concrete: `from` tells which filters can match something.
export function genQuery(r, w) {
  const m = w.model, len = m.log.length; const b = len && r.p(0.9) ? m.log[r.int(0, len - 1)] : null;
  const one = (b) => r.w([[4, () => ({ Account: { owner: b ? r.pick([b.from?.owner, b.to?.owner, b.spender?.owner].filter(Boolean).concat(r.p(0.15) ? USERS : [])) ?? ADMIN : r.pick([...USERS, STRANGER]), subaccount: null } })],
    [3, () => ({ BlockType: b && r.p(0.9) ? b.op : r.pick([...BTYPES, 'nothing', '']) })],
    [3, () => ({ TokenId: b && b.tid !== undefined && r.p(0.9) ? b.tid : r.pick([0n, 1n, 2n, 999n, (1n << 64n) - 1n, 1n << 64n, 1n << 90n]) })]])();
  const filters = Array.from({ length: r.w([[2.5, 0], [5, 1], [3, 2], [1, 3], [0.3, 4]]) }, () => one(r.p(0.85) ? b : null));
  const n = filters.length ? 12 : len + 3;
  const start = BigInt(r.w([[4, 0], [5, r.int(0, n)], [filters.length ? 0.3 : 0, 1_000_000]]));
  const length = r.w([[5, () => BigInt(r.int(0, 6))], [3, () => BigInt(r.int(0, 40))], [2, () => 150n], [filters.length ? 0.6 : 0, () => r.pick([(1n << 64n) - 1n, (1n << 63n)])]])();
  return { start: filters.length && r.p(0.03) ? (1n << 64n) - 1n : start, length, filters, sort_by: r.w([[2, null], [2, { Ascending: null }], [3, { Descending: null }]]) };
}
export class IndexOracle {
  constructor(w) { this.w = w; this.log = []; this.ix = Index.install(w.r, w.mods.index, w.core.id, ADMIN); this.last = 0n; }
  dev(m, msg) { this.w.model.devs.push({ kind: 'index', m, causes: [], got: '', msg }); }
  // The ledger's log, read once; blocks never change (another property's business).
  sync() {
    const n = this.w.model.log.length; if (this.log.length >= n) return true;
    const x = Observer.blocks(this.w.core, this.w.caller, BigInt(this.log.length), BigInt(n - this.log.length));
    if (x.rej || x.v.blocks.length !== n - this.log.length) { this.w.model.lost = true; return false; }
    for (const b of [...x.v.blocks].sort((a, b) => (a.id < b.id ? -1 : 1))) {
      const f = Observer.flat(b.block), tx = Observer.flat(f.tx);
      this.log.push({ id: b.id, text: show(b.block), who: new Set([tx.from, tx.to, tx.spender].map((x) => x?.Text).filter(Boolean)), type: f.btype.Text, tid: tx.tid?.Nat });
    }
    return true;
  }
  matches(b, f) { return 'Account' in f ? b.who.has(f.Account.owner) : 'BlockType' in f ? b.type === f.BlockType : b.tid === f.TokenId; }
  status() {
    const x = this.ix.status(this.w.caller); if (x.rej) { this.dev('status', `status rejected: ${x.rej.msg}`); return this.last; }
    const n = x.v.last_block_id;
    if (n < this.last) this.dev('position', `the indexed position went back from ${this.last} to ${n}`);
    if (n > BigInt(this.w.model.log.length)) this.dev('position', `the index reports ${n} blocks, the ledger has ${this.w.model.log.length}`);
    this.last = n; return n;
  }
  // What a filtered page has to be when n blocks are indexed.
  page(q, n) {
    const ids = []; for (let i = 0; i < Number(n) && i < this.log.length; i++) if (q.filters.every((f) => this.matches(this.log[i], f))) ids.push(this.log[i].id);
    const p = ids.filter((_, k) => BigInt(k) >= q.start && BigInt(k) < q.start + q.length);
    return 'Descending' in (q.sort_by ?? {}) ? p.reverse() : p;
  }
  // n: indexed when asked; lo, hi: the length of the log when asked and when answered; total: the position when answered.
  judge(q, x, n, lo, hi, total, failed = false) {
    const what = show(q).slice(0, 300); const c = (k) => this.w.model.count(k);
    if (x.rej) { if (!failed) this.dev('get_blocks', `get_blocks ${what} was rejected: ${x.rej.msg.slice(0, 300)}`); else c('query failed'); return 'fail'; }
    if (!this.sync()) return 'lost';
    const got = x.v.blocks.map((b) => b.id);
    if (x.v.total !== total) this.dev('get_blocks', `get_blocks ${what} says ${x.v.total} blocks are indexed, it is ${total}`);
    const desc = 'Descending' in (q.sort_by ?? {});
    let want;
    if (q.filters.length) { want = this.page(q, n); c(`filters ${q.filters.length}`); if (want.length) c('filtered page with blocks'); if (want.length > 1 && desc) c('descending'); } else {
      const start = desc ? (n > q.length ? n - q.length : 0n) : q.start;
      const upto = (len) => { const r = []; for (let i = start; i < start + q.length && i < BigInt(len); i++) r.push(i); return desc ? r.reverse() : r; };
      want = upto(lo); c('range');
      if (lo !== hi && got.length > want.length && got.length <= upto(hi).length) want = upto(hi).filter((i) => i < BigInt(lo) || got.includes(i));
    }
    if (show(got) !== show(want)) this.dev('get_blocks', `get_blocks ${what} answers the blocks ${show(got).slice(0, 300)}, expected ${show(want).slice(0, 300)} (${n} indexed, ${hi} in the log)`);
    for (const b of x.v.blocks) { const l = this.log[Number(b.id)]; c('blocks compared with the ledger'); if (!l || show(b.block) !== l.text) { this.dev('get_blocks', `get_blocks ${what} answers block ${b.id} as ${show(b.block).slice(0, 400)}, the ledger has ${l?.text.slice(0, 400)}`); break; } }
    return got.length ? 'ok' : 'empty';
  }
  ask(q) { const n = this.status(), len = this.w.model.log.length; const x = this.ix.getBlocks(this.w.caller, q); return this.judge(q, x, n, len, this.w.model.log.length, this.status()); }
  // Everything indexed, listed once per key it belongs under.
  audit() {
    if (!this.sync()) return; const n = this.status(); const all = this.log.slice(0, Number(n));
    const big = { start: 0n, length: 100000n, sort_by: null };
    for (const t of new Set([...BTYPES, ...all.map((b) => b.type)])) this.ask({ ...big, filters: [{ BlockType: t }] });
    for (const a of new Set(all.flatMap((b) => [...b.who]))) this.ask({ ...big, filters: [{ Account: { owner: a, subaccount: null } }] });
    for (const t of [...new Set(all.map((b) => b.tid).filter((x) => x !== undefined))].slice(-12)) this.ask({ ...big, filters: [{ TokenId: t }] });
  }
}
