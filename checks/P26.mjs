// The canisters the ledger creates for files and for archived blocks: who controls them, who they listen
// to, and whether they are kept funded. Oracle: the rule itself, applied to what the simulated replica
// knows about each canister (controllers, balance) at moments chosen at random, on copies of the state
// where balances are drained, the ledger is upgraded, or the funding calls fail.
import { historyProperty } from '../engine/history.mjs';
import { apart } from '../engine/batch.mjs';
import { ADMIN, P, MS, SEC, rejText } from '../engine/util.mjs';
import { n } from '../engine/own.mjs';
import { encodeCall, out } from '../sim/core.mjs';
import { T, encode, show } from '../sim/candid.mjs';

const MIN = 1_000_000_000_000n, FUND = 2_000_000_000_000n, INITIAL = 5_000_000_000_000n;
const RESERVE = 30_000n; // what freezing would burn: the balance the rule speaks of is what lies above
const bad = (w, m, msg) => w.model.devs.push({ kind: 'sub', m, causes: [], got: '', msg });
const kids = (w) => [...w.r.canisters.values()].filter((c) => c.createdBy === w.core.id);
const isArchive = (c) => !!c.inst && !!c.inst.exports['canister_update insert_blocks'];
const isStorage = (c) => !!c.inst && !isArchive(c);

function rules(w) {
  const { core, model } = w;
  const by = [...model.perms].find(([, s]) => s.has('ManageAuthorities'))?.[0];
  const listed = by ? core.query(by, 'get_all_storage_subcanisters') : null;
  const archives = core.query(w.caller, 'icrc3_get_archives', null);
  if (listed?.rej) bad(w, 'get_all_storage_subcanisters', `rejected for a holder of ManageAuthorities: ${listed.rej.msg.slice(0, 200)}`);
  const all = kids(w);
  for (const c of all) {
    if (new Set(c.controllers).size !== 1 || c.controllers[0] !== core.id) bad(w, 'create_canister', `${c.id} is controlled by ${c.controllers.join(', ')}; the ledger is ${core.id}`);
    if (!w.born.has(c.id)) {
      w.born.add(c.id); if (c.cycles !== INITIAL) bad(w, 'create_canister', `${c.id} is created with ${c.cycles} cycles`);
      model.count(isArchive(c) ? 'archives created' : 'storage canisters created'); }
    if (isStorage(c) && listed?.v && !listed.v.includes(c.id)) bad(w, 'get_all_storage_subcanisters', `${c.id}, a storage canister the ledger created, is not listed`);
    if (isArchive(c) && listed?.v?.includes(c.id)) bad(w, 'get_all_storage_subcanisters', `the archive ${c.id} is listed as a storage canister`);
  }
  for (const id of listed?.v ?? []) if (!all.some((c) => c.id === id)) bad(w, 'get_all_storage_subcanisters', `${id} is listed, the ledger created no such canister`);
  for (const a of archives.v ?? []) if (!all.some((c) => c.id === a.canister_id && isArchive(c))) bad(w, 'icrc3_get_archives', `${a.canister_id} is listed, the ledger created no such archive`);
}

// On a copy: balances are set, perhaps the ledger is upgraded or the funding calls fail for a while.
function funding(w, rng) {
  const { r, core, model } = w; if (!kids(w).length) return;
  apart(w, () => {
    const what = rng.w([[4, 'plain'], [3, 'upgrade'], [2, 'fault'], [1, 'two upgrades']]);
    if (rng.p(0.3)) r.advance(BigInt(rng.int(1, 200)) * SEC);
    const set = kids(w).map((c) => { const b = rng.w([[3, BigInt(rng.int(0, 999)) * 1_000_000_000n], [1, MIN - 1n], [1, MIN + RESERVE + 1n], [1, MIN + BigInt(rng.int(1, 4000)) * 1_000_000_000n]]); return [c, b]; });
    const drain = () => { for (const [c, b] of set) c.cycles = b; };
    const up = () => { const x = core.upgrade(w.mods.core, ADMIN); if (x.trap !== undefined) bad(w, 'upgrade', `upgrade trapped: ${x.trap.slice(0, 200)}`); };
    if (rng.p(0.5)) { drain(); if (what.includes('upgrade')) up(); } else { if (what.includes('upgrade')) up(); r.advance(BigInt(rng.int(0, 90)) * SEC); drain(); }
    if (what === 'two upgrades') { r.advance(BigInt(rng.int(0, 20)) * SEC); up(); }
    if (what === 'fault') { // what fails within the next minutes is made up for after them
      const of = rng.pick(['canister_status', 'deposit_cycles']), code = rng.pick([1, 2, 3, 4, 5]), k = rng.int(1, 3);
      let msg = rejText(code, Number(model.log.length)); if (/out of cycles/.test(msg)) msg = 'injected'; // a status refused for lack of cycles tells that there are none left
      r.hooks.fault = (m) => (m.method === of && m.from === core.id ? { code, msg, when: 'before' } : null);
      r.advance(BigInt(60 * k) * SEC); r.hooks.fault = null;
      for (const [c, b] of set) if (c.cycles !== b) bad(w, of, `${c.id} went from ${b} to ${c.cycles} cycles while ${of} fails`);
    }
    r.advance(61n * SEC);
    const kind = (c) => (isArchive(c) ? 'archive' : isStorage(c) ? 'storage canister' : 'canister without code');
    const look = (when) => {
      for (const [c, b] of set) {
        const want = b < MIN ? b + FUND : b;
        if (c.cycles !== want) bad(w, 'funding', `${when} (${what}), the ${kind(c)} ${c.id} has ${c.cycles} cycles; it had ${b}, so it should have ${want}`);
        else model.count(b < MIN ? `${kind(c)} topped up: ${what}` : 'left alone');
      }
    };
    look('a minute later');
    if (rng.p(0.4)) { r.advance(BigInt(rng.int(60, 400)) * SEC); look('some minutes later'); }
  });
}

// On a copy: calls to the storage canisters and archives by principals that have no business there.
const STORAGE = {
  init_upload: (p) => encodeCall('init_upload', [{ file_path: p, file_hash: 'x', file_size: 4n, chunk_size: 4n }]),
  store_chunk: (p) => encodeCall('store_chunk', [{ file_path: p, chunk_id: 0n, chunk_data: Uint8Array.of(1, 2, 3, 4) }]),
  finalize_upload: (p) => encodeCall('finalize_upload', [{ file_path: p }]),
  cancel_upload: (p) => encodeCall('cancel_upload', [{ file_path: p }]),
};
function strangers(w, rng) {
  const { r, model } = w;
  const who = [...w.principals, P(8)].filter((p) => !w.managers.has(p)); if (!who.length) return;
  const get = (c, p) => show(out(r.query(c.id, P(9), 'http_request', encodeCall('http_request', [{ method: 'GET', url: p, headers: [], body: new Uint8Array(0), certificate_version: 2 }]))).v?.body ?? null);
  apart(w, () => {
    for (const c of kids(w)) {
      if (!c.inst) continue;
      const by = rng.pick(who);
      const path = rng.pick([...w.model.uploads.keys(), '/new.txt']); const url = path.startsWith('/') ? path : `/${path}`;
      if (isArchive(c)) {
        const x = out(r.update(c.id, by, 'insert_blocks', encode([T.vec(T.blob)], [[Uint8Array.of(1, 2, 3)]])));
        if (!x.rej && !x.v?.Err) bad(w, 'insert_blocks', `the archive takes blocks from ${by}: ${show(x.v).slice(0, 200)}`);
        model.count('strangers refused: archive');
        continue;
      }
      const before = get(c, url);
      for (const m of rng.shuffle(Object.keys(STORAGE))) {
        const x = out(r.update(c.id, by, m, STORAGE[m](path)));
        if (!x.rej) bad(w, m, `the storage canister ${c.id} answers ${m} of ${path} by ${by}, who never held ManageAuthorities: ${show(x.v).slice(0, 200)}`);
        else model.count('strangers refused: storage');
      }
      if (get(c, url) !== before) bad(w, 'http_request', `a stranger's calls changed what ${c.id} serves under ${url}`);
    }
  });
}

const rate = (w) => { for (const [p, s] of w.model.perms) if (s.has('ManageAuthorities')) w.managers.add(p); };
export default historyProperty({
  id: 'P26', level: 'fault_enumeration', cases: { quick: 340, thorough: 7000 }, len: [6, 20],
  rule: 'A case is one generated history of uploads, mints, archive jobs, failing inter-canister calls and upgrades; at random moments, on copies of the state, the canisters the ledger created are drained or called by strangers. Non-trivial: a drained canister was topped up, and there was an upgrade before it, or both a storage canister and an archive; distinct by the sequence of calls and outcomes.',
  profile: { ops: { init_upload: 6, store_chunk: 3, finalize_upload: 1.5, cancel_upload: 1, mint: 3, icrc7_transfer: 1, burn_nft: 0.5, upgrade: 2.5, grant_permission: 0.8, revoke_permission: 0.6 }, initPerm: 0.4, permOk: 0.95, valid: 0.92, repeat: 0.05, oneChunk: 0.6, setting: { supply_cap: 0 },
    dt: (r, m, now) => (m.mayThrottle(now) && r.p(0.8) ? m.window + 130n * MS : r.w([[6, BigInt(r.int(1, 300)) * MS], [2, BigInt(r.int(1, 130)) * SEC], [2, 660n * SEC], [0.3, 3700n * SEC]])) },
  opgen: (op, rng, w, gen) => { if (STORAGE[op.m] && rng.p(0.15)) op.fault = gen.fault(); else if (!op.up && BigInt(op.dt) > 100n * SEC && rng.p(0.2)) op.tfault = gen.fault(); return op; },
  hooks(w) {
    w.born = new Set(); w.managers = new Set([ADMIN]); rate(w);
    w.r.hooks.sent = null;
    return {};
  },
  views: ['uploads'], viewRate: { uploads: 0.1 },
  step(w, vr, kase, op, o, last) {
    rate(w); rules(w);
    if (w.model.devs.length || !(last || vr.p(0.3))) return;
    if (vr.p(0.75)) funding(w, vr);
    if (vr.p(0.35)) strangers(w, vr);
  },
  owns: (d) => d.kind === 'sub',
  nontrivial: (s) => Object.keys(s).some((k) => k.includes('topped up')) && (Object.keys(s).some((k) => k.includes('topped up: upgrade') || k.includes('topped up: two')) || (n(s, 'archives created') > 0 && n(s, 'storage canisters created') > 0)),
});
