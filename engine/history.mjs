// Stateful, model-based checks: a generated history of update calls, upgrades and passing time is run
// on the real canister; the reference model judges every answer, the observer every view.
import fs from 'node:fs';
import { fileURLToPath } from 'node:url';
import { Rng, ADMIN, P, akey, DAY, rejText } from './util.mjs';
import { Gen, PATHS, ACCOUNTS, PRINCIPALS, USERS, resolve } from './gen.mjs';
import { Model } from './model.mjs';
import { Observer } from './observe.mjs';
import { Replica } from '../sim/ic.mjs';
import { Core, out } from '../sim/core.mjs';
import { show, decode } from '../sim/candid.mjs';

export class World {
  constructor(mods, init, opts = {}) {
    this.mods = mods; this.init = init;
    this.r = new Replica();
    const core = Core.install(this.r, mods.core, init, ADMIN);
    if (core.trap !== undefined) { this.trap = core.trap; return; }
    this.core = core;
    this.model = new Model(init, ADMIN);
    this.model.selfId = core.id; this.restart = this.r.now;
    this.accounts = opts.accounts ?? ACCOUNTS;
    this.spenders = opts.spenders ?? ACCOUNTS.filter((a) => USERS.includes(a.owner) || a.subaccount === null);
    this.principals = PRINCIPALS;
    this.caller = P(9);
    this.obs = new Observer(this);
    this.trace = [];
    this.paths = opts.paths ?? PATHS;
    this.urls = this.paths.map((p) => (p.startsWith('/') ? p : `/${p}`)).concat('/nothing');
  }
  // Inter-canister calls number n .. n+len-1 from now on fail: rejected without having been executed,
  // or (how: 'perform') refused at once by the system.
  inject(f) {
    let k = 0; const { r, model } = this; model.fault = null;
    const hit = () => { const i = k++; if (i < f.n || i >= f.n + f.len) return false; model.fault = f; model.count(`fault ${f.how}`); return true; };
    if (f.how === 'perform') r.hooks.perform = () => hit(); else r.hooks.fault = () => (hit() ? { code: f.code, msg: rejText(f.code, f.n), when: 'before' } : null);
  }
  // Runs one op; returns {kind: 'ok'|'fail'|'up', res, args}
  exec(op, hooks = {}) {
    const { r, core, model } = this;
    if (op.tfault) { this.inject(op.tfault); }
    if (op.race) return this.race(op, hooks);
    if (op.x === 'file') { // a whole upload
      const { by, path: file_path, data, chunk, hash } = op.args[0]; const size = Number(chunk); const ok = { kind: 'fail', res: null, args: [] };
      const go = (m, a, dt = 0n) => this.exec({ dt, by, m, args: [a] }, hooks).kind === 'ok';
      if (!go('init_upload', { file_path, file_hash: hash, file_size: BigInt(data.length), chunk_size: chunk }, op.dt)) return ok;
      for (let i = 0; i * size < data.length; i++) if (!go('store_chunk', { file_path, chunk_id: BigInt(i), chunk_data: data.slice(i * size, (i + 1) * size) })) return ok;
      if (go('finalize_upload', { file_path })) ok.kind = 'ok'; return ok;
    }
    if (op.x) { r.advance(BigInt(op.dt ?? 0)); r.hooks.fault = null; r.hooks.perform = null; model.fault = null; this.obs.collected(); const kind = this.ext(op); this.trace.push(`${op.x} ${kind}`); return { kind, res: null, args: [] }; }
    r.advance(BigInt(op.dt ?? 0));
    r.hooks.fault = null; r.hooks.perform = null; model.fault = null; if (op.tfault) this.faultEnd = r.now;
    this.obs.collected();
    if (op.up) {
      hooks.before?.(this, op);
      const x = core.upgrade(this.mods.core, ADMIN);
      if (x.trap !== undefined) model.dev('res', 'upgrade', ['upgrade'], 'trap', `upgrade trapped: ${x.trap.slice(0, 300)}`);
      model.count('upgrade'); this.restart = r.now;
      this.trace.push('upgrade');
      hooks.after?.(this, op, { kind: 'up', res: x });
      return { kind: 'up', res: x };
    }
    const args = resolve(op.args, r.now);
    hooks.before?.(this, op);
    if (op.fault) this.inject(op.fault);
    const res = core.update(op.by, op.m, ...args);
    r.hooks.fault = null; r.hooks.perform = null;
    const kind = model.step(r.now, op.by, op.m, args, res);
    model.fault = null;
    const o = { kind, res, args };
    this.trace.push(`${op.m} ${kind}`);
    hooks.after?.(this, op, o);
    return o;
  }
  // Calls made while the daily clean-up of uploads waits for a storage canister: time passes up to the
  // clean-up, its first cancellation is held back, the calls run, then it is delivered.
  race(op, hooks) {
    const { r, core, model } = this; model.fault = null;
    const next = this.restart + ((r.now - this.restart) / DAY + 1n) * DAY;
    r.advance(next - 1n - r.now); r.advance(1n, { settle: false });
    const isCancel = (m) => m.kind === 'request' && m.method === 'cancel_upload' && m.from === core.id;
    let held = null;
    for (let i = 0; i < 500 && r.queue.length && !(held = r.queue.find(isCancel)); i++) r.step();
    let kind = 'ok', res = null, args = [];
    this.obs.collected((path) => held && decode(held.arg)[0]?.file_path === path);
    for (const c of op.calls) {
      args = c.args; const t = core.submit(c.by, c.m, ...args);
      for (let i = 0; i < 500 && !t.res; i++) { const k = r.queue.findIndex((m) => m !== held); if (k < 0) break; r.step(() => k); }
      res = t.res ? out(t.res) : { rej: { code: 6, msg: 'no answer' } };
      kind = model.step(r.now, c.by, c.m, args, res); this.trace.push(`race ${c.m} ${kind}`);
      if (held && c.m === 'init_upload' && kind === 'ok' && decode(held.arg)[0].file_path === args[0].file_path) model.uploads.get(args[0].file_path).gone = 'maybe';
    }
    if (held) model.count('clean-up race');
    r.settle(); this.obs.collected();
    const o = { kind: 'race', res, args }; hooks.after?.(this, op, o);
    return o;
  }
}

export const clone = (v) => { if (v === null || typeof v !== 'object') return v; if (v instanceof Uint8Array) return v; if (Array.isArray(v)) return v.map(clone); const o = {}; for (const k of Object.keys(v)) o[k] = clone(v[k]); return o; };

const VIEWS = { owner: 1, balance: 1, tokens: 1, tokens_of: 8, supply: 1, metadata: 1, approvals: 8, coll: 8, is_approved: 2, blocks: 1, settings: 8, perms: 20, uploads: 2, redirects: 3, http: 3, files: 8, guards: 10, limits: 3, replay: 12 };

// Keys of the known findings listed for a property; a deviation counts as known only when its key is listed.
const KF = fileURLToPath(new URL('../known_findings.txt', import.meta.url));
export const listed = (id) => new Set(!fs.existsSync(KF) ? [] : fs.readFileSync(KF, 'utf8').split('\n').map((l) => l.match(/^known: property=(\S+) \[(\S+)\] /)).filter((m) => m && m[1] === id).map((m) => m[2]));

// spec: {profile, views: [names], often: [names], len: [lo, hi], owns(dev), nontrivial(stats), hooks(rng)}
export function historyProperty(spec) {
  const keys = listed(spec.id); const knownKey = (d) => { const k = spec.known?.(d); return k && keys.has(k) ? k : null; };
  const owns = (d, w) => !knownKey(d) && (spec.owns(d, w) || (spec.known?.(d) ? true : false));
  const run = (mods, kase, gen) => {
    // kase: {init, ops, vseed}; with gen, ops are generated as the history goes.
    const w = new World(mods, kase.init, spec.world ?? {});
    if (w.trap !== undefined) { // valid arguments: the settings given have to be accepted
      const dev = { kind: 'install', m: 'install', causes: [], got: 'trap', msg: `installation trapped: ${w.trap.slice(0, 300)}` };
      return { owned: spec.install ? dev : null, devs: [dev], stats: { 'installation trapped': 1 }, trace: [], queries: 0, exec: 0, blocks: 0 };
    }
    const m = w.model; const vr = new Rng('views' + kase.vseed);
    const hooks = spec.hooks ? spec.hooks(w, kase) : {};
    const n = gen ? kase.len : kase.ops.length;
    let since = []; let owned = null;
    for (let i = 0; i < n; i++) {
      if (gen && kase.ops.length <= i) kase.ops.push(spec.opgen ? spec.opgen(gen.call(m, w.r.now), gen.r, w, gen) : gen.call(m, w.r.now));
      const op = kase.ops[i];
      const o = w.exec(op, hooks);
      if (gen && !op.up && !op.race && !op.x) gen.record(op, o.args);
      since.push(op.up ? 'upgrade' : op.race ? 'clean-up race' : op.x ? op.x : `${o.kind}:${op.m}`);
      const views = [];
      for (const v of spec.views) if (i === n - 1 || vr.p((spec.viewRate ?? {})[v] ?? ((spec.often ?? []).includes(v) ? 1 : 1 / Math.max(2, VIEWS[v] ?? 2)))) views.push(v);
      w.obs.run(views, since);
      if (spec.views.every((v) => views.includes(v))) since = [];
      if (spec.step) spec.step(w, vr, kase, op, o, i === n - 1);
      owned = m.devs.find((d) => owns(d, w));
      if (owned) { if (gen) kase.ops.length = i + 1; owned.at = i; break; }
      if (m.lost) { m.count('lost'); break; }
    }
    if (!owned && spec.end && !m.lost) { spec.end(w, vr, kase); owned = m.devs.find((d) => owns(d, w)); if (owned) owned.at = n - 1; }
    return { owned, devs: m.devs, stats: m.stats, trace: w.trace, queries: w.r.stats.queries, exec: w.r.stats.exec, blocks: w.obs.checkedBlocks };
  };
  const describe = (kase) => kase.ops.map((o) => (o.up ? `+${o.dt} upgrade` : o.x ? `+${o.dt} ${o.x} ${show(o.args ?? null).slice(0, 260)}` : o.race ? `next clean-up, during it: ${o.calls.map((c) => `${c.by.slice(0, 5)} ${c.m} ${show(c.args).slice(0, 200)}`).join('; ')}` : `+${o.dt} ${o.by.slice(0, 5)} ${o.m} ${show(o.args).slice(0, 260)}`));
  return {
    ...spec,
    runCase(mods, seed) {
      const rng = new Rng(seed);
      const profile = typeof spec.profile === 'function' ? spec.profile(rng) : spec.profile;
      const gen = new Gen(rng, profile);
      const kase = { init: spec.init ? spec.init(gen, rng) : gen.init(), ops: [], vseed: seed, len: rng.int(...spec.len) };
      if (spec.prepare) spec.prepare(kase, gen, rng);
      kase.len += kase.ops.length;
      const x = run(mods, kase, gen);
      const st = x.stats;
      const sig = x.trace.join(',');
      const known = {}; for (const d of x.devs) { const k = knownKey(d); if (k) known[k] = (known[k] ?? 0) + 1; }
      return { stats: { ...st, 'calls checked': kase.ops.length, 'queries compared': x.queries, 'blocks compared': x.blocks }, nontrivial: sig && spec.nontrivial(st) ? sig : null, sample: () => ({ init: show(kase.init).slice(0, 300), history: describe(kase).slice(0, 12), outcome: x.trace.slice(0, 12) }), known, other: x.devs.filter((d) => d !== x.owned && !knownKey(d)), violation: x.owned ? { kase: { init: kase.init, ops: kase.ops, vseed: kase.vseed }, dev: x.owned } : null };
    },
    rerun(mods, kase) { const x = run(mods, clone(kase), null); return x.owned ?? null; },
    describe,
  };
}

// ---------------------------------------------------------------- shrinking
// Removes ops, then parts of arguments, while `same(dev)` still holds for what the rerun finds.
export function shrink(kase, rerun, same, budget = 300, ms = 40000) {
  const t0 = Date.now(); let evals = 0;
  const ok = (k) => { if (evals >= budget || Date.now() - t0 > ms) return false; evals++; try { const d = rerun(k); return !!d && same(d); } catch { return false; } };
  let cur = clone(kase); let changed = true;
  for (let round = 0; changed && round < 4; round++) {
    changed = false;
    for (let size = Math.max(1, Math.floor(cur.ops.length / 2)); size >= 1; size = Math.floor(size / 2)) {
      for (let i = cur.ops.length - size; i >= 0; i -= size) {
        if (cur.ops.length <= 1) break;
        const c = { ...cur, ops: [...cur.ops.slice(0, i), ...cur.ops.slice(i + size)] };
        if (c.ops[i]) c.ops[i] = { ...c.ops[i], dt: BigInt(c.ops[i].dt ?? 0) + cur.ops.slice(i, i + size).reduce((a, o) => a + BigInt(o.dt ?? 0), 0n) };
        if (ok(c)) { cur = c; changed = true; }
      }
    }
    // arguments: drop array elements, then optional fields
    for (let i = 0; i < cur.ops.length; i++) {
      const paths = [];
      const walk = (v, p) => {
        if (v === null || typeof v !== 'object' || v instanceof Uint8Array || '$t' in v) return;
        if (Array.isArray(v)) { for (let k = v.length - 1; k >= 0; k--) paths.push([...p, k]); v.forEach((x, k) => walk(x, [...p, k])); } else for (const k of Object.keys(v)) { paths.push([...p, k]); walk(v[k], [...p, k]); }
      };
      if (cur.ops[i].args) walk(cur.ops[i].args, []);
      for (const p of paths) {
        if (p.length < 2) continue;
        const c = clone(cur); let v = c.ops[i].args; let gone = false;
        for (const k of p.slice(0, -1)) { v = v?.[k]; if (v === null || v === undefined) { gone = true; break; } }
        if (gone) continue;
        const k = p[p.length - 1];
        if (Array.isArray(v)) { if (k >= v.length) continue; v.splice(k, 1); } else { if (!['memo', 'created_at_time', 'expires_at', 'subaccount', 'from_subaccount', 'spender_subaccount'].includes(k) || v[k] === null) continue; if (k === 'created_at_time' && cur.ops[i].m.startsWith('icrc37_approve')) continue; v[k] = null; }
        if (ok(c)) { cur = c; changed = true; }
      }
    }
    if (cur.init) for (const k of Object.keys(cur.init)) { if (k === 'permissions' || k === 'test_mode' || k === 'approval_init') continue; const c = clone(cur); delete c.init[k]; if (ok(c)) { cur = c; changed = true; } }
  }
  return { kase: cur, evals };
}
