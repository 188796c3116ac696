// A deterministic, single-threaded Internet Computer replica: it executes the real canister wasm in
// Node's WebAssembly engine, with message queues, call contexts, trap rollback, upgrades, timers, a
// simulated clock and a simulated management canister. The harness owns the clock, the order in
// which messages are delivered and the faults that are injected, so every run is a pure function of
// the wasm and the generated input.
import zlib from 'node:zlib';
import crypto from 'node:crypto';
import { T, encode, decode, principalText, principalBytes, MGMT, CandidError, learn } from './candid.mjs';

const SPAGE = 16384; // granularity of stable-memory copy-on-write
const WPAGE = 65536;
const td = new TextDecoder();
const te = new TextEncoder();

export class Trap extends Error {}

// ---------------------------------------------------------------- wasm preparation
// Exports the function table and the stack pointer, which the IC has access to and a plain embedder
// has not. Everything else of the module is left byte for byte as it is.
const modCache = new Map();
function leb(n) { const o = []; do { let b = n & 127; n >>>= 7; if (n) b |= 128; o.push(b); } while (n); return o; }
export function instrument(bytes) {
  let p = 8;
  const rd = () => { let r = 0, s = 0, x; do { x = bytes[p++]; r |= (x & 127) << s; s += 7; } while (x & 128); return r >>> 0; };
  const parts = [bytes.subarray(0, 8)];
  let done = false, ro = null;
  while (p < bytes.length) {
    const at = p; const id = bytes[p++]; const n = rd(); const body = p; p = body + n;
    if (id === 7) {
      const save = p; p = body; const cnt = rd(); const rest = bytes.subarray(p, body + n); p = save;
      const exp = (name, kind, idx) => [...leb(name.length), ...te.encode(name), kind, ...leb(idx)];
      const nb = Buffer.concat([Buffer.from(leb(cnt + 2)), Buffer.from(rest), Buffer.from([...exp('__vp_table', 1, 0), ...exp('__vp_sp', 3, 0)])]);
      parts.push(Buffer.from([7, ...leb(nb.length)]), nb); done = true;
    } else if (id === 0) { /* custom sections (names) carry no behaviour */ } else {
      parts.push(bytes.subarray(at, p));
      if (id === 11) { // the first data segment is .rodata, which the program never writes
        const save = p; p = body; rd();
        if (bytes[p++] === 0 && bytes[p++] === 0x41) { const off = rd(); if (bytes[p++] === 0x0b) ro = [off, off + rd()]; }
        p = save;
      }
    }
  }
  if (!done) throw new Error('no export section');
  return { wasm: Buffer.concat(parts), ro };
}
export function loadModule(bytes) {
  if (bytes[0] === 0x1f && bytes[1] === 0x8b) bytes = zlib.gunzipSync(bytes);
  const key = crypto.createHash('sha256').update(bytes).digest('hex');
  let m = modCache.get(key);
  if (!m) {
    const { wasm, ro } = instrument(bytes);
    const module = new WebAssembly.Module(wasm);
    const exports = new Set(WebAssembly.Module.exports(module).map((e) => e.name));
    m = { key, module, exports, ro };
    modCache.set(key, m);
  }
  return m;
}
export function adoptModule(m) { modCache.set(m.key, m); return m; }

// ---------------------------------------------------------------- stable memory
class Stable {
  constructor() { this.pages = new Map(); this.size = 0n; this.undo = null; }
  begin() { this.undo = new Map(); this.usize = this.size; }
  commit() { const u = { undo: this.undo, size: this.usize }; this.undo = null; return u; }
  back({ undo, size }) { for (const [i, pg] of undo) { if (pg) this.pages.set(i, pg); else this.pages.delete(i); } this.size = size; }
  rollback() { this.back({ undo: this.undo, size: this.usize }); this.undo = null; }
  fork() { // shares pages; both sides copy on write from now on
    const s = new Stable(); s.pages = new Map(this.pages); s.size = this.size;
    this.shared = new Set(this.pages.values()); s.shared = this.shared; return s;
  }
  check(off, n) { if (off + n > this.size * BigInt(WPAGE)) throw new Trap('stable memory out of bounds'); }
  read(off, n, dst, dp) {
    let o = Number(off);
    if (o < 0 || n < 0 || o + n > Number(this.size) * WPAGE) throw new Trap('stable memory out of bounds');
    if (n <= 32 && (o % SPAGE) + n <= SPAGE && dp + n <= dst.length) {
      const pg = this.pages.get(Math.floor(o / SPAGE)), po = o % SPAGE;
      if (pg) for (let i = 0; i < n; i++) dst[dp + i] = pg[po + i]; else dst.fill(0, dp, dp + n);
      return;
    }
    while (n > 0) {
      const pi = Math.floor(o / SPAGE), po = o % SPAGE, k = Math.min(n, SPAGE - po);
      const pg = this.pages.get(pi);
      if (pg) dst.set(pg.subarray(po, po + k), dp); else dst.fill(0, dp, dp + k);
      o += k; dp += k; n -= k;
    }
  }
  write(off, src) {
    this.check(off, BigInt(src.length));
    let o = Number(off), sp = 0, n = src.length;
    while (n > 0) {
      const pi = Math.floor(o / SPAGE), po = o % SPAGE, k = Math.min(n, SPAGE - po);
      let pg = this.pages.get(pi);
      if (this.undo && !this.undo.has(pi)) { this.undo.set(pi, pg ?? null); pg = pg ? pg.slice() : new Uint8Array(SPAGE); this.pages.set(pi, pg); }
      else if (!pg) { pg = new Uint8Array(SPAGE); this.pages.set(pi, pg); }
      else if (this.shared && this.shared.has(pg) && !this.undo) { pg = pg.slice(); this.pages.set(pi, pg); }
      pg.set(src.subarray(sp, sp + k), po);
      o += k; sp += k; n -= k;
    }
  }
}

// ---------------------------------------------------------------- canister
class Canister {
  constructor(replica, id) {
    this.r = replica; this.id = id; this.idBytes = principalBytes(id);
    this.controllers = []; this.mod = null; this.inst = null; this.mem = null;
    this.stable = new Stable(); this.certified = new Uint8Array(0); this.timer = 0n;
    this.version = 0n; this.cycles = 10n ** 18n; this.running = 'running'; this.logs = [];
    this.pendingCallbacks = new Map(); this.nextCb = 1;
  }
  instantiate() {
    const c = this; let x; // x: current execution context
    let bytes = null; const buf = () => (bytes && bytes.length ? bytes : (bytes = new Uint8Array(c.mem.buffer))); // a grown memory empties the old view
    const rdBytes = (p, n) => { p >>>= 0; n >>>= 0; const b = buf(); if (p + n > b.length) throw new Trap('heap out of bounds'); return b.slice(p, p + n); };
    const copy = (data) => (dst, off, size) => { dst >>>= 0; off >>>= 0; size >>>= 0; if (off + size > data(c.x).length) throw new Trap('copy out of bounds'); buf().set(data(c.x).subarray(off, off + size), dst); };
    const size = (data) => () => data(c.x).length;
    const put128 = (dst, v) => { const dv = new DataView(c.mem.buffer); dv.setBigUint64(dst >>> 0, v & 0xffffffffffffffffn, true); dv.setBigUint64((dst >>> 0) + 8, v >> 64n, true); };
    const need = (...kinds) => { if (!kinds.includes(c.x.kind)) throw new Trap(`ic0 call not allowed in ${c.x.kind}`); };
    const arg = (x) => x.arg; const caller = (x) => x.callerBytes; const rej = (x) => x.rejectMsg ?? new Uint8Array(0);
    const call = () => { if (!c.x.building) throw new Trap('no call under construction'); return c.x.building; };
    const ic0 = {
      time: () => BigInt.asIntN(64, c.r.now),
      global_timer_set: (t) => { const old = c.timer; c.timer = BigInt.asUintN(64, t); return BigInt.asIntN(64, old); },
      data_certificate_present: () => (c.x.kind === 'query' && !c.x.noCert ? 1 : 0),
      data_certificate_size: () => c.r.certificate(c).length,
      data_certificate_copy: (dst, off, n) => copy(() => c.r.certificate(c))(dst, off, n),
      stable64_size: () => c.stable.size,
      stable64_grow: (n) => { const o = c.stable.size; n = BigInt.asUintN(64, n); if (o + n > 8388608n) return -1n; c.stable.size = o + n; return o; },
      stable64_read: (dst, off, n) => c.stable.read(off, Number(n), buf(), Number(dst)),
      stable64_write: (off, src, n) => c.stable.write(BigInt.asUintN(64, off), buf().subarray(Number(src), Number(src) + Number(n))),
      canister_cycle_balance128: (d) => put128(d, c.cycles),
      canister_liquid_cycle_balance128: (d) => put128(d, c.cycles),
      cost_call: (a, b, d) => put128(d, 0n),
      debug_print: (p, n) => { if (c.r.debug) { const m = td.decode(rdBytes(p, n)); c.r.debug(c.id, m); } },
      canister_version: () => c.version,
      canister_self_size: () => c.idBytes.length,
      canister_self_copy: (d, o, n) => copy(() => c.idBytes)(d, o, n),
      canister_status: () => (c.running === 'running' ? 1 : c.running === 'stopping' ? 2 : 3),
      canister_cycle_balance: () => c.cycles & 0x7fffffffffffffffn,
      msg_arg_data_size: size(arg), msg_arg_data_copy: copy(arg),
      msg_caller_size: size(caller), msg_caller_copy: copy(caller),
      msg_reject_code: () => c.x.rejectCode ?? 0,
      msg_reject_msg_size: size(rej), msg_reject_msg_copy: copy(rej),
      msg_deadline: () => 0n,
      msg_cycles_available128: (d) => put128(d, c.x.ctx?.cycles ?? 0n),
      msg_cycles_refunded128: (d) => put128(d, 0n),
      msg_cycles_accept128: (hi, lo, d) => { const have = c.x.ctx?.cycles ?? 0n; let want = (BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo); if (want > have) want = have; if (c.x.ctx) c.x.ctx.cycles -= want; c.cycles += want; put128(d, want); },
      is_controller: (p, n) => (c.controllers.includes(principalText(rdBytes(p, n))) ? 1 : 0),
      in_replicated_execution: () => (c.x.kind === 'query' ? 0 : 1),
      performance_counter: () => 0n,
      accept_message: () => { c.x.accepted = true; },
      msg_reply_data_append: (p, n) => { if (c.x.answered()) throw new Trap('already replied'); c.x.reply.push(rdBytes(p, n)); },
      msg_reply: () => { if (c.x.answered()) throw new Trap('already replied'); c.x.out = { ok: Buffer.concat(c.x.reply) }; },
      msg_reject: (p, n) => { if (c.x.answered()) throw new Trap('already replied'); c.x.out = { code: 4, msg: td.decode(rdBytes(p, n)) }; },
      trap: (p, n) => { throw new Trap(td.decode(rdBytes(p, n))); },
      certified_data_set: (p, n) => { need('update', 'init', 'pre_upgrade', 'post_upgrade', 'callback', 'timer'); if (n > 32) throw new Trap('certified data too long'); c.certified = rdBytes(p, n); },
      call_new: (cp, cn, np, nn, rf, re, jf, je) => {
        need('update', 'callback', 'timer');
        c.x.building = { to: principalText(rdBytes(cp, cn)), method: td.decode(rdBytes(np, nn)), data: [], cycles: 0n, cb: { reply: [rf, re], reject: [jf, je], cleanup: null } };
      },
      call_on_cleanup: (f, e) => { call().cb.cleanup = [f, e]; },
      call_data_append: (p, n) => { call().data.push(rdBytes(p, n)); },
      call_cycles_add128: (hi, lo) => { const a = (BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo); if (a > c.cycles) throw new Trap('out of cycles'); c.cycles -= a; call().cycles += a; },
      call_with_best_effort_response: () => { call().bestEffort = true; },
      call_perform: () => { const k = call(); c.x.building = null; const no = c.x.redo ? c.x.redo.shift() : !!c.r.hooks.perform?.(c, k); c.x.performed.push(no); if (no) return 2; c.x.calls.push(k); return 0; },
    };
    // Any import a later version of the code might use and this replica does not know.
    const imports = { ic0: new Proxy(ic0, { get: (o, k) => o[k] ?? (() => { throw new Trap(`ic0.${String(k)} is not simulated`); }) }) };
    const env = {};
    for (const i of WebAssembly.Module.imports(this.mod.module)) {
      if (i.module === 'ic0') (env.ic0 ??= {})[i.name] = imports.ic0[i.name];
      else throw new Error(`unknown import ${i.module}.${i.name}`);
    }
    this.inst = new WebAssembly.Instance(this.mod.module, env);
    this.mem = this.inst.exports.memory;
    this.table = this.inst.exports.__vp_table;
    this.sp0 = this.inst.exports.__vp_sp.value;
    // What lies below: the stack (dead between messages) and the read-only data.
    this.base = this.mod.ro && this.mod.ro[0] === this.sp0 ? this.mod.ro[1] & ~4095 : 0;
    this.snap = null; this.journal = null; this.stale = false;
  }
  // The heap as it is now is what `snap` becomes when the executions in `journal` are repeated on it
  // (null: there is no such snapshot). A message's effects are undone by going back to the snapshot
  // and repeating the others; a snapshot is taken before most messages, but not before the timer
  // and callback executions that make up passing time, which hardly ever trap.
  heap() { if (this.stale) { this.restoreHeap(); this.stale = false; } return new Uint8Array(this.mem.buffer, this.base).slice(); }
  setHeap(h) {
    this.stale = false; this.journal = null;
    const len = h.length + this.base;
    if (this.mem.buffer.byteLength !== len) { this.instantiate(); if (this.mem.buffer.byteLength < len) this.mem.grow((len - this.mem.buffer.byteLength) / WPAGE); }
    new Uint8Array(this.mem.buffer, this.base).set(h);
    this.inst.exports.__vp_sp.value = this.sp0;
  }
  saveHeap(light) {
    if (this.journal && (this.journal.length === 0 || (light && this.journal.length < Canister.redo))) return;
    const b = new Uint8Array(this.mem.buffer, this.base);
    if (!this.snap || this.snap.length !== b.length) this.snap = new Uint8Array(b.length);
    this.snap.set(b); this.journal = [];
  }
  static redo = 64;
  restoreHeap() {
    const s = this.snap, j = this.journal ?? []; this.setHeap(s); this.snap = s;
    if (j.length) {
      const keep = { x: this.x, timer: this.timer, certified: this.certified, cycles: this.cycles, version: this.version, controllers: this.controllers }; const now = this.r.now;
      for (let i = j.length - 1; i >= 0; i--) this.stable.back(j[i].undo);
      for (const e of j) {
        Object.assign(this, e.state); this.r.now = e.now;
        this.x = { ...e.x, ctx: e.ctx && { ...e.ctx }, out: null, calls: [], reply: [], building: null, performed: [], redo: [...e.x.performed] };
        const x = this.x; x.answered = () => x.out || (x.ctx && x.ctx.responded && x.kind === 'callback');
        this.stable.begin(); e.fn(this); e.undo = this.stable.commit();
      }
      Object.assign(this, keep); this.r.now = now; this.r.stats.redone = (this.r.stats.redone ?? 0) + 1;
    }
    this.journal = j;
  }
  // Runs one entry point atomically. Returns the execution context; x.trap is set if it trapped, in
  // which case no effect of it remains.
  run(kind, fn, opts = {}) {
    const x = { kind, arg: opts.arg ?? new Uint8Array(0), callerBytes: opts.callerBytes ?? principalBytes(MGMT), ctx: opts.ctx, rejectCode: opts.rejectCode, rejectMsg: opts.rejectMsg, reply: [], out: null, calls: [], performed: [], building: null, noCert: opts.noCert };
    x.answered = () => x.out || (x.ctx && x.ctx.responded && kind === 'callback');
    const prev = this.x;
    this.x = x;
    const save = { timer: this.timer, cert: this.certified, cycles: this.cycles, ctxCycles: x.ctx?.cycles };
    const state = { timer: this.timer, certified: this.certified, cycles: this.cycles, version: this.version, controllers: this.controllers };
    const ctx0 = x.ctx && { responded: x.ctx.responded, cycles: x.ctx.cycles };
    if (this.stale && !(kind === 'query' && Replica.lazy)) { this.restoreHeap(); this.stale = false; }
    const light = kind === 'callback' || kind === 'timer' || opts.light;
    this.saveHeap(light);
    this.stable.begin();
    this.r.stats.exec++;
    try { fn(this); } catch (e) {
      if (!(e instanceof Trap) && !(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) { this.x = prev; throw e; }
      x.trap = e instanceof Trap ? e.message : `wasm trap: ${e.message}`;
    }
    if (x.trap !== undefined || kind === 'query') {
      this.stable.rollback();
      if (x.trap === undefined && Replica.lazy) this.stale = true; else { this.restoreHeap(); this.stale = false; }
      this.timer = save.timer; this.certified = save.cert; this.cycles = save.cycles; if (x.ctx) x.ctx.cycles = save.ctxCycles;
      if (x.trap !== undefined) { x.calls = []; x.out = null; this.r.stats.traps++, this.lastTrap = x.trap; }
    } else {
      const undo = this.stable.commit(); this.version++;
      if (kind === 'init' || kind === 'pre_upgrade' || kind === 'post_upgrade') this.journal = null;
      else this.journal.push({ fn, x, ctx: ctx0, state, now: this.r.now, undo });
    }
    this.x = prev;
    return x;
  }
}

// ---------------------------------------------------------------- replica
export const REJ = { SYS_FATAL: 1, SYS_TRANSIENT: 2, DEST_INVALID: 3, CANISTER_REJECT: 4, CANISTER_ERROR: 5, SYS_UNKNOWN: 6 };

export class Replica {
  // Consecutive queries run on one heap, which is restored before anything else runs. A query cannot
  // see what another one left behind unless it breaks the rules; whatever a check reports was
  // confirmed with this off.
  static lazy = false;
  constructor({ now = 1_700_000_000_000_000_000n } = {}) {
    this.now = now; this.canisters = new Map(); this.queue = []; this.hooks = {}; this.nextId = 1;
    this.stats = { exec: 0, traps: 0, msgs: 0, queries: 0, updates: 0 }; this.seq = 0;
    this.debug = null; this.mgmtLog = []; this.subnetCycles = 0n;
  }
  get(id) { return this.canisters.get(id); }
  newId() {
    const n = this.nextId++;
    return principalText(Uint8Array.from([0, 0, 0, 0, (n >>> 24) & 255, (n >>> 16) & 255, (n >>> 8) & 255, n & 255, 1, 1]));
  }
  create(controllers = []) { const id = this.newId(); const c = new Canister(this, id); c.controllers = controllers; this.canisters.set(id, c); return c; }
  install(c, mod, arg, caller) {
    if (c.stale) { c.restoreHeap(); c.stale = false; }
    const old = { mod: c.mod, inst: c.inst, mem: c.mem, table: c.table, sp0: c.sp0, stable: c.stable, timer: c.timer, certified: c.certified };
    c.mod = mod; c.stable = new Stable(); c.timer = 0n; c.certified = new Uint8Array(0);
    c.instantiate();
    const x = c.run('init', (c) => c.inst.exports.canister_init?.(), { arg, callerBytes: principalBytes(caller) });
    if (x.trap !== undefined) { Object.assign(c, old); c.journal = null; }
    else this.dispatch(c, x, null);
    return x.trap === undefined ? { ok: true } : { trap: x.trap };
  }
  upgrade(c, mod, arg, caller) {
    if (!c.inst) return { trap: 'no module' };
    const heap = c.heap();
    const keep = c.stable; c.stable = keep.fork(); c.stable.shared = new Set(c.stable.pages.values());
    const old = { mod: c.mod, timer: c.timer, certified: c.certified };
    let x = c.run('pre_upgrade', (c) => c.inst.exports.canister_pre_upgrade?.(), { callerBytes: principalBytes(caller) });
    if (x.trap === undefined) {
      c.mod = mod; c.timer = 0n; c.instantiate();
      x = c.run('post_upgrade', (c) => c.inst.exports.canister_post_upgrade?.(), { arg, callerBytes: principalBytes(caller) });
    }
    if (x.trap !== undefined) {
      c.mod = old.mod; c.timer = old.timer; c.certified = old.certified; c.stable = keep;
      c.instantiate(); c.setHeap(heap);
      return { trap: x.trap };
    }
    c.lostCallbacks = new Set([...(c.lostCallbacks ?? []), ...c.pendingCallbacks.keys()]);
    c.pendingCallbacks.clear(); // the code those callbacks point into is gone
    this.dispatch(c, x, null);
    return { ok: true };
  }
  // Whole-world snapshot, used to compare futures of one state.
  snapshot() {
    if (this.queue.length) throw new Error('snapshot needs a quiet replica');
    const cs = [];
    for (const c of this.canisters.values()) cs.push({ c, heap: c.mem ? c.heap() : null, mod: c.mod, stable: c.stable.fork(), timer: c.timer, certified: c.certified, version: c.version, cycles: c.cycles, controllers: c.controllers, pend: new Map(c.pendingCallbacks) });
    return { now: this.now, nextId: this.nextId, cs, seq: this.seq };
  }
  restore(s) {
    this.now = s.now; this.nextId = s.nextId; this.queue = []; this.seq = s.seq; this.canisters = new Map();
    for (const k of s.cs) {
      const c = k.c; this.canisters.set(c.id, c);
      Object.assign(c, { timer: k.timer, certified: k.certified, version: k.version, cycles: k.cycles, controllers: k.controllers, pendingCallbacks: new Map(k.pend) });
      c.stable = k.stable.fork();
      if (!k.heap) { c.inst = null; c.mem = null; c.mod = null; continue; }
      if (c.mod !== k.mod || !c.mem) { c.mod = k.mod; c.instantiate(); }
      c.setHeap(k.heap);
    }
  }
  certificate(c) { // CBOR stand-in: the certified data, tagged so that checks can recognise it
    return Uint8Array.from([...te.encode('VPCERT'), ...c.certified]);
  }

  // -------------------------------------------------------------- ingress
  query(id, caller, method, arg, opts = {}) {
    this.stats.queries++;
    const c = this.get(id);
    if (!c || !c.inst) return { code: 3, msg: `canister ${id} not found` };
    const f = c.inst.exports[`canister_query ${method}`];
    if (!f) return { code: 3, msg: `no query method ${method}` };
    const x = c.run('query', (c) => c.inst.exports[`canister_query ${method}`](), { arg, callerBytes: principalBytes(caller), noCert: opts.noCert });
    if (x.trap !== undefined) return { code: 5, msg: x.trap, trapped: true };
    return x.out ?? { code: 5, msg: 'did not reply' };
  }
  submit(id, caller, method, arg) { // an ingress update; returns a ticket whose .res is set when answered
    this.stats.updates++;
    const ticket = { res: null };
    this.queue.push({ seq: this.seq++, kind: 'request', to: id, from: caller, method, arg, cycles: 0n, origin: { ticket } });
    return ticket;
  }
  update(id, caller, method, arg) { const t = this.submit(id, caller, method, arg); this.settle(); return t.res ?? { code: 6, msg: 'no response yet' }; }
  settle(max = 200000) { let n = 0; while (this.queue.length) { this.step(); if (++n > max) throw new Error('replica does not settle'); } return n; }
  // Delivers one message; which one is the scheduler's choice (default: oldest first).
  step(pick) {
    let i = 0;
    if (pick) i = pick(this.queue); else if (this.hooks.pick) i = this.hooks.pick(this.queue);
    const [m] = this.queue.splice(i, 1);
    this.stats.msgs++;
    if (m.kind === 'request') this.deliver(m); else this.respondTo(m);
  }
  // -------------------------------------------------------------- time
  nextTimer() { let best = null; for (const c of this.canisters.values()) if (c.inst && c.timer > 0n && (best === null || c.timer < best.timer)) best = c; return best; }
  advance(ns, { settle = true } = {}) {
    const target = this.now + BigInt(ns);
    for (let i = 0; ; i++) {
      const c = this.nextTimer();
      if (!c || c.timer > target) break;
      if (i > 100000) throw new Error('timer storm');
      if (c.timer > this.now) this.now = c.timer;
      this.fire(c);
      if (settle) this.settle();
    }
    if (this.now < target) this.now = target;
  }
  fire(c) {
    c.timer = 0n;
    if (!c.inst.exports.canister_global_timer) return;
    const ctx = { responded: true, outstanding: 0, origin: null, caller: c.id, cycles: 0n };
    const x = c.run('timer', (c) => c.inst.exports.canister_global_timer(), { ctx, callerBytes: principalBytes(MGMT) });
    if (x.trap !== undefined) { this.lastTimerTrap = x.trap; this.stats.timerTraps = (this.stats.timerTraps ?? 0) + 1; } else this.dispatch(c, x, ctx);
  }
  // -------------------------------------------------------------- messages
  deliver(m) {
    const fault = m.origin.callback && this.hooks.fault?.(m);
    if (fault && fault.when !== 'after') { this.answer(m.origin, fault); return; }
    if (m.to === MGMT) { let res; try { res = this.management(m); } catch (e) { if (!(e instanceof CandidError)) throw e; res = { code: 5, msg: 'management canister: ' + e.message }; } this.answer(m.origin, fault ? fault : res, m.cycles); return; }
    const c = this.get(m.to);
    if (!c || !c.inst) return this.answer(m.origin, { code: 3, msg: `Canister ${m.to} not found` }, m.cycles);
    if (c.running !== 'running') return this.answer(m.origin, { code: 5, msg: `Canister ${m.to} is not running` }, m.cycles);
    const internal = m.method.startsWith('<ic-cdk internal>');
    const up = c.inst.exports[`canister_update ${m.method}`]; const qu = c.inst.exports[`canister_query ${m.method}`];
    if (!up && !qu) return this.answer(m.origin, { code: 5, msg: `Canister has no update method '${m.method}'` }, m.cycles);
    if (internal && m.from !== m.to && !this.allowInternal) return this.answer(m.origin, { code: 5, msg: 'internal method' }, m.cycles);
    const name = up ? `canister_update ${m.method}` : `canister_query ${m.method}`;
    const ctx = { responded: false, outstanding: 0, origin: m.origin, caller: m.from, cycles: m.cycles ?? 0n, hideReply: fault };
    const x = c.run('update', (c) => c.inst.exports[name](), { arg: m.arg, callerBytes: principalBytes(m.from), ctx, light: internal || !up });
    if (x.trap !== undefined) return this.reply(ctx, { code: 5, msg: x.trap, trapped: true });
    this.dispatch(c, x, ctx);
  }
  dispatch(c, x, ctx) {
    for (const k of x.calls) {
      if (ctx) ctx.outstanding++;
      const id = c.nextCb++;
      c.pendingCallbacks.set(id, { ctx, cb: k.cb });
      this.queue.push({ seq: this.seq++, kind: 'request', to: k.to, from: c.id, method: k.method, arg: Buffer.concat(k.data), cycles: k.cycles, bestEffort: k.bestEffort, origin: { callback: id, canister: c.id } });
    }
    if (!ctx) return;
    if (x.out && !ctx.responded) this.reply(ctx, x.out);
    if (!ctx.responded && ctx.outstanding === 0) this.reply(ctx, { code: 5, msg: 'Canister did not reply to the call' });
  }
  reply(ctx, res) { ctx.responded = true; this.answer(ctx.origin, ctx.hideReply ? ctx.hideReply : res); }
  answer(origin, res, refund) {
    if (!origin) return;
    if (origin.ticket) { origin.ticket.res = res; this.hooks.answered?.(origin.ticket, res); return; }
    this.queue.push({ seq: this.seq++, kind: 'response', to: origin.canister, callback: origin.callback, res });
  }
  respondTo(m) {
    const c = this.get(m.to);
    const pend = c?.pendingCallbacks.get(m.callback);
    if (!pend || !c.inst) return;
    c.pendingCallbacks.delete(m.callback);
    const { ctx, cb } = pend;
    if (ctx) ctx.outstanding--;
    const ok = m.res.ok !== undefined;
    const [f, e] = ok ? cb.reply : cb.reject;
    const common = { ctx, callerBytes: principalBytes(ctx?.caller ?? MGMT) };
    const x = c.run('callback', (c) => c.table.get(f)(e), ok ? { ...common, arg: m.res.ok } : { ...common, rejectCode: m.res.code, rejectMsg: te.encode(m.res.msg) });
    if (x.trap !== undefined) {
      if (cb.cleanup) { const [cf, ce] = cb.cleanup; c.run('cleanup', (c) => c.table.get(cf)(ce), common); }
      this.stats.callbackTraps = (this.stats.callbackTraps ?? 0) + 1;
      this.lastCallbackTrap = x.trap;
      if (ctx && !ctx.responded && ctx.outstanding === 0) this.reply(ctx, { code: 5, msg: x.trap, trapped: true });
      return;
    }
    this.dispatch(c, x, ctx);
  }
  // -------------------------------------------------------------- management canister
  management(m) {
    const args = decode(m.arg);
    this.mgmtLog.push({ method: m.method, from: m.from, canister: args[0]?.canister_id });
    const ok = (types = [], vals = []) => ({ ok: encode(types, vals) });
    const target = () => { const c = this.get(args[0].canister_id); return c; };
    const ctl = (c) => c && c.controllers.includes(m.from);
    switch (m.method) {
      case 'create_canister': {
        const s = args[0]?.settings;
        const c = this.create(s?.controllers ?? [m.from]);
        c.cycles = m.cycles; c.createdBy = m.from;
        return ok([T.rec({ canister_id: T.principal })], [{ canister_id: c.id }]);
      }
      case 'install_code': {
        const c = target();
        if (!ctl(c)) return { code: 5, msg: 'not a controller' };
        const mode = Object.keys(args[0].mode)[0];
        const mod = loadModule(Buffer.from(args[0].wasm_module));
        const res = mode === 'upgrade' ? this.upgrade(c, mod, args[0].arg, m.from) : this.install(c, mod, args[0].arg, m.from);
        return res.ok ? ok() : { code: 5, msg: `install_code: ${res.trap}` };
      }
      case 'canister_status': {
        const c = target();
        if (!ctl(c) && m.from !== c?.id) return { code: 5, msg: 'not a controller' };
        return ok([STATUS], [{ status: { running: null }, settings: { controllers: c.controllers, compute_allocation: 0n, memory_allocation: 0n, freezing_threshold: 2592000n, reserved_cycles_limit: 0n, log_visibility: { controllers: null }, wasm_memory_limit: 0n, wasm_memory_threshold: 0n, environment_variables: [] }, module_hash: null, memory_size: BigInt(c.mem ? c.mem.buffer.byteLength : 0) + c.stable.size * 65536n, cycles: c.cycles, reserved_cycles: 0n, idle_cycles_burned_per_day: 1000n, query_stats: { num_calls_total: 0n, num_instructions_total: 0n, request_payload_bytes_total: 0n, response_payload_bytes_total: 0n }, memory_metrics: { wasm_memory_size: 0n, stable_memory_size: 0n, global_memory_size: 0n, wasm_binary_size: 0n, custom_sections_size: 0n, canister_history_size: 0n, wasm_chunk_store_size: 0n, snapshots_size: 0n }, version: c.version, ready_for_migration: false }]);
      }
      case 'deposit_cycles': { const c = target(); if (c) c.cycles += m.cycles; return ok(); }
      case 'update_settings': { const c = target(); if (!ctl(c)) return { code: 5, msg: 'not a controller' }; if (args[0].settings.controllers) c.controllers = args[0].settings.controllers; return ok(); }
      case 'stop_canister': { const c = target(); if (!ctl(c)) return { code: 5, msg: 'not a controller' }; c.running = 'stopped'; return ok(); }
      case 'start_canister': { const c = target(); if (!ctl(c)) return { code: 5, msg: 'not a controller' }; c.running = 'running'; return ok(); }
      case 'raw_rand': return ok([T.blob], [new Uint8Array(32).fill(7)]);
      default: return { code: 5, msg: `management canister has no method ${m.method}` };
    }
  }
}
learn('canister_id', 'settings', 'controllers', 'mode', 'install', 'reinstall', 'upgrade', 'wasm_module', 'arg', 'sender_canister_version', 'skip_pre_upgrade', 'wasm_memory_persistence', 'compute_allocation', 'memory_allocation', 'freezing_threshold', 'num_requested_changes');
const DEF = T.rec({ controllers: T.vec(T.principal), compute_allocation: T.nat, memory_allocation: T.nat, freezing_threshold: T.nat, reserved_cycles_limit: T.nat, log_visibility: T.variant({ controllers: T.null, public: T.null }), wasm_memory_limit: T.nat, wasm_memory_threshold: T.nat, environment_variables: T.vec(T.rec({ name: T.text, value: T.text })) });
const STATUS = T.rec({ status: T.variant({ running: T.null, stopping: T.null, stopped: T.null }), settings: DEF, module_hash: T.opt(T.blob), memory_size: T.nat, cycles: T.nat, reserved_cycles: T.nat, idle_cycles_burned_per_day: T.nat, version: T.nat64, ready_for_migration: T.bool,
  query_stats: T.rec({ num_calls_total: T.nat, num_instructions_total: T.nat, request_payload_bytes_total: T.nat, response_payload_bytes_total: T.nat }),
  memory_metrics: T.rec({ wasm_memory_size: T.nat, stable_memory_size: T.nat, global_memory_size: T.nat, wasm_binary_size: T.nat, custom_sections_size: T.nat, canister_history_size: T.nat, wasm_chunk_store_size: T.nat, snapshots_size: T.nat }) });
