// Reading the ledger's views, comparing them with the model, and taking raw snapshots of every answer.
import { akey, ANON, hex, subHex, ADMIN, DAY, maxN } from './util.mjs';
import { show } from '../sim/candid.mjs';
import { verify } from './httpcert.mjs';
import { Core, PERMS, SETTINGS, out, encodeCall } from '../sim/core.mjs';
import { canonMeta, canonValue, normAcc, urlOf, servable } from './model.mjs';

const chunk = (xs, n) => { const r = []; for (let i = 0; i < xs.length; i += n) r.push(xs.slice(i, i + n)); return r; };
const accShow = (a) => (a ? akey(a) : null);
export class Observer {
  // world: {core, model, accounts, caller, r}; accounts: every account the generator can name.
  constructor(w) { this.w = w; this.seen = 0; this.lastThash = null; this.checkedBlocks = 0; }
  get m() { return this.w.model; }
  q(method, ...args) { this.n = (this.n ?? 0) + 1; return this.w.core.query(this.w.caller, method, ...args); }
  dev(view, msg) { this.m.devs.push({ kind: 'view', m: view, causes: this.since ?? [], got: '', msg }); }
  val(view, res) { if (res.rej) { this.dev(view, `query ${view} rejected: ${res.rej.msg.slice(0, 300)}`); return null; } return res.v; }
  ids() { const r = []; for (let i = 0n; i <= this.m.nextId + 1n; i++) r.push(i); return r; }
  sizes() { const n = Number(this.m.maxQuery > 1000n ? 1000n : this.m.maxQuery); return n; }

  owner() {
    if (!this.sizes()) return;
    for (const ids of chunk(this.ids(), this.sizes())) {
      const v = this.val('owner', this.q('icrc7_owner_of', ids)); if (!v) continue;
      if (v.length !== ids.length) { this.dev('owner', `owner_of answered ${v.length} entries for ${ids.length} ids`); continue; }
      ids.forEach((id, i) => { const t = this.m.tokens.get(id); if (accShow(v[i]) !== accShow(t?.owner)) this.dev('owner', `icrc7_owner_of(${id}) is ${accShow(v[i])}, expected ${accShow(t?.owner)}`); });
    }
  }
  balance() {
    if (!this.sizes()) return;
    for (const as of chunk(this.w.accounts, this.sizes())) {
      const v = this.val('balance', this.q('icrc7_balance_of', as)); if (!v) continue;
      if (v.length !== as.length) { this.dev('balance', `balance_of answered ${v.length} entries for ${as.length} accounts`); continue; }
      as.forEach((a, i) => { const n = BigInt(this.m.owned(akey(a)).length); if (v[i] !== n) this.dev('balance', `icrc7_balance_of(${akey(a)}) is ${v[i]}, expected ${n}`); });
    }
  }
  pages(view, q) { // follows the pages of a token listing
    const take = this.m.maxTake < 7n ? this.m.maxTake : this.m.maxTake > 100n ? 100n : this.m.maxTake;
    if (take <= 0n) return null;
    const all = []; let prev = null;
    for (let i = 0; i < 3000; i++) {
      const v = this.val(view, q(prev, take)); if (!v) return null;
      if (BigInt(v.length) > take) { this.dev(view, `page of ${v.length} ids for take ${take}`); return null; }
      all.push(...v); if (BigInt(v.length) < take) return all;
      if (prev !== null && v[v.length - 1] <= prev) { this.dev(view, 'pages do not advance'); return null; }
      prev = v[v.length - 1];
    }
    return all;
  }
  sortedIds(it) { return [...it].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0)); }
  tokens() {
    const v = this.pages('tokens', (p, t) => this.q('icrc7_tokens', p, t)); if (!v) return;
    const want = this.sortedIds(this.m.tokens.keys());
    if (show(v) !== show(want)) this.dev('tokens', `icrc7_tokens lists ${show(v)}, expected ${show(want)}`);
  }
  tokens_of() {
    for (const a of this.w.accounts) {
      const v = this.pages('tokens_of', (p, t) => this.q('icrc7_tokens_of', a, p, t)); if (!v) continue;
      const want = this.sortedIds(this.m.owned(akey(a)));
      if (show(v) !== show(want)) this.dev('tokens_of', `icrc7_tokens_of(${akey(a)}) lists ${show(v)}, expected ${show(want)}`);
    }
  }
  supply() {
    const v = this.val('supply', this.q('icrc7_total_supply')); if (v === null) return;
    if (v !== BigInt(this.m.tokens.size)) this.dev('supply', `icrc7_total_supply is ${v}, expected ${this.m.tokens.size}`);
  }
  metadata() {
    if (!this.sizes()) return;
    for (const ids of chunk(this.ids(), this.sizes())) {
      const v = this.val('metadata', this.q('icrc7_token_metadata', ids)); if (!v) continue;
      if (v.length !== ids.length) { this.dev('metadata', `token_metadata answered ${v.length} entries for ${ids.length} ids`); continue; }
      ids.forEach((id, i) => {
        const t = this.m.tokens.get(id);
        const got = v[i] === null ? null : show(v[i].map(([k, x]) => [k, canonValue(x)]).sort((a, b) => Buffer.compare(Buffer.from(a[0]), Buffer.from(b[0]))));
        const want = t ? show(t.meta) : null;
        if (got !== want) this.dev('metadata', `metadata of token ${id} is ${got}, expected ${want}`);
      });
    }
  }
  compareApprovals(view, what, list, map, now) {
    const seen = new Set(); let prev = null;
    for (const e of list) {
      const i = e.approval_info, k = akey(i.spender), a = map?.get(k);
      if (seen.has(k)) { this.dev(view, `${what} lists spender ${k} twice`); continue; }
      seen.add(k);
      if (!a) { this.dev(view, `${what} lists an approval of ${k} that was not given or has ended`); continue; }
      const got = show([i.expires_at, i.memo, subHex(i.from_subaccount), i.created_at_time]);
      const want = show([a.exp, a.memo, subHex(a.from.subaccount), a.at]);
      if (got !== want) this.dev(view, `${what} lists the approval of ${k} as ${got}, expected ${want} (expiry, memo, subaccount, given at)`);
      if (prev !== null && i.created_at_time > prev) this.dev(view, `${what} is not newest first`);
      prev = i.created_at_time;
    }
    for (const [k, a] of map ?? []) if (this.m.live(a, now) && !seen.has(k)) this.dev(view, `${what} does not list the live approval of ${k}`);
  }
  // Page by page, each starting after the last entry of the one before, a listing is the whole listing.
  paged(view, what, whole, q) {
    this.pg = (this.pg ?? 0) + 1;
    const first = q(null, null), want10 = whole.slice(0, 10);
    if (first.rej || show(first.v) !== show(want10)) return this.dev(view, `${what} without take is ${show(first)}, expected the first ten entries ${show(want10)}`);
    if (!whole.length) return;
    const take = 1 + (this.pg % 3); const all = []; let prev = null;
    for (let i = 0; i <= whole.length; i++) {
      const x = q(prev, BigInt(take)); if (x.rej) return this.dev(view, `${what} rejects a page: ${x.rej.msg}`);
      if (x.v.length > take) return this.dev(view, `${what} answers ${x.v.length} entries for take ${take}`);
      all.push(...x.v); if (x.v.length < take) break; prev = x.v[x.v.length - 1];
    }
    if (show(all) !== show(whole)) this.dev(view, `the pages of ${take} of ${what} hold ${show(all)}, expected ${show(whole)}`);
    else this.m.count(whole.length > take ? 'listing of several pages' : 'listing of one page');
  }
  approvals() {
    const now = this.w.r.now;
    for (const id of this.ids()) {
      const v = this.val('approvals', this.q('icrc37_get_token_approvals', id, null, 100000n)); if (!v) continue;
      if (v.some((e) => e.token_id !== id)) this.dev('approvals', `approvals of token ${id} name another token`);
      this.compareApprovals('approvals', `token ${id}`, v, this.m.tokAppr.get(id), now);
      this.paged('approvals', `the approvals of token ${id}`, v, (p, t) => this.q('icrc37_get_token_approvals', id, p, t));
    }
  }
  coll() {
    const now = this.w.r.now;
    for (const a of this.w.accounts) {
      const v = this.val('coll', this.q('icrc37_get_collection_approvals', a, null, 100000n)); if (!v) continue;
      this.compareApprovals('coll', `collection approvals of ${akey(a)}`, v, this.m.collAppr.get(akey(a)), now);
      if (v.length) this.paged('coll', `the collection approvals of ${akey(a)}`, v, (p, t) => this.q('icrc37_get_collection_approvals', a, p, t));
    }
  }
  is_approved() {
    const now = this.w.r.now; const args = [];
    for (const id of this.ids()) {
      const t = this.m.tokens.get(id);
      for (const a of this.w.spenders ?? this.w.accounts) {
        args.push({ spender: a, from_subaccount: a.subaccount, token_id: id });
        if (t && t.owner.owner === a.owner) args.push({ spender: a, from_subaccount: t.owner.subaccount, token_id: id });
      }
    }
    const v = this.val('is_approved', this.q('icrc37_is_approved', args)); if (!v) return;
    if (v.length !== args.length) { this.dev('is_approved', `is_approved answered ${v.length} entries for ${args.length}`); return; }
    args.forEach((x, i) => {
      const t = this.m.tokens.get(x.token_id);
      const want = !!t && (akey(t.owner) === akey({ owner: x.spender.owner, subaccount: x.from_subaccount }) || this.m.approved(x.token_id, x.spender, now));
      if (v[i] !== want) this.dev('is_approved', `icrc37_is_approved(${akey(x.spender)}, from_subaccount ${subHex(x.from_subaccount)}, token ${x.token_id}) is ${v[i]}, expected ${want}`);
    });
  }
  // ---------------------------------------------------------------- log
  static blocks(core, caller, start, length, query) {
    // Reads [start, start+length) through the ledger and the archives it points to, 500 blocks at a time:
    // an answer need not hold more than a thousand.
    if (length > 500n) {
      const a = Observer.blocks(core, caller, start, 500n, query); if (a.rej) return a;
      const b = Observer.blocks(core, caller, start + 500n, length - 500n, query); if (b.rej) return b;
      return { v: { log_length: b.v.log_length, blocks: [...a.v.blocks, ...b.v.blocks], archived: [...a.v.archived, ...b.v.archived] } };
    }
    const res = core.query(caller, 'icrc3_get_blocks', [{ start, length }]);
    if (res.rej) return res;
    const all = res.v.blocks.map((b) => ({ ...b, from: 'ledger' }));
    for (const a of res.v.archived_blocks) {
      const [canister, method] = a.callback.func ?? [];
      const x = out(core.r.query(canister, caller, method, encodeCall('icrc3_get_blocks', [a.args])));
      if (x.rej) return { rej: { msg: `archive ${canister}: ${x.rej.msg}` } };
      for (const b of x.v.blocks) all.push({ ...b, from: canister });
    }
    return { v: { log_length: res.v.log_length, blocks: all, archived: res.v.archived_blocks } };
  }
  static flat(block) { // ICRC3 map to a plain object
    const o = {}; for (const [k, v] of block.Map) o[k] = v; return o;
  }
  blocks(full = false) {
    const m = this.m; const start = full ? 0 : this.seen;
    const n = m.log.length - start;
    const res = Observer.blocks(this.w.core, this.w.caller, BigInt(start), BigInt(n + 3));
    const v = this.val('blocks', res); if (!v) return;
    if (v.log_length !== BigInt(m.log.length)) this.dev('blocks', `log_length is ${v.log_length}, expected ${m.log.length}`);
    if (v.blocks.length !== n) this.dev('blocks', `${v.blocks.length} blocks from ${start} on, expected ${n}`);
    let prev = full ? null : this.lastThash;
    const ids = v.blocks.map((b) => b.id);
    ids.sort((a, b) => (a < b ? -1 : 1)); v.blocks.sort((a, b) => (a.id < b.id ? -1 : 1));
    for (let i = 0; i < Math.min(n, v.blocks.length); i++) {
      const b = v.blocks[i], want = m.log[start + i];
      this.checkedBlocks++;
      if (b.id !== BigInt(start + i)) { this.dev('blocks', `block ${start + i} has id ${b.id}`); continue; }
      const f = Observer.flat(b.block);
      const th = f.thash?.Blob, ph = f.phash?.Blob;
      const expPrev = prev ? hex(prev) : '00'.repeat(32);
      if (!th || th.length !== 32) this.dev('blocks', `block ${b.id} has no hash`);
      if (!ph || hex(ph) !== expPrev) this.dev('blocks', `block ${b.id} has phash ${ph && hex(ph)}, expected ${expPrev}`);
      prev = th;
      const tx = [];
      const put = (k, v) => { if (v !== undefined && v !== null) tx.push([k, v]); };
      put('op', { Text: want.op }); put('tid', want.tid !== undefined && want.tid !== null ? { Nat: want.tid } : null);
      put('from', want.from ? { Text: want.from.owner } : null); put('to', want.to ? { Text: want.to.owner } : null);
      put('spender', want.spender ? { Text: want.spender.owner } : null); put('memo', want.memo ? { Blob: want.memo } : null);
      put('created_at_time', want.created !== undefined && want.created !== null ? { Nat: want.created } : null);
      put('exp', want.exp !== undefined && want.exp !== null ? { Nat: want.exp } : null); put('meta', want.meta ? want.meta : null);
      const exp = canonMeta([['btype', { Text: want.op }], ['timestamp', { Nat: want.ts }], ['tx', { Map: tx }]]);
      const got = canonMeta(b.block.Map.filter(([k]) => k !== 'phash' && k !== 'thash'));
      if (show(got) !== show(exp)) this.dev('blocks', `block ${b.id} is ${show(got)}, expected ${show(exp)}`);
    }
    if (v.blocks.length === n && n > 0) { this.seen = m.log.length; this.lastThash = prev; }
  }
  // Replaying the log gives the owner principal of every token.
  replay() {
    const res = Observer.blocks(this.w.core, this.w.caller, 0n, BigInt(this.m.log.length));
    const v = this.val('blocks', res); if (!v) return;
    const own = new Map();
    for (const b of [...v.blocks].sort((a, b) => (a.id < b.id ? -1 : 1))) {
      const f = Observer.flat(b.block), tx = Observer.flat(f.tx), t = tx.tid?.Nat;
      if (['7mint', '7xfer', '37xfer'].includes(f.btype.Text)) own.set(t, tx.to.Text); else if (f.btype.Text === '7burn') own.delete(t);
    }
    const want = new Map([...this.m.tokens].map(([id, t]) => [id, t.owner.owner]));
    const s = (mm) => show([...mm].sort((a, b) => (a[0] < b[0] ? -1 : 1)));
    if (s(own) !== s(want)) this.dev('replay', `replaying the log gives ${s(own)}, the ledger has ${s(want)}`);
  }
  settings() {
    const m = this.m; const st = m.settings;
    const v = this.val('settings', this.q('icrc7_collection_metadata')); if (!v) return;
    const nat = (s) => (st[s] !== null ? { Nat: BigInt(st[s]) } : null);
    const want = [];
    const put = (k, x) => { if (x) want.push(['icrc7:' + k, x]); };
    for (const s of ['description', 'logo', 'name', 'symbol']) put(s, st[s] !== null ? { Text: st[s] } : null);
    for (const s of ['supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'tx_window', 'permitted_drift']) put(s, nat(s));
    put('atomic_batch_transfers', st.atomic_batch_transfers !== null ? { Text: String(st.atomic_batch_transfers) } : null);
    put('total_supply', { Nat: BigInt(m.tokens.size) });
    const a = show(canonMeta(v)), b = show(canonMeta(want));
    if (a !== b || v.length !== want.length) this.dev('settings', `icrc7_collection_metadata is ${a}, expected ${b}`);
    for (const s of ['symbol', 'name', 'description', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift']) {
      const x = this.q(`icrc7_${s}`); if (x.rej) { this.dev('settings', `icrc7_${s} rejected: ${x.rej.msg}`); continue; }
      if (show(x.v) !== show(st[s])) this.dev('settings', `icrc7_${s} is ${show(x.v)}, expected ${show(st[s])}`);
    }
    for (const [q, x] of [['icrc37_max_approvals_per_token_or_collection', m.maxAppr], ['icrc37_max_revoke_approvals', m.maxRevoke]]) {
      const y = this.q(q); if (y.rej || show(y.v) !== show(x)) this.dev('settings', `${q} is ${show(y)}, expected ${show(x)}`);
    }
  }
  perms() {
    const m = this.m; const who = [...m.perms].find(([, s]) => s.has('ManageAuthorities'))?.[0];
    if (!who) return;
    const q = (method, arg) => this.w.core.query(who, method, arg);
    for (const p of this.w.principals) {
      const want = [...(m.perms.get(p) ?? [])].sort();
      const x = q('get_user_permissions', { principal: p });
      if (x.rej) { this.dev('perms', `get_user_permissions rejected ${who}, who holds ManageAuthorities: ${x.rej.msg}`); continue; }
      const got = x.v.Ok ? x.v.Ok.map((e) => Object.keys(e)[0]).sort() : x.v.Err && Object.keys(x.v.Err)[0] === 'UserNotFound' ? [] : ['?', show(x.v)];
      if (show(got) !== show(want)) this.dev('perms', `permissions of ${p} are ${show(got)}, expected ${show(want)}`);
      for (const perm of PERMS) {
        const y = q('has_permission', { principal: p, permission: { [perm]: null } });
        if (y.rej || y.v.Ok !== want.includes(perm)) this.dev('perms', `has_permission(${p}, ${perm}) is ${show(y)}, expected ${want.includes(perm)}`);
      }
    }
  }
  // Every guarded query is rejected for exactly those who lack the permission.
  guards() {
    const m = this.m;
    for (const p of this.w.principals) for (const [method, perm, ...args] of [['get_user_permissions', 'ManageAuthorities', { principal: ADMIN }], ['has_permission', 'ManageAuthorities', { principal: ADMIN, permission: { Minting: null } }], ['get_all_storage_subcanisters', 'ManageAuthorities'], ['get_upload_status', 'ReadUploads', this.w.paths[0]], ['get_all_uploads', 'ReadUploads', null, null]]) {
      const x = this.w.core.query(p, method, ...args), may = m.has(p, perm);
      if (!may && (!x.rej || x.rej.trapped)) this.dev('guards', `${method} answers ${show(x)} to ${p}, who lacks ${perm}`);
      if (may && x.rej) this.dev('guards', `${method} rejects ${p}, who holds ${perm}: ${x.rej.msg}`);
    }
  }
  // Query limits: exactly the limit is answered, one more is refused; default and maximal take.
  limits() {
    const m = this.m, n = m.maxQuery;
    if (n < 30n || (n < 2000n && (this.lim = (this.lim ?? -1) + 1) % 3 === 0)) {
      this.m.count(n < 30n ? 'query limit met' : 'query limit of 30 or more met');
      for (const [method, mk] of [['icrc7_owner_of', () => 1n], ['icrc7_token_metadata', () => 1n], ['icrc7_balance_of', () => this.w.accounts[0]]]) {
        const at = this.q(method, Array.from({ length: Number(n) }, mk)), over = this.q(method, Array.from({ length: Number(n) + 1 }, mk));
        if (at.rej || at.v.length !== Number(n)) this.dev('limits', `${method} with ${n} entries, the limit, answers ${show(at)}`);
        if (!over.rej) this.dev('limits', `${method} answers ${Number(n) + 1} entries, the limit is ${n}`);
      }
    }
    const ids = this.sortedIds(m.tokens.keys());
    const t = m.maxTake, a = this.q('icrc7_tokens', null, t), b = this.q('icrc7_tokens', null, t + 1n), c = this.q('icrc7_tokens', null, null);
    if (a.rej || show(a.v) !== show(ids.slice(0, Number(t)))) this.dev('limits', `icrc7_tokens with the maximal take ${t} answers ${show(a)}`);
    if (!b.rej) this.dev('limits', `icrc7_tokens answers a take of ${t + 1n}, the limit is ${t}`);
    const d = ids.slice(0, Number(m.defTake)); if (c.rej || show(c.v) !== show(d)) this.dev('limits', `icrc7_tokens without take answers ${show(c)}, expected ${show(d)}`);
    const acc = this.w.accounts.find((x) => m.owned(akey(x)).length);
    if (acc) {
      const own = this.sortedIds(m.owned(akey(acc)));
      const e = this.q('icrc7_tokens_of', acc, null, null), f = this.q('icrc7_tokens_of', acc, null, t + 1n);
      const w = own.slice(0, Number(m.defTake)); if (e.rej || show(e.v) !== show(w)) this.dev('limits', `icrc7_tokens_of without take answers ${show(e)}, expected ${show(w)}`);
      if (!f.rej) this.dev('limits', `icrc7_tokens_of answers a take of ${t + 1n}, the limit is ${t}`);
    }
  }
  // Takes note of the unfinished uploads older than a day that the daily clean-up has dropped.
  collected(except = () => false) {
    const m = this.m, now = this.w.r.now; if (!m.uploads.size) return;
    const rd = [...m.perms].find(([, s]) => s.has('ReadUploads'))?.[0];
    for (const [path, u] of [...m.uploads]) {
      if (u.state === 'Finalized' || u.at + DAY > now || except(path)) continue;
      if (!rd) { u.unsure = true; if (u.gone !== true) u.gone = 'maybe'; continue; } // nobody may look
      const x = this.w.core.query(rd, 'get_upload_status', path);
      if (x.v?.Err && 'UploadNotFound' in x.v.Err) { m.uploads.delete(path); m.count('cleaned-up'); continue; }
      u.unsure = false;
      if (u.gone !== true) u.gone = 'maybe'; // a clean-up may have failed in part
    }
  }
  uploads() {
    const m = this.m, now = this.w.r.now; const rd = [...m.perms].find(([, s]) => s.has('ReadUploads'))?.[0]; if (!rd) return;
    const old = (u) => u && u.state !== 'Finalized' && u.at + DAY <= now;
    for (const path of new Set([...this.w.paths, ...m.uploads.keys()])) {
      const x = this.w.core.query(rd, 'get_upload_status', path); if (x.rej) { this.dev('uploads', `get_upload_status rejected ${rd}, who holds ReadUploads: ${x.rej.msg}`); continue; }
      const u = m.uploads.get(path); const got = x.v.Ok ? Object.keys(x.v.Ok)[0] : Object.keys(x.v.Err ?? { '?': 0 })[0];
      if (old(u) && got === 'UploadNotFound') { m.uploads.delete(path); m.count('cleaned-up'); continue; }
      if (got !== (u?.state ?? 'UploadNotFound')) this.dev('uploads', `get_upload_status(${path}) is ${got}, expected ${u?.state ?? 'UploadNotFound'}`);
      if (old(u) && now - maxN(maxN(u.at + DAY, this.w.restart ?? 0n), this.w.faultEnd ?? 0n) > DAY) this.dev('uploads', `upload ${path} was not cleaned up`);
    }
    const x = this.w.core.query(rd, 'get_all_uploads', null, null);
    const got = x.v?.Ok ? show([...x.v.Ok].map(([k, v]) => [k, Object.keys(v)[0]]).sort((a, b) => (a[0] < b[0] ? -1 : 1))) : show(x);
    const want = show([...m.uploads].map(([k, u]) => [k, u.state]).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
    if (got !== want) this.dev('uploads', `get_all_uploads is ${got}, expected ${want}`);
    const take = 1n + BigInt(m.uploads.size % 3); const all = []; // page by page, each upload once
    for (let at = 0n; at <= BigInt(m.uploads.size); at += take) { const y = this.w.core.query(rd, 'get_all_uploads', at, take); const p = [...(y.v?.Ok ?? [])]; if (BigInt(p.length) > take) this.dev('uploads', `get_all_uploads answered ${p.length} entries for take ${take}`); all.push(...p); }
    const paged = show(all.map(([k, v]) => [k, Object.keys(v)[0]]).sort((a, b) => (a[0] < b[0] ? -1 : 1)));
    if (paged !== want) this.dev('uploads', `the pages of get_all_uploads hold ${paged}, expected ${want}`);
    const far = 1n << (33n + 32n * BigInt(m.uploads.size % 2)); // beyond the machine's integers
    for (const [at, k, e] of [[far, null, 0], [null, far, m.uploads.size]]) { const y = this.w.core.query(rd, 'get_all_uploads', at, k); if (y.v?.Ok?.length !== e) this.dev('uploads', `get_all_uploads from ${at} on, at most ${k}, answers ${show(y).slice(0, 300)}, there are ${m.uploads.size}`); }
  }
  static http(r, id, caller, url, query = true) {
    const arg = encodeCall('http_request', [{ method: 'GET', url, headers: [], body: new Uint8Array(0), certificate_version: 2 }]);
    return query ? out(r.query(id, caller, 'http_request', arg)) : out(r.update(id, caller, 'http_request_update', arg));
  }
  redirects() {
    const m = this.m, { core, r } = this.w;
    const done = new Map(); for (const [p, u] of m.uploads) if (u.state === 'Finalized') done.set(urlOf(p), u);
    for (const url of new Set([...this.w.paths, ...m.uploads.keys()].map(urlOf))) {
      if (!servable(url)) continue;
      const u = done.get(url);
      const x = Observer.http(r, core.id, this.w.caller, url);
      const loc = x.v?.headers.find(([k]) => k.toLowerCase() === 'location')?.[1];
      if (u) {
        const mm = loc?.match(/^https:\/\/([a-z0-9-]+)\.raw\.icp0\.io(\/.*)$/);
        if (x.v?.status_code !== 307 || !mm || mm[2] !== url || !r.get(mm[1]) || mm[1] === core.id) { this.dev('redirects', `${url} is finalized but http_request answers ${show(x.rej ?? [x.v.status_code, loc])}`); continue; }
        if (u.canister && u.canister !== mm[1]) this.dev('redirects', `${url} moved from ${u.canister} to ${mm[1]}`);
        u.canister = mm[1];
      } else if (x.v && (loc || x.v.status_code === 307)) this.dev('redirects', `${url} is not finalized but redirects to ${loc}`);
    }
  }
  // Every answer to a request is certified as clients check it; the canister's own pages are JSON.
  http() {
    const m = this.m, { core, r } = this.w; const c = r.get(core.id); const done = new Set([...m.uploads].filter(([, u]) => u.state === 'Finalized').map(([p]) => urlOf(p)));
    const urls = [...new Set([...this.w.paths, ...m.uploads.keys()].map(urlOf))]; const k = this.hk = (this.hk ?? 0) + 1;
    const reqs = []; for (const [i, u] of [...urls, '/metrics', '/logs', '/traces', '/nothing', '/metrics/', '/index.html'].entries()) {
      const enc = u.replace(/[^\x21-\x7e]|[?#]|%(?=[0-9a-fA-F]{2})/gu, encodeURIComponent);
      reqs.push([u, enc, '']); // and another spelling of the same URL, in turn
      switch ((i + k) % 5) { case 0: reqs.push([u, enc, 'a=1&b']); break; case 1: reqs.push([u, enc.replace(/[a-z]/, (x) => '%' + x.charCodeAt(0).toString(16)), '']); break; case 2: reqs.push([u, 'https://' + core.id + '.icp0.io' + enc, '']); break; case 3: reqs.push([u, enc, '', 'POST']); break; }
    }
    for (const [path, url, query, method = 'GET'] of reqs) {
      const x = out(r.query(core.id, this.w.caller, 'http_request', encodeCall('http_request', [{ method, url: query ? `${url}?${query}` : url, headers: k % 2 ? [['host', 'x.icp0.io'], ['accept-encoding', 'gzip, br']] : [], body: new Uint8Array(0), certificate_version: 2 }])));
      const page = ['/metrics', '/logs', '/traces'].includes(path); const name = `${method} ${url}${query ? '?' + query : ''}`;
      if (x.rej) { if (page || (done.has(path) && method === 'GET')) this.dev('http', `${name} is not answered: ${x.rej.msg}`); continue; }
      m.count(`answer ${x.v.status_code}`);
      const bad = verify({ method, path, query }, x.v, Buffer.from(c.certified)); if (bad) this.dev('http', `${name}: ${bad}`);
      if (page) { try { if (x.v.status_code !== 200) throw new Error(`status ${x.v.status_code}`); JSON.parse(new TextDecoder('utf-8', { fatal: true }).decode(x.v.body)); } catch (e) { this.dev('http', `${name}: ${e.message}`); } }
      else if (done.has(path) && method === 'GET' && x.v.status_code !== 307) this.dev('http', `${name} answers ${x.v.status_code}`);
      else if (!done.has(path) && servable(path) && x.v.status_code >= 300 && x.v.status_code < 400) this.dev('http', `${name} redirects although nothing is stored there`);
    }
  }
  files() { // the stored bytes, read through the redirect
    const m = this.m, { r } = this.w;
    this.redirects();
    for (const [path, u] of m.uploads) {
      if (u.state !== 'Finalized' || !u.canister || !u.data) continue;
      const url = urlOf(path);
      let x = Observer.http(r, u.canister, this.w.caller, url);
      if (x.v?.upgrade) { const y = Observer.http(r, u.canister, this.w.caller, url, false); if (y.rej) { this.dev('files', `${url}: the storage canister does not serve the file: ${y.rej.msg}`); continue; } x = Observer.http(r, u.canister, this.w.caller, url); }
      const whole = u.data.length <= 2_000_000;
      const got = x.v?.body; const want = whole ? u.data : u.data.subarray(0, 2_000_000);
      m.count('files read back');
      if (!got || Buffer.compare(Buffer.from(got), Buffer.from(want))) this.dev('files', `${url}: stored ${u.data.length} bytes, ${got ? got.length + ' bytes come back' : show(x)}`);
    }
  }
  run(views, since) { this.since = since; for (const v of views) this[v](); this.since = []; }

  // Every observable answer, raw. Two snapshots of equal states are equal strings per key.
  static raw(w, opts = {}) {
    const { core, model: m, accounts } = w; const o = {};
    const caller = w.caller; const q = (k, method, ...args) => { const x = core.query(caller, method, ...args); o[k] = x.rej ? 'rej:' + (x.rej.trapped ? 'trap' : x.rej.msg) : show(opts.canon ? opts.canon(method, x.v) : x.v); };
    // Expired approvals may drop out of the listings at any time.
    const appr = (k, method, x) => { const v = core.query(caller, method, x, null, 1000n); o[k] = v.rej ? 'rej' : show(v.v.filter((e) => e.approval_info.expires_at === null || e.approval_info.expires_at > w.r.now)); };
    const ids = []; for (let i = 0n; i <= m.nextId + 1n; i++) ids.push(i);
    const bs = Number(m.maxQuery > 100n ? 100n : m.maxQuery);
    if (bs > 0) {
      chunk(ids, bs).forEach((c, i) => { q(`owner_of#${i}`, 'icrc7_owner_of', c); q(`metadata#${i}`, 'icrc7_token_metadata', c); });
      chunk(accounts, bs).forEach((c, i) => q(`balance_of#${i}`, 'icrc7_balance_of', c));
    }
    q('tokens', 'icrc7_tokens', null, null);
    for (const a of accounts) { q(`tokens_of ${akey(a)}`, 'icrc7_tokens_of', a, null, null); appr(`coll ${akey(a)}`, 'icrc37_get_collection_approvals', a); }
    for (const id of ids) appr(`approvals ${id}`, 'icrc37_get_token_approvals', id);
    const args = []; for (const id of ids) for (const a of w.spenders ?? accounts) args.push({ spender: a, from_subaccount: a.subaccount, token_id: id });
    q('is_approved', 'icrc37_is_approved', args);
    for (const s of ['collection_metadata', 'symbol', 'name', 'description', 'logo', 'total_supply', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift']) q(s, `icrc7_${s}`);
    q('maxappr', 'icrc37_max_approvals_per_token_or_collection'); q('maxrevoke', 'icrc37_max_revoke_approvals');
    const b = Observer.blocks(core, caller, 0n, BigInt(m.log.length + 5));
    o.blocks = b.rej ? 'rej:' + b.rej.msg : show([b.v.log_length, b.v.blocks.map((x) => [x.id, x.block]).sort((x, y) => (x[0] < y[0] ? -1 : 1))]);
    const who = [...m.perms].find(([, s]) => s.has('ManageAuthorities'))?.[0];
    for (const p of w.principals) if (who) { const x = core.query(who, 'get_user_permissions', { principal: p }); o[`perms ${p}`] = x.rej ? 'rej' : show(x.v.Ok ? x.v.Ok.map((e) => Object.keys(e)[0]).sort() : []); }
    const rd = [...m.perms].find(([, s]) => s.has('ReadUploads'))?.[0];
    if (rd) { const x = core.query(rd, 'get_all_uploads', null, 10000n); o.uploads = x.rej ? 'rej' : show(x.v.Ok ? [...x.v.Ok].sort((a, b) => (a[0] < b[0] ? -1 : 1)) : x.v); }
    if (who) { const x = core.query(who, 'get_all_storage_subcanisters'); o.storage = x.rej ? 'rej' : show(Array.isArray(x.v) ? [...x.v].sort() : x.v); }
    for (const path of w.paths) if (rd) { const x = core.query(rd, 'get_upload_status', path); o[`upload ${path}`] = x.rej ? 'rej' : show(x.v); }
    q('archives', 'icrc3_get_archives', null); q('properties', 'icrc3_get_properties', null);
    for (const u of w.urls ?? ['/nothing']) { const x = core.query(caller, 'http_request', { method: 'GET', url: u, headers: [], body: new Uint8Array(0), certificate_version: 2 }); o[`http ${u}`] = x.rej ? 'rej' : show([x.v.status_code, x.v.headers.filter(([k]) => !/certificate/i.test(k)), x.v.body]); }
    q('block types', 'icrc3_supported_block_types', null); q('standards', 'icrc10_supported_standards', null);
    return o;
  }
  static diff(a, b, ignore = () => false) {
    const r = [];
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (a[k] !== b[k] && !ignore(k)) r.push(`${k}: ${String(a[k]).slice(0, 400)} became ${String(b[k]).slice(0, 400)}`);
    return r;
  }
}
