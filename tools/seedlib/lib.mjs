// What the demonstrations share: one ledger on the replica simulation, callers, and checks.
import fs from 'node:fs';
import path from 'node:path';
import { loadModule, Replica } from './ic.mjs';
import { Core, PERMS } from './core.mjs';
import { T, encode, decode, principalText, learn, show } from './candid.mjs';
export { T, encode, decode, show, Replica };
export const P = (n) => principalText(Uint8Array.from([n, 1, 2, 3, 4, 5, 6, 7, 8, 2]));
export const ADMIN = P(1), A = P(2), B = P(3), C = P(4);
export const sub = (n) => { const b = new Uint8Array(32); b[31] = n; return b; };
export const acc = (owner, s) => ({ owner, subaccount: s == null ? null : sub(s) });
export const wasm = (n) => loadModule(fs.readFileSync(path.join(process.cwd(), 'target/wasm32-unknown-unknown/release', n + '.wasm')));
export const all = (p) => [p, PERMS.map((x) => ({ [x]: null }))];
export const MS = 1000000n, SEC = 1000n * MS;
export function start(init = {}) {
  const r = new Replica(); const mod = wasm('core_nft');
  const c = Core.install(r, mod, { permissions: { user_permissions: [all(ADMIN)] }, ...init }, ADMIN);
  if (c.trap !== undefined) throw new Error(`install: ${c.trap}`);
  c.mod = mod;
  c.wait = (ns) => { r.advance(BigInt(ns)); };
  c.mint = (owner, n = 1, meta = []) => { r.advance(SEC); const x = c.update(ADMIN, 'mint', { mint_requests: Array.from({ length: n }, () => ({ token_owner: owner, memo: null, metadata: meta })) }); if (x.v?.Ok === undefined) throw new Error('mint: ' + show(x)); return x.v.Ok; };
  c.xfer = (by, to, id, o = {}) => { r.advance(SEC); const x = c.update(by, 'icrc7_transfer', [{ to, token_id: id, memo: null, from_subaccount: null, created_at_time: null, ...o }]); return x.v?.[0] ?? x; };
  c.info = (spender, o = {}) => ({ spender, from_subaccount: null, expires_at: null, memo: null, created_at_time: r.now, ...o });
  c.approve = (by, id, spender, o) => { r.advance(SEC); const x = c.update(by, 'icrc37_approve_tokens', [{ token_id: id, approval_info: c.info(spender, o) }]); return x.v?.Ok?.[0] ?? x; };
  c.approveColl = (by, spender, o) => { r.advance(SEC); const x = c.update(by, 'icrc37_approve_collection', [{ approval_info: c.info(spender, o) }]); return x.v?.Ok?.[0] ?? x; };
  c.xferFrom = (by, from, to, id, o = {}) => { r.advance(SEC); const x = c.update(by, 'icrc37_transfer_from', [{ spender_subaccount: null, from, to, token_id: id, memo: null, created_at_time: null, ...o }]); return x.v?.Ok?.[0] ?? x; };
  c.q = (m, ...a) => { const x = c.query(ADMIN, m, ...a); if (x.rej) throw new Error(`${m}: ${x.rej.msg}`); return x.v; };
  c.up = () => { const x = c.upgrade(mod, ADMIN); if (x.trap !== undefined) throw new Error(`upgrade: ${x.trap}`); };
  return c;
}
let failed = 0;
export function check(ok, what) { if (!ok) { failed++; console.log('FAILED: ' + what); } else console.log('ok: ' + what); }
export const same = (a, b, what) => check(show(a) === show(b), `${what}: ${show(a)}${show(a) === show(b) ? '' : ', expected ' + show(b)}`);
export const ok = (x, what) => check(x?.Ok !== undefined, `${what}: ${show(x)}`);
export const err = (x, kind, what) => check(x?.Err !== undefined && (kind === null || Object.keys(x.Err)[0] === kind), `${what}: ${show(x)}`);
export const done = () => process.exit(failed ? 1 : 0);
