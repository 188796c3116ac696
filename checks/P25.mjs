// The command line tool, run whole against the simulated ledger. Oracles: the documented call made directly
// on a copy of the ledger (same answer, same state afterwards), the bytes that are then served, the JSON
// rules written down here, and for the files it writes the metadata that was asked for.
import crypto from 'node:crypto'; import path from 'node:path'; import { execFileSync } from 'node:child_process'; import { fileURLToPath } from 'node:url';
import { historyProperty } from '../engine/history.mjs';
import { Observer } from '../engine/observe.mjs';
import { raw, FEW, apart } from '../engine/batch.mjs';
import { runCli } from '../engine/cli.mjs';
import { ADMIN, ANON, P, hex } from '../engine/util.mjs';
import { USERS, PRINCIPALS } from '../engine/gen.mjs';
import { urlOf, servable } from '../engine/model.mjs';
import { PERMS, SIG, out } from '../sim/core.mjs';
import { decode, show } from '../sim/candid.mjs';

const V = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const bad = (w, cmd, msg) => w.model.devs.push({ kind: 'cli', m: cmd, causes: [], got: '', msg });
const sha = (b) => crypto.createHash('sha256').update(b).digest('hex');
const clip = (s, n = 300) => String(s).replace(/\s+/g, ' ').slice(0, n);
const words = (p) => p.replace(/([a-z])([A-Z])/g, '$1 $2').toLowerCase().split(' ');
const SPELL = new Map(PERMS.flatMap((p) => ['', '_', '-'].map((s) => [words(p).join(s), p])));
const PRINCIPAL = new Set(PRINCIPALS);

// ---------------------------------------------------------------- what is asked for
// A number as the tool may read it from text; null when it is text.
const number = (s) => (/^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$/.test(s) && Number.isFinite(Number(s)) ? Number(s) : null);
const attrValue = (s) => number(s) ?? s;
function entryValue(s) { // -m key:value
  if (/^\+?\d+$/.test(s) && BigInt(s) < 1n << 64n) return { Nat: BigInt(s) };
  if (/^-\d+$/.test(s) && BigInt(s) >= -(1n << 63n)) return { Int: BigInt(s) };
  return { Text: s };
}
const TYPED = { 1: (s) => ({ Text: s }), 2: (s) => (/^\+?\d+$/.test(s) && BigInt(s) < 1n << 64n ? { Nat: BigInt(s) } : null), 3: (s) => (/^[+-]?\d+$/.test(s) && BigInt(s) < 1n << 63n && BigInt(s) >= -(1n << 63n) ? { Int: BigInt(s) } : null),
  4: (s) => (/^([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$/.test(s) ? { Blob: Uint8Array.from(Buffer.from(s, 'base64')) } : null) };
// The rules of a metadata file.
function validMeta(v) {
  if (v === null || typeof v !== 'object' || Array.isArray(v)) return false;
  for (const k of ['name', 'description', 'image', 'external_url']) if (k in v && typeof v[k] !== 'string') return false;
  if (!('attributes' in v)) return true;
  return Array.isArray(v.attributes) && v.attributes.every((a) => a !== null && typeof a === 'object' && !Array.isArray(a) && typeof a.trait_type === 'string' && 'value' in a && (!('display_type' in a) || typeof a.display_type === 'string'));
}
const sorted = (v) => (v === null || typeof v !== 'object' ? v : Array.isArray(v) ? v.map(sorted) : Object.fromEntries(Object.keys(v).sort().map((k) => [k, sorted(v[k])])));
const same = (a, b) => JSON.stringify(sorted(a)) === JSON.stringify(sorted(b));
// The metadata file asked for by a create-metadata command, or null when it is to be refused.
function wanted(c) {
  if (c.name === null && c.description === null && !c.interactive) return null; // nothing given, nothing typed
  if (c.name === null || c.description === null || (c.interactive && (c.name.trim() === '' || c.description.trim() === ''))) return null;
  const o = { name: c.name, description: c.description };
  if (c.image !== null) o.image = c.image; if (c.external !== null) o.external_url = c.external;
  if (!c.interactive && c.attrs.some((a) => a.value === null)) return null;
  if (c.attrs.length) o.attributes = c.attrs.map((a) => ({ trait_type: a.trait, value: attrValue(a.value), ...(a.display !== null ? { display_type: a.display } : {}) }));
  return o;
}
const NUMERIC = ['number', 'boost_number', 'boost_percentage', 'date'];
function typedMeta(c) { // what is typed at the prompts for the metadata of a file
  const L = [c.name ?? '']; if (!L[0].trim()) return L.join('\n') + '\n';
  L.push(c.description ?? ''); if (!L[1].trim()) return L.join('\n') + '\n';
  L.push(c.image ?? '', c.external ?? '', c.attrs.length ? 'y' : 'n');
  c.attrs.forEach((a, i) => {
    L.push(a.trait, a.value);
    if (number(a.value) !== null) L.push(a.display === null ? '5' : String(NUMERIC.indexOf(a.display) + 1)); else if (a.display === null) L.push('1'); else L.push('2', a.display);
    L.push(i + 1 < c.attrs.length ? 'yes' : 'N');
  });
  return L.join('\n') + '\n';
}
function typedEntries(c) { const L = []; c.typed.forEach((e, i) => L.push(e.key, String(e.type), ...(TYPED[e.type] ? [e.text] : [e.text]), i + 1 < c.typed.length ? 'y' : 'no')); if (!c.typed.length) L.push(''); return L.join('\n') + '\n'; }
const typedValues = (c) => { const o = []; for (const e of c.typed) { const v = (TYPED[e.type] ?? TYPED[1])(e.text); if (v === null) return null; o.push([e.key, v]); } return o; };
const isHex32 = (s) => /^[0-9a-fA-F]{64}$/.test(s);

// ---------------------------------------------------------------- a command: arguments, files, what is typed
function argvOf(w, c) {
  const a = ['-n', c.network, '-i', 'id.pem', '-c', c.canister ?? w.core.id]; const opt = (n, v) => { if (v !== null && v !== undefined) a.push(`--${n}=${v}`); };
  switch (c.cmd) {
    case 'grant': case 'revoke': case 'has': case 'list': a.push('permissions', c.cmd); opt('principal', c.who); if (c.cmd !== 'list') opt('permission', c.perm); break;
    case 'mint': a.push('mint'); opt('owner', c.owner); opt('name', c.name); opt('memo', c.memo); opt('subaccount', c.sub); opt('icrc97_url', c.url); if (c.typed) a.push('--interactive'); for (const [k, v] of c.entries ?? []) a.push(`--metadata=${v === null ? k : `${k}:${v}`}`); break;
    case 'create-metadata': a.push('create-metadata', '--output=out.json'); if (c.interactive) a.push('--interactive'); else { opt('name', c.name); opt('description', c.description); opt('image', c.image); opt('external_url', c.external); for (const x of c.attrs) a.push(`--attribute=${x.trait}${x.value === null ? '' : `:${x.value}`}${x.display !== null && x.value !== null ? `:${x.display}` : ''}`); } break;
    case 'validate-metadata': a.push('validate-metadata', 'meta.json'); break;
    case 'upload-metadata': a.push('upload-metadata', 'meta.json'); opt('chunk_size', c.chunk); break;
    case 'upload-file': a.push('upload-file', c.missing ? 'nothing.bin' : 'file.bin', c.dest); opt('chunk_size', c.chunk); break;
  }
  return a;
}
// The calls the command stands for: [{kind, m, args}], or null when it is to be refused before any.
function callsOf(c) {
  const perm = c.perm === undefined ? undefined : SPELL.get(c.perm.toLowerCase());
  if (['grant', 'revoke', 'has', 'list'].includes(c.cmd)) {
    if (!PRINCIPAL.has(c.who) || (c.cmd !== 'list' && !perm)) return null;
    const a = { principal: c.who }; if (c.cmd !== 'list') a.permission = { [perm]: null };
    return [{ kind: ['grant', 'revoke'].includes(c.cmd) ? 'update' : 'query', m: { grant: 'grant_permission', revoke: 'revoke_permission', has: 'has_permission', list: 'get_user_permissions' }[c.cmd], args: [a] }];
  }
  if (c.cmd === 'mint') {
    if (!PRINCIPAL.has(c.owner) || (c.sub !== null && !isHex32(c.sub)) || (c.entries ?? []).some(([, v]) => v === null)) return null;
    const metadata = c.url !== null ? [['icrc97:metadata', { Array: [{ Text: c.url }] }]] : c.typed ? typedValues(c) : c.entries.map(([k, v]) => [k, entryValue(v)]); if (!metadata) return null;
    return [{ kind: 'update', m: 'mint', args: [{ mint_requests: [{ token_owner: { owner: c.owner, subaccount: c.sub === null ? null : Uint8Array.from(Buffer.from(c.sub, 'hex')) }, memo: c.memo === null ? null : Uint8Array.from(Buffer.from(c.memo)), metadata }] }] }];
  }
  if (c.cmd === 'upload-file' || c.cmd === 'upload-metadata') {
    if (c.missing || c.chunk === 0n) return null;
    const data = c.cmd === 'upload-file' ? c.data : Buffer.from(c.text); if (c.cmd === 'upload-metadata' && !c.valid) return null;
    const file_path = destOf(c), size = Number(c.chunk ?? 1048576n); const L = [{ kind: 'update', m: 'init_upload', args: [{ file_path, file_hash: sha(data), file_size: BigInt(data.length), chunk_size: BigInt(size) }] }];
    for (let i = 0; i * size < data.length; i++) L.push({ kind: 'update', m: 'store_chunk', args: [{ file_path, chunk_id: BigInt(i), chunk_data: Uint8Array.from(data.subarray(i * size, i * size + size)) }] });
    return [...L, { kind: 'update', m: 'finalize_upload', args: [{ file_path }] }];
  }
  return [];
}
const destOf = (c) => (c.cmd === 'upload-file' ? c.dest : `/${sha(Buffer.from(c.text))}.json`);
const isUpload = (c) => c.cmd.startsWith('upload');
const succeeds = (x) => !x.rej && (x.v === null || typeof x.v !== 'object' || !('Err' in x.v));
const UPLOAD_KEYS = /^(uploads|upload |storage|http )/;

// ---------------------------------------------------------------- one command
function ext(w, op) {
  const [c] = op.args; const { r, core, model } = w; const by = c.by;
  const count = (k) => model.count(k);
  const dest = isUpload(c) ? destOf(c) : null; 
  if (dest !== null && !w.paths.includes(dest)) w.paths.push(dest);
  const away = c.canister !== undefined; const calls = away ? [] : callsOf(c); const reaches = calls !== null && calls.length > 0;
  // the calls made directly, on a copy
  let ref = null;
  const before = calls === null || reaches || away ? raw(w) : null;
  if (reaches) ref = apart(w, () => { let last = null; for (const x of calls) {
    last = x.kind === 'update' ? core.update(by, x.m, ...x.args) : core.query(by, x.m, ...x.args);
    // an interrupted upload of the path gives way
    if (x.m === 'init_upload' && last.v?.Err && 'FileAlreadyExists' in last.v.Err && succeeds(core.update(by, 'cancel_upload', { file_path: dest }))) { count('uploads begun anew'); last = core.update(by, x.m, ...x.args); }
    if (!succeeds(last)) break;
  } return { last, ok: succeeds(last), after: r.snapshot() }; });
  // the command
  let n = 0, hit = null; const made = [];
  const x = runCli({ argv: argvOf(w, c), files: { 'id.pem': `${by}\n`, ...(c.data && !c.missing ? { 'file.bin': c.data } : {}), ...(c.text !== undefined && !c.missing ? { 'meta.json': c.text } : {}), ...(c.old ? { 'out.json': '{"old": true}' } : {}) }, stdin: c.interactive ? typedMeta(c) : c.typed ? typedEntries(c) : '' }, (q) => {
    made.push(q.method); const f = c.fault && n++ === c.fault.k; if (f) hit = c.fault.when;
    if (f && c.fault.when === 'before') return { err: 'injected: the call did not get through' };
    if (q.canister !== core.id) return { err: `no canister ${q.canister}` };
    if (q.caller !== by) bad(w, c.cmd, `${q.method} is called by ${q.caller}, the identity is ${by}`);
    const res = r[q.kind](core.id, q.caller, q.method, q.arg);
    if (q.kind === 'update' && SIG[q.method]) { let args = null; try { args = decode(q.arg); } catch { /* the ledger has refused it */ } if (args) w.trace.push(`${q.method} ${model.step(r.now, q.caller, q.method, args, out(res))}`); }
    if (f) return { err: 'injected: the reply was lost' };
    return res.ok ? { ok: res.ok } : { err: res.msg };
  });
  const what = `${c.cmd} (${clip(argvOf(w, c).slice(6).map((s) => JSON.stringify(s)).join(' '), 400)}${c.typed || c.interactive ? ` typing ${JSON.stringify(c.typed ? typedEntries(c) : typedMeta(c))}` : ''})`;
  const said = `${clip(x.err, 200)} ${clip(x.out, 200)}`;
  if (x.code > 100) { bad(w, c.cmd, `${what} ends with status ${x.code}: ${said}`); return 'dies'; }
  const ok = x.code === 0; count(`${c.cmd}:${ok ? 'done' : 'refused'}`);
  const unchanged = (why) => { const a = raw(w); for (const d of Observer.diff(before, a).slice(0, 1)) bad(w, c.cmd, `${what} ${why}, and changed ${d}`); };
  if (hit) { // a lost call is never a success
    count(`fault ${hit}`);
    if (ok) bad(w, c.cmd, `${what} reports success although ${made[c.fault.k]} failed`);
    if (hit === 'before' && !isUpload(c)) unchanged('got no call through');
    return 'fault';
  }
  if (away) { if (ok && made.length) bad(w, c.cmd, `${what} for canister ${c.canister} succeeds`); unchanged('for another canister'); return 'elsewhere'; }
  if (calls === null) {
    if (ok) bad(w, c.cmd, `${what} is not refused: ${said}`);
    unchanged('is to be refused'); return 'refused';
  }
  if (c.cmd === 'validate-metadata') { if (ok !== c.valid) bad(w, c.cmd, `${what} ${ok ? 'accepts' : 'refuses'} ${clip(c.text, 500)}: ${said}`); if (made.length) bad(w, c.cmd, `${what} calls ${made}`); return ok ? 'ok' : 'no'; }
  if (c.cmd === 'create-metadata') {
    const want = wanted(c), got = x.files['out.json']?.toString();
    if (made.length) bad(w, c.cmd, `${what} calls ${made}`);
    if (want === null) { if (ok) bad(w, c.cmd, `${what} is not refused: ${said}`); if (got !== (c.old ? '{"old": true}' : undefined)) bad(w, c.cmd, `${what} is refused and writes ${clip(got)}`); return 'no'; }
    if (!ok) { bad(w, c.cmd, `${what} is refused: ${said}`); return 'no'; }
    let v; try { v = JSON.parse(got); } catch (e) { bad(w, c.cmd, `${what} writes ${clip(got)}: ${e.message}`); return 'bad'; }
    if (!same(v, want)) bad(w, c.cmd, `${what} writes ${clip(JSON.stringify(v), 600)}, asked for was ${clip(JSON.stringify(want), 600)}`);
    for (const a of c.attrs) if (/^-?\d{16,20}$/.test(a.value) && BigInt(a.value) < 1n << 64n && BigInt(a.value) >= -(1n << 63n) && !got.includes(BigInt(a.value).toString())) bad(w, c.cmd, `${what} writes ${clip(got, 600)}, without the number ${a.value}`);
    return 'ok';
  }
  if (ref) {
    if (ok !== ref.ok) bad(w, c.cmd, `${what} by ${by.slice(0, 5)} ${ok ? 'succeeds' : 'fails'}, the call made directly answers ${clip(show(ref.last))}: ${said}`);
    else for (const d of Observer.diff(apart(w, () => { r.restore(ref.after); return raw(w); }), raw(w), (k) => !ok && isUpload(c) && UPLOAD_KEYS.test(k)).slice(0, 1)) bad(w, c.cmd, `${what} and the call made directly leave different states (direct, then the tool): ${d}`);
  }
  if (!ok) return 'no';
  count('effects compared');
  if (c.cmd === 'has' && ref && x.out.trim() !== String(ref.last.v.Ok)) bad(w, c.cmd, `${what} prints ${clip(x.out)}, the answer is ${ref.last.v.Ok}`);
  if (c.cmd === 'list' && ref) { const got = x.out.split('\n').filter((l) => /^\s*-\s/.test(l)).map((l) => SPELL.get(l.replace(/^\s*-\s*/, '').trim().toLowerCase()) ?? l).sort(), want = ref.last.v.Ok.map((p) => Object.keys(p)[0]).sort(); if (show(got) !== show(want)) bad(w, c.cmd, `${what} prints ${clip(x.out)}, held are ${want}`); }
  if (c.cmd === 'mint' && ref && !x.out.match(new RegExp(`(^|\\D)${ref.last.v.Ok}\\D*$`))) bad(w, c.cmd, `${what} prints ${clip(x.out)}, the token is ${ref.last.v.Ok}`);
  if (isUpload(c)) {
    const data = c.cmd === 'upload-file' ? c.data : Buffer.from(c.text);
    if (servable(urlOf(dest))) {
      const h = Observer.http(r, core.id, w.caller, urlOf(dest)); const loc = h.v?.headers.find(([k]) => k.toLowerCase() === 'location')?.[1];
      const id = loc?.match(/^https:\/\/([a-z0-9-]+)\./)?.[1]; let y = id && r.get(id) ? Observer.http(r, id, w.caller, urlOf(dest)) : null;
      if (y?.v?.upgrade) { Observer.http(r, id, w.caller, urlOf(dest), false); y = Observer.http(r, id, w.caller, urlOf(dest)); }
      const got = y?.v?.body; count('files read back');
      if (!got || Buffer.compare(Buffer.from(got), Buffer.from(data))) bad(w, c.cmd, `${what} reports success, ${data.length} bytes were given, ${urlOf(dest)} serves ${got ? `${got.length} bytes` : show(h).slice(0, 200)}`);
      const url = x.out.match(/https?:\/\/\S+/g)?.pop(); let u = null; try { u = new URL(url); } catch { /* none */ }
      const at = loc && new URL(loc); if (!u || !at || (u.host !== at.host && u.host !== at.host.replace(id, core.id)) || u.pathname !== at.pathname) bad(w, c.cmd, `${what} prints ${clip(x.out)}, the file is at ${loc}`);
    }
  }
  return 'ok';
}

// ---------------------------------------------------------------- generator
const TEXTS = ['a', 'My NFT', 'ünï✓', 'x y  z', '"quoted"', "it's", '-5', '--name', '$HOME', '{}', 'a,b', 'a\\nb', '100%'];
const VALUES = ['95', '0', '-3', '1.5', '-0.25', '1e3', 'Fire', 'Legendary', 'ünï✓', 'nan', 'inf', 'infinity', 'NaN', '1e999', '0x10', '1_000', '9007199254740993', '-9223372036854775808', '18446744073709551615', '12345678901234567', 'true', 'null', 'two words', '"', '1.'];
const ENTRY = [...VALUES, 'https://z64rk-hiaaa-aaaaa-qallq-cai.raw.icp0.io/origynlogo.png', 'a:b:c', ':', '', '18446744073709551616', '-9223372036854775809', '9223372036854775808', '-0', '12:30', ' 12', '12 ', '\t7', ' -3', ' ', 'x ', '+5', '007', '-007', '--5', '1,000', '１２'];
const NAT = ['0', '7', '18446744073709551615', '18446744073709551616', '-1', 'x', '', '1.5'];
function meta(r) { // a metadata file, mostly valid
  const v = () => r.pick([0, -1.5, 'text', '', true, null, [], {}, 1e21]); const str = () => r.pick([...TEXTS, '']);
  const o = {}; for (const k of ['name', 'description', 'image', 'external_url']) if (r.p(0.7)) o[k] = str();
  if (r.p(0.6)) o.attributes = Array.from({ length: r.int(0, 3) }, () => ({ trait_type: str(), value: v(), ...(r.p(0.4) ? { display_type: str() } : {}) }));
  if (r.p(0.3)) o[r.pick(['other', 'Name', 'attribute', 'trait_type'])] = v();
  if (r.p(0.5)) return o;
  const notStr = () => r.pick([1, null, [], {}, false, ['a']]); // one thing wrong, or something near it
  const at = () => { if (!Array.isArray(o.attributes) || !o.attributes.length) o.attributes = [{ trait_type: 'a', value: 1 }, { trait_type: 'b', value: 'c', display_type: 'd' }]; return r.pick(o.attributes); };
  return r.w([[4, () => { o[r.pick(['name', 'description', 'image', 'external_url'])] = notStr(); return o; }], [2, () => { o.attributes = r.pick([{}, 'x', null, 3, false]); return o; }], [1, () => { at(); o.attributes[r.int(0, o.attributes.length - 1)] = r.pick([1, 'x', null, []]); return o; }],
    [1.5, () => { delete at().trait_type; return o; }], [1.5, () => { at().trait_type = notStr(); return o; }], [1.5, () => { delete at().value; return o; }], [1.5, () => { at().display_type = notStr(); return o; }], [1, () => r.pick([[], null, 'x', 3, [{ name: 'a' }]])]])();
}
function metaText(r) {
  const o = meta(r); const text = JSON.stringify(o, null, r.pick([undefined, 1, 2, '\t'])); const valid = validMeta(o);
  if (r.p(0.06)) return { text: r.pick([text.slice(0, -1), `${text} x`, '', "{'name': 'a'}", '{"name": "a",}', 'name: a']), valid: false };
  return { text: r.p(0.1) ? `\n ${text}\n` : text, valid };
}
function command(r, w) {
  const m = w.model; const holder = (p) => { const hs = [...m.perms].filter(([, s]) => s.has(p)).map(([x]) => x).filter((x) => x !== ANON); return hs.length && r.p(0.85) ? r.pick(hs) : r.pick([ADMIN, ...USERS]); };
  const who = () => (r.p(0.93) ? r.pick(PRINCIPALS) : r.pick(['', 'aaaaa', 'xyz', `${P(2)}a`, P(2).slice(0, -1), P(3).replace(/[a-z]/, (x) => (x === 'a' ? 'b' : 'a')), 'principal "aaaaa-aa"', ' ']));
  const spell = () => { if (r.p(0.07)) return r.pick(['', 'mint', 'minting ', 'update metadata', 'all', 'Minter', 'manage__authorities', 'update_upload', 'manage.authorities']); const s = words(r.pick(PERMS)).join(r.pick(['', '_', '-'])); return r.pick([s, s, s.toUpperCase(), s.replace(/(^|[_-])[a-z]/g, (x) => x.toUpperCase())]); };
  const cmd = r.w([[3, 'grant'], [2.2, 'revoke'], [1.6, 'has'], [1.6, 'list'], [4, 'mint'], [3, 'create-metadata'], [2, 'validate-metadata'], [2, 'upload-metadata'], [4, 'upload-file']]);
  const c = { cmd, network: r.pick(['local', 'ic']), by: ADMIN };
  const chunk = (n) => r.w([[3, null], [5, BigInt(Math.max(1, Math.ceil(n / r.int(1, 9))))], [1, BigInt(Math.max(1, n))], [1, BigInt(n + 1)], [0.4, 0n], [0.3, 1048577n], [0.3, 2_500_000n]]);
  switch (cmd) {
    case 'grant': case 'revoke': case 'has': case 'list': c.by = holder('ManageAuthorities'); c.who = who(); if (cmd !== 'list') c.perm = spell(); if (cmd === 'revoke' && r.p(0.6)) { const [p, s] = r.pick([...m.perms]); if (s.size) { c.who = p; c.perm = words(r.pick([...s])).join(r.pick(['', '_', '-'])); } } if (cmd === 'revoke' && c.who === ADMIN && SPELL.get(c.perm.toLowerCase()) === 'ManageAuthorities' && r.p(0.9)) c.who = P(4); break;
    case 'mint': c.by = holder('Minting'); c.owner = who(); c.name = r.pick(TEXTS); c.memo = r.w([[5, null], [3, r.pick(TEXTS)], [1, ''], [1, 'm'.repeat(r.pick([31, 32, 33, 40]))]]); c.sub = r.w([[5, null], [3, hex(r.pick([new Uint8Array(32), new Uint8Array(32).fill(255), r.bytes(32)]))], [0.5, hex(r.bytes(32)).toUpperCase()], [0.6, r.pick(['', '00', hex(r.bytes(31)), hex(r.bytes(33)), `0x${hex(r.bytes(31))}`, `${hex(r.bytes(31))}zz`, hex(r.bytes(32)).slice(1)])]]);
      c.url = r.p(0.3) ? r.pick(['https://a.raw.icp0.io/abc123.json', 'https://x.y/z?a=b:c#d', 'not a url', '']) : null; c.entries = [];
      if (c.url === null && r.p(0.3)) c.typed = Array.from({ length: r.int(0, 3) }, () => { const type = r.w([[3, 1], [2, 2], [2, 3], [2, 4], [0.5, 9]]); return { key: r.pick(['a', 'name', 'ünï', 'two words']), type, text: type === 2 ? r.pick(r.p(0.8) ? NAT.slice(0, 3) : NAT) : type === 3 ? r.pick(r.p(0.8) ? ['0', '-5', '9223372036854775807', '-9223372036854775808'] : [...NAT, '9223372036854775808']) : type === 4 ? r.pick(r.p(0.8) ? [Buffer.from(r.bytes(r.int(0, 9))).toString('base64')] : ['*', 'a', 'YQ']) : r.pick(TEXTS.concat(['', 'a:b'])) }; });
      else if (c.url === null) c.entries = Array.from({ length: r.int(0, 4) }, () => [r.pick(['description', 'image', 'rarity', 'power', 'a', '', 'ünï', 'k k']), r.pick(ENTRY)]);
      if (c.entries.length && r.p(0.06)) r.pick(c.entries)[1] = null; break;
    case 'create-metadata': { c.interactive = r.p(0.4); c.old = r.p(0.2); const t = () => r.pick(TEXTS); c.name = r.p(0.93) ? t() : c.interactive ? '' : null; c.description = r.p(0.93) ? t() : c.interactive ? '' : null; c.image = r.p(0.5) ? r.pick(['https://a.b/c.png?x=1', 'x']) : null; c.external = r.p(0.4) ? 'https://e.f:8080/' : null;
      c.attrs = Array.from({ length: r.int(0, 3) }, () => { const value = r.pick(VALUES); return { trait: r.pick(['Rarity', 'Power', 'ünï', 'a b']), value, display: r.p(0.5) ? (number(value) !== null ? r.pick(NUMERIC) : r.pick(['boost_number', 'custom', 'ünï'])) : null }; });
      if (!c.interactive && c.attrs.length && r.p(0.06)) r.pick(c.attrs).value = null; break; }
    case 'validate-metadata': Object.assign(c, metaText(r)); break;
    case 'upload-metadata': Object.assign(c, metaText(r)); c.by = holder('UpdateUploads'); c.chunk = chunk(Buffer.byteLength(c.text)); break;
    case 'upload-file': { c.by = holder('UpdateUploads'); const n = r.w([[6, r.int(1, 60)], [1, 0], [1, r.int(1000, 5000)], [0.25, r.pick([1048576, 1048577, 1300000])]]); c.data = r.bytes(n); c.chunk = n > 100000 ? r.pick([null, 1048576n, 400000n]) : chunk(n); c.dest = r.w([[5, r.pick(w.paths.slice(0, 4))], [5, `/f${r.int(0, 30)}.bin`], [1, r.pick(['images/photo.jpg', 'origynlogo.png', '/a/b/c.tar.gz'])]]); if (r.p(0.04)) c.missing = true; break; }
  }
  if (r.p(0.1)) c.fault = { k: isUpload(c) ? r.int(0, 6) : 0, when: r.pick(['before', 'after']) };
  else if (r.p(0.04)) c.canister = r.pick(['aaaaa-aa', '', 'not-a-canister', P(7)]);
  return c;
}

const sum = (s, p) => Object.keys(s).filter((k) => p(k)).reduce((a, k) => a + s[k], 0);
export default historyProperty({
  id: 'P25', cases: { quick: 400, thorough: 6000 }, len: [8, 18],
  rule: 'A case is one generated history of commands given to the tool, with ledger calls, upgrades and failing calls between them. Non-trivial: at least three commands took effect and were compared with the call made directly, and at least one was refused; distinct by the sequence of commands and outcomes.',
  profile: { ops: { mint: 0.6, grant_permission: 1.5, revoke_permission: 0.5, init_upload: 1.2, store_chunk: 1.5, finalize_upload: 0.4, cancel_upload: 0.3, update_collection_metadata: 0.2, upgrade: 0.4 }, initPerm: 0.4, setting: { supply_cap: 0.05, max_memo_size: 0.2, max_update_batch_size: 0.1 } },
  world: { accounts: FEW, spenders: FEW.slice(0, 2) },
  init(gen) { return gen.init(); },
  opgen(op, rng, w) { return rng.p(0.75) ? { dt: rng.p(0.7) ? w.model.window + 130_000_000n : 50_000_000n, x: 'cli', args: [command(rng, w)] } : op; },
  load(REPO) { if (!process.env.VP_CLI_BIN) { execFileSync(path.join(V, 'bin/build-cli.sh'), { stdio: ['ignore', 'inherit', 'inherit'], env: { ...process.env, REPO } }); process.env.VP_CLI_BIN = path.join(V, 'build/t3/debug/cli'); } return {}; },
  views: [],
  hooks(w) { w.paths = [...w.paths]; w.ext = (op) => ext(w, op); return {}; },
  owns: (d) => d.kind === 'cli',
  nontrivial: (s) => (s['effects compared'] ?? 0) >= 3 && sum(s, (k) => k.endsWith(':refused')) > 0,
});
