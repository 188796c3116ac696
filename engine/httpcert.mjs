// What a client (gateway or service worker) checks of a certified HTTP answer, version 2: the tree hashes to
// the canister's certified data, and holds the expression, request and response hashes under the path named.
import crypto from 'node:crypto';
const sha = (...bs) => { const h = crypto.createHash('sha256'); for (const b of bs) h.update(b); return h.digest(); };
const cbor = (buf) => {
  let p = 0;
  const item = () => {
    if (p >= buf.length) throw new Error('CBOR ends early');
    const b = buf[p++], major = b >> 5; let n = b & 31;
    if (n === 24) { n = buf[p++]; } else if (n === 25) { n = buf.readUInt16BE(p); p += 2; } else if (n === 26) { n = buf.readUInt32BE(p); p += 4; } else if (n === 27) { n = Number(buf.readBigUInt64BE(p)); p += 8; } else if (n > 27) throw new Error('CBOR of indefinite length');
    if (major === 0) return n;
    if (major === 2 || major === 3) { const s = buf.subarray(p, p + n); if (s.length !== n) throw new Error('CBOR ends early'); p += n; return major === 2 ? s : s.toString('utf8'); }
    if (major === 4) { const xs = []; for (let i = 0; i < n; i++) xs.push(item()); return xs; }
    if (major === 6) return item();
    throw new Error(`CBOR major type ${major}`);
  };
  const v = item(); if (p !== buf.length) throw new Error('bytes after the CBOR item'); return v;
};
const dom = (s) => Buffer.concat([Buffer.from([s.length]), Buffer.from(s)]);
const root = (t) => {
  switch (t[0]) {
    case 0: return sha(dom('ic-hashtree-empty'));
    case 1: return sha(dom('ic-hashtree-fork'), root(t[1]), root(t[2]));
    case 2: return sha(dom('ic-hashtree-labeled'), t[1], root(t[2]));
    case 3: return sha(dom('ic-hashtree-leaf'), t[1]);
    case 4: return t[1];
    default: throw new Error(`hash tree node ${t[0]}`);
  }
};
const find = (t, path) => {
  if (!path.length) return t;
  if (t[0] === 1) return find(t[1], path) ?? find(t[2], path);
  if (t[0] === 2 && Buffer.compare(t[1], path[0]) === 0) return find(t[2], path.slice(1));
  return null;
};
const rih = (pairs) => sha(...pairs.map(([k, v]) => Buffer.concat([sha(Buffer.from(k)), typeof v === 'number' ? sha(leb(v)) : sha(Buffer.from(v))])).sort(Buffer.compare));
const leb = (n) => { const o = []; do { let b = n & 127; n >>>= 7; if (n) b |= 128; o.push(b); } while (n); return Buffer.from(o); };
const list = (expr, name) => { const m = expr.match(new RegExp(`${name}\\s*:\\s*(?:ResponseHeaderList\\s*{\\s*headers\\s*:\\s*)?\\[([^\\]]*)\\]`)); return m ? m[1].split(',').map((s) => s.trim().replace(/^"|"$/g, '').toLowerCase()).filter(Boolean) : null; };
export const segments = (path) => path.slice(1).split('/');
// null when valid, else what is wrong. path: the decoded request path. wildcards count as naming the path.
export function verify({ method = 'GET', path, query = '' }, resp, certified) {
  const get = (n) => resp.headers.filter(([k]) => k.toLowerCase() === n).map(([, v]) => v);
  const [h, ...more] = get('ic-certificate'); if (!h || more.length) return `${1 + more.length - (h ? 0 : 1)} IC-Certificate headers`;
  const f = Object.fromEntries(h.split(',').map((s) => { const i = s.indexOf('='); return [s.slice(0, i).trim(), s.slice(i + 1).trim()]; }));
  const bin = (k) => { const m = f[k]?.match(/^:([A-Za-z0-9+/=]*):$/); if (!m) throw new Error(`no field ${k}`); return Buffer.from(m[1], 'base64'); };
  try {
    if (f.version !== '2') return `certificate version ${f.version}`;
    const cert = bin('certificate'); if (Buffer.compare(cert, Buffer.concat([Buffer.from('VPCERT'), certified]))) return 'the certificate is not the one of the canister';
    const tree = cbor(bin('tree')); const hash = root(tree);
    if (Buffer.compare(hash, certified)) return `the tree hashes to ${hash.toString('hex').slice(0, 12)}…, certified is ${Buffer.from(certified).toString('hex').slice(0, 12)}…`;
    const ep = cbor(bin('expr_path')); const segs = segments(path);
    if (ep[0] !== 'http_expr') return `expression path ${JSON.stringify(ep)}`;
    const last = ep[ep.length - 1], mid = ep.slice(1, -1);
    if (!(last === '<$>' ? mid.length === segs.length && mid.every((s, i) => s === segs[i]) : last === '<*>' && mid.every((s, i) => s === segs[i]))) return `expression path ${JSON.stringify(ep)} for ${path}`;
    const [expr, ...more2] = get('ic-certificateexpression'); if (!expr || more2.length) return 'no IC-CertificateExpression header';
    const at = find(tree, [...ep.map((s) => Buffer.from(s)), sha(Buffer.from(expr))]); if (!at) return `the tree does not hold the expression under ${JSON.stringify(ep)}`;
    if (/no_certification\s*:/.test(expr)) return null;
    let req = Buffer.alloc(0);
    if (!/no_request_certification\s*:/.test(expr)) {
      if (method !== 'GET') return null; // only GET requests are certified
      const qs = list(expr, 'certified_query_parameters') ?? []; const fq = query.split('&').filter((s) => qs.includes(s.split('=')[0].toLowerCase()));
      req = sha(rih([[':ic-cert-method', method], ...(fq.length ? [[':ic-cert-query', fq.join('&')]] : [])]), sha(Buffer.alloc(0)));
    }
    const inc = list(expr, 'certified_response_headers'), exc = list(expr, 'response_header_exclusions') ?? [];
    const hs = resp.headers.map(([k, v]) => [k.toLowerCase(), v]).filter(([k]) => k !== 'ic-certificate' && (k === 'ic-certificateexpression' || (inc ? inc.includes(k) : !exc.includes(k))));
    const res = sha(rih([...hs, [':ic-cert-status', Number(resp.status_code)]]), sha(Buffer.from(resp.body)));
    if (!find(at, [req, res])) return 'the tree does not hold the hash of this answer';
    return null;
  } catch (e) { return `certificate header: ${e.message}`; }
}
