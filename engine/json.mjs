// JSON with bigints and byte strings, for replay files.
export const dump = (v) => JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? { $n: x.toString() } : x instanceof Uint8Array ? { $b: Buffer.from(x).toString('hex') } : x && x.type === 'Buffer' ? { $b: Buffer.from(x.data).toString('hex') } : x), 1);
export const load = (s) => JSON.parse(s, (k, x) => (x && typeof x === 'object' && '$n' in x ? BigInt(x.$n) : x && typeof x === 'object' && '$b' in x ? Uint8Array.from(Buffer.from(x.$b, 'hex')) : x));
