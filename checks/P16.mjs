import { historyProperty } from '../engine/history.mjs';
import { any, res, view, n } from '../engine/own.mjs';
const PATHS = ['/a.png', 'b.bin', '/dir/e.txt', '/dir/e', 'c-d_1', '/ü/ö.txt', '/a.png/x', '/tr/', '/100%.txt', '/index.html', '/A.PNG', '/Dir/E.txt'];
export default historyProperty({
  id: 'P16', level: 'fault_enumeration', cases: { quick: 480, thorough: 7000 },
  rule: 'A case is one generated history of uploads, failing inter-canister calls, days and upgrades, with requests for every path in several spellings. Non-trivial: a redirect and a JSON page were answered and checked, and there was an upgrade, a cancelled or refused upload or a second finalized file; distinct by the sequence of calls and outcomes.',
  profile: { paths: PATHS, oddPaths: 0.12, ops: { init_upload: 5, store_chunk: 6, finalize_upload: 5, cancel_upload: 0.8, upgrade: 1.6, mint: 0.4, icrc7_transfer: 0.2, grant_permission: 0.2, update_collection_metadata: 0.2 }, initPerm: 0.15, valid: 0.9, repeat: 0.08, day: 0.12, oneChunk: 0.7, setting: {} },
  world: { paths: PATHS },
  opgen: (op, rng, w, gen) => { if (rng.p(0.12)) return gen.file(w.model, op.dt); if (['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload'].includes(op.m) && rng.p(0.06)) op.fault = gen.fault(); return op; },
  views: ['redirects', 'http'], viewRate: { redirects: 0.35, http: 0.5 },
  len: [8, 26],
  owns: any(view('redirects', 'http'), (d) => d.kind === 'res' && (d.m === 'finalize_upload') && d.causes.includes('url'), (d) => d.m === 'finalize_upload' && d.got === 'trap', (d) => d.m === 'init_upload' && d.got === 'Ok'),
  nontrivial: (s) => n(s, 'answer 307') > 0 && n(s, 'answer 200') > 0 && (n(s, 'upgrade') + n(s, 'cancelled') + n(s, 'odd path') > 0 || n(s, 'finalized') > 1),
});
