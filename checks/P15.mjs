import { historyProperty } from '../engine/history.mjs';
import { any, res, view, cause, n } from '../engine/own.mjs';
import { DAY } from '../engine/util.mjs';
const OPS = ['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload'];
// What a few calls do while the clean-up waits: finalize, cancel, start again, store.
const calls = (gen, m) => {
  const r = gen.r; const xs = [];
  for (let i = r.int(1, 3); i > 0; i--) {
    const k = r.w([[3, 'finalize_upload'], [2, 'again'], [1, 'store_chunk'], [1, 'cancel_upload'], [0.5, 'init_upload']]);
    if (k !== 'again') { xs.push(gen[k](m)); continue; }
    const open = [...m.uploads].filter(([, u]) => u.state !== 'Finalized').map(([p]) => p); if (!open.length) continue;
    const file_path = r.pick(open), p = gen.plan(file_path), by = gen.uploader(m);
    xs.push({ by, m: 'cancel_upload', args: [{ file_path }] }, { by, m: 'init_upload', args: [{ file_path, file_hash: p.hash, file_size: BigInt(p.data.length), chunk_size: p.chunk }] });
  }
  return xs;
};
export default historyProperty({
  id: 'P15', level: 'fault_enumeration', cases: { quick: 440, thorough: 9000 },
  rule: 'A case is one generated history of upload calls, with failing inter-canister calls, upgrades, passing days and calls made during the daily clean-up. Non-trivial: an upload was finalized and read back, and a call met a fault, was refused for its state, or the clean-up dropped an upload; distinct by the sequence of calls and outcomes.',
  profile: { ops: { init_upload: 4, store_chunk: 9, finalize_upload: 4, cancel_upload: 1.6, upgrade: 0.8, grant_permission: 0.3, revoke_permission: 0.2, mint: 0.2 }, initPerm: 0.3, valid: 0.8, repeat: 0.08, day: 0.5, bigFiles: 0.05, oddPaths: 0.03, setting: {} },
  opgen: (op, rng, w, gen) => {
    const open = [...w.model.uploads.values()].some((u) => u.state !== 'Finalized');
    if (open && rng.p(0.06)) return { race: true, m: 'race', dt: 0n, calls: calls(gen, w.model) };
    if (OPS.includes(op.m) && rng.p(0.18)) op.fault = gen.fault();
    if (BigInt(op.dt) >= DAY && rng.p(0.4)) op.tfault = gen.fault();
    return op;
  },
  views: ['uploads', 'files'], viewRate: { uploads: 0.35, files: 0.15 },
  len: [10, 30],
  owns: any(res(OPS), cause('upload'), view('uploads', 'files', 'redirects')),
  nontrivial: (s) => n(s, 'files read back') > 0 && (n(s, 'fault before') + n(s, 'fault perform') + n(s, 'cleaned-up') + n(s, 'clean-up race') + n(s, 'finalize-refused') > 0 || OPS.some((m) => Object.keys(s).some((k) => k.startsWith(m + ':') && !k.endsWith(':Ok')))),
});
