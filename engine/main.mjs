// node engine/main.mjs <property> [--tier quick|thorough] [--replay file] [--cases n] [--keep-going]
// Exit status: 0 held on everything explored, 1 violation, 2 the check could not do its work.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import crypto from 'node:crypto';
import { execFileSync } from 'node:child_process';
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { fileURLToPath } from 'node:url';
import { dump, load } from './json.mjs';
import { loadModule, adoptModule, Replica } from '../sim/ic.mjs';
import { shrink } from './history.mjs';

const V = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const REPO = process.env.REPO ?? '/repo';
const getProp = async (id) => (await import(path.join(V, 'checks', `${id}.mjs`))).default;

function loadMods(rel) {
  const rd = (n) => loadModule(fs.readFileSync(path.join(rel, n)));
  return { core: rd('core_nft.wasm'), index: rd('index_icrc7.wasm') };
}

async function worker() {
  const { id, mods, seed, tier, stride, offset, cases, keep } = workerData;
  for (const m of Object.values(mods)) adoptModule(m);
  const prop = await getProp(id);
  const stats = {}; const seen = []; const samples = []; let evals = 0; const known = {}; let others = {};
  const add = (s) => { for (const [k, n] of Object.entries(s)) stats[k] = (stats[k] ?? 0) + Number(n); };
  let violation = null;
  for (let i = offset; i < cases && !violation; i += stride) {
    parentPort.postMessage({ at: i });
    const cs = `${seed}/${id}/${i}`;
    Replica.lazy = !!prop.rerun;
    const x = prop.runCase(mods, cs, { tier });
    evals++; add(x.stats ?? {});
    if (x.nontrivial) seen.push(crypto.createHash('sha1').update(x.nontrivial).digest('base64').slice(0, 12));
    if (samples.length < 1 && x.nontrivial) samples.push(x.sample());
    for (const d of x.other ?? []) { const k = `${d.kind}:${d.m}:${d.causes.slice(0, 3).join('+')}`; others[k] ??= { n: 0, msg: d.msg, case: cs }; others[k].n++; }
    for (const [k, n] of Object.entries(x.known ?? {})) known[k] = (known[k] ?? 0) + n;
    if (x.violation) {
      if (keep) { const k = `OWNED ${x.violation.dev.kind}:${x.violation.dev.m}:${x.violation.dev.causes.slice(0, 3).join('+')}`; others[k] ??= { n: 0, msg: x.violation.dev.msg, case: cs }; others[k].n++; continue; }
      let v = { ...x.violation, case: cs, first: x.violation.dev.msg };
      const d0 = v.dev;
      Replica.lazy = false;
      if (prop.rerun) {
        const same = (d) => d.kind === d0.kind && d.m === d0.m;
        let again = null; try { again = prop.rerun(mods, v.kase); } catch (e) { again = null; }
        if (again && same(again)) {
          const s = !v.kase.ops ? { kase: v.kase, evals: 0 } : shrink(v.kase, (k) => prop.rerun(mods, k), same, prop.shrinkBudget ?? 300);
          v = { ...v, kase: s.kase, dev: prop.rerun(mods, s.kase) ?? d0, shrunk: s.evals, reproduced: true };
        } else { stats.unconfirmed = (stats.unconfirmed ?? 0) + 1; continue; }
      }
      violation = v;
    }
  }
  parentPort.postMessage({ done: true, evals, stats, seen, samples, known, others, violation: violation ? dump(violation) : null });
}

async function main() {
  const argv = process.argv.slice(2); const id = argv[0];
  const opt = (n, d) => { const i = argv.indexOf(n); return i < 0 ? d : argv[i + 1]; };
  const tier = opt('--tier', process.env.VERIF_TIER ?? 'quick'); const seed = Number(process.env.VERIF_SEED ?? 1) || 0;
  const t0 = Date.now();
  if (process.env.VP_REL === undefined) {
    try { execFileSync(path.join(V, 'bin/build.sh'), { stdio: ['ignore', 'inherit', 'inherit'], env: { ...process.env, REPO } }); } catch (e) { console.error(`${id}: the build failed`); process.exit(2); }
  }
  const buildS = (Date.now() - t0) / 1000;
  const mods = loadMods(process.env.VP_REL ?? path.join(V, 'build/t2/wasm32-unknown-unknown/release'));
  const prop = await getProp(id);
  if (prop.load) Object.assign(mods, prop.load(REPO, loadModule));
  const replay = opt('--replay');
  if (replay) {
    const f = load(fs.readFileSync(replay, 'utf8'));
    const d = prop.rerun(mods, f.kase, { tier });
    if (d) { console.log(d.msg); console.log(`VIOLATION property=${id} replay=${replay}`); process.exit(1); }
    console.log('the replay does not fail'); process.exit(0);
  }
  const one = opt('--case');
  if (one) { const x = prop.runCase(mods, one, { tier }); console.log(x.stats, x.other, x.violation?.dev); if (x.violation && prop.describe) console.log(prop.describe(x.violation.kase).join('\n')); console.log(JSON.stringify(x.sample?.(), null, 1)); process.exit(0); }
  const cases = Number(opt('--cases', prop.cases[tier]));
  const nw = Math.min(Number(process.env.VP_WORKERS ?? 8), cases, Math.max(2, os.cpus().length));
  const keep = argv.includes('--keep-going');
  const results = await Promise.all(Array.from({ length: nw }, (_, k) => new Promise((ok, bad) => {
    const w = new Worker(fileURLToPath(import.meta.url), { workerData: { id, mods, seed, tier, stride: nw, offset: k, cases, keep } });
    let last = -1;
    w.on('message', (m) => { if (m.done) ok(m); else last = m.at; });
    w.on('error', (e) => bad(new Error(`case ${seed}/${id}/${last}: ${e.stack ?? e}`)));
    w.on('exit', (c) => { if (c) bad(new Error(`worker ended with ${c} at case ${last}`)); });
  }))).catch((e) => { console.error(`${id}: the check failed to run: ${e.message}`); process.exit(2); });
  const stats = {}; const known = {}; const others = {};
  for (const r of results) {
    for (const [k, n] of Object.entries(r.stats)) stats[k] = (stats[k] ?? 0) + n;
    for (const [k, n] of Object.entries(r.known)) known[k] = (known[k] ?? 0) + n;
    for (const [k, o] of Object.entries(r.others)) { others[k] ??= { ...o, n: 0 }; others[k].n += o.n; }
  }
  const evals = results.reduce((a, r) => a + r.evals, 0);
  const distinct = new Set(results.flatMap((r) => r.seen)).size;
  const violations = results.map((r) => r.violation && load(r.violation)).filter(Boolean);
  violations.sort((a, b) => (a.kase.ops?.length ?? 0) - (b.kase.ops?.length ?? 0));
  const sorted = Object.fromEntries(Object.entries(stats).sort(([a], [b]) => (a < b ? -1 : 1)));
  const ev = { property: id, tier, seed, level: prop.level ?? 'exploration', wall_s: Math.round((Date.now() - t0) / 100) / 10, violations: violations.length,
    coverage: { evaluations: evals, distinct_nontrivial: distinct, rule: prop.rule, samples: results.flatMap((r) => r.samples).slice(0, 3), counts: sorted, build_s: buildS, known_findings_met: known },
    assumptions: prop.assumptions ?? ['The replica simulation (sim/ic.mjs) executes the canister wasm with the message, trap, timer and upgrade rules of the Internet Computer.', 'The wasm is built from /repo with the repository release profile but without link-time optimisation and at opt-level 1.'] };
  fs.mkdirSync(path.join(V, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(V, 'evidence', `${id}.json`), JSON.stringify(ev, (k, x) => (typeof x === 'bigint' ? x.toString() : x), 1) + '\n');
  const kf = path.join(V, 'known_findings.txt');
  if (fs.existsSync(kf)) for (const l of fs.readFileSync(kf, 'utf8').split('\n')) { const m = l.match(/^known: property=(\S+) \[(\S+)\] (.*)$/); if (m && m[1] === id) console.log(`KNOWN-FINDING: property=${id} ${m[3]}`); }
  console.log(`${id} ${tier}: ${evals} cases, ${distinct} distinct and non-trivial, ${ev.wall_s} s (build ${buildS.toFixed(1)} s)`);
  if (argv.includes('--stats')) console.log(sorted);
  if (keep || argv.includes('--others')) for (const [k, o] of Object.entries(others)) console.log(`  [${o.n}] ${k}: ${o.msg} (${o.case})`);
  if (violations.length) {
    const v = violations[0];
    fs.mkdirSync(path.join(V, 'out'), { recursive: true });
    const file = path.join(V, 'out', `${id}-${crypto.createHash('sha1').update(dump(v.kase)).digest('hex').slice(0, 10)}.json`);
    fs.writeFileSync(file, dump({ property: id, case: v.case, message: v.dev.msg, first: v.first, reproduced: v.reproduced, kase: v.kase }));
    console.log(v.dev.msg);
    if (prop.describe) console.log(prop.describe(v.kase).map((l) => '    ' + l).join('\n'));
    console.log(`VIOLATION property=${id} replay=${file}`);
    process.exit(1);
  }
  if (evals === 0 || distinct === 0) { console.error(`${id}: nothing was checked`); process.exit(2); }
  process.exit(0);
}
if (isMainThread) main().catch((e) => { console.error(e); process.exit(2); }); else worker();
