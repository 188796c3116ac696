// Runs the command line tool (built by bin/build-cli.sh with a stand-in for ic-agent): its requests come
// through a named pipe and are answered here, synchronously. One runner process per worker, which ends
// with the worker; everything lives in a scratch folder of its own.
import fs from 'node:fs'; import os from 'node:os'; import path from 'node:path';
import { execFileSync, spawn } from 'node:child_process';
import { principalText } from '../sim/candid.mjs';

const LOOP = `cd "$VP_CLI"; exec 3<cmd; while IFS= read -r f <&3; do (ulimit -f 40000 -v 4000000; exec timeout -s KILL 60 bash "$f") </dev/null >/dev/null 2>&1; printf '\\003\\000\\000\\000%03d' $? >req; done; cd /; case "$VP_CLI" in /*/vp-cli-??????) rm -rf -- "$VP_CLI";; esac`;
let me = null;
function start() {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vp-cli-'));
  execFileSync('mkfifo', ['req', 'resp', 'cmd'].map((n) => path.join(dir, n)));
  const fd = Object.fromEntries(['req', 'resp', 'cmd'].map((n) => [n, fs.openSync(path.join(dir, n), 'r+')]));
  const child = spawn('bash', ['-c', LOOP], { stdio: 'ignore', env: { ...process.env, VP_CLI: dir, RUST_BACKTRACE: '0' } }); child.unref();
  me = { dir, fd };
}
function read(fd, n) { const b = Buffer.alloc(n); for (let k = 0; k < n;) k += fs.readSync(fd, b, k, n - k, null); return b; }
const quote = (s) => `'${s.replace(/'/g, `'\\''`)}'`;

// argv: strings; files: {name: bytes}; stdin: string; answer(req) -> {ok: bytes} | {err: text}.
// Returns {code, out, err, files: what is in the folder afterwards, by name}.
export function runCli({ argv, files = {}, stdin = '' }, answer) {
  if (!me) start();
  const { dir, fd } = me; const work = path.join(dir, 'w');
  fs.rmSync(work, { recursive: true, force: true }); fs.mkdirSync(work);
  for (const [n, b] of Object.entries(files)) fs.writeFileSync(path.join(work, n), b);
  fs.writeFileSync(path.join(dir, 'stdin'), stdin);
  fs.writeFileSync(path.join(dir, 'run'), `cd w && exec ${[process.env.VP_CLI_BIN, ...argv].map(quote).join(' ')} <../stdin >../out 2>../err\n`);
  fs.writeSync(fd.cmd, 'run\n');
  for (;;) {
    const frame = read(fd.req, read(fd.req, 4).readUInt32LE());
    if (frame.length === 3) {
      const seen = {}; for (const n of fs.readdirSync(work)) { const p = path.join(work, n); if (fs.statSync(p).isFile()) seen[n] = fs.readFileSync(p); }
      return { code: Number(frame.toString()), out: fs.readFileSync(path.join(dir, 'out'), 'utf8'), err: fs.readFileSync(path.join(dir, 'err'), 'utf8'), files: seen };
    }
    const parts = []; for (let i = 0; i < frame.length;) { const n = frame.readUInt32LE(i); parts.push(frame.subarray(i + 4, i + 4 + n)); i += 4 + n; }
    const a = answer({ kind: parts[0].toString(), caller: principalText(parts[1]), canister: principalText(parts[2]), method: parts[3].toString(), arg: Uint8Array.from(parts[4]) });
    const body = Buffer.from(a.ok ?? a.err); const head = Buffer.alloc(5); head[0] = a.ok ? 0 : 1; head.writeUInt32LE(body.length, 1);
    const all = Buffer.concat([head, body]); for (let k = 0; k < all.length;) k += fs.writeSync(fd.resp, all, k);
  }
}
