#!/usr/bin/env python3
"""Planted bugs. seed.py new SPEC.py...   writes /verif/seeded/<id> from the specs (patch made in /tmp/wr)
               seed.py try [--nocheck] ID...  builds the bug in /tmp/wr, runs tests, demo and the property's check
/tmp/wr is a scratch copy of /repo; /tmp/wv a scratch copy of /verif's machinery with its own build folder."""
import subprocess, sys, os, json, shutil, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WR, WV = os.environ.get('WR', '/tmp/wr'), os.environ.get('WV', '/tmp/wv')
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def prepare():
    if not os.path.isdir(WR): sh(f'cp -a /repo {WR}')
    sh(f'git -C {WR} checkout -q -f . && git -C {WR} clean -fdq -e target && git -C {WR} fetch -q /repo HEAD && git -C {WR} checkout -q -f FETCH_HEAD')
    os.makedirs(WV, exist_ok=True)
    sh(f'rm -rf {WV}/engine {WV}/sim {WV}/checks {WV}/bin {WV}/rust; cp -a {V}/engine {V}/sim {V}/checks {V}/bin {V}/known_findings.txt {WV}/; [ -d {V}/rust ] && cp -a {V}/rust {WV}/')
    if not os.path.isdir(f'{WV}/build'): sh(f'cp -a {V}/build {WV}/build; rm -f {WV}/build/.sum')
    for n in ('build', 'test'):
        s = open(f'/opt/vp/{n}.sh').read().replace('/repo', WR); s = s.replace('$(dirname "$0")', '/opt/vp')
        open(f'{WV}/vp-{n}.sh', 'w').write(s)
def new(spec):
    g = {}; exec(open(spec).read(), g)
    for b in g['BUGS']:
        prepare()
        for f, old, nw in b['edits']:
            p = f'{WR}/{f}'; s = open(p).read()
            k = b.get('nth', {}).get(old, None)
            if k is None:
                if s.count(old) != 1: print(b['id'], f, 'matches', s.count(old), 'times:', old[:60]); break
                s = s.replace(old, nw)
            else:
                parts = s.split(old); s = old.join(parts[:k+1]) + nw + old.join(parts[k+1:])
            open(p, 'w').write(s)
        else:
            d = f"{V}/seeded/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(f'{d}/patch.diff', 'w').write(sh(f'git -C {WR} diff').stdout)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
            for n in ('ic', 'core', 'candid') + (('index',) if 'index.mjs' in b['demo'] else ()): shutil.copy(f'{V}/sim/{n}.mjs', d)
            shutil.copy(f'{V}/tools/seedlib/lib.mjs', d)
            open(f'{d}/demo.mjs', 'w').write("import { start, check, same, ok, err, done, ADMIN, A, B, C, P, acc, sub, all, SEC, MS, T, encode, decode, show, wasm, Replica } from './lib.mjs';\n" + b['demo'].strip() + '\ndone();\n')
            open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# Runs in /repo after build.sh: the ledger built there, on a replica simulation that lies beside this file.\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n'); os.chmod(f'{d}/demo.sh', 0o755)
            print('wrote', b['id'])
def attempt(id, nocheck):
    d = f'{V}/seeded/{id}'; prop = json.load(open(f'{d}/meta.json'))['property']; out = [id, prop]
    prepare()
    # the demonstration's copy of the simulation follows the one in use
    x = sh(f'git -C {WR} apply {d}/patch.diff')
    if x.returncode: print(id, 'patch does not apply', x.stderr); return
    t = time.time(); x = sh(f'bash {WV}/vp-build.sh')
    if x.returncode: print(id, 'does not build', x.stderr[-1500:]); return
    x = sh(f'bash {WV}/vp-test.sh /tmp/wr-test.json')
    r = json.load(open('/tmp/wr-test.json')) if os.path.exists('/tmp/wr-test.json') else {}
    base = json.load(open('/opt/vp/BASELINE.json'))
    bad = missing(base, r)
    out.append('tests ok' if not bad else f'TESTS FAIL {bad}')
    x = sh(f'timeout 300 bash {d}/demo.sh', cwd=WR); out.append(f'demo {x.returncode}' + ('' if x.returncode else ' (SHOULD FAIL)'))
    if x.returncode > 1 or 'Error' in x.stderr: out.append('DEMO ERROR ' + x.stderr[-500:])
    out.append(f'{time.time()-t:.0f} s')
    if not nocheck:
        t = time.time(); x = sh(f'node engine/main.mjs {prop} --tier quick', cwd=WV, env={**os.environ, 'REPO': WR, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
        hit = x.returncode == 1 and f'VIOLATION property={prop}' in x.stdout
        out.append(('CAUGHT' if hit else f'MISSED ({x.returncode})') + f' {time.time()-t:.0f} s')
        tail = x.stdout.strip().split('\n'); out.append(tail[-1 if not hit else next((i for i, l in enumerate(tail) if re.match(r'P\d\d quick', l)), 0) + 1][:300] if hit else (x.stdout + x.stderr)[-300:])
    print(' | '.join(out), flush=True)
    sh(f'git -C {WR} checkout -q -f .')
def revert(ids):
    # takes each repair (or those named) out again and runs the check of the property it was recorded under
    L = [re.match(r'fixed: property=(\S+) (\S+) (.*)', l) for l in open(f'{V}/known_findings.txt')]
    for m in [m for m in L if m and (not ids or m[2] in ids)]:
        prepare(); x = sh(f'git -C {WR} revert --no-commit {m[2]}')
        if x.returncode: print(m[1], m[2], 'does not revert by itself'); sh(f'git -C {WR} revert --abort; git -C {WR} reset -q --hard'); continue
        t = time.time(); x = sh(f'node engine/main.mjs {m[1]} --tier quick', cwd=WV, env={**os.environ, 'REPO': WR, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
        hit = x.returncode == 1 and f'VIOLATION property={m[1]}' in x.stdout
        print(m[1], m[2], 'CAUGHT' if hit else f'MISSED ({x.returncode})', f'{time.time()-t:.0f} s', m[3][:70], '' if hit else (x.stdout + x.stderr)[-300:], flush=True)
        sh(f'git -C {WR} reset -q --hard')
def missing(base, r):
    def flat(o):
        if isinstance(o, dict):
            for k in ('passed', 'stable', 'tests', 'reliable'):
                if k in o: return flat(o[k])
            return {k for k, v in o.items() if v in ('passed', 'pass', True, 'ok')} or set(o)
        return set(o)
    return sorted(flat(base) - flat(r))
def unchanged(ids):
    for id in ids:
        x = sh(f'timeout 300 bash {V}/seeded/{id}/demo.sh', cwd='/repo'); print(id, 'on the unchanged tree:', x.returncode, '' if x.returncode == 0 else (x.stdout + x.stderr)[-800:])
a = sys.argv[2:]; nocheck = '--nocheck' in a; a = [x for x in a if not x.startswith('--')]
if sys.argv[1] == 'new': [new(s) for s in a]
elif sys.argv[1] == 'try': [attempt(i, nocheck) for i in (a or sorted(os.listdir(f'{V}/seeded')))]
elif sys.argv[1] == 'revert': revert(a)
elif sys.argv[1] == 'unchanged': unchanged(a or sorted(os.listdir(f'{V}/seeded')))
