#!/usr/bin/env python3
"""refactor.py [NAME ...]: apply each behaviour-preserving edit to a scratch copy of /repo, run the stable
tests and, from a scratch copy of /verif, the checks of the module; no check may alarm.
PROPS="B01 B03" limits the checks, TIER the tier."""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor_defs import R
W = '/tmp/refactor'
os.makedirs(W, exist_ok=True)
V, REPO = W + '/verif', W + '/repo'
os.makedirs(V, exist_ok=True)
for x in ('check.py', 'known_findings.txt'):
    shutil.copy('/verif/' + x, V + '/' + x)
shutil.rmtree(V + '/harness', ignore_errors=True)
shutil.copytree('/verif/harness', V + '/harness')
c = open(V + '/harness/Cargo.toml').read()
open(V + '/harness/Cargo.toml', 'w').write(c.replace('"/repo"', f'"{REPO}"'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
names = sys.argv[1:] or list(R)
bad = 0
for n in names:
    mod, edits = R[n]
    shutil.rmtree(REPO, ignore_errors=True)
    shutil.copytree('/repo', REPO, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
    for e in edits:
        f, old, new = e[:3]
        p = f'{REPO}/{f}'
        s = open(p).read()
        rx = r'\s+'.join(re.escape(w) for w in old.split())  # blank lines and indentation do not matter
        if len(re.findall(rx, s)) != (e[3] if len(e) > 3 else 1):
            sys.exit(f'{n}: {len(re.findall(rx, s))} occurrences of {old[:200]!r}')
        s = re.sub(rx, lambda m: new.strip(), s)
        open(p, 'w').write(s)
    t = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=REPO, env=dict(os.environ, CARGO_TARGET_DIR=W + '/t'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    passed = sum(int(x) for x in re.findall(r'(\d+) passed', t.stdout))
    print(n, 'tests rc', t.returncode, passed, flush=True)
    if t.returncode:
        print(t.stdout[-3000:])
        bad = 1
        continue
    for p in os.environ.get('PROPS', '').split() or [q for q in props if q[0] in (mod, 'X')]:
        if p[0] not in (mod, 'X'):
            continue
        t0 = time.time()
        r = subprocess.run(['python3', 'check.py', p, '--tier', os.environ.get('TIER', 'quick')], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=REPO))
        print(' ', n, p, 'quiet' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode, '%.0fs' % (time.time() - t0), '' if r.returncode == 0 else r.stdout[-800:], flush=True)
        bad |= r.returncode != 0
sys.exit(bad)
