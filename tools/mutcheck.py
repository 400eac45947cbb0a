#!/usr/bin/env python3
"""mutcheck.py MODULE PROP INDEX...: run one full quick check against single mutants of mutate.py (in scratch copies)."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
mod, prop = sys.argv[1:3]
want = set(map(int, sys.argv[3:]))
W = '/tmp/mutcheck.%s.%s' % (mod, prop)
V, REPO = W + '/verif', W + '/repo'
os.makedirs(V, exist_ok=True)
for x in ('check.py', 'known_findings.txt'):
    shutil.copy('/verif/' + x, V + '/' + x)
for a, b in (('/verif/harness', V + '/harness'), ('/repo', REPO)):
    shutil.rmtree(b, ignore_errors=True)
    shutil.copytree(a, b, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
c = open(V + '/harness/Cargo.toml').read()
open(V + '/harness/Cargo.toml', 'w').write(c.replace('"/repo"', f'"{REPO}"'))
for k, (f, n, old, new, text) in enumerate(mutate.mutants(mod)):
    if k not in want:
        continue
    p = REPO + '/src/' + f
    orig = open(p).read()
    open(p, 'w').write(text)
    r = subprocess.run(['python3', 'check.py', prop, '--tier', 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=REPO))
    print(k, n, {0: 'SURVIVED', 1: 'caught'}.get(r.returncode, r.returncode), '|', old.strip(), '=>', new.strip(), '|', r.stdout.strip().split('\n')[-2 if r.returncode else -1][:150], flush=True)
    open(p, 'w').write(orig)
shutil.rmtree(W)
