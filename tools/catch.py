#!/usr/bin/env python3
"""catch.py [ID ...]: apply each planted bug to /repo, run its property's quick check, undo; prints one line each.
COPY=DIR works on scratch copies of /repo and of the checks under DIR instead (several can run side by side)."""
import json, os, shutil, subprocess, sys, time
S = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(S))
tier = os.environ.get('TIER', 'quick')
H, REPO, env = '/verif', '/repo', dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
if os.environ.get('COPY'):
    H, REPO = os.environ['COPY'] + '/verif', os.environ['COPY'] + '/repo'
    os.makedirs(H, exist_ok=True)
    for x in ('check.py', 'known_findings.txt'):
        shutil.copy('/verif/' + x, H + '/' + x)
    shutil.rmtree(H + '/harness', ignore_errors=True)
    shutil.copytree('/verif/harness', H + '/harness')
    c = open(H + '/harness/Cargo.toml').read()
    open(H + '/harness/Cargo.toml', 'w').write(c.replace('"/repo"', f'"{REPO}"'))
    shutil.rmtree(REPO, ignore_errors=True)
    shutil.copytree('/repo', REPO, symlinks=True, ignore=shutil.ignore_patterns('target'))
    env['VERIF_REPO'] = REPO
for i in ids:
    d = S + '/' + i
    meta = json.load(open(d + '/meta.json'))
    p = os.environ.get('PROP') or meta['property']
    subprocess.run(['git', '-C', REPO, 'apply', d + '/patch.diff'], check=True)
    try:
        t = time.time()
        r = subprocess.run(['python3', 'check.py', p, '--tier', tier], cwd=H, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), (v[0] if v else r.stdout[-300:])[:160], flush=True)
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'], check=True)
