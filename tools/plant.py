#!/usr/bin/env python3
"""Writes and validates the planted bugs under /verif/seeded from the definitions in plant_defs.py.

For each definition: apply the edit to a scratch copy of /repo, build, run the stable tests, run the
demonstration on the unchanged and on the changed copy.  Only a bug that passes all of that is kept.
No check uses this file or anything under seeded/.

  plant.py [ID ...]      (re)validate and write the named bugs, or those not yet written
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plant_defs import BUGS
SEEDED = os.path.join(HERE, '..', 'seeded')
SRC = {'buf': 'src/circular_buffer/circular.rs', 'bit': 'src/circular_buffer/iter.rs',
       'dsu': 'src/disjoint_set/disjoint_set.rs', 'cnt': 'src/counter/counter.rs',
       'int': 'src/interval/interval.rs', 'icmp': 'src/interval/interval_cmp.rs',
       'imath': 'src/interval/interval_math.rs', 'bnd': 'src/interval/bounds.rs'}
DEMO = r'''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
# Exit 0: the property held; anything else: it was broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
advanced_collections = { path = "$repo" }
[workspace]
TOML
cd "$tmp" || exit 9
export CARGO_TARGET_DIR="$tmp/target"
ulimit -c 0
timeout 250 CMD
'''
TEST = ['bash', '/opt/vp/test.sh']

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def scratch(dst):
    shutil.copytree('/repo', dst, symlinks=True)

def stable(wt):
    out = os.path.join(wt, 'target', 'r.json')
    env = open('/opt/vp/env.sh').read().replace('/repo', wt)
    test = open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', wt + '/target/env.sh')
    open(wt + '/target/env.sh', 'w').write(env)
    open(wt + '/target/test.sh', 'w').write(test)
    r = run(['bash', wt + '/target/test.sh', out], wt)
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    try:
        res = json.load(open(out))
    except Exception:
        return False, r.stdout[-2000:]
    passed = set(res['passed'])
    miss = [t for t in want if t not in passed]
    return not miss, '\n'.join(miss[:10])

def main():
    ids = sys.argv[1:] or [b['id'] for b in BUGS if not os.path.exists(os.path.join(SEEDED, b['id'], 'patch.diff'))]
    good = []
    for b in BUGS:
        if b['id'] not in ids:
            continue
        tmp = tempfile.mkdtemp(prefix='plant.')
        try:
            wt = os.path.join(tmp, 'wt')
            scratch(wt)
            d = os.path.join(tmp, 'd'); os.mkdir(d)
            open(os.path.join(d, 'main.rs'), 'w').write(b['main'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('CMD', b.get('cmd', 'cargo run --offline -q')))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            r0 = run(['bash', os.path.join(d, 'demo.sh')], wt)
            if r0.returncode != 0:
                print(b['id'], 'DEMO FAILS ON UNCHANGED', r0.stdout[-1500:]); continue
            bad = None
            for (f, old, new) in b['edits']:
                p = os.path.join(wt, SRC[f]); s = open(p).read()
                n = s.count(old)
                if n != 1:
                    bad = '%s: pattern occurs %d times: %r' % (f, n, old[:80]); break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                print(b['id'], 'EDIT', bad); continue
            ok, why = stable(wt)
            if not ok:
                print(b['id'], 'TESTS FAIL', why); continue
            r1 = run(['bash', os.path.join(d, 'demo.sh')], wt)
            if r1.returncode == 0:
                print(b['id'], 'DEMO PASSES ON CHANGED'); continue
            diff = run(['git', 'diff', '--', 'src'], wt).stdout
            dst = os.path.join(SEEDED, b['id'])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
            for f in ('main.rs', 'demo.sh'):
                shutil.copy(os.path.join(d, f), os.path.join(dst, f))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
            print(b['id'], 'ok (demo exit %d): %s' % (r1.returncode, r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else ''))
            good.append(b['id'])
        finally:
            shutil.rmtree(tmp)
main()
