#!/usr/bin/env python3
"""Mutation sweep (run by hand, no check uses it): one-token changes of the sources that still compile and
pass the stable tests, judged by all monitors of the module at a small scale. Prints what survives.

  mutate.py buf|cnt|dsu|int [from [to]]    log of all verdicts: /tmp/mut/<module>.log
"""
import json, os, re, shutil, subprocess, sys
V = '/verif'
MOD = {'buf': (['circular_buffer/circular.rs', 'circular_buffer/iter.rs'], 'vbuf', 'B01 B02 B04 B05 B06 B07 B08 B09'.split()),
       'cnt': (['counter/counter.rs'], 'vcnt', 'C01 C02 C03 C04 C05 C06'.split()),
       'dsu': (['disjoint_set/disjoint_set.rs'], 'vdsu', 'D01 D02 D03 D05 D06'.split()),
       'int': (['interval/interval.rs', 'interval/interval_cmp.rs', 'interval/interval_math.rs', 'interval/bounds.rs'], 'vint', ['I%02d' % i for i in range(1, 16)])}
SWAP = [(r'(?<![<>=!-])<=(?!=)', '<'), (r'(?<=[\w)] )<(?= ?[\w(])', '<='), (r'(?<![<>=!-])>=(?!=)', '>'), (r'(?<=[\w)] )>(?= ?[\w(])', '>='),
        ('==', '!='), ('!=', '=='), ('&&', '||'), (r'\|\|(?! *[A-Z])', '&&'), (r'\+ ?1\b', ''), (r'\+ ?1\b', '+2'), (r'- ?1\b', ''),
        (r'\+=', '-='), (r'-=', '+='), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (' % ', ' / '),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
        (r'\.lo\b', '.up'), (r'\.up\b', '.lo'), (r'\blower\b', 'upper'), (r'\bupper\b', 'lower'), (r'\bstart\b', 'end'), (r'\bend\b', 'start'),
        (r'\bself\b', 'other'), (r'\bother\b', 'self'), (r'\bself\b', 'rhs'), (r'\brhs\b', 'self'),
        (r'\ba\b', 'b'), (r'\bb\b', 'a'), (r'_root\b', ''), (r'\blc\b', 'uc'), (r'\buc\b', 'lc'),
        ('Less', 'Greater'), ('Greater', 'Less'), ('Equal', 'Less'), ('Equal', 'Greater'), ('Less', 'Equal'), ('Greater', 'Equal'),
        ('Some', 'None.or'), (r'\.rev\(\)', ''), (r'\.clone\(\)', ''), (r'pop_front', 'pop_back'), ('pop_back', 'pop_front'),
        ('push_back', 'push_front'), ('push_front', 'push_back'), ('incr_', 'decr_'), ('decr_', 'incr_'), ('first', 'last'), ('last', 'first'),
        (r'\.0\b', '.1'), (r'\.1\b', '.0'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\band\b', 'or'), ('LowerBound', 'UpperBound'),
        (r'is_closed\(\)', 'is_closed() == false'), ('!(?=[a-z(])', ''), (r'\bif (?!let)(.*?)\{', r'if !(\1){'), (r'\bif (?!let)(.*?)\{', r'if true || \1{'),
        (r'\bif (?!let)(.*?)\{', r'if false && \1{'), (r'\ble\b', 'lt'), (r'\blt\b', 'le'), (r'\bge\b', 'gt'), (r'\bgt\b', 'ge'),
        (r'capacity\(\)', 'len()'), (r'\blen\(\)', 'capacity()'), (r'reserve\(', 'len(); drop('), (r'^(\s*)((?!let|return|use|pub|impl|type|fn|\}).*;)\s*$', r'\1//\2')]

def code_lines(src):
    doc = False
    for n, l in enumerate(src.split('\n')):
        if l.strip() == '#[cfg(test)]':
            return
        if '/*' in l:
            doc = True
        if not doc and not l.strip().startswith('//') and not l.strip().startswith('#['):
            yield n, l
        if '*/' in l:
            doc = False

def mutants(mod):
    for f in MOD[mod][0]:
        src = open('/repo/src/' + f).read()
        ls = src.split('\n')
        seen = set()
        for n, l in code_lines(src):
            if re.match(r'\s*(use|pub use|impl|type|pub type|where|struct|pub struct|fn|pub fn)\b', l) and '{' not in l:
                continue
            for pat, rep in SWAP:
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l and (n, new) not in seen:
                        seen.add((n, new))
                        yield f, n + 1, l, new, '\n'.join(ls[:n] + [new] + ls[n + 1:])

def main():
    mod = sys.argv[1]
    lo = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    hi = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
    base = '/tmp/mut/' + mod + str(lo)
    repo, har, tgt = base + '/repo', base + '/harness', base + '/t'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree('/repo', repo, symlinks=True)
    shutil.copytree(V + '/harness', har)
    t = open(har + '/Cargo.toml').read()
    open(har + '/Cargo.toml', 'w').write(t.replace('/repo', repo) if '/repo' in t else t)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt)
    tenv = open('/opt/vp/env.sh').read().replace('/repo', repo)
    open(base + '/env.sh', 'w').write(tenv)
    open(base + '/test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', base + '/env.sh'))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    _, binary, props = MOD[mod]
    log = open('/tmp/mut/%s%d.log' % (mod, lo), 'w')
    count = {}
    for k, (f, n, old, new, text) in enumerate(mutants(mod)):
        if not lo <= k < hi:
            continue
        p = repo + '/src/' + f
        orig = open(p).read()
        open(p, 'w').write(text)
        try:
            r = subprocess.run(['cargo', 'check', '--offline', '-q'], cwd=repo, env=env, capture_output=True)
            if r.returncode:
                v = 'no build'
            else:
                out = base + '/r.json'
                try:
                    subprocess.run(['bash', base + '/test.sh', out], cwd=repo, capture_output=True, timeout=60)
                    got = set(json.load(open(out))['passed'])
                    v = 'tests' if not all(t in got for t in want) else None
                except Exception:
                    v = 'tests'
                if os.path.exists(out):
                    os.remove(out)
            if v is None:
                r = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', binary], cwd=har, env=env, capture_output=True, text=True)
                if r.returncode:
                    v = 'harness build ' + r.stderr[-200:]
                else:
                    ps = [(q, subprocess.Popen([tgt + '/debug/' + binary, '--prop', q, '--scale', '60', '--out', base + '/o' + q, '--repo', repo], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for q in props]
                    hit = []
                    for q, pr in ps:
                        try:
                            if pr.wait(200) != 0:
                                hit.append(q)
                        except subprocess.TimeoutExpired:
                            pr.kill()
                            pr.wait()
                            hit.append(q + '(timeout)')
                    v = 'caught ' + ','.join(hit) if hit else 'SURVIVED'
        finally:
            open(p, 'w').write(orig)
        count[v.split()[0]] = count.get(v.split()[0], 0) + 1
        print(k, f, n, v, '|', old.strip(), '=>', new.strip(), file=log, flush=True)
    print(count, file=log, flush=True)
    shutil.rmtree(base)
if __name__ == "__main__":
    main()
