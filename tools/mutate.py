#!/usr/bin/env python3
"""mutate.py LIST.py [name-substring]: LIST.py defines M = [(name, property, [(file, old, new), ...]), ...]. Each mutant is built in a copy
of /repo under /tmp/mut, its package tests are run (must pass), and the property's quick check is run against the copy."""
import subprocess, sys, os, shutil, concurrent.futures as cf, time, runpy
mod = runpy.run_path(sys.argv[1]); M = mod['M']; sub = sys.argv[2] if len(sys.argv) > 2 else ''
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', TZ='UTC', GOSYM_WORKERS='3')
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(m):
    name, prop, edits = m
    d = '/tmp/mut/' + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = d + '/repo'
    run(['cp', '-a', '/repo', r])
    for f, old, new in edits:
        p = r + '/' + f; s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(d); return name, prop, 'BADEDIT %s x%d: %s' % (f, s.count(old), old[:40]), 0
        open(p, 'w').write(s.replace(old, new))
    b = run(['go', 'build', './...'], cwd=r, env=ENV)
    if b.returncode: shutil.rmtree(d); return name, prop, 'NOBUILD ' + b.stdout[:300], 0
    t = run(['go', 'test', '-vet=off', '-count=1', './...'], cwd=r, env=ENV)
    bad = [l for l in t.stdout.splitlines() if l.startswith(('--- FAIL', 'FAIL'))]
    v = d + '/verif'; os.makedirs(v)
    for x in ('harness', 'known_findings.jsonl'): run(['cp', '-a', '/verif/' + x, v + '/' + x])
    out = []
    tot = 0
    for p in prop.split(','):
        t0 = time.time()
        c = run(['/tmp/gosym', p, 'quick'], cwd=v, env=dict(ENV, REPO_DIR=r, VERIF_DIR=v))
        tot += time.time() - t0
        vio = ('VIOLATION property=' + p) in c.stdout
        out.append('%s:%s' % (p, 'caught' if c.returncode == 1 and vio else 'MISSED rc=%d' % c.returncode))
        open('/tmp/mut/%s.%s.out' % (name, p), 'w').write(c.stdout)
    shutil.rmtree(d)
    return name, prop, ' '.join(out) + (' [TESTS FAIL %s]' % bad[0] if bad else ''), tot
os.makedirs('/tmp/mut', exist_ok=True)
miss = 0
with cf.ThreadPoolExecutor(3) as ex:
    for n, p, r, t in ex.map(one, [m for m in M if sub in m[0]]):
        print('%-28s %s (%.0fs)' % (n, r, t), flush=True)
