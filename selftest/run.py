#!/usr/bin/env python3
"""Mutation self-test of the rules: applies each entry of mutants.py to a scratch copy of /repo's sources and runs the named check there.
usage: selftest/run.py [property ...]   (not part of any check)"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/selftest')
import mutants
S = '/tmp/verif-selftest'
B = os.environ.get('SELFTEST_BASE', '/repo')
want = set(sys.argv[1:])
subprocess.run(['mkdir', '-p', S])
subprocess.run(['rsync', '-a', '--delete', B + '/src', B + '/spu', S + '/repo/'] if shutil.which('rsync') else ['sh', '-c', f'rm -rf {S}/repo && mkdir -p {S}/repo && cp -a {B}/src {B}/spu {S}/repo/'], check=True)
bad = 0
env = dict(os.environ, SPU_REPO=S + '/repo', VERIF_EVIDENCE=S)
for i, m in enumerate(mutants.M):
    pid, f, old, new = m[:4]
    exp = m[4] if len(m) > 4 else 1
    if want and pid not in want and str(i) not in want:
        continue
    p = f'{S}/repo/{f}'
    s = open(p).read()
    if old not in s:
        print(f'{i} {pid} {f}: TEXT NOT FOUND {old[:60]!r}')
        bad += 1
        continue
    open(p, 'w').write(s.replace(old, new, 1))
    r = subprocess.run([sys.executable, V + '/run.py', pid], env=env, capture_output=True, text=True)
    open(p, 'w').write(s)
    lines = r.stdout.strip().splitlines()
    ok = r.returncode == exp
    bad += not ok
    print(f'{i} {pid} {"ok" if ok else "MISSED" if exp else "FALSE ALARM"} rc={r.returncode} {f}: {lines[0][:230] if lines else r.stderr[-300:]}', flush=True)
sys.exit(bool(bad))
