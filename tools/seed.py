#!/usr/bin/env python3
"""seed.py ID [--check]: (re)build seeded/ID from tools/seeds/ID.py in a scratch copy of /repo, confirm the demonstration, and report what the checks say.
tools/seeds/ID.py defines: PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], UNITS (globs under /repo/src), MAIN (C++ program; nonzero exit = broken)"""
import os, sys, shutil, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '-']
W = '/tmp/w/seedrepo'
subprocess.run(['bash', '-c', f'mkdir -p /tmp/w && rm -rf {W} && cp -a /repo {W}'], check=True)


def sh(c, cwd, t=400, **e):
    p = subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, timeout=t, env=dict(os.environ, **e))
    return p.returncode, (p.stdout + p.stderr)[-1500:]


for i in ids:
    g = {}
    exec(open(f"{V}/tools/seeds/_common.py").read(), g)
    exec(open(f'{V}/tools/seeds/{i}.py').read(), g)
    D = f'{V}/seeded/{i}'
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=W, check=True)
    os.makedirs(D, exist_ok=True)
    for f, old, new in g['EDITS']:
        s = open(f'{W}/{f}').read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(f'{W}/{f}', 'w').write(s.replace(old, new))
    d = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    open(D + '/patch.diff', 'w').write(d)
    for x in ('mini.py', 'shim.cc'):
        shutil.copy(f'{V}/tools/mini/{x}', D)
    for x in ('stubs', 'stubs_clang'):
        shutil.copytree(f'{V}/{x}', f'{D}/{x}', dirs_exist_ok=True)
    open(D + '/main.cc', 'w').write(g['MAIN'])
    open(D + '/demo.sh', 'w').write('#!/bin/bash\n# builds the units below from the working tree against stand-in third-party headers, runs main.cc in a scratch folder\nH="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\ntrap \'rm -rf "$T"\' EXIT\npython3 "$H/mini.py" "$T" "$H/main.cc" ' + ' '.join(f"'{u}'" for u in g['UNITS']) + '\n')
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
    t = time.time()
    bad = sh(f'bash {D}/demo.sh', W)
    t = time.time() - t
    sh('git apply -R ' + D + '/patch.diff', W)
    good = sh(f'bash {D}/demo.sh', W)
    print(i, 'DEMO', 'ok' if good[0] == 0 and bad[0] else 'WRONG', f'clean={good[0]} patched={bad[0]} {t:.0f}s', '' if good[0] == 0 else good[1], bad[1][-300:])
    if '--check' in sys.argv:
        sh('git apply ' + D + '/patch.diff', W)
        c = sh(f'python3 run.py {g["PROP"]}', V, 900, SPU_REPO=W)
        print(i, 'CHECK', 'caught' if c[0] == 1 and 'VIOLATION property=' + g['PROP'] in c[1] else 'MISSED', c[1][-400:])
