#!/usr/bin/env python3
"""mini.py WORKDIR MAIN.cc UNIT-OR-GLOB... : build MAIN with the given /repo/src units against the stand-in third-party
headers beside this file, and run it.  Exit code: that of the program (3: does not build)."""
import sys, os, subprocess, concurrent.futures as cf, hashlib, glob
H = os.path.dirname(os.path.abspath(__file__)); R = os.getcwd(); S = R + "/src"
W, main, pats = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2]), sys.argv[3:]
units = []
for p in pats:
    for f in sorted(glob.glob(S + '/' + p)):
        b = os.path.basename(f)
        if not b.endswith(('_test.cc', '_bench.cc', '_main.cc')) and f not in units:
            units.append(f)
os.makedirs(W + '/gen', exist_ok=True)
P = []
for r, d, f in os.walk(S):
    P += [os.path.relpath(r + '/' + x, S) for x in f if x.endswith('.proto') and 'experimental' not in r]
subprocess.check_call(['protoc', '--cpp_out=' + W + '/gen'] + P, cwd=S)
fl = ['-std=gnu++17', '-DFMT_DEPRECATED_OSTREAM', '-w', '-Wno-enum-constexpr-conversion', '-O0', '-fno-access-control', '-mavx2', '-maes', '-mbmi2', '-mpclmul', '-msse4.2',
      '-I' + S, '-I' + W + '/gen', '-I' + H + '/stubs_clang', '-I' + H + '/stubs', '-I/usr/lib/llvm-18/include', '-I/usr/include/eigen3'] + os.environ.get('CXXF', '').split()
ld = os.environ.get('LDF', '').split()
with open(W + '/pch.h', 'w') as f:
    f.write(f'#include "{H}/stubs/prelude.h"\n#include "libspu/core/context.h"\n#include "libspu/core/trace.h"\n#include "libspu/core/type_util.h"\n#include "libspu/core/parallel_utils.h"\n')
r = subprocess.run(['clang++-18', '-x', 'c++-header', W + '/pch.h', '-o', W + '/pch.pch'] + fl, capture_output=True, text=True)
if r.returncode:
    print(r.stderr[:1500]); sys.exit(3)


def one(u):
    o = W + '/' + hashlib.md5(u.encode()).hexdigest() + '.o'
    r = subprocess.run(['clang++-18', '-c', u, '-o', o, '-include-pch', W + '/pch.pch'] + fl, capture_output=True, text=True)
    if r.returncode:
        print(u, r.stderr[:1500]); return None
    return o


with cf.ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(one, [main, H + '/shim.cc'] + units + [W + '/gen/' + p[:-6] + '.pb.cc' for p in P]))
if None in objs:
    sys.exit(3)
absl = ['-l' + os.path.basename(x)[3:-3] for x in sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))]
cmd = ['clang++-18', '-o', W + '/demo'] + objs + ld + ['-Wl,--no-demangle', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lprotobuf', '-lspdlog', '-lfmt', '-lssl', '-lcrypto', '-lpthread'] + absl
r = subprocess.run(cmd, capture_output=True, text=True)
if r.returncode:
    # symbols of units left out (other transports, servers): trap if they are ever reached
    import re
    und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
    with open(W + '/und.s', 'w') as f:
        f.write('.text\n' + ''.join(f'.globl {u}\n{u}:\n' for u in und) + 'ud2\n.fill 4096,1,0\n')
    r = subprocess.run(cmd + [W + '/und.s'], capture_output=True, text=True)
if r.returncode:
    print(r.stderr[:2000]); sys.exit(3)
sys.exit(1 if subprocess.run([W + '/demo'], timeout=120).returncode else 0)
