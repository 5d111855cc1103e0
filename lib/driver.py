"""Extraction driver: turns /repo's current sources into the resolved IR the rules work on.

Results are cached by content (extractor source, stubs, flags, the unit and every /repo file it includes), so a
check re-extracts exactly the units whose text changed since set-up; nothing about /repo itself is cached by name."""
import glob, hashlib, json, os, pickle, subprocess, sys, time, concurrent.futures as cf
import tdgen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPU_REPO', '/repo')
SRC = REPO + '/src/'
BUILD = os.environ.get('VERIF_BUILD', VERIF + '/build')
CACHE = BUILD + '/cache'
EX = BUILD + '/extract'
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
RES = '/usr/lib/llvm-18/lib/clang/18'


class Broken(Exception):
    """analysis cannot be carried out (vanished anchor, tool failure)"""


def _h(b):
    return hashlib.sha1(b).hexdigest()


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            _fh[p] = _h(open(p, 'rb').read())
        except OSError:
            _fh[p] = '-'
    return _fh[p]


def _treehash(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(r, f)
            out.append(os.path.relpath(p, d) + fhash(p))
    return _h('\n'.join(out).encode())


_tool = None


def toolhash():
    global _tool
    if _tool is None:
        _tool = _h((fhash(VERIF + '/extractor/extract.cc') + _treehash(VERIF + '/stubs') + _treehash(VERIF + '/stubs_td') + fhash(VERIF + '/lib/tdgen.py') + _treehash(VERIF + '/stubs_clang') + ' '.join(flags())).encode())
    return _tool


def protos():
    ps = []
    for r, ds, fs in os.walk(SRC):
        for f in fs:
            if f.endswith('.proto'):
                ps.append(os.path.relpath(os.path.join(r, f), SRC))
    return sorted(p for p in ps if 'experimental' not in p)


def gendir():
    ps = protos()
    h = _h(('|'.join(p + fhash(SRC + p) for p in ps + tdgen.tds(SRC)) + _treehash(VERIF + '/stubs_td') + fhash(VERIF + '/lib/tdgen.py')).encode())[:16]
    d = f'{BUILD}/gen-{h}'
    if not os.path.exists(d + '/.ok'):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(['protoc', '--cpp_out=' + d] + ps, cwd=SRC, capture_output=True, text=True)
        if r.returncode:
            raise Broken('protoc: ' + r.stderr[:500])
        tdgen.write(SRC, VERIF, d)
        open(d + '/.ok', 'w').close()
    return d


def flags():
    return ['-std=gnu++17', '-DFMT_DEPRECATED_OSTREAM', '-include', VERIF + '/stubs/prelude.h', '-fsyntax-only', '-w',
            '-Wno-enum-constexpr-conversion', '-ferror-limit=0', '-mavx2', '-maes', '-mbmi2', '-mpclmul', '-msse4.2',
            '-DSPU_BUILD', '-fopenmp', '-resource-dir', RES, '-I' + VERIF + '/stubs_clang', '-I' + VERIF + '/stubs',
            '-I/usr/lib/llvm-18/include', '-I/usr/include/eigen3']


def ensure_extractor():
    stamp = EX + '.h'
    want = fhash(VERIF + '/extractor/extract.cc')
    if os.path.exists(EX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([VERIF + '/extractor/build.sh', EX], capture_output=True, text=True)
    if r.returncode:
        raise Broken('extractor build: ' + (r.stderr or r.stdout)[-800:])
    open(stamp, 'w').write(want)


def units():
    """every non-test, non-benchmark C++ unit of the repository's C++ tree"""
    out = []
    for r, ds, fs in os.walk(SRC + 'libspu'):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith('.cc'):
                continue
            rel = os.path.relpath(os.path.join(r, f), SRC)
            if f.endswith(('_test.cc', '_bench.cc', '_benchmark.cc')) or f.startswith(('bench', 'test_')) or '/test' in rel or 'fuzz' in rel:
                continue
            out.append(rel)
    return out


def _lookup(rel):
    m = f'{CACHE}/{rel.replace("/", "_")}.idx'
    if not os.path.exists(m):
        return None
    try:
        ents = json.load(open(m))
    except Exception:
        return None
    for e in ents:
        if e['tool'] == toolhash() and all(fhash(SRC + d) == h for d, h in e['deps'].items()) and os.path.exists(e['out']):
            return e['out']
    return None


def _extract(rel, gen):
    os.makedirs(CACHE, exist_ok=True)
    tmp = f'{CACHE}/{rel.replace("/", "_")}.{os.getpid()}.json'
    if os.path.exists(tmp):
        os.unlink(tmp)
    args = [EX, tmp, SRC, SRC + rel, '--'] + flags() + ['-I' + REPO + '/src', '-I' + gen]
    for _try in range(2):
        try:
            r = subprocess.run(args, cwd=SRC, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            raise Broken('extract timeout ' + rel)
        if os.path.exists(tmp):
            break
    if not os.path.exists(tmp):
        raise Broken(f'extract failed {rel}: rc={r.returncode} ' + r.stderr[-500:])
    d = json.load(open(tmp))
    os.unlink(tmp)
    deps = {x: fhash(SRC + x) for x in d['deps']}
    deps[rel] = fhash(SRC + rel)
    deps_gen = os.path.basename(gen)
    key = _h(json.dumps([toolhash(), deps, deps_gen], sort_keys=True).encode())[:20]
    out = f'{CACHE}/{rel.replace("/", "_")}.{key}.pkl'
    with open(out + '.t', 'wb') as f:
        pickle.dump(d, f, protocol=4)
    os.replace(out + '.t', out)
    # files the generated headers come from are dependencies too
    for p in protos():
        deps[p] = fhash(SRC + p)
    if rel.startswith(('libspu/device', 'libspu/dialect', 'libspu/compiler')):
        for p in tdgen.tds(SRC):
            deps[p] = fhash(SRC + p)
    m = f'{CACHE}/{rel.replace("/", "_")}.idx'
    ents = []
    if os.path.exists(m):
        try:
            ents = [e for e in json.load(open(m)) if e['tool'] == toolhash()][-3:]
        except Exception:
            ents = []
    ents.append({'tool': toolhash(), 'deps': deps, 'out': out})
    json.dump(ents, open(m + '.t', 'w'))
    os.replace(m + '.t', m)
    return out


def extract(rels=None, jobs=8, verbose=False):
    """-> {unit: pickle path}; extracts what is missing or stale"""
    rels = units() if rels is None else rels
    ensure_extractor()
    res, todo = {}, []
    for r in rels:
        p = _lookup(r)
        if p:
            res[r] = p
        else:
            todo.append(r)
    if todo:
        gen = gendir()
        with cf.ThreadPoolExecutor(jobs) as ex:
            for r, p in zip(todo, ex.map(lambda r: _extract(r, gen), todo)):
                res[r] = p
                if verbose:
                    print('extracted', r, flush=True)
    return res


def load(rels=None):
    res = extract(rels)
    out = {}
    for r, p in res.items():
        with open(p, 'rb') as f:
            out[r] = pickle.load(f)
    return out


if __name__ == '__main__':
    t = time.time()
    r = extract(verbose=len(sys.argv) > 1)
    print(len(r), 'units', round(time.time() - t, 1), 's')
