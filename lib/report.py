"""Check runner: loads the program, runs one rule, prints findings, writes evidence."""
import importlib, json, os, sys, time, traceback
import driver
from driver import VERIF, Broken


class Rep:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = {}
        self.counts = {}
        self.samples = {}
        self.obl = 0
        self.ok = 0
        self.notes = []
        self.analysed = set()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, k, v, cap=6):
        s = self.samples.setdefault(k, [])
        if len(s) < cap:
            s.append(str(v))

    def fn(self, f):
        self.analysed.add(f'{f.q}@{f.f}')

    def good(self, what=None, kind='obligations'):
        self.obl += 1
        self.ok += 1
        if what is not None:
            self.sample(kind, what)

    def finding(self, key, where, msg):
        """key: stable identity (no line numbers); where: file:line; one obligation that failed"""
        self.obl += 1
        if key not in self.findings:
            self.findings[key] = (where, msg)

    def need(self, what, n, minimum):
        self.counts[what] = n
        if n < minimum:
            raise Broken(f'only {n} {what} found (at least {minimum} confirmed by hand): the anchor has moved, nothing is decided')


def known():
    p = VERIF + '/known-findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main(pid, argv):
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    try:
        mod = importlib.import_module('checks.' + pid)
        rep = Rep(pid, tier)
        if getattr(mod, 'NEEDS_PROGRAM', True):
            import program
            P = program.load()
            bad = [u for u in P.units if not P.errors[u][0] == 0]
            rep.counts['units_parsed'] = len(P.units)
            rep.counts['units_with_parse_errors'] = len(bad)
        else:
            P = None
        mod.run(P, rep)
    except Broken as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid}')
        return 2
    kn = {x['key']: x for x in known()['findings'] if x['property'] == pid}
    new = []
    for k, (w, m) in sorted(rep.findings.items()):
        if k in kn:
            print(f'KNOWN-FINDING: property={pid} {kn[k]["what"]} [{w}]')
        else:
            new.append((k, w, m))
    ED = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
    os.makedirs(ED, exist_ok=True)
    rp = f'{ED}/{pid}.violations.json'
    for k, w, m in new:
        print(f'  {w}: {m}   [{k}]')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': mod.EXPLAIN, 'rule': mod.RULE, 'obligations': rep.obl, 'discharged': rep.ok,
                       'functions_analysed': len(rep.analysed), 'counts': rep.counts,
                       'samples': [f'{k}: {x}' for k, v in rep.samples.items() for x in v],
                       'known_findings_seen': [k for k in rep.findings if k in kn]},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if rep.notes:
        ev['coverage']['notes'] = rep.notes
    json.dump(ev, open(f'{ED}/{pid}.json', 'w'), indent=1)
    print(f'{pid}: {rep.ok}/{rep.obl} obligations hold, {len(new)} violations, {len(rep.findings) - len(new)} known; {json.dumps(rep.counts)}')
    if new:
        json.dump([{'key': k, 'where': w, 'what': m} for k, w, m in new], open(rp, 'w'), indent=1)
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


# units that never build upstream either (dead code including headers the repository does not have) or that need MLIR,
# which this sandbox lacks: their rules, if any, use the token-level front end
DEAD = ('libspu/mpc/cheetah/arith/conv2d_', 'libspu/mpc/cheetah/arith/tensor_encoder', 'libspu/mpc/cheetah/rlwe/lwe_decryptor', 'libspu/mpc/cheetah/rlwe/lwe_secret_key', 'libspu/mpc/cheetah/ot/emp/util', 'libspu/spu.cc', 'libspu/mpc/spdz2k/ot/tiny_ot.cc')


def tolerated(u):
    return u.startswith(DEAD) or u.startswith(('libspu/compiler/', 'libspu/dialect/', 'libspu/device/pphlo', 'libspu/device/utils', 'libspu/device/api.cc', 'libspu/device/executor.cc'))
