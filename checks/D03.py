"""D03 nothing becomes less secret without an explicit reveal"""
import itertools
import flow
import kernels as K
from program import callee, strip, walk, kids, show
from visib import Vis, sig, is_val, ALLS, Pk, V, S
from checks import D02

RULE = ('who-may-declassify: interprocedural provenance of every operand of a declassifying call (opened to all or to one party), plus a result-visibility '
        'lattice check by abstract interpretation of the dispatch layers')
EXPLAIN = ('All call sites of the declassifying operations reachable outside the explicit reveal operators are enumerated; each must open a value every source of which went '
           'through a secret random permutation (tracked backwards through local definitions, containers, callees\' returns and all callers), or be an explicit user reveal, '
           'or sit under an option whose name says so (unsafe/debug). Independently, for every combination of operand kinds, the dispatch layers must return a value at least as protected as the most '
           'protected operand.')
ASSUME = ['values opened after a random secret permutation reveal only what the shuffle-then-reveal technique allows (sorting network comparisons, permuted permutations)',
          'comparator closures depend only on the values passed to them']

# the declassifying primitives and their transparent wrappers (calls *inside* these are the primitive itself)
PRIM = {'spu::kernel::hal::reveal': 1, 'spu::kernel::hal::reveal_to': 1, 'spu::kernel::hal::_s2p': 1, 'spu::kernel::hal::_v2p': 1, 'spu::kernel::hal::_s2v': 1,
        'spu::mpc::s2p': 1, 'spu::mpc::v2p': 1, 'spu::mpc::s2v': 1, 'spu::mpc::a2p': 1, 'spu::mpc::b2p': 1, 'spu::mpc::a2v': 1, 'spu::mpc::b2v': 1,
        'spu::kernel::hlo::Reveal': 1, 'spu::kernel::hlo::RevealTo': 1}
EXPLICIT = {'spu::kernel::hlo::Reveal', 'spu::kernel::hlo::RevealTo', 'spu::kernel::hlo::Cast'}
OUTSIDE = ('libspu/kernel/hal/debug', 'libspu/compiler/tools', 'libspu/device/pphlo/pphlo_verifier', 'libspu/device/pphlo/pphlo_intrinsic')
SHUF = {'_perm_ss': 1, 'perm_ss': 1}  # the inverse direction un-shuffles and launders nothing

UNSHUF = {'_inv_perm_ss', 'inv_perm_ss'}
CLEAN = {'random', '_rand_s', '_rand_p', '_rand_perm_s', 'constant', '_constant', 'iota', 'zeros', 'ones', '_p2s', 'size', 'numel', 'shape', 'dtype', 'getField', 'vtype', 'empty', 'field', 'fxp_bits'}


class Prov:
    """where a value comes from: set of roots ('param', fn, var) / ('call', fn, line, text); shuffled values have no roots"""
    def __init__(self, P):
        self.P = P
        self.callers = {}
        for f in P.funcs:
            if f.dep:
                continue
            for n in walk(f.body):
                c = callee(n)
                if c is not None and c.repo and n[0] in ('call', 'mcall', 'new'):
                    self.callers.setdefault(c, []).append((f, n))
        self.memo = {}

    def defs(self, f, v):
        """(fn, expr) sources of variable v: initialisers, assignments, container insertions, loop/binding sources, output parameters"""
        k = (f, v)
        if k in self.memo:
            return self.memo[k]
        out = []
        for x in walk(f.body):
            if x[0] == 'decl':
                for y in x[2]:
                    if y[1] is not None and (y[0] == v or (len(y) > 2 and isinstance(y[2], list) and any((b if isinstance(b, int) else b[0]) == v for b in y[2]))):
                        out.append(y[1])
            elif x[0] == 'asg':
                if self.root(x[3]) == v:
                    out.append(x[4])
            elif x[0] == 'op' and x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>='):
                if x[4] and self.root(x[4][0]) == v:
                    out.append(x[4][1])
            elif x[0] == 'mcall' and callee(x) is not None and callee(x).name in ('push_back', 'emplace_back', 'insert', 'assign'):
                if self.root(x[3]) == v:
                    out += x[4]
            elif x[0] == 'rfor' and x[2] == v:
                out.append(x[3])
            elif x[0] == 'call' and callee(x) is not None and callee(x).q in ('std::transform', 'std::copy', 'std::swap') and len(x[4]) >= 2:
                if any(self.root(a) == v for a in x[4][-2:]):
                    out += x[4]
        self.memo[k] = out
        return out

    def root(self, n):
        n = strip(n)
        while n is not None:
            if n[0] in ('var', 'bind'):
                return n[2]
            if n[0] in ('idx', 'mem'):
                n = strip(n[2])
            elif n[0] == 'op' and n[2] in ('[]', '*', '->') and n[4]:
                n = strip(n[4][0])
            elif n[0] == 'mcall':
                n = strip(n[3])
            elif n[0] == 'un':
                n = strip(n[3])
            elif n[0] == 'call' and callee(n) is not None and callee(n).q == 'std::back_inserter':
                n = strip(n[4][0])
            else:
                return None
        return None

    def vty(self, t):
        return t is not None and ('spu::Value' in t or 'NdArrayRef' in t or 'Span<' in t and 'Value' in t)

    def is_shuffle(self, f, n, seen):
        c = callee(n)
        return c is not None and c.name in SHUF and len(n[4]) >= 3 and not self.roots(f, n[4][2], seen, want_perm=True)

    def roots(self, f, n, seen, want_perm=False):
        n = strip(n)
        if n is None:
            return set()
        k = n[0]
        if k in ('int', 'flt', 'str', 'enum', 'null', 'zero', 'glob', 'this', 'sizeof', 'fref'):
            return set()
        if k in ('var', 'bind'):
            v = n[2]
            key = (f, v, want_perm)
            if key in seen:
                return set()
            seen.add(key)
            out = set()
            if v in f.params:
                t = f.p[f.params.index(v)]
                if self.vty(t) or 'vector' in t:
                    cs = self.callers.get(f, [])
                    if not cs:
                        out.add(('param', f.q, f.vars[v][0]))
                    for g, cn in cs:
                        i = f.params.index(v)
                        a = cn[4]
                        if i < len(a):
                            out |= self.roots(g, a[i], seen, want_perm)
                        else:
                            out.add(('param', f.q, f.vars[v][0]))
                if not self.is_out(f, v):
                    return out
            elif v in f.vars and not (self.vty(f.vars[v][1]) or 'Value' in str(f.vars[v][1]) or f.vars[v][1] is None or 'auto' in str(f.vars[v][1])):
                return set()
            ds = self.defs(f, v)
            if not ds and v not in f.params:
                if not any(x[0] == 'decl' and any(y[0] == v for y in x[2]) for x in walk(f.body)):  # parameter of a closure: unknown origin
                    out.add(('param', f.q, f.vars[v][0] if v in f.vars else str(v)))
            for d in ds:
                out |= self.roots(f, d, seen, want_perm)
            return out
        if k in ('call', 'mcall', 'op', 'new'):
            c = callee(n)
            if c is not None:
                if c.name in ('_rand_perm_s', 'rand_perm_s', 'rand_perm_m'):
                    return set()
                if not want_perm and c.name in SHUF:
                    if self.is_shuffle(f, n, seen):
                        return set()
                if c.name in CLEAN:
                    return set()
                if c.name in UNSHUF and not want_perm:
                    return {('call', f.q, 'un-shuffled by ' + c.name)}
                if c.repo and c.body is not None and not c.dep and k != 'op' and self.vty(c.r) and not sig(c.name) and c.f.startswith('libspu/kernel/hal/permute') and ('seen', c) not in seen:
                    out = set()
                    for x in walk(c.body):
                        if x[0] == 'ret' and x[2] is not None:
                            out |= self.ret_roots(c, x[2], n, f, seen, want_perm)
                    return out
            if want_perm:
                if c is not None and c.name not in SHUF and k == 'call':
                    return {('call', f.q, c.q)}
            out = set()
            if k == 'mcall':
                out |= self.roots(f, n[3], seen, want_perm)
            for i, a in enumerate(n[4]):
                if k == 'op' and n[2] == '()' and i == 0:
                    continue  # the closure itself
                out |= self.roots(f, a, seen, want_perm)
            return out
        out = set()
        for x in kids(n):
            if x is not None:
                out |= self.roots(f, x, seen, want_perm)
        return out

    def is_out(self, f, v):
        return any(True for d in self.defs(f, v))

    def ret_roots(self, c, e, call, f, seen, want_perm):
        """roots of a returned expression; parameter roots are followed into this call's arguments only"""
        out = set()
        st = [(e)]
        s2 = set()

        def go(n):
            n = strip(n)
            if n is None:
                return
            if n[0] in ('var', 'bind'):
                if n[2] in s2:
                    return
                s2.add(n[2])
                if n[2] in c.params:
                    i = c.params.index(n[2])
                    if i < len(call[4]) and (self.vty(c.p[i]) or 'vector' in c.p[i]):
                        out.update(self.roots(f, call[4][i], seen, want_perm))
                    return
                if n[2] in c.vars and not (self.vty(c.vars[n[2]][1]) or 'Value' in str(c.vars[n[2]][1])):
                    return
                for d in self.defs(c, n[2]):
                    go(d)
                return
            g = callee(n)
            if g is not None and g.name in SHUF and len(n[4]) >= 3 and not want_perm:
                if not self.roots(c, n[4][2], set(), True):
                    return
            if g is not None and g.name in CLEAN:
                return
            if g is not None and g.name in UNSHUF and not want_perm:
                out.add(('call', c.q, 'un-shuffled by ' + g.name))
                return
            for x in kids(n):
                if x is not None:
                    go(x)
        go(e)
        return out


def guards(f, target):
    """conditions controlling a node: [(cond, branch)]"""
    out = []

    def go(n, g):
        if n is None:
            return False
        if n is target:
            out.extend(g)
            return True
        if n[0] in ('if', 'ifc'):
            return go(n[2], g) or go(n[3], g) or go(n[4], g + [(n[3], True)]) or go(n[5], g + [(n[3], False)])
        if n[0] == 'cond':
            return go(n[2], g) or go(n[3], g + [(n[2], True)]) or go(n[4], g + [(n[2], False)])
        return any(go(x, g) for x in kids(n))
    go(f.body, [])
    return out


def names_in(P, f, n):
    for x in walk(n):
        if x[0] in ('var', 'bind') and x[2] in f.vars:
            yield f.vars[x[2]][0]
        elif x[0] == 'mem':
            yield str(x[3]).rsplit('::', 1)[-1]
        elif x[0] == 'glob':
            yield str(x[2]).rsplit('::', 1)[-1]
        elif callee(x) is not None:
            yield callee(x).name


def run(P, rep):
    pv = Prov(P)
    sites = 0
    prims = 0
    for f in P.funcs:
        if f.dep or not f.f.startswith(('libspu/kernel/', 'libspu/device/', 'libspu/mpc/api.cc', 'libspu/mpc/ab_api.cc')) or f.f.startswith(OUTSIDE):
            continue
        dead = set()
        live = set(map(id, flow.reach_nodes(f.body, lambda x: None)))
        for n in walk(f.body):
            c = callee(n)
            is_prim = c is not None and n[0] in ('call', 'mcall') and (c.q in PRIM or c.q == 'spu::dynDispatch' and (K.str_of(P, n[4][1], f) or set()) & {'s2p', 'v2p', 's2v', 'a2p', 'b2p', 'a2v', 'b2v', 'm2p', 'm2v'})
            if not is_prim:
                continue
            if f.q in PRIM:
                prims += 1
                continue
            sites += 1
            rep.fn(f)
            gs = guards(f, n)
            where = f'{f.f}:{n[1]}'
            key = f'{f.q}:{c.name}'
            if id(n) not in live:
                rep.good(f'{where} statically unreachable', 'declassification sites')
                continue
            if f.q in EXPLICIT:
                if f.name == 'Cast':
                    ok = any(br and any(x[0] in ('bin', 'op') and x[2] == '==' and any(y[0] == 'enum' and y[2].endswith('VIS_PUBLIC') for y in walk(x)) for x in walk(cnd)) for cnd, br in gs)
                    if not ok:
                        rep.finding(key, where, 'the cast opens its operand although the requested visibility is not public')
                        continue
                rep.good(f'{where} explicit reveal operator', 'declassification sites')
                continue
            if any(br and any('unsafe' in x.lower() for x in names_in(P, f, cnd)) for cnd, br in gs):
                rep.good(f'{where} under an explicit unsafe option', 'declassification sites')
                continue
            r = pv.roots(f, n[4][1] if len(n[4]) > 1 and c.q != 'spu::dynDispatch' else n[4][2], set())
            if r:
                rep.finding(key, where, f'{c.name} opens a value that was not shuffled first: it derives from ' + '; '.join(sorted('/'.join(map(str, x[1:])) for x in r)[:4]))
            else:
                rep.good(f'{where} {f.name}: only randomly permuted values are opened', 'declassification sites')
    rep.need('declassification_call_sites', sites, 8)
    rep.counts['primitive_wrappers'] = prims
    # --- result visibility in the dispatch layers
    lat = und = 0
    for f, mode in D02.entries(P):
        if mode != 'L' or f.q in PRIM or f.r is None or 'spu::Value' not in f.r or f.q.startswith('spu::mpc::tiled'):
            continue
        if f.name.strip('_') in ('import_s', 'export_s', 'dynamic_update_slice'):
            continue
        rep.fn(f)
        for env in D02.combos(f, mode):
            ai = Vis(P, lambda *a: None)
            rets, end = ai.run(f, dict(env))
            ks = [env[p] for p, t in zip(f.params, f.p) if p in env and is_val(t)]
            if not ks:
                continue
            floor = ALLS if any(k <= ALLS for k in ks) else (ALLS | {V}) if any(k == {V} for k in ks) else None
            if floor is None:
                continue
            if '_cast_type' in f.name:
                pass
            for rn, v, _ in rets:
                if v is None:
                    und += 1
                    continue
                lat += 1
                if v - floor:
                    rep.finding(f'{f.q}:result', f'{f.f}:{rn[1]}', f'{f.name} may return a {"public" if Pk in v else "party-private"} value for operand kinds ({"/".join("".join(sorted(k)) for k in ks)})')
                else:
                    rep.good(f'{f.name}({"/".join("".join(sorted(k)) for k in ks)}) -> {"".join(sorted(v))}', 'result visibility')
    rep.need('result_visibility_obligations', lat, 350)
    rep.counts['undecided_results'] = und
