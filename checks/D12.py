"""D12 operators compute what their names say"""
import itertools
import algebra as G
from algebra import Alg, V, NA, const, atom
from visib import is_val, sig

RULE = ('abstract interpretation of operator definitions into polynomial and exclusive-or-of-ands normal forms over the operands, for every visibility and element-type combination of the operands and every '
        'weak ordering of them; the normal form must be the one of the operator\'s meaning')
EXPLAIN = ('Every function of the ring, integer, fixed-point, polymorphic, operator and protocol interface layers whose name is that of an operator is evaluated on symbolic operands; callees that are operators themselves '
           'stand for their meaning and are checked in their own right. An obligation is one returned expression under one combination of operand kinds and one ordering.')
ASSUME = ['values are idealised integers or reals: overflow, truncation error and comparisons beyond half the ring are outside the property', 'a kernel reached by name does what its name says (D02, D11 check kernels)']
ELEM = {'exp', 'log', 'log1p', 'log2', 'exp2', 'tanh', 'rsqrt', 'sqrt', 'sine', 'cosine', 'acos', 'asin', 'reciprocal', 'floor', 'ceil', 'erf', 'logistic', 'sigmoid', 'atan2', 'power', 'pow', 'div', 'bitrev', 'bitintl',
        'bitdeintl', 'expm1'}
SHIFTS = {'lshift', 'rshift', 'arshift', 'left_shift', 'right_shift_logical', 'right_shift_arithmetic'}
SURE = {'mm', 'T', 'tensordot', 'conv2d', 'bits', 'int'}
DT = ('DT_I32', 'DT_F32')


def heads(x):
    if isinstance(x, frozenset):
        for y in x:
            yield from heads(y)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str) and len(x) > 1 and not isinstance(x[1], int) or (x and x[0] in ('less', 'msb', 'poly', 'equal')):
            yield x[0]
            for y in x[1:]:
                yield from heads(y)
        else:
            for y in x:
                yield from heads(y)


def atoms_heads(p):
    """heads of the uninterpreted terms of a polynomial"""
    out = set()

    def at(a):
        if isinstance(a, str):
            return
        out.add(a[0])
        for y in a[1:]:
            if isinstance(y, frozenset):
                if a[0] == 'bits':
                    for t in y:
                        for z in t:
                            at(z)
                else:
                    for m, _ in y:
                        for z in m:
                            at(z)
    for m, _ in p:
        for a in m:
            at(a)
    return out


def definite(b, got, want):
    """is a difference between the two forms certain to be a difference of values"""
    hs = atoms_heads(got)
    if b in ELEM:
        if b == 'expm1' and hs == {'exp'}:
            return True
        a = G.isatom(got)
        if a is None:
            return False
        if isinstance(a, str):
            return True
        return a[0] in ELEM and all(isinstance(z, str) for y in a[1:] if isinstance(y, frozenset) for m, _ in y for z in m)
    if 'bits' in hs and G.isatom(got) is None and G.isatom(G.padd(const(-1), got, -1)) is None:
        return False  # arithmetic over bitwise terms has no unique form here
    ok = SURE | (SHIFTS if b in SHIFTS else set())
    return hs <= ok


def vis_sets(f, vals, b):
    s = sig(f.name)
    if s is not None and len(s[0]) == len(vals):
        return [sorted(x & {'P', 'V', 'A', 'B'}) for x in s[0]]
    if f.q.startswith(G.MPC):
        return None
    return [['P', 'V', 'A', 'B']] * len(vals)


def spec(b, f, C, ps, ex, kinds, flags):
    if b == 'Not':
        return G.S_not1(C, ps[0]) if kinds[0] == 'DT_I1' else G.SEM['not'](C, ps[0])
    if b == 'Sign':
        if flags and flags[0]:
            return G.S_sign(C, ps[0])
        s = C.sign(ps[0])
        return const(s) if s is not None else None
    return G.SEM[b](C, *ps, *ex)


def run(P, rep):
    A = Alg(P)
    nf = nob = 0
    for f in sorted(P.funcs, key=lambda f: (f.q, f.f, f.l)):
        if f.body is None or not f.repo or f.dep or '_test' in f.f or '/experimental/' in f.f:
            continue
        b = G.base(f.q)
        if b is None or b in ('trunc', 'cast_type', 'prefer_a', 'prefer_b', 'transpose') and f.q.startswith(G.MPC):
            continue
        if not is_val((f.r or '').replace('spu::OptionalAPI<', '').replace('>', '')) and not is_val(f.r):
            continue
        if '(anon)' in f.q and not f.name.endswith('_impl'):
            continue
        if b in ELEM and f.name.startswith(('f_', '_')) and '_p' not in f.name[-2:] and not (b in ('bitrev', 'bitintl', 'bitdeintl')):
            continue
        vi = [i for i, t in enumerate(f.p) if is_val(t)]
        if not vi or any('Span' in f.p[i] or 'vector' in f.p[i] for i in vi):
            continue
        nvals = {1: 1, 2: 2, 3: 3}.get(len(vi))
        arity = {'mux': 3, 'select': 3, 'clamp': 3, 'clamp_lower': 2, 'clamp_upper': 2}.get(b)
        if nvals is None or (arity and arity != nvals):
            continue
        vsets = vis_sets(f, vi, b)
        if vsets is None:
            rep.count('functions with operand kinds that their name does not tell')
            continue
        typed = f.q.startswith((G.HLO, G.HAL)) and not f.name.startswith('_') and not f.name.startswith(('i_', 'f_', 'mixed_'))
        if f.q.startswith(G.HAL) and f.name.startswith(('i_', 'f_')):
            ksets = [['DT_I32' if f.name.startswith('i_') else 'DT_F32']] * len(vi)
        elif f.name.startswith('mixed_'):
            ksets = [list(DT)] * len(vi)
        elif typed:
            ksets = [list(DT)] * len(vi)
            if b in ('select', 'logical_not', 'mux'):
                ksets = [['DT_I1']] + ksets[1:]
            if b == 'Not':
                ksets = [['DT_I1', 'DT_I32']]
            if b.startswith('bitwise'):
                ksets = [['DT_I32']] * len(vi)
            if b in ('max', 'min', 'clamp'):
                ksets = ksets
        else:
            ksets = [[None]] * len(vi)
        flagp = [i for i, t in enumerate(f.p) if t == 'bool']
        bitops = G.BITOPS.get(b, ()) if b != 'Not' else ()
        names = [f.vars[f.params[i]][0] or f'x{i}' for i in vi]
        nf += 1
        rep.fn(f)
        bad = None
        und = ok = 0
        for kinds in itertools.product(*ksets):
            if bad:
                break
            if b in ('select',) and kinds[1] != kinds[2] or b in ('max', 'min', 'clamp', 'clamp_lower', 'clamp_upper') and len(set(kinds)) > 1:
                continue
            bits = set(bitops) | ({0} if b == 'Not' and kinds[0] == 'DT_I1' else set())
            for vis in itertools.product(*vsets):
                if bad:
                    break
                one = [[False, True] if v == 'B' and b == 'mul' else [False] for v in vis]
                for bit in itertools.product(*one):
                    bs = bits | {i for i, x in enumerate(bit) if x}
                    free = [i for i in range(len(vi)) if i not in bs]
                    orders = list(G.weak_orders([names[i] for i in free])) if b in G.ORDER or b == 'Sign' else [None]
                    if b in ('clamp',):
                        orders = [o for o in orders if o[names[1]] <= o[names[2]]]
                    for o in orders:
                        for bv in itertools.product((0, 1), repeat=len(bs)):
                            for flags in itertools.product((0, 1), repeat=len(flagp)):
                                C = G.Case()
                                ps = []
                                rep_of = {}
                                for i, nm in enumerate(names):
                                    if i in bs:
                                        ps.append(const(bv[sorted(bs).index(i)]))
                                    elif o is not None and o[nm] == 0:
                                        ps.append(const(0))
                                    elif o is not None:
                                        r = rep_of.setdefault(o[nm], nm)
                                        C.rank[r] = o[nm]
                                        ps.append(atom(r))
                                    else:
                                        ps.append(atom(nm))
                                A.case, A.top, A.chain = C, f, [f]
                                env = {}
                                ex = []
                                for i, t in enumerate(f.p):
                                    p = f.params[i]
                                    if i in vi:
                                        j = vi.index(i)
                                        env[p] = V(ps[j], vis[j], kinds[j], j in bs)
                                    elif i in flagp:
                                        env[p] = ('n', flags[flagp.index(i)])
                                    elif 'SPUContext' in t or 'SignType' in t:
                                        continue
                                    else:
                                        env[p] = ('y', f.vars[p][0])
                                        if b not in ('trunc', 'cast_type', 'prefer_a', 'prefer_b', 'conv2d'):
                                            ex.append(f.vars[p][0])
                                try:
                                    want = spec(b, f, C, ps, ex, kinds, flags)
                                except TypeError:
                                    want = None
                                if want is None:
                                    und += 1
                                    continue
                                rets, _ = A.run(f, env)
                                for n, v, _ in rets:
                                    if v is None or v == NA or v == 'bot' or v[0] != 'v' or v[1] is None:
                                        und += 1
                                        continue
                                    if v[1] == want:
                                        ok += 1
                                        continue
                                    if not definite(b, v[1], want):
                                        und += 1
                                        continue
                                    bad = (n, v[1], want, o, [(nm, {'P': 'public', 'V': 'private', 'A': 'arithmetic share', 'B': 'boolean share'}[x], k) for nm, x, k in zip(names, vis, kinds)], dict(zip([names[i] for i in sorted(bs)], bv)))
                                    break
                                if bad:
                                    break
                            if bad:
                                break
                        if bad:
                            break
                    if bad:
                        break
        nob += ok
        rep.count('results equal to the meaning', ok)
        rep.count('results outside the decided fragment', und)
        if bad:
            n, got, want, o, kinds, bv = bad
            od = '' if not o else ' when ' + ', '.join(f'{k} has rank {v}' for k, v in o.items()) + ' (zero has rank 0)'
            od += ''.join(f' and {k} is {v}' for k, v in bv.items())
            rep.finding(f'{f.q}|{",".join(f.p[1:])}', f'{f.f}:{n[1]}', f'{f.q} returns {G.show(got)[:160]} where its name says {G.show(want)[:160]}{od}; operands: ' + ', '.join(f'{a} {x}{" " + k if k else ""}' for a, x, k in kinds))
        elif ok:
            rep.good(f'{f.q}: {ok} results')
            rep.count('operators decided')
        else:
            rep.count('operators left undecided')
            if len(rep.__dict__.setdefault('_und', [])) < 1000:
                rep._und.append(f.q)
    rep.need('operator definitions', nf, 150)
    rep.need('results compared', nob, 2000)
