"""D02 every operand reaches the protocol variant made for its visibility"""
import itertools
import kernels as K
from program import callee, walk
from visib import Vis, sig, is_val, plain_val, ANY4, ALLS, Pk, V, A, B, O, OP

RULE = ('flow-sensitive abstract interpretation of the dispatch layers over the powerset of storage kinds {public, private, arithmetic, boolean, one-hot, '
        'permutation share}: at every call of a variant-named operation each operand\'s possible kinds must be among those the variant is defined for')
EXPLAIN = ('Protocol API functions, the tensor layer\'s ring dispatchers and all helper functions they call are interpreted for every combination of single operand '
           'kinds (branches on isPublic/isPrivate/isSecret/isa<T>/IsA-like predicates and visibility comparisons prune infeasible paths); the operator entry points are '
           'interpreted the same way through the whole tensor library, there flagging only definite mismatches. Ring dispatchers that must be total may not '
           'have a combination that always throws; two-owner variants need the same-owner fact.')
ASSUME = ['variant names follow the repository\'s suffix convention (p/v/s/a/b letter per operand; the special cases are listed in lib/visib.py)',
          'operand kinds that come out of untyped containers or raw arrays are counted as undecided and not judged']

# ring-level dispatchers which must accept every visibility combination
TOTAL = {'_' + x for x in 'not negate msb square lshift rshift arshift add mul and xor trunc bitrev mmul_impl'.split()}
# entry preconditions that the documentation of the operation states (all other operands range over every kind)
DOM = {
    'spu::mpc::oram_read_ss': [({O}, {A})],
    'spu::kernel::hlo::Seal': [({Pk, V},)],
    'spu::kernel::hlo::Reveal': [({A, B, V},)],
    'spu::kernel::hlo::RevealTo': [({A, B, V},)],
    'spu::kernel::hal::reveal': [({A, B, V},)],
    'spu::kernel::hal::seal': [({Pk, V},)],
    'spu::kernel::hal::_oramonehot': [({A},)],
    'spu::kernel::hal::_oramread': [({OP}, {Pk}), ({O}, {A}), ({O}, {V})],
    'spu::mpc::carry_a2b': [({B}, {B})],
    'spu::kernel::hlo::Cast': [],  # conversions between equal visibilities are excluded by the vtype test (runtime value)
}


def entries(P):
    for f in P.funcs:
        if f.dep or '(anon)' in f.q or f.cls or not any(is_val(p) for p in f.p):
            continue
        if f.f.startswith('libspu/kernel/hlo/') and f.f.endswith('.cc'):
            yield f, 'G'
        elif f.f in ('libspu/mpc/api.cc', 'libspu/mpc/ab_api.cc', 'libspu/kernel/hal/ring.cc', 'libspu/kernel/hal/type_cast.cc') or (
                f.f.startswith('libspu/kernel/hal/prot_wrapper') and sig(f.name)):
            yield f, 'L'


def combos(f, mode):
    s = sig(f.name)
    ps = [(p, t) for p, t in zip(f.params, f.p) if is_val(t) or 'spu::Type' in t]
    if f.q in DOM:
        for c in DOM[f.q]:
            yield from (dict(zip([p for p, _ in ps], (frozenset({y}) for y in x))) for x in itertools.product(*c))
        return
    doms, nv = [], 0
    for p, t in ps:
        if s is not None and is_val(t) and nv < len(s[0]):
            doms.append([frozenset({x}) for x in sorted(s[0][nv])])
            nv += 1
        elif plain_val(t) or 'spu::Type' in t:
            doms.append([frozenset({x}) for x in sorted(ANY4)] if mode == 'L' else [frozenset({Pk}), frozenset({V}), frozenset({A, B})])
        else:
            doms.append([None])
    while sum(len(d) > 1 for d in doms) > 4:
        j = [i for i, d in enumerate(doms) if len(d) > 1][-1]
        doms[j] = [None]
    for c in itertools.product(*doms):
        yield {p: v for (p, _), v in zip(ps, c) if v is not None}


def run(P, rep):
    registered = set()
    for p, root in K.protocol_roots(P).items():
        registered |= {r[0] for r in K.registrations(P, root)}
    nE = nC = und = skipped = 0
    sites = set()
    seen_total = set()
    for f, mode in entries(P):
        nE += 1
        rep.fn(f)

        def on_call(ai, n, name, i, want, got, env):
            nonlocal und, skipped
            g = ai.fn
            site = (g, n[1], name, i)
            base = name[1:] if name.startswith('_') else name
            key = f'{g.q}:{name}:{i}'
            rep.fn(g)
            chain = ' -> '.join(x.name for x in [f] + ai.chain)
            if i == 'owner':
                if got is not True:
                    rep.finding(key, f'{g.f}:{n[1]}', f'{name} is called although the two private operands are not known to have the same owner (via {chain})')
                elif site not in sites:
                    sites.add(site)
                    rep.good(key, 'owner obligations')
                return
            if got is None:
                und += 1
                return
            if not got:
                return
            if mode == 'L':
                bad = not got <= want
            else:
                bad = not (got & want)
            if bad and base not in registered and ('_' in base) and not any(x[0] == 'call' and callee(x) is not None and callee(x).q == 'spu::dynDispatch' and name in (K.str_of(P, x[4][1], g) or ()) for x in walk(n)) and _noimpl(P, base, registered):
                skipped += 1
                return
            if bad:
                kinds = {Pk: 'public', V: 'private', A: 'arithmetic-share', B: 'boolean-share', O: 'one-hot', OP: 'one-hot', 'M': 'permutation-share'}
                rep.finding(key, f'{g.f}:{n[1]}', f'operand {i} of {name} may be {"/".join(kinds[x] for x in sorted(got - want))} here, but {name} is defined for {"/".join(sorted({kinds[x] for x in want}))} (via {chain})')
            elif site not in sites:
                sites.add(site)
                rep.good(key, 'operand obligations')
        ai = Vis(P, on_call)
        for env in combos(f, mode):
            nC += 1
            rets, end = ai.run(f, dict(env))
            if f.name in TOTAL and f.f.endswith('ring.cc'):
                seen_total.add(f.name)
                c = '/'.join(''.join(sorted(env[p])) for p in f.params if p in env)
                if not rets:
                    rep.finding(f'{f.q}:total:{c}', f'{f.f}:{f.l}', f'{f.name} has no returning path for operand kinds ({c})')
                else:
                    rep.good(f'{f.name}({c}) returns', 'totality')
    rep.need('entry_functions', nE, 200)
    rep.need('call_sites_decided', len(sites), 250)
    rep.counts['kind_combinations'] = nC
    rep.counts['undecided_operand_evaluations'] = und
    rep.counts['calls_of_operations_no_protocol_provides'] = skipped
    rep.counts['total_dispatchers'] = len(seen_total)


def _noimpl(P, base, registered):
    """the API function only tries a kernel that no protocol registers (the call can only yield 'not available')"""
    for f in P.by_q.get('spu::mpc::' + base, ()):
        names = set()
        for x in walk(f.body):
            c = callee(x)
            if c is not None and x[0] in ('call', 'mcall') and x[4]:
                for a in x[4]:
                    s = K.str_of(P, a, f) if a is not None and a[0] in ('str', 'glob', 'new', 'copy', 'cast', 'var', 'call') else None
                    names |= s or set()
            elif c is not None and x[0] == 'call' and c.repo and c.q.startswith('spu::mpc::') and sig(c.name):
                return False
        if names & registered:
            return False
        return True
    return False
