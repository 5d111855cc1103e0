"""D13 what leaves a party during a computation on shares is masked"""
import re
import kernels as K
import mask as M
from program import callee, kids, walk, strip, show

RULE = ('In the Semi2k, ABY3, SecureNN, Cheetah and SPDZ2k kernels, every value a kernel sends or opens, other than in the kernels whose purpose is to open their operand, receives an additive (xor) contribution from randomness that was freshly drawn, came out of a correlated-randomness '
        'provider or OT, or was dealt by the helper party; and no two values sent to the same destination share their only mask.')
EXPLAIN = ('Backward additive data-flow closure (assignments, element writes, structured bindings, lambdas, callee bodies) from every argument of a communicator call and of an opening call; '
           'the closure must reach a fresh-randomness source. An unmasked parameter of a helper moves the obligation to the helper\'s callers. The mask sets of the sends of one function are compared pairwise.')
ASSUME = ['pseudo-random generators, correlated-randomness providers and oblivious transfer deliver independent uniform values', 'in the three-party protocols a value received from the helper party is such randomness',
          'the closure is a may-analysis: it establishes that a mask is added, not its distribution', 'the offline generators (beaver/, ot/, HE packing), the DPF construction and experimental protocols are not covered']

PROT = ['semi2k', 'aby3', 'securenn', 'cheetah', 'spdz2k']
OUT = re.compile(r'/beaver/|/ot/(?!basic_ot_prot|ot_util)|/arith/|/oram\.|commitment|/experimental/|_test|/common/|ref2k')
OPENAPI = re.compile(r'^(wrap_)?[abv]2[pv]$')
OPENFN = {'OpenShare': 0}
OPENING = re.compile(r'^[absv]2[pv]$')


def scoped(f):
    return any(f'/mpc/{p}/' in f.f for p in PROT) and not OUT.search(f.f)


def chain(f, n):
    """branch positions on the way to node n"""
    out = []

    def go(x, path):
        if x is n:
            out.append(path)
            return True
        if not isinstance(x, list):
            return False
        br = isinstance(x[0] if x else None, str) and x[0] in ('if', 'ifc', 'cond')
        if x and x[0] == 'switch':
            lab = 0
            for c in (kids(x[3]) if x[3] else []):
                if c and c[0] in ('case', 'default'):
                    lab += 1
                if go(c, path + ((id(x), lab),)):
                    return True
            return go(x[2], path)
        for i, c in enumerate(x):
            if isinstance(c, list):
                q = path
                if br and i >= 3 or (br and x[0] == 'cond' and i >= 3):
                    q = path + ((id(x), i),)
                if go(c, q):
                    return True
        return False
    go(f.body, ())
    return dict(out[0]) if out else {}


def mask_operand(e):
    e = strip(e)
    return show(e[4][1]) if e is not None and e[0] == 'call' and len(e[4]) == 2 and callee(e) is not None and callee(e).name in ('ring_sub', 'ring_add', 'ring_xor') else None


def dest(n):
    c = callee(n)
    if c.name in ('sendAsync', 'SendAsync', 'Send', 'SendAsyncThrottled', 'reduce', 'broadcast') and n[4]:
        i = next((i for i, t in enumerate(c.p) if t in ('unsigned long', 'size_t', 'int', 'long')), None)
        return show(n[4][i]) if i is not None and i < len(n[4]) else None
    return 'all'


def run(P, rep):
    opening = set()
    names = K.bind_names(P)
    n = 0
    for f in P.funcs:
        if f.name == 'proc' and f.cls and f.repo and OPENING.match(names.get(f.cls) or ''):
            opening.add(f.cls)
    rep.need('opening_kernels', len(opening), 12)
    A = M.Mask(P)
    ob = {}        # fn -> [(node, expr, why, depth)]
    seen = set()
    work = []
    per = {}

    def add(f, node, expr, depth):
        k = (f, id(node), id(expr))
        if k in seen:
            return
        seen.add(k)
        work.append((f, node, expr, depth))

    for f, node, expr in M.sends(P):
        if scoped(f):
            add(f, node, expr, 0)
    for f in sorted(P.funcs, key=lambda f: (f.f or '', f.l or 0, f.sig())):
        if f.body is None or f.dep or not f.repo or not scoped(f) or f.cls in opening:
            continue
        for x in walk(f.body):
            c = callee(x)
            if c is None or not x[0] == 'call' or len(x[4]) < 1:
                continue
            if OPENAPI.match(c.name) and c.q.startswith('spu::mpc') and len(x[4]) > 1 and not OPENAPI.match(f.name):
                add(f, x, x[4][1], 0)
    while work:
        f, node, expr, depth = work.pop(0)
        if f.cls in opening and f.name == 'proc':
            rep.count('sends_of_opening_kernels')
            continue
        tk = A.tokens(f, expr)
        R = frozenset(y for y in tk if y[0] == 'R')
        where = f'{f.f}:{node[1]}'
        rep.fn(f)
        three = '/aby3/' in f.f or '/securenn/' in f.f
        if R or (three and any(y[0] == 'recv' for y in tk)):
            rep.good(f'{where} {f.q.split("spu::mpc::")[-1]}: {show(expr)[:60]} masked by {len(R)} random value(s)', 'masked')
            n += 1
            if R:
                per.setdefault(f, []).append((node, expr, R, depth))
            continue
        if not tk:
            rep.good(f'{where} {show(expr)[:60]}', 'no data of a party')
            continue
        ps = sorted({y[2] for y in tk if y[0] == 'param' and y[1] is f})
        data = [i for i in ps if re.search(r'NdArray|Span|vector|ring|Value|Array', f.p[i])]
        calls = A.callers.get(f, ())
        if f.name != 'proc' and data and calls and depth < 4:
            for g, x in calls:
                if not (g.f and '/mpc/' in g.f) or not scoped(g):
                    continue
                for i in data:
                    if i < len(x[4]):
                        add(g, x, x[4][i], depth + 1)
            rep.count('sends_decided_at_callers')
            continue
        if f.name != 'proc' and not calls and data and not any(y[0] in ('shares', 'prod', 'call') for y in tk):
            rep.count('helpers_never_called')
            continue
        rep.finding(f'unmasked:{f.q}:{show(expr)[:80]}', where, f'{f.q.split("spu::mpc::")[-1]} hands {show(expr)[:80]} to {callee(node).name} and nothing random is added to it: it carries only {sorted({y[0] for y in tk})}')
    rep.need('masked_sends', n, 150)
    pairs = 0
    for f, ss in per.items():
        for i, (a, ea, ra, _) in enumerate(ss):
            for b, eb, rb, _ in ss[i + 1:]:
                if ra != rb or ea is eb:
                    pairs += 1
                    continue
                if A.tokens(f, ea) == A.tokens(f, eb) and show(ea) == show(eb):
                    continue
                if len(ra) > 1 and (mask_operand(ea) is None or mask_operand(ea) != mask_operand(eb)):
                    pairs += 1
                    continue
                if dest(a) != dest(b):
                    continue
                ca, cb = chain(f, a), chain(f, b)
                if any(k in cb and cb[k] != v for k, v in ca.items()):
                    continue
                pairs += 1
                rep.finding(f'reuse:{f.q}:{show(ea)[:50]}:{show(eb)[:50]}', f'{f.f}:{b[1]}', f'{f.q.split("spu::mpc::")[-1]} sends {show(ea)[:60]} (line {a[1]}) and {show(eb)[:60]} under the same single mask: their difference is disclosed')
    rep.counts['pairs_of_sends_with_distinct_masks'] = pairs
