RULE = ('(1) no scalar computed from the elements of a tensor (through views, element vectors, received vectors, comparisons, counting, helper functions that return such scalars) decides whether or how often a '
        'communicating call runs, which party it addresses, or how many elements it carries. A branch that only throws is allowed. (2) the bit width measured on a tensor\'s contents (which becomes part of a result\'s type, hence of message sizes) is measured only on tensors tested or cast to be public. (3) in the operator layers, the elements of a value are read only by functions that first enforce isPublic().')
EXPLAIN = ('Every function of the protocol, kernel and core layers that can communicate (transitively, through dispatch or shared-randomness generation) is scanned with an interprocedural explicit-and-implicit-flow taint from tensor '
           'elements to scalars; every branch, loop bound, early exit, container size and message argument is an obligation.')
ASSUME = ['shapes, element types, ranks and configuration are public', 'shared-seed randomness consumption is lock-step behaviour and counts as communication']
import taint
from program import walk, strip, callee, kids, show

LAYERS = ('libspu/mpc/', 'libspu/kernel/', 'libspu/core/', 'libspu/device/')


def run(P, rep):
    T = taint.Taint(P)
    ncomm = nhot = ndec = 0
    for f in P.funcs:
        if not f.f.startswith(LAYERS) or f.body is None:
            continue
        b = T.body(f, ())
        com = any(callee(n) is not None and (taint.is_comm(callee(n)) or (callee(n).repo and T.communicates(callee(n)))) for n in walk(f.body))
        if b.val or b.cont or b.sized:
            nhot += 1
        if not com:
            continue
        ncomm += 1
        rep.fn(f)
        bad = b.decisions()
        for n in walk(f.body):
            if n[0] in ('if', 'ifc', 'for', 'while', 'do', 'cond') or taint.is_comm(callee(n)):
                ndec += 1
                rep.good()
        for l, c, w in bad:
            rep.finding(f'{f.q}: {w}', f'{f.f}:{l}', f'{f.q}: a scalar computed from tensor elements ({c}) decides {w}')
    rep.need('communicating_functions', ncomm, 200)
    rep.need('functions_with_element_scalars', nhot, 30)
    rep.need('element_predicates', sum(1 for f in P.funcs if T.returns(f)), 5)
    rep.counts['decisions'] = ndec
    # rule 2: bit widths measured on contents
    nb = 0
    for f in P.funcs:
        if not f.f.startswith(LAYERS) or f.body is None:
            continue
        for n in walk(f.body):
            g = callee(n)
            if g is None or g.name != 'maxBitWidth' or not g.p or not n[4]:
                continue
            nb += 1
            r = strip(n[4][0])
            if r is not None and r[0] == 'var' and typed_public(f, r[2]):
                rep.good(f'{f.q}:{n[1]}')
            elif r is not None and r[0] == 'var' and (r[2] in f.params or True):
                rep.finding(f'{f.q}: bit width of {f.vars[r[2]][0]}', f'{f.f}:{n[1]}', f'{f.q} measures the bit width of the contents of {f.vars[r[2]][0]}, which it has not tested to be public')
    rep.counts['bit_widths_of_contents'] = nb
    # rule 3: readers of the elements of a value in the operator layers
    rd = 0
    for f in P.funcs:
        if not f.f.startswith(('libspu/kernel/', 'libspu/device/')) or f.body is None:
            continue
        for n, v in readers(f):
            rd += 1
            rep.fn(f)
            if public_enforced(f, v):
                rep.good(f'{f.q}:{n[1]}')
            else:
                rep.finding(f'{f.q}: reads elements', f'{f.f}:{n[1]}', f'{f.q} reads the elements of {f.vars[v][0]} without having enforced that it is public')
    rep.need('element_readers_in_operator_layers', rd, 1)


def value_root(f, e, d=0):
    """the Value variable whose storage e is (through as()/slices/locals), or None"""
    e = strip(e)
    if e is None or d > 8:
        return None
    if e[0] == 'mcall' and e[2] is not None:
        if e[2].cls == 'spu::Value' and e[2].name == 'data':
            r = strip(e[3])
            return r[2] if r is not None and r[0] == 'var' else None
        if 'NdArrayRef' in str(e[2].cls):
            return value_root(f, e[3], d + 1)
    if e[0] == 'var':
        for i in inits(f, e[2]):
            r = value_root(f, i, d + 1)
            if r is not None:
                return r
    if e[0] == 'new' and e[4] and len(e[4]) <= 2:
        return value_root(f, e[4][0], d + 1)
    return None


def readers(f):
    for n in walk(f.body):
        g = callee(n)
        if g is None:
            continue
        a = None
        if n[0] in ('call', 'new') and (g.name in ('decodeFromRing', 'xt_adapt', 'ring_all_equal') or (g.cls or '').startswith('spu::NdArrayView') or 'NdArrayView' in str(n[2] if n[0] == 'new' else '')):
            a = n[4]
        elif n[0] == 'mcall' and g.cls == 'spu::NdArrayRef' and g.name == 'at' and len(g.p) and not moved(f, n):
            a = [n[3]]
        for x in a or ():
            v = value_root(f, x)
            if v is not None:
                yield n, v


def moved(f, n):
    """the element's address is only handed to a copy"""
    for m in walk(f.body):
        if m[0] == 'un' and m[2] == '&' and any(k is n for k in walk(m)):
            return True
    return False


def public_enforced(f, v):
    for n in walk(f.body):
        if n[0] not in ('if', 'ifc'):
            continue
        c = n[3]
        if not any(m[0] == 'throw' for m in walk(n[4])):
            continue
        for m in walk(c):
            g = callee(m)
            if g is not None and (g.name == 'isPublic' or (g.name == 'isa' and 'Pub' in show(m))) and any(k[0] == 'var' and k[2] == v for k in walk(m)):
                return True
    return False


def inits(f, v):
    for n in walk(f.body):
        if n[0] == 'decl':
            for y in n[2]:
                if y[0] == v and y[1] is not None:
                    yield y[1]
        elif n[0] == 'asg' and n[3][0] == 'var' and n[3][2] == v:
            yield n[4]
        elif n[0] == 'op' and n[2] == '=' and n[4] and n[4][0][0] == 'var' and n[4][0][2] == v and len(n[4]) > 1:
            yield n[4][1]


def typed_public(f, v):
    """some test or checked cast in f establishes that v has a public element type"""
    for n in walk(f.body):
        g = callee(n)
        if g is not None and n[0] == 'mcall' and g.name in ('isa', 'as') and 'Pub2k' in show(n) + str(g.r) + str(n[-1]) and any(k[0] == 'var' and k[2] == v for k in walk(n)):
            return True
    return False
