"""D14 ring elements keep every bit on every ring"""
import collections
import re
import width as X
from program import callee, kids, walk, show, strip

RULE = ('At a source site whose operand type varies with the ring (32, 64 and 128 bit instantiations), the value is not converted to a fixed narrower integer type unless an explicit mask, remainder or shift keeps it in range (R1); '
        'a shift or complement is not computed in a fixed type narrower than the ring-dependent type it is used as (R2); no shift amount, mask or bit position is a constant that fits only one ring (R3); '
        'a constant is not shifted in 32 bits by an amount taken from the number of fraction bits or the ring width (R4); a bit mask is not built by shifting by an exclusive upper bound of bit positions, which may be the full width (R5).')
EXPLAIN = ('All integer conversions (operands, assignments, casts, initialisers, arguments, returns) of every instantiation are grouped by source site; a site is ring-dependent when its operand type takes several widths including 128. '
           'Shift amounts are traced through local definitions and helper arguments.')
ASSUME = ['a conversion whose destination type itself varies with the dispatched type is the kernel author\'s choice of storage type and is not judged', 'explicit masks are wide enough for the bits the algorithm needs',
          'the sites listed in CONFIRMED were read and keep values that fit by construction']

CONFIRMED = {
    ('aby3::bit_split', 'argument of pext_u64'): 'only executed for values of at most 64 bits (the 128-bit case takes the generic path)',
    ('EqualProtocol::DoCompute', 'assignment'): 'digit of the comparison radix (at most 8 bits)',
    ('TruncateProtocol::MSB0ToWrap', 'assignment'): 'single bits',
    ('YaclFerretOTeAdapter::OneTimeSetup', 'argument of RandBits'): 'number of OTs',
    ('YaclFerretOTeAdapter::OneTimeSetup', 'argument of vector'): 'number of OTs',
    ('YaclFerretOTeAdapter::recv_rcot', 'cast'): 'choice bit kept in the lowest bit',
    ('ExpA::proc', 'argument of ConvMP'): 'number of fraction bits',
    ('BeaverTinyOt::BatchMacCheck', 'initialiser'): 'global key of s <= 64 bits',
    ('BeaverTinyOt::rotRecv', 'assignment'): 'choice bits',
    ('LowMC::replay_ring_rand', 'argument of FillPRand'): 'initialisation vector, not a ring element',
    ('mpc::ring2pv', 'cast'): 'position in a permutation',
}


def scoped(f):
    return f.body is not None and not f.dep and f.repo and '_test' not in f.f and '_bench' not in f.f and 'half.h' not in f.f and any(z in f.f for z in ('/mpc/', '/kernel/', 'core/', '/device/'))


def split(f, m, b):
    """x and x >> b are both taken: the value is stored in pieces"""
    s = show(m)
    for n in walk(f.body):
        if n[0] == 'bin' and n[2] == '>>' and show(strip(n[3])) == s:
            a = strip(n[4])
            if a is not None and a[0] == 'int' and int(a[2]) == b:
                return True
    return False


def overflowing(m, depth=0):
    """a shift by a variable amount or a complement, possibly inside a sum"""
    if m is None or depth > 4:
        return False
    if m[0] == 'un':
        return m[2] == '~'
    if m[0] == 'bin':
        if m[2] == '<<':
            return strip(m[4]) is not None and strip(m[4])[0] != 'int'
        if m[2] in ('+', '-', '|'):
            return overflowing(X.bare(m[3]), depth + 1) or overflowing(X.bare(m[4]), depth + 1)
    return False


def amount(f, e, P, callers, depth=0, seen=()):
    """does the shift amount e grow with the fraction bits or the ring width?"""
    e = strip(e)
    if e is None or depth > 8:
        return None
    k = e[0]
    if k == 'cast':
        return amount(f, e[3], P, callers, depth, seen)
    if k == 'bin':
        if e[2] in ('/', '%', '>>', '&'):
            return None
        if e[2] in ('+', '-', '*'):
            return amount(f, e[3], P, callers, depth + 1, seen) or (amount(f, e[4], P, callers, depth + 1, seen) if e[2] != '-' else None)
        return None
    if k in ('call', 'mcall'):
        c = callee(e)
        if c is None:
            return None
        if c.name in ('getFxpBits', 'SizeOf', 'fxp_fraction_bits'):
            return c.name
        return None
    if k == 'mem' and e[3].endswith('fxp_fraction_bits'):
        return e[3]
    if k == 'var' and (f, e[2]) not in seen:
        seen = seen + ((f, e[2]),)
        if e[2] in f.params:
            i = f.params.index(e[2])
            for g, x in callers.get(f, ()):
                if i < len(x[4]):
                    r = amount(g, x[4][i], P, callers, depth + 1, seen)
                    if r:
                        return r
            return None
        for n in walk(f.body):
            if n[0] == 'decl':
                for y in n[2]:
                    if y[0] == e[2] and y[1] is not None:
                        return amount(f, y[1], P, callers, depth + 1, seen)
    return None


def run(P, rep):
    S = collections.defaultdict(lambda: [set(), None, None])
    C = collections.defaultdict(lambda: [set(), set(), None])
    callers = collections.defaultdict(list)
    fs = [f for f in P.funcs if scoped(f)]
    n1 = 0
    for f in fs:
        loopbits = {}
        shifts = []
        for n in walk(f.body):
            if n[0] in ('call', 'mcall'):
                c = callee(n)
                if c is not None and c.repo:
                    callers[c].append((f, n))
            if n[0] in ('bin', 'asg') and n[2].rstrip('=') in ('<<', '>>', '&'):
                if n[2] == '<<':
                    shifts.append(n)
                a = strip(n[4])
                while a is not None and a[0] == 'cast':
                    a = strip(a[3])
                t = X.width(X.etype(f, n[3]) or '')
                if a is not None and a[0] == 'int' and t:
                    s = C[(f.f, f.q, n[2], X.shape(n))]
                    s[0].add(t)
                    s[1].add(int(a[2]))
                    s[2] = (f, n)
        for n, t, why in X.conversions(f):
            m = X.bare(n)
            if m is None or m[0] in ('int', 'enum'):
                continue
            a, b = X.width(X.etype(f, m) or ''), X.width(t or '')
            if not a or not b:
                continue
            n1 += 1
            s = S[(f.f, f.q, why, X.shape(m))]
            s[0].add((a, b))
            if a > b and not X.small(m, b, f) and not split(f, m, b):
                s[1] = (f, m)
            if a < b and overflowing(m):
                s[2] = (f, m)
        # R5: exclusive upper bounds of bit positions
        bits = set()
        for n in shifts:
            a = strip(n[4])
            if a is not None and a[0] == 'var':
                bits.add(a[2])
        if bits:
            for n in walk(f.body):
                c = n[3] if n[0] == 'for' else None
                if c is not None and c[0] == 'bin' and c[2] == '<' and strip(c[3])[0] == 'var' and strip(c[3])[2] in bits and strip(c[4])[0] == 'var':
                    loopbits[strip(c[4])[2]] = n[1]
        guarded = {strip(x)[2] for n in walk(f.body) if n[0] in ('if', 'cond') and n[3 if n[0] == 'if' else 2] is not None for c in walk(n[3 if n[0] == 'if' else 2]) if c[0] == 'bin' and c[2] in ('<', '>', '==', '!=') for x in (c[3], c[4]) if strip(x) is not None and strip(x)[0] == 'var'}
        for n in shifts:
            m, a = strip(n[3]), strip(n[4])
            while m is not None and m[0] == 'cast':
                m = strip(m[3])
            if m is not None and m[0] == 'int' and a is not None and a[0] == 'var':
                nm = f.vars.get(a[2], ('?',))[0]
                if a[2] in loopbits and a[2] not in guarded:
                    rep.finding(f'R5:{f.q}:{nm}', f'{f.f}:{n[1]}', f'{f.q.split("spu::")[-1]} shifts by {nm}, the exclusive upper bound of the bit positions it handles: undefined when {nm} is the full width of {n[5]}')
                else:
                    rep.good(None)
                    rep.count('variable_shift_amounts_of_constants')
        rep.fn(f)
    rep.need('integer_conversions', n1, 20000)
    ring = 0
    for (ff, q, why, sh), (ty, nar, wid) in sorted(S.items()):
        A, B = {a for a, _ in ty}, {b for _, b in ty}
        if 128 in A and len(B) == 1 and max(A) > min(B):
            ring += 1
            if nar is None:
                rep.good(f'{ff} {q.split("spu::")[-1]}: {sh} -> {min(B)} bit ({why})', 'narrowing kept in range')
                continue
            f, m = nar
            k = ('::'.join(q.split('::')[-2:]), why)
            if k in CONFIRMED:
                rep.good(f'{k[0]} {why}: {CONFIRMED[k]}', 'confirmed by reading')
                continue
            rep.finding(f'R1:{q}:{why}:{sh}', f'{ff}:{m[1]}', f'{q.split("spu::")[-1]}: {show(m)[:70]} has up to {max(A)} bits and is narrowed to {min(B)} ({why})')
        if 128 in B and len(A) == 1 and len(B) > 1 and wid is not None:
            f, m = wid
            rep.finding(f'R2:{q}:{why}:{sh}', f'{ff}:{m[1]}', f'{q.split("spu::")[-1]}: {show(m)[:70]} is computed in {min(A)} bits and used as a value of up to {max(B)} bits ({why})')
        elif 128 in B and len(B) > 1:
            ring += 1
            rep.good(None)
    rep.need('ring_dependent_conversion_sites', ring, 300)
    k = 0
    for (ff, q, op, sh), (ws, vs, at) in sorted(C.items()):
        if 128 not in ws or len(ws) < 2:
            continue
        k += 1
        big = [v for v in vs if (v >= 8 if op.rstrip('=') in ('<<', '>>') else v > 0xff)]
        if big and len(vs) == 1:
            rep.finding(f'R3:{q}:{op}:{sh}', f'{ff}:{at[1][1]}', f'{q.split("spu::")[-1]}: {show(at[1])[:70]} uses the constant {big[0]} for every ring width {sorted(ws)}')
        else:
            rep.good(f'{q.split("spu::")[-1]}: {sh} with {sorted(vs)}', 'constants at ring-dependent sites')
    rep.need('constant_operands_at_ring_dependent_sites', k, 20)
    j = 0
    for f in fs:
        for n in walk(f.body):
            if n[0] == 'bin' and n[2] == '<<' and X.width(n[5] or '') == 32:
                m = strip(n[3])
                if m is not None and m[0] == 'int':
                    j += 1
                    r = amount(f, n[4], P, callers)
                    site = {b for (ff, q, w, s), (ty, _, _) in () for b in ty}
                    if r and not ring_typed(f, n, C):
                        rep.finding(f'R4:{f.q}:{X.shape(n)}', f'{f.f}:{n[1]}', f'{f.q.split("spu::")[-1]}: {show(n)[:60]} is computed in 32 bits although the amount comes from {r}, which may exceed 30')
                    else:
                        rep.good(None)
    rep.need('constants_shifted_in_32_bits', j, 20)


def ring_typed(f, n, C):
    """the literal is itself of the dispatched type (the 32-bit instance of it)"""
    m = n[3]
    while m is not None and m[0] == 'copy':
        m = m[2]
    return m is not None and m[0] == 'cast'
