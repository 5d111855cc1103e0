RULE = ('A function never writes to the storage behind a tensor it takes by constant reference (or, in a protocol operation or operator-library function, by value), directly, through views, pointers, aliases made by casts, slices, '
        'broadcasts or moves, or by handing it to an in-place helper; nor does any function write in place to a tensor kept in a member (caches, keys); nor is a tensor that has two local names modified in place through one and then used through the other.')
EXPLAIN = ('Flow-sensitive storage-origin analysis over every function of the C++ sources: each tensor expression denotes fresh storage, the storage of a parameter, of a member, or unknown storage; functions are summarised by what their '
           'result aliases and which parameters they write, and every write is an obligation whose origin must be fresh or an explicit output parameter.')
ASSUME = ['results of dispatched operations and of containers filled elsewhere have unknown origin and are never reported', 'NdArrayRef and Value members may modify their own object']
import origin

LAYERS = ('libspu/mpc/', 'libspu/kernel/', 'libspu/core/', 'libspu/device/')
OWN = ('spu::NdArrayRef', 'spu::NdArrayView', 'spu::Value', 'spu::PtBufferView')


def tensor(t):
    return 'NdArrayRef' in t or 'spu::Value' in t


def protected(f, i):
    t = f.p[i] if i < len(f.p) else ''
    if not tensor(t) or 'Proto' in t:
        return False
    if 'Span<' in t and 'const' not in t.split('Span<', 1)[1]:
        return False
    if 'const' in t and t.rstrip().endswith('&'):
        return True
    byval = not t.rstrip().endswith(('&', '*'))
    if byval and f.name in ('proc', 'evaluate', 'encrypt', 'decrypt'):
        return True
    return byval and f.f.startswith(('libspu/kernel/hal/', 'libspu/kernel/hlo/', 'libspu/mpc/api', 'libspu/mpc/ab_api')) and '(anon)' not in f.q


def run(P, rep):
    O = origin.Origins(P)
    nw = nu = na = 0
    for f in P.funcs:
        if f.body is None or not f.f.startswith(LAYERS):
            continue
        ret, w, ws = O.summary(f)
        for i in range(len(f.p)):
            if not protected(f, i):
                continue
            rep.fn(f)
            if i in w and not (f.cls or '').startswith(OWN):
                l, how = w[i]
                rep.finding(f'{f.q} writes parameter {i}', f'{f.f}:{l}', f'{f.q} modifies its operand {f.vars[f.params[i]][0]} in place ({how})')
            else:
                rep.good(f'{f.q} parameter {i}')
        seq, al = origin.shared_handles(O, f)
        na += len(al)
        for l, a, b, w, u in origin.clashes(O, f):
            rep.finding(f'{f.q} shares {origin.pname(f, a)} and {origin.pname(f, b)}', f'{f.f}:{w[1]}', f'{f.q}: {origin.pname(f, a)} and {origin.pname(f, b)} are one tensor since line {l}; it is modified in place through one name and then used through the other (line {u[1]})')
        for l, o, how, t in ws:
            nw += 1
            if o == origin.FU:
                nu += 1
            if t and 'M' in o and 'U' not in o and not (f.cls or '').startswith(OWN) and not ctor(f) and f.name != 'operator=':
                rep.finding(f'{f.q} writes a kept tensor ({how})', f'{f.f}:{l}', f'{f.q} modifies in place a tensor that is kept in a member ({how})')
            elif t:
                rep.good()
    rep.counts['handle_copies'] = na
    rep.need('tensor_parameters', rep.obl, 1500)
    rep.need('writes_to_non_fresh_storage', nw, 60)
    rep.counts['writes_of_unknown_origin'] = nu


def ctor(f):
    return f.cls is not None and f.name == f.cls.rsplit('::', 1)[-1]
