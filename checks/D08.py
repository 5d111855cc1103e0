RULE = ('(1) a raw pointer into a tensor that is used for more than one element (sent, copied, spanned, indexed) without strides needs a tensor that is contiguous: by construction on every path, or under an '
        'isCompact test/enforcement; a helper\'s parameter passes the requirement to its callers. (2) a tensor laid over another tensor\'s buffer takes over its offset, and its strides unless it is contiguous; a '
        'tensor laid over a received or freshly packed buffer does not take strides or offset from a tensor that may be strided. (3) a buffer taken out of a tensor whole needs a tensor that owns it from offset 0.')
EXPLAIN = ('Every use of NdArrayRef::data()/buf()/at()/view[i] as a raw pointer and every construction of a tensor over an existing buffer in the C++ sources is classified; the layout of the tensor '
           '(contiguous / possibly strided / unknown) is computed by an interprocedural forward analysis over locals, returns, views and parameters with isCompact() tests as refinements. '
           'Unknown layouts (elements of containers) are counted and never reported.')
ASSUME = ['NdArrayRef(type, shape), clone, concatenate, pad and linear_gather produce contiguous tensors (their own bodies are part of the tensor class)', 'kernel operands and operator-library parameters may be strided']
import os
import layout
from layout import ND
from program import walk, strip, callee, cargs, kids, show

SHARED = ('libspu/core/', 'libspu/mpc/common/', 'libspu/mpc/utils/', 'libspu/mpc/api', 'libspu/mpc/ab_api', 'libspu/kernel/', 'libspu/device/')   # the tensor interfaces protocols share: any layout may come in
CLASS_INTERNAL = ('spu::NdArrayRef::at', 'spu::NdArrayRef::Iterator', 'spu::NdArrayView', 'spu::NdArrayRef::data')


def run(P, rep):
    L = layout.Layout(P)
    calls = {}
    for f in P.funcs:
        for n in walk(f.body):
            g = callee(n)
            if g is not None and g.repo and n[0] in ('call', 'mcall', 'new'):
                calls.setdefault((g.q, len(n[4])), []).append((f, n, g))
    over = {}
    for c, bs in P.bases.items():
        for b in bs:
            over.setdefault(c, set()).add(b)

    def bases(c, d=0):
        r = {c}
        for b in over.get(c, ()):
            if d < 6:
                r |= bases(b, d + 1)
        return r

    def sites(g):
        out = list(calls.get((g.q, len(g.p)), []))
        if g.virt and g.cls:
            for b in bases(g.cls):
                if b != g.cls:
                    out += calls.get((f'{b}::{g.name}', len(g.p)), [])
        return out

    done = {}

    def need(f, i, why, depth=0):
        """parameter i of f must be contiguous: verdict over all callers"""
        key = (f.q, tuple(f.p), i)
        if key in done:
            return done[key]
        done[key] = 'U'
        if f.name in ('proc', 'evaluate') and f.virt:
            done[key] = ('N', f, f.l, f'operand {i} of the kernel {f.cls}')
            return done[key]
        if f.f.startswith(SHARED) and '(anon)' not in f.q and not f.static:
            done[key] = ('N', f, f.l, f'any tensor handed to {f.q}')
            return done[key]
        ss = sites(f)
        r = 'C' if ss else 'U'
        for c, n, g in ss:
            if i >= len(n[4]):
                continue
            a = n[4][i]
            if strip(a) is not None and strip(a)[0] == 'un' and strip(a)[2] == '&':
                a = strip(a)[3]
            v = classify(c, n, a, why, depth + 1)
            if isinstance(v, tuple):
                r = v
                break
            if v == 'U':
                r = 'U'
        done[key] = r
        return r

    def classify(f, n, x, why, depth=0):
        if L.guarded(f, n, x):
            return 'C'
        v = L.of(x, f)
        if isinstance(v, tuple):
            if depth > 6:
                return 'U'
            r = 'C'
            for i in (v[1] if isinstance(v[1], tuple) else (v[1],)):
                y = need(f, i, why, depth)
                if isinstance(y, tuple):
                    return y
                if y == 'U':
                    r = 'U'
            return r
        if v == 'N':
            return ('N', f, n[1], show(x)[:50])
        return v

    seen = {'bulk': set(), 'over': set(), 'whole': set()}
    und = {}
    for f in P.funcs:
        if f.q.startswith(CLASS_INTERNAL):
            continue
        uses = layout.raw_uses(P, f)
        for n, x, q, w in uses:
            site = (f.f, n[1], show(x)[:40])
            if w != 'bulk':
                rep.count(f'raw_{w}')
                continue
            seen['bulk'].add(site)
            rep.fn(f)
            judge(rep, f, n, classify(f, n, x, q), f'{show(x)[:50]} is used as one contiguous block by {q or "a raw pointer"}', f'{f.q} block {q} {argname(f, x)}', und)
        parents = None
        for n in walk(f.body):
            if n[0] == 'new' and str(n[2]).replace('const ', '') == ND and n[3] is not None and n[3].p and 'Buffer' in n[3].p[0] and len(n[4]) >= 3:
                rep.fn(f)
                seen['over'].add((f.f, n[1]))
                overlay(P, L, rep, f, n, classify, und)
            if n[0] == 'mcall' and n[2] is not None and n[2].cls == ND and n[2].name == 'buf' and f.cls != ND:
                if parents is None:
                    parents = {}
                    for m in walk(f.body):
                        for y in kids(m):
                            if y is not None:
                                parents[id(y)] = m
                if whole(n, parents):
                    rep.fn(f)
                    seen['whole'].add((f.f, n[1]))
                    x = n[3]
                    v = L.of(x, f)
                    v = v if not isinstance(v, tuple) else classify_fresh(L, f, x, need)
                    judge(rep, f, n, ('N', f, n[1], show(x)[:50]) if v == 'N' else v, f'the buffer of {show(x)[:50]} is taken whole', f'{f.q} buffer {argname(f, x)}', und)
    if os.environ.get('DBG'):
        for k, v in und.items():
            print('UND', *k, v)
    rep.count('undecided', len(und))
    rep.need('block_uses', len(seen['bulk']), 25)
    rep.need('overlays', len(seen['over']), 35)
    rep.need('whole_buffers', len(seen['whole']), 5)


def argname(f, x):
    x = strip(x)
    if x is not None and x[0] == 'var':
        return (f.vars.get(x[2]) or ('?',))[0]
    return '' if x is None else x[0]


def classify_fresh(L, f, x, need):
    v = L.of(x, f)
    r = 'C'
    for i in (v[1] if isinstance(v[1], tuple) else (v[1],)):
        y = need(f, i, 'buffer')
        if y != 'C':
            return 'N' if isinstance(y, tuple) else 'U'
    return r


def judge(rep, f, n, v, what, key, und):
    if isinstance(v, tuple):
        src = '' if v[1] is f and v[2] == n[1] else f' (reached with {v[3]} at {v[1].f}:{v[2]})'
        rep.finding(key, f'{f.f}:{n[1]}', f'{f.q}: {what}, but it may be a strided view{src}')
    elif v == 'C':
        rep.good(f'{f.f}:{n[1]} {what}', 'contiguous')
    else:
        und[(f.f, n[1])] = what


def whole(n, parents):
    """*x.buf() or a buffer handed on, other than laying a tensor over it or comparing pointers"""
    p = parents.get(id(n))
    d = 0
    while p is not None and d < 4:
        if p[0] == 'copy':
            n, p = p, parents.get(id(p))
            continue
        if p[0] == 'op' and p[2] == '*' and len(p[4]) == 1:
            return True
        if p[0] == 'un' and p[2] == '*':
            return True
        return False
    return False


def defs_of(f):
    d = {}
    for n in walk(f.body):
        if n[0] == 'decl':
            for y in n[2]:
                if y[1] is not None:
                    d[y[0]] = y[1]
        elif n[0] == 'lam':
            for v, m, e in n[3]:
                if e is not None and not (e[0] == 'var' and e[2] == v):
                    d.setdefault(v, e)
    return d


def mentions(e, names, defs, f, seen=None):
    """arrays whose strides()/offset()/address an expression is computed from"""
    out = []
    seen = set() if seen is None else seen
    for x in walk(e):
        if x[0] == 'mcall' and x[2] is not None and x[2].cls == ND and x[2].name in names:
            out.append(x[3])
        elif x[0] == 'var' and x[2] in defs and x[2] not in seen:
            seen.add(x[2])
            out += mentions(defs[x[2]], names, defs, f, seen)
    return out


def overlay(P, L, rep, f, n, classify, und):
    b = strip(n[4][0])
    x = b[3] if b[0] == 'mcall' and b[2] is not None and b[2].name == 'buf' and b[2].cls == ND else None
    defs = defs_of(f)
    args = n[4][3:]
    ps = n[3].p[3:]
    so = [(p, a) for p, a in zip(ps, args)]
    stride = next((a for p, a in so if 'Strides' in p), None)
    off = next((a for p, a in so if p in ('long', 'int64_t', 'int', 'unsigned long')), None)
    k = f'{f.q} overlay {argname(f, x) if x is not None else "buffer"}'
    if x is not None:
        fresh = L.of(x, f)
        if fresh == 'C':
            # owned from offset 0; an explicit offset is a position inside it
            rep.good(f'{f.f}:{n[1]} laid over a tensor made here', 'overlays')
            return
        inpack = f.name == 'unpack'
        m = mentions(off, ('offset', 'at'), defs, f) if off is not None else []
        okoff = any(show(strip(y)) == show(strip(x)) for y in m) or inpack
        if not okoff:
            if fresh == 'U' and strip(x)[0] != 'this':
                und[(f.f, n[1])] = 'overlay offset'
                return
            rep.finding(k + ' offset', f'{f.f}:{n[1]}', f'{f.q}: a tensor is laid over the storage of {show(x)[:40]} without its offset')
            return
        okst = inpack or (stride is not None and any(show(strip(y)) == show(strip(x)) for y in mentions(stride, ('strides',), defs, f)))
        if not okst and stride is not None and not scalar(n, f, defs):
            # the strides come from somewhere else (an output of a helper given the original's strides counts)
            s = strip(stride)
            if s is not None and s[0] == 'var' and filled(f, s[2], x):
                okst = True
            elif L.guarded(f, n, x):
                okst = True
        elif stride is not None:
            okst = True
        if okst:
            rep.good(f'{f.f}:{n[1]} keeps offset and strides of {show(x)[:40]}', 'overlays')
        elif fresh == 'U' and strip(x)[0] != 'this':
            und[(f.f, n[1])] = 'overlay strides'
        else:
            rep.finding(k + ' strides', f'{f.f}:{n[1]}', f'{f.q}: a tensor is laid over the storage of {show(x)[:40]}, which may be strided, without its strides')
        return
    # over a buffer of its own: contiguous by nature
    bad = None
    for a, names in ((stride, ('strides',)), (off, ('offset',))):
        if a is None:
            continue
        for y in mentions(a, names, defs, f):
            v = classify(f, n, y, 'overlay')
            if isinstance(v, tuple):
                bad = (y, names[0])
            elif v == 'U':
                und[(f.f, n[1])] = 'own buffer with strides of an unknown layout'
    if bad:
        rep.finding(k + ' own', f'{f.f}:{n[1]}', f'{f.q}: a contiguous buffer is read with the {bad[1]} of {show(bad[0])[:40]}, which may be strided')
    else:
        rep.good(f'{f.f}:{n[1]} contiguous over its own buffer', 'overlays')


def scalar(n, f, defs):
    s = strip(n[4][2])
    while s is not None and s[0] == 'var' and s[2] in defs:
        s = strip(defs[s[2]])
    return s is not None and s[0] == 'new' and not s[4]


def filled(f, v, x):
    """the variable is filled by a call or a loop that reads the original's strides"""
    sx = show(strip(x))
    for n in walk(f.body):
        if n[0] in ('call', 'mcall') and any(m[0] == 'var' and m[2] == v for a in n[4] for m in walk(a)):
            if any((m[0] == 'mcall' and m[2] is not None and m[2].name == 'strides' and show(strip(m[3])) == sx) or (m[0] == strip(x)[0] and show(m) == sx) for a in n[4] for m in walk(a)):
                return True
        if n[0] in ('asg', 'op') and (n[0] == 'asg' or n[2] in ('=', '*=', '+=')):
            l, r = (n[3], n[4]) if n[0] == 'asg' else (n[4][0], n[4][-1])
            if any(m[0] == 'var' and m[2] == v for m in walk(l)) and ('strides' in show(r) or any(m[0] == 'mem' and 'strides' in str(m[3]) for m in walk(r))):
                return True
    return False
