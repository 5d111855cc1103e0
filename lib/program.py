"""Whole-program view: merges the per-unit IR into one set of functions / classes / enums with resolved references."""
import os, pickle, sys
import driver
from driver import Broken, BUILD


class Fn:
    __slots__ = ('q', 'p', 'r', 't', 'cls', 'clst', 'virt', 'static', 'const', 'f', 'l', 'e', 'repo', 'params', 'body', 'vars', 'inits', 'dep', 'uid', 'unit')

    @property
    def name(self):
        return self.q.rsplit('::', 1)[-1]

    def __repr__(self):
        return f'{self.q}@{self.f}:{self.l}'

    def sig(self):
        return f"{self.q}({', '.join(self.p)})" + (f"<{', '.join(self.t)}>" if self.t else '')


class Prog:
    pass


# positions of (fn refs, type refs, sub nodes) per node kind are handled in conv()
def _mk(T, F):
    def ty(i):
        return None if i is None or i < 0 else T[i]

    def L(xs):
        return [c(x) for x in xs]

    def c(n):
        if n is None:
            return None
        k = n[0]
        if k == 'call':
            return [k, n[1], F(n[2]) if isinstance(n[2], int) else n[2], c(n[3]) if isinstance(n[3], list) else n[3], L(n[4]), ty(n[5])]
        if k == 'mcall':
            return [k, n[1], F(n[2]) if n[2] is not None else None, c(n[3]), L(n[4]), ty(n[5])]
        if k == 'op':
            return [k, n[1], n[2], F(n[3]) if n[3] is not None else None, L(n[4]), ty(n[5])]
        if k == 'new':
            return [k, n[1], ty(n[2]), F(n[3]) if n[3] is not None else None, L(n[4])]
        if k == 'copy':
            return [k, n[1], c(n[2]), ty(n[3]), n[4]]
        if k == 'cast':
            return [k, n[1], ty(n[2]), c(n[3])]
        if k == 'lam':
            return [k, n[1], n[2], [[a, b, c(e)] for a, b, e in n[3]], c(n[4])]
        if k in ('var', 'int', 'flt', 'str', 'null', 'this', 'enum', 'break', 'cont', 'nop'):
            return n
        if k == 'glob':
            return [k, n[1], n[2], ty(n[3]), n[4]]
        if k == 'mem':
            return [k, n[1], c(n[2]), n[3], ty(n[4])]
        if k == 'bind':
            return [k, n[1], n[2], n[3], n[4], ty(n[5])]
        if k == 'fref':
            return [k, n[1], F(n[2])] + ([c(n[3])] if len(n) > 3 else [])
        if k == 'un':
            return [k, n[1], n[2], c(n[3])]
        if k in ('bin', 'asg'):
            return [k, n[1], n[2], c(n[3]), c(n[4]), ty(n[5])]
        if k == 'cond':
            return [k, n[1], c(n[2]), c(n[3]), c(n[4])]
        if k == 'idx':
            return [k, n[1], c(n[2]), c(n[3]), ty(n[4])]
        if k == 'list':
            return [k, n[1], L(n[2]), ty(n[3])]
        if k in ('zero', 'sizeof'):
            return [k, n[1], ty(n[2])]
        if k in ('throw', 'ret', 'del', 'omp'):
            return [k, n[1], c(n[2])]
        if k == 'x':
            return [k, n[1], n[2], L(n[3]), n[4] if len(n) > 4 else None]
        if k == 's':
            return [k, n[1], n[2], L(n[3])]
        if k == 'block':
            return [k, n[1], L(n[2])]
        if k == 'decl':
            return [k, n[1], [[y[0], c(y[1])] + y[2:] for y in n[2]]]
        if k in ('if', 'ifc'):
            return [k, n[1]] + [c(x) for x in n[2:6]]
        if k == 'for':
            return [k, n[1]] + [c(x) for x in n[2:6]]
        if k == 'rfor':
            return [k, n[1], n[2], c(n[3]), c(n[4]), ty(n[5])] + n[6:]
        if k in ('while', 'do', 'switch', 'case'):
            return [k, n[1], c(n[2]), c(n[3])]
        if k == 'default':
            return [k, n[1], c(n[2])]
        if k == 'try':
            return [k, n[1], c(n[2]), [[ty(h[0]) if isinstance(h[0], int) else h[0], h[1], c(h[2]), h[3]] for h in n[3]]]
        raise Broken('unknown IR node ' + str(k))
    return c, ty


def build(units):
    P = Prog()
    P.fns, P.classes, P.enums, P.globals, P.errors = {}, {}, {}, {}, {}
    P.units = sorted(units)
    uid = 0
    # units that lack a third-party header here come last: what they saw of a shared header may be incomplete
    late = ('libspu/compiler/', 'libspu/dialect/', 'libspu/device/utils/', 'libspu/device/pphlo/pphlo_verifier', 'libspu/mpc/cheetah/', 'libspu/spu.cc', 'libspu/mpc/spdz2k/ot/tiny_ot')
    for r in sorted(units, key=lambda u: (u.startswith(late), u)):
        with open(units[r], 'rb') as f:
            d = pickle.load(f)
        T = [sys.intern(t) for t in d['types']]
        P.errors[r] = (d['errors'], d['errlist'])
        loc = []
        for x in d['fns']:
            key = (x['q'], tuple(T[i] for i in x['p']), tuple(x.get('t', ())), x.get('clst'), x.get('const', 0),
                   r if '(anon)' in x['q'] or False else '')
            fn = P.fns.get(key)
            if fn is None:
                fn = Fn()
                fn.q, fn.p, fn.r = x['q'], list(key[1]), T[x['r']] if x['r'] >= 0 else None
                fn.t, fn.cls, fn.clst = tuple(x.get('t', ())), x.get('cls'), x.get('clst')
                fn.virt, fn.static, fn.const = bool(x.get('virt')), bool(x.get('static')), bool(x.get('const'))
                fn.f, fn.l, fn.repo = x['f'], x['l'], bool(x['repo'])
                fn.e = None
                fn.params = fn.body = fn.vars = fn.inits = None
                fn.dep, fn.uid, fn.unit = False, uid, r
                uid += 1
                P.fns[key] = fn
            loc.append(fn)
        conv, ty = _mk(T, lambda i: loc[i])
        for x in d['funcs']:
            fn = loc[x['id']]
            if fn.body is not None:
                continue
            fn.f, fn.l, fn.e, fn.unit = x['f'], x['l'], x['e'], r
            fn.params = x['params']
            fn.body = conv(x['body']) if x['body'] is not None else ['block', x['l'], []]
            fn.vars = {int(k): (v[0], T[v[1]] if v[1] >= 0 else None, v[2]) for k, v in x['vars'].items()}
            fn.inits = [[a, conv(b), w] for a, b, w in x['inits']] if x.get('inits') is not None else None
            fn.dep = bool(x.get('dep'))
        for x in d['classes']:
            k = x.get('spec') or x['q']
            if k in P.classes and not (len(x['methods']) > len(P.classes[k]['methods'])):
                continue
            x = dict(x)
            x['fields'] = [(a[0], T[a[1]] if a[1] >= 0 else None, a[2], a[3], a[4]) for a in x['fields']]
            x['methods'] = [(a[0], a[1], a[2], a[3], a[4], loc[a[5]]) for a in x['methods']]
            x['statics'] = [(a[0], conv(a[1]) if isinstance(a[1], list) else a[1], T[a[2]] if a[2] >= 0 else None) for a in x['statics']]
            x['unit'] = r
            P.classes[k] = x
        for x in d['enums']:
            P.enums.setdefault(x['q'], x)
        for x in d['globals']:
            k = (x['q'], r if x['f'].endswith('.cc') else '')
            if k not in P.globals:
                P.globals[k] = {'q': x['q'], 't': ty(x['t']), 'f': x['f'], 'l': x['l'], 'init': conv(x['init']), 'const': x['const'], 'tls': x['tls'],
                                'vars': {int(a): (v[0], T[v[1]] if v[1] >= 0 else None, v[2]) for a, v in x['vars'].items()}}
    P.funcs = [f for f in P.fns.values() if f.body is not None]
    P.fns = None
    return P


def load():
    """the whole program, from /repo's current sources"""
    units = driver.extract()
    h = driver._h(repr((driver.fhash(os.path.abspath(__file__)), sorted(units.items()))).encode())[:20]
    p = f'{BUILD}/prog-{h}.pkl'
    sys.setrecursionlimit(100000)
    if os.path.exists(p):
        with open(p, 'rb') as f:
            P = pickle.load(f)
    else:
        P = build(units)
        with open(p + f'.{os.getpid()}', 'wb') as f:
            pickle.dump(P, f, protocol=4)
        os.replace(p + f'.{os.getpid()}', p)
    index(P)
    return P


def index(P):
    P.by_q = {}
    for f in P.funcs:
        P.by_q.setdefault(f.q, []).append(f)
    P.by_cls = {}
    for f in P.funcs:
        if f.cls:
            P.by_cls.setdefault(f.cls, []).append(f)
    # class hierarchy by plain qualified name
    P.bases = {}
    for k, c in P.classes.items():
        b = [x.split('<')[0] for x in c['bases']]
        P.bases.setdefault(c['q'], [])
        for x in b:
            if x not in P.bases[c['q']]:
                P.bases[c['q']].append(x)
    P.cls_q = {}
    for k, c in P.classes.items():
        P.cls_q.setdefault(c['q'], []).append(c)
    P.derived = {}
    for c, bs in P.bases.items():
        for b in bs:
            P.derived.setdefault(b, []).append(c)


# ---------- generic traversal
def kids(n):
    k = n[0]
    if k == 'call':
        return ([n[3]] if isinstance(n[3], list) else []) + n[4]
    if k == 'mcall':
        return [n[3]] + n[4]
    if k == 'op':
        return n[4]
    if k == 'new':
        return n[4]
    if k == 'copy':
        return [n[2]]
    if k == 'cast':
        return [n[3]]
    if k == 'lam':
        return [e for _, _, e in n[3]] + [n[4]]
    if k == 'mem':
        return [n[2]]
    if k == 'fref':
        return n[3:4]
    if k == 'un':
        return [n[3]]
    if k in ('bin', 'asg'):
        return [n[3], n[4]]
    if k == 'cond':
        return [n[2], n[3], n[4]]
    if k == 'idx':
        return [n[2], n[3]]
    if k == 'list':
        return n[2]
    if k in ('throw', 'ret', 'del', 'omp', 'default'):
        return [n[2]]
    if k in ('x', 's'):
        return n[3]
    if k == 'block':
        return n[2]
    if k == 'decl':
        return [y[1] for y in n[2]]
    if k in ('if', 'ifc', 'for'):
        return n[2:6]
    if k == 'rfor':
        return [n[3], n[4]]
    if k in ('while', 'do', 'switch', 'case'):
        return [n[2], n[3]]
    if k == 'try':
        return [n[2]] + [h[2] for h in n[3]]
    return []


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st.extend(y for y in reversed(kids(x)) if y is not None)


def callee(n):
    """Fn of a call-like node, or None"""
    k = n[0]
    if k == 'call':
        return n[2] if not isinstance(n[2], str) else None
    if k == 'mcall':
        return n[2]
    if k in ('op', 'new'):
        return n[3]
    return None


def cargs(n):
    k = n[0]
    if k in ('call', 'mcall', 'op', 'new'):
        return n[4]
    return []


def strip(n):
    """drop value-preserving wrappers"""
    while n is not None:
        if n[0] == 'copy':
            n = n[2]
        elif n[0] == 'call' and n[2] is not None and not isinstance(n[2], str) and n[2].q in ('std::move', 'std::forward', 'std::as_const') and len(n[4]) == 1:
            n = n[4][0]
        elif n[0] == 'list' and len(n[2]) == 1:
            n = n[2][0]
        else:
            return n
    return n


# ---------- printing
def show(n, d=0):
    if n is None:
        return '∅'
    k = n[0]
    S = lambda x: show(x, d)
    A = lambda xs: ', '.join(show(x, d) for x in xs)
    ind = '  ' * d
    if k == 'call':
        return (n[2].q.replace('spu::mpc::', '').replace('spu::', '') + ('<' + ','.join(n[2].t) + '>' if n[2].t else '') if n[2] is not None and not isinstance(n[2], str) else (S(n[3]) + '.' if isinstance(n[3], list) and n[2] else '') + str(n[2] or S(n[3]))) + '(' + A(n[4]) + ')'
    if k == 'mcall':
        return S(n[3]) + '.' + (n[2].name + ('<' + ','.join(n[2].t) + '>' if n[2].t else '') if n[2] is not None else '?') + '(' + A(n[4]) + ')'
    if k == 'op':
        return f'op{n[2]}(' + A(n[4]) + ')'
    if k == 'new':
        return 'new ' + str(n[2])[:40] + '{' + A(n[4]) + '}'
    if k == 'copy':
        return S(n[2])
    if k == 'cast':
        return f'({n[2]})' + S(n[3])
    if k == 'lam':
        return '[' + ','.join(f'{b}{a}' for a, b, _ in n[3]) + '](' + ','.join(map(str, n[2])) + ')' + show(n[4], d + 1)
    if k == 'var':
        return f'v{n[2]}'
    if k == 'glob':
        return n[2] + (f'={n[4]}' if n[4] is not None else '')
    if k == 'mem':
        return S(n[2]) + '.' + str(n[3]).rsplit('::', 1)[-1]
    if k in ('int', 'flt', 'str'):
        return repr(n[2]) if k == 'str' else str(n[2])
    if k == 'enum':
        return n[2]
    if k == 'bind':
        return f'v{n[2]}#{n[3]}'
    if k == 'fref':
        return '&' + n[2].q
    if k == 'un':
        return n[2] + S(n[3])
    if k in ('bin', 'asg'):
        return f'({S(n[3])} {n[2]} {S(n[4])})'
    if k == 'cond':
        return f'({S(n[2])} ? {S(n[3])} : {S(n[4])})'
    if k == 'idx':
        return f'{S(n[2])}[{S(n[3])}]'
    if k == 'list':
        return '{' + A(n[2]) + '}'
    if k in ('zero', 'sizeof'):
        return f'{k}({n[2]})'
    if k in ('throw', 'ret', 'del', 'omp', 'default'):
        return f'{k} {S(n[2])}'
    if k in ('x', 's'):
        return f'<{n[2]} {A(n[3])}>'
    if k == 'block':
        return '{\n' + ''.join('  ' * (d + 1) + f'{show(x, d + 1)}\n' for x in n[2]) + ind + '}'
    if k == 'decl':
        return '; '.join(f'v{y[0]} := {S(y[1])}' for y in n[2])
    if k in ('if', 'ifc'):
        return f'{k} ({S(n[2]) + ";" if n[2] else ""}{S(n[3])}) {S(n[4])}' + (f' else {S(n[5])}' if n[5] else '')
    if k == 'for':
        return f'for ({S(n[2])}; {S(n[3])}; {S(n[4])}) {S(n[5])}'
    if k == 'rfor':
        return f'for (v{n[2]} : {S(n[3])}) {S(n[4])}'
    if k in ('while', 'switch', 'case'):
        return f'{k} ({S(n[2])}) {S(n[3])}'
    if k == 'do':
        return f'do {S(n[2])} while {S(n[3])}'
    if k == 'try':
        return f'try {S(n[2])} ' + ' '.join(f'catch({h[0]}) {S(h[2])}' for h in n[3])
    return k


if __name__ == '__main__':
    import program  # pickles must name this module, not __main__
    P = program.load()
    for q in sys.argv[1:]:
        for f in P.funcs:
            if q in f.q or q == f'{f.f}:{f.l}':
                print(f.sig(), '@', f.f, f.l)
                print('  vars', {k: v[:2] for k, v in f.vars.items()})
                print(show(f.body))
