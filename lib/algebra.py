"""Algebra of the operator library: operators are evaluated into polynomial normal forms over their operands.

A tensor is a polynomial over operand atoms (idealised integers); comparisons are decided in an order case - one weak ordering of the
operands and zero at a time - and bitwise operations are kept in exclusive-or-of-ands form. Anything else becomes an uninterpreted term."""
import itertools, re
from ai import AI
from program import callee, strip, walk
import kernels as K
from visib import is_val, sig

HAL, MPC, HLO = 'spu::kernel::hal::', 'spu::mpc::', 'spu::kernel::hlo::'


# ---------- polynomials: frozenset of (monomial, coefficient); a monomial is a sorted tuple of atoms
def const(c):
    return frozenset([((), c)]) if c else frozenset()


def atom(a):
    return frozenset([((a,), 1)])


def padd(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return frozenset((m, c) for m, c in d.items() if c)


def pmul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            x = tuple(sorted(m + n, key=repr))
            d[x] = d.get(x, 0) + c * e
    return frozenset((m, c) for m, c in d.items() if c)


def pneg(p):
    return frozenset((m, -c) for m, c in p)


def isconst(p):
    """the constant a polynomial is, or None"""
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p
        if m == ():
            return c
    return None


def isatom(p):
    if len(p) == 1:
        (m, c), = p
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def opaque(p):
    return any(not isinstance(a, str) for m, _ in p for a in m)


def show(p):
    if not p:
        return '0'

    def at(a):
        if isinstance(a, str):
            return a
        if a[0] == 'bits':
            return '(' + ' ^ '.join(sorted('&'.join(sorted(at(x) for x in t)) or '~0' for t in a[1])) + ')'
        return a[0] + '(' + ', '.join(show(x) if isinstance(x, frozenset) else str(x) for x in a[1:]) + ')'
    out = []
    for m, c in sorted(p, key=repr):
        t = '*'.join(at(a) for a in m)
        out.append(str(c) if not t else t if c == 1 else '-' + t if c == -1 else f'{c}*{t}')
    return ' + '.join(out).replace('+ -', '- ')


# ---------- bitwise normal form
def tobits(p):
    c = isconst(p)
    if c is not None:
        return frozenset() if c == 0 else frozenset([frozenset()]) if c == -1 else frozenset([frozenset([('int', c)])])
    a = isatom(p)
    if a is not None:
        return a[1] if a[0] == 'bits' and not isinstance(a, str) else frozenset([frozenset([a])])
    q = padd(const(-1), p, -1)  # the complement
    a = isatom(q)
    if a is not None:
        return tobits(q) ^ frozenset([frozenset()])
    return frozenset([frozenset([('poly', p)])])


def frombits(b):
    if not b:
        return const(0)
    if len(b) == 1:
        (t,) = b
        if not t:
            return const(-1)
        if len(t) == 1:
            (a,) = t
            if not isinstance(a, str) and a[0] == 'int':
                return const(a[1])
            if not isinstance(a, str) and a[0] == 'poly':
                return a[1]
            return atom(a)
    if len(b) == 2 and frozenset() in b:
        r = frombits(b - {frozenset()})
        return padd(const(-1), r, -1)
    return atom(('bits', b))


def bxor(p, q):
    a, b = isconst(p), isconst(q)
    if a is not None and b is not None:
        return const(a ^ b)
    return frombits(tobits(p) ^ tobits(q))


def band(p, q):
    a, b = isconst(p), isconst(q)
    if a is not None and b is not None:
        return const(a & b)
    d = {}
    for s in tobits(p):
        for t in tobits(q):
            u = s | t
            ints = [x[1] for x in u if not isinstance(x, str) and x[0] == 'int']
            if len(ints) > 1:
                v = ints[0]
                for i in ints[1:]:
                    v &= i
                u = frozenset(x for x in u if isinstance(x, str) or x[0] != 'int') | {('int', v)}
                if v == 0:
                    continue
            d[u] = d.get(u, 0) ^ 1
    return frombits(frozenset(u for u, k in d.items() if k))


def bor(p, q):
    return bxor(p, bxor(q, band(p, q)))


def mono(m, c):
    return frozenset([(m, c)])


def transpose(p):
    out = const(0)
    for m, c in p:
        if m == ():
            out = padd(out, mono(m, c))
        elif len(m) == 1 and not isinstance(m[0], str) and m[0][0] == 'T':
            out = padd(out, m[0][1], c)
        elif len(m) == 1 and not isinstance(m[0], str) and m[0][0] == 'mm':
            out = padd(out, mm(transpose(m[0][2]), transpose(m[0][1])), c)
        else:
            out = padd(out, atom(('T', mono(m, 1))), c)
    return out


def mm(p, q):
    out = const(0)
    for m, c in p:
        for n, e in q:
            out = padd(out, atom(('mm', mono(m, 1), mono(n, 1))), c * e)
    return out


class Case:
    """one weak ordering of the operands and zero"""
    def __init__(self, rank=None):
        self.rank = rank or {}

    def sign(self, p):
        """-1, 0, 1 or None"""
        c = isconst(p)
        if c is not None:
            return (c > 0) - (c < 0)
        ms = sorted(p, key=repr)
        if len(ms) == 1:
            m, c = ms[0]
            s = (c > 0) - (c < 0)
            for a in m:
                if a not in self.rank:
                    return None
                r = self.rank[a]
                s *= (r > 0) - (r < 0)
            return s
        if len(ms) == 2:
            (m, c), (n, e) = ms
            if c == -e and len(m) == len(n) == 1 and m[0] in self.rank and n[0] in self.rank:
                d = self.rank[m[0]] - self.rank[n[0]]
                return ((d > 0) - (d < 0)) * (1 if c > 0 else -1)
        ss = {self.sign(frozenset([x])) for x in ms}
        if None not in ss and not {1, -1} <= ss:
            return max(ss) if 1 in ss else min(ss)
        return None


# ---------- what operators mean, by name
def S_lt(C, a, b):
    s = C.sign(padd(a, b, -1))
    return const(int(s < 0)) if s is not None else atom(('less', a, b))


def S_eq(C, a, b):
    d = padd(a, b, -1)
    s = C.sign(d)
    if s is not None:
        return const(int(s == 0))
    return atom(('equal', *sorted((a, b), key=repr)))


def S_not1(C, a):
    return padd(const(1), a, -1)


def S_msb(C, a):
    s = C.sign(a)
    return const(int(s < 0)) if s is not None else atom(('msb', a))


def S_mux(C, p, a, b):
    return padd(b, pmul(p, padd(a, b, -1)))


def S_min(C, a, b):
    return S_mux(C, S_lt(C, a, b), a, b)


def S_max(C, a, b):
    return S_mux(C, S_lt(C, b, a), a, b)


def S_abs(C, a):
    return S_mux(C, S_msb(C, a), pneg(a), a)


def S_sign(C, a):
    return padd(const(1), S_msb(C, a), -2)


def S_lsh(C, a, n):
    return pmul(a, const(1 << n)) if isinstance(n, int) and 0 <= n < 256 else atom(('lshift', a, n))


def U(name):
    return lambda C, *a: atom((name, *a))


def S_shift(name):
    return lambda C, a, n: a if n == 0 else atom((name, a, n))


ID = lambda C, a, *r: a
SEM = {
    'add': lambda C, a, b: padd(a, b), 'sub': lambda C, a, b: padd(a, b, -1), 'mul': lambda C, a, b: pmul(a, b), 'square': lambda C, a: pmul(a, a),
    'negate': lambda C, a: pneg(a), 'not': lambda C, a: padd(const(-1), a, -1), 'bitwise_not': lambda C, a: padd(const(-1), a, -1), 'logical_not': S_not1,
    'xor': lambda C, a, b: bxor(a, b), 'and': lambda C, a, b: band(a, b), 'or': lambda C, a, b: bor(a, b),
    'bitwise_xor': lambda C, a, b: bxor(a, b), 'bitwise_and': lambda C, a, b: band(a, b), 'bitwise_or': lambda C, a, b: bor(a, b),
    'equal': S_eq, 'not_equal': lambda C, a, b: padd(const(1), S_eq(C, a, b), -1), 'less': S_lt, 'greater': lambda C, a, b: S_lt(C, b, a),
    'less_equal': lambda C, a, b: padd(const(1), S_lt(C, b, a), -1), 'greater_equal': lambda C, a, b: padd(const(1), S_lt(C, a, b), -1),
    'msb': S_msb, 'mux': S_mux, 'select': S_mux, 'max': S_max, 'min': S_min, 'abs': S_abs, 'sign': S_sign,
    'clamp': lambda C, x, lo, hi: S_min(C, S_max(C, x, lo), hi), 'clamp_lower': lambda C, x, lo: S_max(C, x, lo), 'clamp_upper': lambda C, x, hi: S_min(C, x, hi),
    'mmul': lambda C, a, b: mm(a, b), 'matmul': lambda C, a, b: mm(a, b), 'transpose': lambda C, a, *r: transpose(a) if not r or r == (None,) else atom(('transpose', a, *r)),
    'tensordot': lambda C, a, b, *r: atom(('tensordot', a, b, *r)), 'conv2d': lambda C, a, b, *r: atom(('conv2d', a, b, *r)),
    'lshift': S_lsh, 'rshift': S_shift('rshift'), 'arshift': S_shift('arshift'),
    'left_shift': S_lsh, 'right_shift_logical': S_shift('rshift'), 'right_shift_arithmetic': S_shift('arshift'),
    'bitrev': U('bitrev'), 'atan2': U('atan2'), 'power': U('power'), 'pow': U('power'), 'div': U('div'), 'reciprocal': lambda C, a: atom(('div', const(1), a)), 'log1p': lambda C, a: atom(('log', padd(a, const(1)))), 'prefer_a': ID, 'prefer_b': ID, 'trunc': ID, 'cast_type': ID,
}
for _u in ('exp', 'log', 'log2', 'exp2', 'tanh', 'rsqrt', 'sqrt', 'sine', 'cosine', 'acos', 'asin', 'floor', 'ceil', 'erf'):
    SEM[_u] = U(_u)
SEM['logistic'] = SEM['sigmoid'] = U('logistic')
SEM['bitdeintl'], SEM['bitintl'] = U('bitdeintl'), U('bitintl')
# operators that decide an order, and those with operands that are 0 or 1
ORDER = {'equal', 'not_equal', 'less', 'greater', 'less_equal', 'greater_equal', 'msb', 'max', 'min', 'abs', 'sign', 'clamp', 'clamp_lower', 'clamp_upper'}
BITOPS = {'logical_not': (0,), 'select': (0,), 'mux': (0,)}
HLO_NAME = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Equal': 'equal', 'NotEqual': 'not_equal', 'Less': 'less', 'LessEqual': 'less_equal', 'Greater': 'greater', 'GreaterEqual': 'greater_equal',
            'Max': 'max', 'Min': 'min', 'And': 'bitwise_and', 'Or': 'bitwise_or', 'Xor': 'bitwise_xor', 'Div': 'div', 'Power': 'power', 'Atan2': 'atan2', 'Dot': 'matmul', 'Select': 'select', 'Clamp': 'clamp',
            'Neg': 'negate', 'Exp': 'exp', 'Log': 'log', 'Log1p': 'log1p', 'Floor': 'floor', 'Ceil': 'ceil', 'Abs': 'abs', 'Logistic': 'logistic', 'Tanh': 'tanh', 'Rsqrt': 'rsqrt', 'Sqrt': 'sqrt', 'Sine': 'sine',
            'Cosine': 'cosine', 'Acos': 'acos', 'Asin': 'asin', 'Reciprocal': 'reciprocal', 'Expm1': 'expm1', 'Not': 'Not', 'Sign': 'Sign'}
SEM['expm1'] = lambda C, a: padd(atom(('exp', a)), const(-1))
SUF = re.compile(r'^(.*?)_(?:[spvabm1]{1,3}|a2b|vvs|vvv)$')
CONV = re.compile(r'^_?[spvabm]2[spvabm]$')


def base(q):
    """operator name a function stands for, or None"""
    n = q.rsplit('::', 1)[-1]
    if q.startswith(HLO):
        return HLO_NAME.get(n)
    if q.startswith(HAL):
        if '::detail::' in q:
            return None
        for pre in ('i_', 'f_', '_', 'mixed_'):
            if n.startswith(pre):
                n = n[len(pre):]
                break
        if n.endswith('_impl'):
            n = n[:-5]
        m = SUF.match(n)
        if m and m.group(1) in SEM and n not in SEM:
            n = m.group(1)
        return n if n in SEM else None
    if q.startswith(MPC) and q.count('::') == 2:
        m = SUF.match(n)
        return m.group(1) if m and m.group(1) in SEM else None
    return None


CONVERSIONS = {'_2a', '_2b', 'dtype_cast', 'seal', 'reveal', 'stop_gradient', 'copy', '_cast_type', 'identity'}
CPP = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}
STD = {'exp': 'exp', 'log': 'log', 'log2': 'log2', 'log1p': 'log1p', 'exp2': 'exp2', 'sin': 'sine', 'cos': 'cosine', 'erf': 'erf', 'pow': 'power', 'atan2': 'atan2', 'acos': 'acos', 'asin': 'asin', 'sqrt': 'sqrt', 'tanh': 'tanh',
       'floor': 'floor', 'ceil': 'ceil'}
VIS = {'P': 'isPublic', 'V': 'isPrivate', 'S': 'isSecret'}
NA = ('na',)


def V(p, vis=None, kind=None, bit=False):
    return ('v', p, vis, kind, bit)


class Alg(AI):
    def __init__(self, P):
        super().__init__(P)
        self.case = Case()
        self.chain, self.memo = [], {}
        self.steps = 0

    def join(self, a, b):
        if a == b:
            return a
        if a == NA:
            return b
        if b == NA:
            return a
        if a is not None and b is not None and a[0] == b[0] == 'v' and a[1] == b[1]:
            return V(a[1], a[2] if a[2] == b[2] else None, a[3] if a[3] == b[3] else None, a[4] and b[4])
        return None

    def other(self, n, env):
        k = n[0]
        if k == 'enum':
            nm = n[2].rsplit('::', 1)[-1]
            return ('d', nm) if nm.startswith('DT_') else ('e', nm)
        if k == 'int':
            return ('n', int(n[2]))
        if k == 'flt':
            try:
                f = float(n[2])
            except (TypeError, ValueError):
                return None
            return ('n', int(f) if f == int(f) else f)
        if k == 'fref':
            return ('f', n[2])
        if k == 'str':
            return ('s', n[2])
        if k == 'glob':
            return NA if n[2].rsplit('::', 1)[-1] in ('NotAvailable', 'nullopt') else None
        return NotImplemented

    def ev(self, n, env):
        if n is None:
            return None
        k = n[0]
        if k == 'bind':
            return env.get(('b', n[2], n[3]))
        if k == 'cast':
            return self.ev(n[3], env)
        if k == 'mem':
            return self.ev(n[2], env) if isinstance(n[2], list) else None
        if k == 'un':
            v = self.ev(n[3], env)
            if n[2] == '-' and v is not None and v[0] == 'n':
                return ('n', -v[1])
            return v if n[2] in ('*', '&') else None
        if k == 'bin':
            a, b = self.ev(n[3], env), self.ev(n[4], env)
            if a and b and 'v' in (a[0], b[0]) and {a[0], b[0]} <= {'v', 'n'} and n[2] in CPP:
                x, y = (const(v[1]) if v[0] == 'n' else v[1] for v in (a, b))
                return V(SEM[CPP[n[2]]](self.case, x, y)) if x is not None and y is not None else None
            if a and b and a[0] == b[0] == 'n':
                try:
                    return {'+': lambda: ('n', a[1] + b[1]), '-': lambda: ('n', a[1] - b[1]), '*': lambda: ('n', a[1] * b[1])}.get(n[2], lambda: None)()
                except TypeError:
                    return None
            return None
        if k == 'lam':
            return ('lam', id(n), n, dict(env))
        return super().ev(n, env)

    def listval(self, n, vs, env):
        if len(vs) == 1:
            return vs[0]
        return None

    # ---- calls
    def prim(self, b, f, args):
        """apply the operator named b"""
        vals = [a for a, t in zip(args, f.p) if is_val(t)]
        extra = [a for a, t in zip(args, f.p) if not is_val(t) and 'SPUContext' not in t and 'SignType' not in t]
        if b in ('trunc', 'cast_type', 'prefer_a', 'prefer_b', 'conv2d'):
            extra = []
        if any(v is None or v[0] != 'v' or v[1] is None for v in vals):
            return V(None)
        ex = []
        for e in extra:
            if e is None and b in ('conv2d', 'tensordot', 'transpose'):
                ex.append(None)
            elif e is None:
                return V(None)
            else:
                ex.append(e[1] if e[0] in ('n', 'y') else e)
        try:
            p = SEM[b](self.case, *[v[1] for v in vals], *ex)
        except TypeError:
            return V(None)
        return V(p, self.vis(f, vals), None, b in ('equal', 'less', 'msb', 'not_equal'))

    def vis(self, f, vals):
        s = sig(f.name)
        if s is not None:
            r = s[1]
            if len(r) == 1:
                return next(iter(r))
            return 'S' if r <= {'A', 'B'} else None
        vs = [v[2] for v in vals]
        if any(v in ('A', 'B', 'S') for v in vs):
            return 'S'
        if vs and all(v == 'P' for v in vs):
            return 'P'
        if 'V' in vs and all(v in ('P', 'V') for v in vs) and vs.count('V') == 1:
            return 'V'
        return None

    def kind(self, v, d):
        if v is None or v[0] != 'v':
            return V(None, None, d[1] if d is not None and d[0] == 'd' else None)
        return V(v[1], v[2], d[1] if d is not None and d[0] == 'd' else None, v[4])

    def call(self, n, f, obj, args, env):
        k = n[0]
        self.steps += 1
        if f is None:
            t = n[3] if k == 'call' and isinstance(n[3], list) else None
            v = self.ev(t, env) if t is not None else None
            return self.apply(n, v, args, env) if v is not None else None
        q, name = f.q, f.name
        if k == 'op':
            if n[2] == '()' and args and args[0] is not None and args[0][0] in ('f', 'lam'):
                return self.apply(n, args[0], args[1:], env)
            return args[0] if n[2] in ('*', '->') and args else None
        if k == 'mcall':
            if q.startswith('spu::Value::'):
                if name == 'setDtype':
                    r = self.kind(obj, args[0] if args else None)
                    b = strip(n[3])
                    while b is not None and b[0] == 'op' and b[2] in ('*', '->') and b[4]:
                        b = strip(b[4][0])
                    if b is not None and b[0] == 'var':
                        env[b[2]] = r
                    return r
                if name == 'dtype':
                    return ('d', obj[3]) if obj is not None and obj[0] == 'v' and obj[3] else None
                if name in ('data', 'clone'):
                    return obj
                return None
            if q.startswith('spu::NdArrayRef::'):
                return obj if name in ('clone', 'reshape') else None
            if name in ('value', 'operator*', 'value_or'):
                return obj
            if f.repo and f.body is not None and not f.dep and is_val(f.r):
                return self.inline(f, args)
            return None
        if k == 'new':
            t = K.norm_type(n[2] or '')
            if args and args[0] is not None and args[0][0] == 's':
                return args[0]
            if t == 'spu::Value':
                if len(n[4]) == 2:
                    return self.kind(args[0], args[1])
                return args[0] if len(n[4]) == 1 else None
            if ('optional' in t or 'OptionalAPI' in t) and len(n[4]) == 1:
                return args[0]
            if 'nullopt' in t or ('optional' in t and not n[4]):
                return NA
            return args[0] if len(args) == 1 else None
        if k != 'call':
            return None
        if name == 'dynDispatch' and len(args) > 1:
            s = args[1]
            nm = s[1] if s is not None and s[0] == 's' else None
            vals = [a for a in args[2:]]
            if nm is None:
                return V(None)
            return self.dispatch(nm, vals)
        if q.startswith('std::') and name in STD and args and all(a is not None and a[0] in ('v', 'n') for a in args):
            ps = [const(a[1]) if a[0] == 'n' else a[1] for a in args]
            return V(SEM[STD[name]](self.case, *ps)) if None not in ps else V(None)
        if f.repo and f.body is not None and is_val(f.r) and args and args[-1] is not None and args[-1][0] == 'lam' and sum(a is not None and a[0] == 'v' for a in args) in (1, 2) and q.startswith('spu::kernel::hal::(anon)'):
            r = self.pointwise(n, f, args)
            if r is not None:
                return r
        if q in ('std::max', 'std::min') and len(args) == 2 and all(a is not None and a[0] == 'd' for a in args):
            o = self.order()
            a, b = args[0][1], args[1][1]
            if a in o and b in o:
                return ('d', (max if name == 'max' else min)(a, b, key=o.index))
            return None
        if name in ('_constant', 'constant', '_make_p', 'make_p') and q.startswith(('spu::kernel::', MPC)):
            v = args[1] if len(args) > 1 else None
            c = v[1] if v is not None and v[0] == 'n' else None
            if isinstance(c, int) and c >= 1 << 63:
                c -= 1 << (128 if c >= 1 << 127 else 64)
            d = args[2] if len(args) > 2 and args[2] is not None and args[2][0] == 'd' else None
            return V(const(c) if c is not None else None, 'P', d[1] if d else None)
        if q == HAL + 'zeros':
            return V(const(0), 'P', args[1][1] if len(args) > 1 and args[1] is not None and args[1][0] == 'd' else None)
        if CONV.match(name) or name in CONVERSIONS:
            if q.startswith(('spu::kernel::', MPC)) and is_val(f.r) and args:
                v = next((a for a, t in zip(args, f.p) if is_val(t)), None)
                if v is None or v[0] != 'v':
                    return V(None)
                if name == 'dtype_cast':
                    return V(v[1], v[2], args[2][1] if args[2] is not None and args[2][0] == 'd' else None, v[4])
                vis = {'_2a': 'A', '_2b': 'B'}.get(name) or (name[-1].upper() if CONV.match(name) else v[2])
                return V(v[1], vis if vis != 'S' or name[-1] == 's' else v[2], v[3] if name.startswith('_cast') else None, v[4])
        b = base(q)
        if b is not None and b not in ('Not', 'Sign') and is_val(f.r) and f is not self.top and not (f.name.endswith('_impl') and f.body is not None):
            r = self.prim(b, f, args)
            if q.startswith(HAL) and not name.startswith('_') and r[1] is not None:
                r = V(r[1], r[2], self.res_kind(b, f, args), r[4])
            return r
        if f.repo and f.body is not None and not f.dep:
            return self.inline(f, args)
        return V(None) if is_val(f.r) else None

    def pointwise(self, n, f, args):
        """a function that stores fn(elements of its tensors) for the functional argument fn"""
        fp = f.params[len(args) - 1]
        decl, cap = {}, {}
        for x in walk(f.body):
            if x[0] == 'decl':
                for y in x[2]:
                    decl[y[0]] = y[1]
            if x[0] == 'lam':
                for v, _, e in x[3]:
                    if isinstance(v, int) and e is not None:
                        cap.setdefault(v, e)

        def root(e, d=0):
            e = strip(e)
            while e is not None and d < 40:
                d += 1
                if e[0] == 'var':
                    if e[2] in f.params:
                        return f.params.index(e[2])
                    nx = decl.get(e[2]) if decl.get(e[2]) is not None else cap.get(e[2])
                    if nx is None or nx is e:
                        return None
                    e = strip(nx)
                elif e[0] in ('cast', 'un', 'mcall'):
                    e = strip(e[3])
                elif e[0] in ('op', 'call', 'new') and e[4]:
                    e = strip(e[4][0])
                else:
                    return None
            return None
        hits = []
        for x in walk(f.body):
            c = None
            if x[0] == 'op' and x[2] == '()' and x[4] and root(x[4][0]) == len(args) - 1:
                c = x[4][1:]
            elif x[0] == 'call' and callee(x) is None and isinstance(x[3], list) and root(x[3]) == len(args) - 1:
                c = x[4]
            if c is not None:
                hits.append(tuple(root(a) for a in c))
        if not hits or len(set(hits)) != 1 or any(h is None or args[h] is None or args[h][0] != 'v' for h in hits[0]):
            return None
        r = self.apply(n, args[-1], [args[h] for h in hits[0]], {})
        return V(r[1], 'P') if r is not None and r[0] == 'v' else None

    def dispatch(self, nm, vals):
        m = SUF.match(nm)
        b = m.group(1) if m else nm
        vs = [v for v in vals if v is not None and v[0] == 'v']
        s = sig(nm)
        vis = None
        if s is not None:
            vis = next(iter(s[1])) if len(s[1]) == 1 else 'S' if s[1] <= {'A', 'B'} else None
        if CONV.match(nm) or b == 'cast_type':
            return V(vs[0][1], vis) if vs else V(None)
        if b in ('make', 'rand'):
            return V(None, vis)
        if b not in SEM or any(v is None for v in vals) or any(v[1] is None for v in vs):
            return V(None, vis)
        ex = [v[1] for v in vals if v[0] in ('n', 'y')] if b not in ('trunc', 'conv2d') else []
        try:
            return V(SEM[b](self.case, *[v[1] for v in vs], *ex), vis)
        except TypeError:
            return V(None, vis)

    def order(self):
        for k, e in self.P.enums.items():
            if k == 'spu::DataType' or k.endswith('::DataType'):
                return [x[0].rsplit('::', 1)[-1] for x in sorted((e['v'] if isinstance(e, dict) and 'v' in e else e), key=lambda x: int(x[1]))]
        return []

    def res_kind(self, b, f, args):
        """element type of a polymorphic operator's result"""
        ks = [a[3] for a, t in zip(args, f.p) if is_val(t) and a is not None and a[0] == 'v']
        if b in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
            return 'DT_I1'
        if b == 'select':
            return ks[1] if len(ks) > 1 else None
        if b == 'sign':
            return 'DT_I8'
        if ks and all(k == ks[0] for k in ks):
            return ks[0]
        o = self.order()
        if all(k in o for k in ks) and ks:
            return max(ks, key=o.index)
        return None

    def inline(self, f, args):
        if len(self.chain) > 12 or f in self.chain or f.body is None:
            return V(None) if is_val(f.r or '') else None
        self.chain.append(f)
        env = {p: a for p, a in zip(f.params, args) if a is not None}
        sv = self.fn
        rets, end = self.run(f, env)
        self.fn = sv
        self.chain.pop()
        r = 'none'
        for _, v, _ in rets:
            if v == NA and r != 'none':
                continue
            r = v if r == 'none' or r == NA else self.join(r, v)
        if r == 'none':
            r = None if end is not None else 'bot'
        return r

    def apply(self, n, v, args, env):
        if v[0] == 'f' and v[1] is not None and not isinstance(v[1], str):
            f = v[1]
            b = base(f.q)
            if b is not None and b not in ('Not', 'Sign') and is_val(f.r):
                return self.prim(b, f, args)
            return self.inline(f, args) if f.body is not None else None
        if v[0] == 'lam':
            lam, cenv = v[2], v[3]
            if len(self.chain) > 12:
                return None
            e = dict(cenv)
            for p, a in zip(lam[2], args):
                e.pop(p, None)
                if a is not None and isinstance(p, int):
                    e[p] = a
            sv = (self.rets, self.brk)
            self.rets, self.brk = [], []
            self.chain.append(self.fn)
            self.ex(lam[4], e)
            self.chain.pop()
            r = 'none'
            for _, x, _ in self.rets:
                r = x if r == 'none' else self.join(r, x)
            self.rets, self.brk = sv
            return None if r == 'none' else r
        return None

    # ---- conditions
    def know(self, n, env):
        """True/False when the condition is decided, else None"""
        f = callee(n)
        if f is None:
            if n[0] == 'bin' and n[2] in ('==', '!=', '<', '>', '<=', '>='):
                return self.cmp(n[2], self.ev(n[3], env), self.ev(n[4], env), n[3], n[4], env)
            if n[0] == 'var':
                v = env.get(n[2])
                if v is not None and v[0] == 'n':
                    return bool(v[1])
            return None
        if n[0] == 'mcall' and f.q.startswith('spu::Value::'):
            v = self.ev(n[3], env)
            if v is None or v[0] != 'v':
                return None
            nm = f.name
            if nm == 'isComplex':
                return False
            if nm in ('isInt', 'isFxp'):
                if v[3] is None:
                    return None
                return (v[3].startswith('DT_F')) == (nm == 'isFxp')
            if nm in ('isPublic', 'isPrivate', 'isSecret'):
                if v[2] is None:
                    return None
                return {'P': 'isPublic', 'V': 'isPrivate'}.get(v[2], 'isSecret') == nm
            return None
        if n[0] == 'mcall' and f.name == 'isa':
            b = strip(n[3])
            v = None
            if b is not None and b[0] == 'mcall' and callee(b) is not None and callee(b).name == 'storage_type':
                v = self.ev(b[3], env)
            if v is None or v[0] != 'v' or v[2] is None:
                return None
            t = ' '.join(f.t or ())
            want = {'spu::Public': 'P', 'spu::Private': 'V', 'spu::Secret': 'S', 'spu::AShare': 'A', 'spu::BShare': 'B'}.get(t)
            if want is None:
                return None
            if want == 'S':
                return v[2] in ('A', 'B', 'S')
            if v[2] == 'S' and want in ('A', 'B'):
                return None
            return v[2] == want
        if n[0] in ('bin', 'op') and n[2] in ('==', '!=') and n[0] == 'op':
            return self.cmp(n[2], self.ev(n[4][0], env), self.ev(n[4][1], env), n[4][0], n[4][1], env)
        return None

    def cmp(self, op, a, b, na, nb, env):
        if a is not None and b is not None and a[0] == b[0] and a[0] in ('n', 'd', 'e'):
            if a[0] in ('d', 'e') and op in ('==', '!='):
                return (a[1] == b[1]) == (op == '==')
            if a[0] == 'n':
                return {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]
        for x, y in ((na, b), (nb, a)):
            # the width a boolean sharing declares
            s = strip(x)
            w = s
            if y == ('n', 1) and op in ('==', '!='):
                v = self.nbits_of(w, env)
                if v is not None:
                    return v[4] == (op == '==')
        return None

    def nbits_of(self, s, env):
        while s is not None and s[0] == 'cast':
            s = strip(s[3])
        if s is None:
            return None
        f = callee(s)
        if f is None:
            return None
        if f.name == 'nbits' and s[0] == 'mcall':
            b = strip(s[3])
            while b is not None and callee(b) is not None and callee(b).name in ('as', 'storage_type') and b[0] == 'mcall':
                b = strip(b[3])
            v = self.ev(b, env) if b is not None else None
            return v if v is not None and v[0] == 'v' and v[2] == 'B' else None
        if f.body is not None and f.repo and len(s[4]) == 1:
            rs = [x for x in self.rets_of(f)]
            if len(rs) == 1:
                v = self.ev(s[4][0], env)
                return self.nbits_of(strip(rs[0]), {f.params[0]: v} if v is not None else {})
        return None

    def rets_of(self, f):
        return [x[2] for x in walk(f.body) if x[0] == 'ret']

    def refine(self, n, env, want):
        r = self.know(n, env)
        if r is not None:
            return env if r == want else None
        f = callee(n)
        if n[0] == 'call' and f is not None and f.repo and (f.r or '') == 'bool' and f.body is not None and len(self.chain) < 12:
            rs = self.rets_of(f)
            if len(rs) == 1:
                sub = {p: v for p, v in zip(f.params, [self.ev(a, env) for a in n[4]]) if v is not None}
                self.chain.append(f)
                a, b = self.split(rs[0], sub)
                self.chain.pop()
                r = a if want else b
                return None if r is None else env
        if n[0] == 'mcall' and f is not None and f.name == 'has_value':
            v = self.ev(n[3], env)
            if v == NA:
                return None if want else env
        return env


def weak_orders(names):
    """rank maps: weak orderings of names and zero, up to equality of order type"""
    names = list(names)
    k = len(names)
    seen = set()
    for rs in itertools.product(range(-k, k + 1), repeat=k):
        # canonical form: compress the distinct values around zero
        pos = sorted({r for r in rs if r > 0})
        neg = sorted({r for r in rs if r < 0}, reverse=True)
        t = tuple(pos.index(r) + 1 if r > 0 else -(neg.index(r) + 1) if r < 0 else 0 for r in rs)
        if t not in seen:
            seen.add(t)
            yield dict(zip(names, t))
