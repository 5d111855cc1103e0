"""Per-role projection: the sequence of communication events each party's copy of a function performs.

The control flow of a function is followed once per party rank. Only ranks, world size, literals, enumerators and closures have
known values; everything else is an opaque term built the same way at every party, so a branch on it takes the same direction at all
parties (each direction is examined). Loops whose bounds are not small constants are followed once. Nothing numeric is computed."""
import re
import program
from program import callee, strip, walk, kids, show
import kernels as K
import flow


RK = re.compile(r'^p:\w*(rank|owner)\w*$', re.I)


RDEP = re.compile(r'\br\d\b')
# results that have the shape and element type of their first argument
SAME = re.compile(r'^\((?:spu::mpc::ring_(?!zeros|ones|rand|randbit|mmul|sum|concat)\w+|spu::NdArrayRef::(?:clone|as)|wr|\+\+) ')
SAME_T = re.compile(r'^\((?:spu::mpc::ring_(?!zeros|ones|rand|randbit)\w+|spu::NdArrayRef::(?:clone|slice|reshape|broadcast_to|transpose)|wr|\+\+) ')
SHAPE = {'shape', 'numel', 'eltype', 'ndim'}


def first_arg(s):
    """first operand of a printed application"""
    i = s.index(' ') + 1
    d = 0
    for j in range(i, len(s)):
        if s[j] in '([':
            d += 1
        elif s[j] in ')]':
            if d == 0:
                return s[i:j], s[j:]
            d -= 1
        elif s[j] == ' ' and d == 0:
            return s[i:j], s[j + 1:]
    return s[i:], ''


class RI(int):
    """an integer that depends on the party's rank"""


class Lam:
    __slots__ = ('n', 'env', 'fn')

    def __init__(self, n, env, fn):
        self.n, self.env, self.fn = n, env, fn


class Sym(str):
    """opaque term"""
    __slots__ = ()


class Lst(tuple):
    """a literal sequence"""


class Obj:
    """an object whose fields are tracked by name"""
    def __init__(self, t, agg=False):
        self.t, self.f, self.agg = t, {}, agg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Thrown(Exception):
    pass


class Giveup(Exception):
    pass


PRIM = {}
_C = 'spu::mpc::Communicator::'
for _n in 'allReduce gather broadcast reduce rotate sendAsync recv bcast rotateR'.split():
    PRIM[_C + _n] = _n
for _n in 'AllGather Gather Broadcast Barrier Scatter AllGatherImpl'.split():
    PRIM['yacl::link::' + _n] = _n
for _n in 'SendAsync Recv Send SendAsyncThrottled SendThrottled'.split():
    PRIM['yacl::link::Context::' + _n] = _n
OT = re.compile(r'^(Send|Recv)(CMCC|RMRC|RMCC|CAMCC|CAMCC_Collapse|Vole)$')


def ot_prim(f):
    """one side of a two-party oblivious transfer: (side, flavour)"""
    m = OT.match(f.name) if f is not None else None
    if m and f.cls and re.search(r'Ferret\w*$|Ot\w*Interface$', f.cls.split('<')[0]):
        return m.groups()
    return None


COLL = {'allReduce', 'gather', 'broadcast', 'reduce', 'bcast', 'AllGather', 'Gather', 'Broadcast', 'Barrier', 'Scatter'}


class Ev(tuple):
    """(kind, peer or None, tag or None, elem or None, where, fn)"""


def event_fns(P, extra=None):
    """functions from which an event can be reached by statically resolved calls"""
    prim = dict(PRIM)
    if extra:
        prim.update(extra)
    calls, has = {}, set()
    for f in P.funcs:
        cs = set()
        for n in walk(f.body):
            c = callee(n)
            if c is not None:
                if c.q in prim or ot_prim(c):
                    has.add(f)
                elif c.repo and c.body is not None:
                    cs.add(c)
            if n[0] == 'fref' and n[2].body is not None:
                cs.add(n[2])
        calls[f] = cs
    rev = {}
    for f, cs in calls.items():
        for c in cs:
            rev.setdefault(c, set()).add(f)
    reach, st = set(has), list(has)
    while st:
        for g in rev.get(st.pop(), ()):
            if g not in reach:
                reach.add(g)
                st.append(g)
    return reach, rev, has


class Party:
    def __init__(self, S, rank, n, oracle):
        self.S, self.rank, self.n, self.oracle = S, rank, n, oracle
        self.ev = []
        self.depth = 0
        self.steps = 0
        self.fn = None
        self.stack = []

    # ---- terms
    def key(self, v):
        if isinstance(v, Lam):
            return 'λ'
        if isinstance(v, RI):
            return f'r{int(v)}'
        if isinstance(v, Lst):
            return '[' + ' '.join(self.key(x) for x in v) + ']'
        if isinstance(v, Obj):
            return f'obj:{v.t}'
        return str(v) if v is not None else '?'

    def sym(self, *parts):
        s = '(' + ' '.join(self.key(p) for p in parts) + ')'
        if len(s) > 400:
            import hashlib
            t = ('RECV' if 'RECV' in s else '') + (' r0' if RDEP.search(s) else '')
            s = f'#{t}{hashlib.md5(s.encode()).hexdigest()[:16]}'
        return Sym(s)

    def ranklike(self, v):
        return isinstance(v, Sym) and (RK.match(v) is not None or v.startswith('(spu::Private::owner '))

    def force(self, v, env=None):
        """integer value of a term that denotes a party"""
        if isinstance(v, Sym):
            x = self.known(v)
            if x is not None:
                return RI(x)
            b, off, mod = self.S.lin.get(v, (v, 0, False))
            x = self.oracle.choose('rank', b, list(range(self.n))) + off
            return RI(x % self.n if mod else x)
        return v

    def known(self, v):
        b, off, mod = self.S.lin.get(v, (v, 0, False))
        x = self.oracle.known(b)
        return None if x is None else (x + off) % self.n if mod else x + off

    # ---- expressions
    def e(self, n, env):
        self.steps += 1
        if self.steps > 400000:
            raise Giveup('too many steps')
        n0 = n
        if n is None:
            return None
        k = n[0]
        if k == 'copy':
            v = self.e(n[2], env)
            if isinstance(v, Obj) and v.agg:
                o = Obj(v.t, True)
                o.f = dict(v.f)
                return o
            return v
        if k == 'int':
            return int(n[2])
        if k == 'str':
            return n[2]
        if k == 'enum':
            return 'E:' + n[2]
        if k == 'null':
            return 0
        if k in ('var', 'bind'):
            return env.get(n[2], Sym(f'u{n[2]}'))
        if k == 'lam':
            return Lam(n, env, self.fn)
        if k == 'this':
            return env.get('this', Sym('this'))
        if k == 'glob':
            if isinstance(n[4], (int, str)) and n[4] is not None:
                try:
                    return int(n[4])
                except ValueError:
                    return n[4]
            return self.S.glob(n) if self.S.glob(n) is not None else Sym(n[2])
        if k == 'mem':
            b = self.e(n[2], env)
            f = str(n[3]).rsplit('::', 1)[-1]
            if isinstance(b, Obj):
                return b.f.get(f, Sym(f'fld {b.t}.{f}'))
            if isinstance(b, Sym) and ('fld', b, f) in env:
                return env[('fld', b, f)]
            return self.S.member(self, b, f, n) or self.sym('.', b, f)
        if k == 'cast':
            v = self.e(n[3], env)
            return v
        if k == 'un':
            v = self.e(n[3], env)
            op = n[2]
            if op == '!' and not isinstance(v, (Sym, Lam, type(None), str)):
                return not v
            if op == '-' and isinstance(v, int):
                return type(v)(-v) if isinstance(v, RI) else -v
            if op in ('++', '--', 'p++', 'p--', '++p') or '++' in op or '--' in op:
                t = strip(n[3])
                if isinstance(v, int) and t[0] == 'var':
                    d = 1 if '+' in op else -1
                    env[t[2]] = RI(v + d) if isinstance(v, RI) else v + d
                    return v
                if t is not None and t[0] == 'var':
                    env[t[2]] = self.sym('++', v)
                return v
            if op in ('*', '&'):
                return v
            return self.sym(op, v)
        if k == 'bin':
            return self.binop(n[2], n[3], n[4], env)
        if k == 'asg':
            r = self.e(n[4], env)
            if n[2] != '=':
                r = self.binval(n[2][:-1], self.e(n[3], env), r)
            self.assign(n[3], r, env)
            return r
        if k == 'cond':
            c = self.e(n[2], env)
            d = self.decide(c, n, env, quiet=not (self.hasev(n[3]) or self.hasev(n[4])))
            if d is None:
                a, b = self.e(n[3], env), self.e(n[4], env)
                return a if type(a) is type(b) and a == b else self.sym('?', c, a, b)
            return self.e(n[3] if d else n[4], env)
        if k == 'list':
            vs = [self.e(x, env) for x in n[2]]
            c = self.S.agg(n[3])
            if c is not None and len(vs) >= 1:
                o = Obj(c['q'], True)
                for fl, v in zip(c['fields'], vs):
                    o.f[fl[0]] = v
                return o
            return vs[0] if len(vs) == 1 else Lst(vs)
        if k == 'idx':
            a, b = self.e(n[2], env), self.e(n[3], env)
            if isinstance(a, Lst) and isinstance(b, int) and 0 <= b < len(a):
                return a[b]
            return self.sym('idx', a, b)
        if k in ('call', 'mcall', 'op', 'new'):
            return self.call(n, env)
        if k == 'throw':
            raise Thrown(self.fn, n[1])
        if k == 'fref':
            return Sym('&' + n[2].q) if len(n) < 4 else Sym('&' + n[2].q)
        if k == 'flt':
            return Sym(str(n[2]))
        if k in ('zero', 'sizeof'):
            return Sym(f'{k} {n[2]}') if k == 'sizeof' else 0
        vs = [self.e(x, env) for x in kids(n) if x is not None and x[0] not in STMT]
        return self.sym(k, n[2] if len(n) > 2 and isinstance(n[2], str) else '', *vs)

    def binop(self, op, a, b, env):
        if op in ('&&', '||'):
            x = self.e(a, env)
            if isinstance(x, (int, bool)) and not isinstance(x, Sym):
                if op == '&&' and not x:
                    return False if not isinstance(x, RI) else RI(0)
                if op == '||' and x:
                    return True if not isinstance(x, RI) else RI(1)
                return self.e(b, env)
            y = self.e(b, env)
            if isinstance(y, (int, bool)) and not isinstance(y, Sym):
                if op == '&&' and not y:
                    return y
                if op == '||' and y:
                    return y
                return x
            return self.sym(op, x, y)
        if op == ',':
            self.e(a, env)
            return self.e(b, env)
        return self.binval(op, self.e(a, env), self.e(b, env))

    def binval(self, op, x, y):
        if isinstance(x, RI) and isinstance(y, Sym) and op in ('==', '!=', '<', '>', '<=', '>='):
            y = self.force(y)
        elif isinstance(y, RI) and isinstance(x, Sym) and op in ('==', '!=', '<', '>', '<=', '>='):
            x = self.force(x)
        if isinstance(x, Sym) and self.known(x) is not None:
            x = RI(self.known(x))
        if isinstance(y, Sym) and self.known(y) is not None:
            y = RI(self.known(y))
        if self.ranklike(x) and isinstance(y, int):
            x = self.force(x)
        elif self.ranklike(y) and isinstance(x, int):
            y = self.force(y)
        if isinstance(x, str) and isinstance(y, str) and not isinstance(x, Sym) and not isinstance(y, Sym) and op in ('==', '!='):
            return (x == y) == (op == '==')
        if isinstance(x, int) and isinstance(y, int):
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x // y, '%': lambda: x % y, '==': lambda: x == y, '!=': lambda: x != y,
                     '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y if y < 256 else None, '>>': lambda: x >> y}.get(op, lambda: None)()
            except (ZeroDivisionError, ValueError):
                r = None
            if r is None:
                return self.sym(op, x, y)
            if isinstance(x, RI) or isinstance(y, RI):
                return RI(r)
            return r
        if op in ('==', '!=') and isinstance(x, Sym) and isinstance(y, Sym) and x == y:
            return op == '=='
        r = self.sym(op, x, y)
        L = self.S.lin
        if isinstance(x, Sym) and isinstance(y, int):
            b, off, mod = L.get(x, (x, 0, False))
            if op in '+-' and not mod:
                L[r] = (b, off + (y if op == '+' else -y), False)
            elif op == '%' and y == self.n and not mod:
                L[r] = (b, off, True)
        elif op == '+' and isinstance(x, int) and isinstance(y, Sym):
            b, off, mod = L.get(y, (y, 0, False))
            if not mod:
                L[r] = (b, off + x, False)
        return r

    def assign(self, t, v, env):
        t = strip(t)
        if t is None:
            return
        if t[0] in ('var', 'bind'):
            env[t[2]] = v
            return
        if t[0] == 'mem':
            b = self.e(t[2], env)
            if isinstance(b, Obj):
                b.f[str(t[3]).rsplit('::', 1)[-1]] = v
            elif isinstance(b, Sym):
                env[('fld', b, str(t[3]).rsplit('::', 1)[-1])] = v
            return
        for x in kids(t):
            if x is not None and x[0] not in STMT:
                self.e(x, env)
        b = t
        while b is not None and b[0] in ('idx', 'op', 'mcall', 'un', 'mem'):
            b = strip(b[2] if b[0] in ('idx', 'mem') else b[3] if b[0] in ('mcall', 'un') else (b[4][0] if b[4] else None))
        if b is not None and b[0] == 'var' and isinstance(env.get(b[2]), Lst):
            env[b[2]] = self.sym('wr', env[b[2]], v)
        elif b is not None and b[0] == 'var' and isinstance(env.get(b[2]), Sym) and isinstance(v, Sym) and 'RECV' in v and 'RECV' not in env[b[2]]:
            env[b[2]] = self.sym('wr', env[b[2]], 'RECV')

    def decide(self, c, n, env, quiet=False):
        """direction of a branch; None = do not care (both sides are free of events)"""
        if isinstance(c, Sym) and self.known(c) is not None:
            c = self.known(c)
        if isinstance(c, (int, bool)):
            return bool(c)
        if isinstance(c, Sym):
            if quiet:
                return None
            if 'RECV' in c:
                return False
            neg = 0
            while c.startswith('(! '):
                c, neg = Sym(c[3:-1]), neg + 1
            return bool(self.oracle.choose('cond', c, [True, False])) ^ bool(neg % 2)
        return None if quiet else bool(self.oracle.choose('cond', Sym(self.key(c)), [True, False]))

    def hasev(self, n):
        return self.S.has_event(n)

    # ---- calls
    def call(self, n, env):
        k = n[0]
        f = callee(n)
        if k == 'op':
            if n[2] == '()' and n[4]:
                o = self.e(n[4][0], env)
                args = [self.e(a, env) for a in n[4][1:]]
                if isinstance(o, Lam):
                    return self.apply(o, args)
                if f is not None and f.body is not None and f in self.S.reach:
                    return self.inline(f, args, n, env)
                return self.sym('()', o, *args)
            if n[2] in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '&', '|', '^') and len(n[4]) == 2:
                return self.binval(n[2], self.e(n[4][0], env), self.e(n[4][1], env))
            if n[2] == '=' and len(n[4]) == 2:
                v = self.e(n[4][1], env)
                self.assign(n[4][0], v, env)
                return v
            vs = [self.e(a, env) for a in n[4]]
            if n[2] in ('->', '*') and len(vs) == 1:
                return vs[0]
            if n[2] == '[]' and len(vs) == 2 and isinstance(vs[0], Lst) and isinstance(vs[1], int) and 0 <= vs[1] < len(vs[0]):
                return vs[0][vs[1]]
            if f is not None and f.repo and f.body is not None and f in self.S.reach:
                return self.inline(f, vs, n, env)
            return self.sym('op' + n[2], *vs)
        if k == 'new':
            args = [self.e(a, env) for a in n[4]]
            cl = self.S.evclass(n[2])
            if cl is not None and f is not None:
                o = Obj(cl)
                if len(args) == 1 and isinstance(args[0], Obj) and args[0].t == cl:
                    return args[0]
                if f.body is not None:
                    self.inline(f, args, n, env, o)
                return o
            if len(args) == 1 and isinstance(args[0], Obj):
                return args[0]
            if not args and self.S.agg(n[2]) is not None:
                return Obj(self.S.agg(n[2])['q'], True)
            if f is not None and f.repo and f.body is not None and f in self.S.reach:
                self.inline(f, args, n, env)
                return Sym(f'new {str(n[2])[:60]}')
            if len(args) == 1 and isinstance(args[0], Lst):
                return args[0]
            args = [a for a in args if not (isinstance(a, Sym) and 'std::allocator' in a)]
            if len(args) == 1 and not str(n[2]).startswith(('std::vector', 'std::array')):
                return args[0]
            return self.sym('new', str(n[2])[:60], *args)
        if f is None:
            o = self.e(n[3], env) if isinstance(n[3], list) else None
            args = [self.e(a, env) for a in n[4]]
            if isinstance(o, Lam):
                return self.apply(o, args)
            return self.sym('ucall', n[2] if isinstance(n[2], str) else '', o, *args)
        if f.q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::get') and len(n[4]) == 1:
            return self.e(n[4][0], env)
        obj = self.e(n[3], env) if k == 'mcall' or isinstance(n[3], list) else None
        args = [self.e(a, env) for a in n[4]]
        s = self.S.special(self, n, f, obj, args, env)
        if s is not NotImplemented:
            return s
        q = f.q
        if ot_prim(f):
            side, kind = ot_prim(f)
            par = tuple(self.key(a) if not isinstance(a, RI) else None for a, t in zip(args, f.p) if (t or '').replace('const ', '') in ('unsigned long', 'int', 'unsigned int', 'long', 'size_t'))
            par = tuple(None if p is None or re.search(r'\br[01]\b|RECV|#', p) else p for p in par)
            el = next((m.group(1) for t in f.p[1:2] for m in [re.search(r'<(?:const )?([\w ]+)>', t or '')] if m), None)
            self.ev.append(('ot', (side, kind, par), None, f.p[-1] if False else None, n[1], self.fn))
            return Sym('RECV ot')
        if q in PRIM:
            return self.prim(n, f, PRIM[q], obj, args)
        lams = [a for a in args if isinstance(a, Lam) and self.hasev(a.n)]
        if k == 'mcall' and isinstance(obj, Lam):
            return self.apply(obj, args)
        if f.repo and f.body is not None and (f in self.S.reach or lams) and not f.dep and f.name not in ('pforeach', 'parallel_for', 'parallel_reduce'):
            return self.inline(f, args, n, env, obj)
        for a in args:
            if isinstance(a, Lam) and (self.hasev(a.n) or f.name in ('async', 'call_once')):
                self.apply(a, [Sym(f'elt{i}') for i in range(len(a.n[2]))])
        # small pure helpers over ranks
        if f.repo and f.body is not None and any(isinstance(a, RI) for a in args) and len(list(walk(f.body))) < 60 and not f.dep:
            return self.inline(f, args, n, env, obj)
        if k == 'call' and f.name == kb(f) and f.body is not None:
            s = K.str_of(self.S.P, n, self.fn)
            if s:
                return sorted(s)[0]
        if f.name in SHAPE and isinstance(obj, Sym):
            o = obj
            while (SAME_T if f.name == 'eltype' else SAME).match(o):
                o = Sym(first_arg(o)[0])
            if o.startswith('(spu::mpc::ring_zeros ') and f.name == 'shape':
                return Sym(first_arg('(x ' + first_arg(o)[1])[0])
            if o.startswith('(spu::mpc::ring_zeros ') and f.name == 'numel':
                sh = first_arg('(x ' + first_arg(o)[1])[0]
                o = Sym(first_arg(sh)[0]) if sh.startswith('(spu::NdArrayRef::shape ') else o
            obj = o
        r = self.sym(q if not f.t else q + '<' + ','.join(f.t) + '>', *([obj] if obj is not None else []) + args)
        # an argument passed by non-const reference may be overwritten
        for a, t in zip(n[4], f.p):
            if t is not None and t.endswith('&') and 'const' not in t and not t.endswith('&&'):
                b = strip(a)
                if b is not None and b[0] == 'var' and isinstance(env.get(b[2]), int):
                    env[b[2]] = self.sym('out', r)
        return r

    def prim(self, n, f, kind, obj, args):
        peer = tag = None
        for a, t in zip(args, f.p):
            t = t or ''
            if 'string' in t:
                tag = a if isinstance(a, str) and not isinstance(a, Sym) else None
            elif t.replace('const ', '').rstrip('&') in ('unsigned long', 'size_t', 'unsigned int', 'int') and peer is None:
                peer = a
        elem = f.t[0] if f.t else None
        if kind in ('rotate', 'rotateR'):
            prev = (self.rank + self.n - 1) % self.n
            nxt = (self.rank + 1) % self.n
            a, b = (prev, nxt) if kind == 'rotate' else (nxt, prev)
            self.ev.append(('send', a, tag, elem, n[1], self.fn))
            self.ev.append(('recv', b, tag, elem, n[1], self.fn))
        elif kind in ('sendAsync', 'SendAsync', 'Send', 'SendAsyncThrottled', 'SendThrottled'):
            self.ev.append(('send', int(self.force(peer)), tag, elem, n[1], self.fn))
            return Sym('void')
        elif kind in ('recv', 'Recv'):
            self.ev.append(('recv', int(self.force(peer)), tag, elem, n[1], self.fn))
        else:
            root = peer if isinstance(peer, int) else (int(self.force(peer)) if isinstance(peer, Sym) else None)
            op = None
            for a, t in zip(args, f.p):
                if isinstance(a, str) and a.startswith('E:'):
                    op = a
            self.ev.append(('coll', (kind, root, op, f.t[1] if len(f.t) > 1 else None), tag, elem, n[1], self.fn))
        return self.sym('RECV', kind, Sym(f'{n[1]}'))

    def apply(self, lam, args):
        env = lam.env
        for p, a in zip(lam.n[2], args):
            env[p if isinstance(p, int) else p[0]] = a
        for nm, how, init in lam.n[3]:
            if init is not None and isinstance(nm, int) and nm not in env:
                env[nm] = self.e(init, env)
        self.depth += 1
        if self.depth > 60:
            raise Giveup('too deep')
        sv = self.fn
        self.fn = lam.fn
        try:
            self.s(lam.n[4], env)
            r = Sym('void')
        except Ret as x:
            r = x.v
        self.fn = sv
        self.depth -= 1
        return r

    def inline(self, f, args, n, env, obj=None):
        self.depth += 1
        if self.depth > 60:
            raise Giveup('too deep')
        self.stack.append(f)
        e2 = {}
        for i, p in enumerate(f.params):
            e2[p] = args[i] if i < len(args) else Sym(f'd{i}')
        if obj is not None:
            e2['this'] = obj
        sv = self.fn
        self.fn = f
        try:
            for a, b, w in (f.inits or []) if isinstance(obj, Obj) else []:
                if b is not None and isinstance(a, str):
                    obj.f[a.rsplit('::', 1)[-1]] = self.e(b, e2)
            self.s(f.body, e2)
            r = Sym('void')
        except Ret as x:
            r = x.v
        self.fn = sv
        self.stack.pop()
        self.depth -= 1
        # by-reference integer outputs
        for i, (p, t) in enumerate(zip(f.params, f.p)):
            if t and t.endswith('&') and 'const' not in t and i < len(n[4]):
                b = strip(n[4][i])
                if b is not None and b[0] == 'var':
                    env[b[2]] = e2.get(p)
        return r

    # ---- statements
    def s(self, n, env):
        if n is None:
            return
        k = n[0]
        if k == 'block':
            for x in n[2]:
                self.s(x, env)
        elif k == 'decl':
            for y in n[2]:
                if y[1] is not None:
                    v = self.e(y[1], env)
                else:
                    v = Sym(f'new{y[0]}')
                env[y[0]] = v
                if len(y) > 2 and isinstance(y[2], list):
                    for i, b in enumerate(y[2]):
                        env[b if isinstance(b, int) else b[0]] = self.sym('part', i, v)
        elif k in ('if', 'ifc'):
            self.s(n[2], env)
            c = self.e(n[3], env)
            quiet = not (self.hasev(n[4]) or self.hasev(n[5]))
            if not (isinstance(c, (int, bool)) and not isinstance(c, Sym)):
                # a branch that only throws is assumed not taken
                ta, tb = self.S.throws(n[4]), self.S.throws(n[5])
                if ta and not tb:
                    self.s(n[5], env)
                    return
                if tb and not ta:
                    self.s(n[4], env)
                    return
                # a recursive activation does not recur again
                if self.fn is not None and self.stack.count(self.fn) > 1 and isinstance(c, Sym) and any(callee(x) is self.fn for x in walk(n[4])):
                    self.s(n[5], env)
                    return
                if quiet and (self.S.returns(n[4]) or self.S.returns(n[5])):
                    quiet = not self.S.fn_tail_events(self.fn)
            d = self.decide(c, n, env, quiet)
            if d is None:
                self.havoc(n[4], env, c)
                self.havoc(n[5], env, c)
                return
            self.s(n[4] if d else n[5], env)
        elif k == 'ret':
            raise Ret(self.e(n[2], env) if n[2] is not None else None)
        elif k == 'throw':
            raise Thrown(self.fn, n[1])
        elif k in ('break', 'cont'):
            raise Brk(k)
        elif k == 'for':
            self.s(n[2], env)
            self.loop(n[3], n[4], n[5], env)
        elif k == 'while':
            self.loop(n[2], None, n[3], env)
        elif k == 'do':
            try:
                self.s(n[2], env)
            except Brk:
                pass
        elif k == 'rfor':
            v = self.e(n[3], env)
            if self.hasev(n[4]):
                if n[2] is not None:
                    env[n[2]] = self.sym('elem', v)
                try:
                    self.s(n[4], env)
                except Brk:
                    pass
            else:
                self.havoc(n[4], env)
        elif k == 'switch':
            self.switch(n, env)
        elif k == 'try':
            self.s(n[2], env)
        elif k == 'omp':
            self.s(n[2], env)
        elif k in ('case', 'default'):
            self.s(n[3] if k == 'case' else n[2], env)
        else:
            self.e(n, env)

    def havoc(self, n, env, c=None):
        if n is None:
            return
        tt = 'RECV' if isinstance(c, Sym) and 'RECV' in c else ''
        for x in walk(n):
            if x[0] == 'asg':
                t = strip(x[3])
                if t is not None and t[0] == 'var':
                    env[t[2]] = self.sym('h' + tt, x[1], env.get(t[2]))
            elif x[0] == 'decl':
                for y in x[2]:
                    env[y[0]] = Sym(f'h{y[0]}')
            elif x[0] == 'un' and ('++' in x[2] or '--' in x[2]):
                t = strip(x[3])
                if t is not None and t[0] == 'var':
                    env[t[2]] = self.sym('h', x[1])

    def loop(self, cond, inc, body, env):
        if not (self.hasev(body) or (cond is not None and self.hasev(cond))):
            self.havoc(body, env)
            if inc is not None:
                self.havoc(inc, env)
            return
        for it in range(9):
            if cond is not None:
                c = self.e(cond, env)
                if isinstance(c, (int, bool)) and not isinstance(c, Sym):
                    if not c:
                        return
                elif it:
                    return
            elif it:
                return
            if it == 8:
                raise Giveup('long constant loop')
            try:
                self.s(body, env)
            except Brk as b:
                if b.args[0] == 'break':
                    return
            if inc is not None:
                self.e(inc, env)

    def switch(self, n, env):
        v = self.e(n[2], env)
        items = []

        def flat(x):
            if x is None:
                return
            if x[0] == 'case':
                items.append(('l', x))
                flat(x[3])
            elif x[0] == 'default':
                items.append(('d', x))
                flat(x[2])
            else:
                items.append(('s', x))
        for x in (n[3][2] if n[3] is not None and n[3][0] == 'block' else [n[3]]):
            flat(x)
        labs = [self.e(x[2], env) for t, x in items if t == 'l']
        if isinstance(v, Sym):
            if not self.hasev(n[3]) and not self.S.returns(n[3]):
                self.havoc(n[3], env)
                return
            if labs and all(isinstance(x, int) for x in labs) and self.known(v) is None and not any(isinstance(x, str) for x in labs):
                v = self.force(v) if set(labs) <= set(range(self.n)) else v
        if isinstance(v, Sym):
            dom = [x for x in labs if isinstance(x, (int, str))]
            if not dom:
                return
            if self.S.hasev_or_lam(n[3]):
                lab = 'labels ' + ','.join(map(str, dom)) if all(isinstance(d, str) for d in dom) else v
                v = self.oracle.choose('switch', Sym(lab), dom)
            else:
                v = dom[0]
        start = None
        for i, (t, x) in enumerate(items):
            if t == 'l' and self.e(x[2], env) == v:
                start = i
                break
        if start is None:
            start = next((i for i, (t, x) in enumerate(items) if t == 'd'), None)
        if start is None:
            return
        try:
            for t, x in items[start:]:
                if t == 's':
                    self.s(x, env)
        except Brk as b:
            if b.args[0] != 'break':
                raise


def kb(f):
    return f.name if f.name.startswith('kBindName') or f.name in ('Name', 'name') else ''


STMT = {'block', 'if', 'ifc', 'for', 'rfor', 'while', 'do', 'switch', 'case', 'default', 'ret', 'decl', 'try'}


class Oracle:
    def __init__(self):
        self.trail = []      # [(key, domain, index)]
        self.pos = {}

    def start(self):
        self.asked = {}
        self.val = {k: d[i] for k, d, i in self.trail}
        self.rank = {k[1]: d[i] for k, d, i in self.trail if k[0] == 'rank'}

    def known(self, sym):
        return self.rank.get(sym)

    def choose(self, kind, sym, dom):
        self.asked.setdefault((kind, sym), set()).add(self.who)
        if kind != 'rank' and sym in self.rank:
            return self.rank[sym]
        key = (kind, sym)
        if key in self.val:
            return self.val[key]
        self.trail.append((key, dom, 0))
        self.val[key] = dom[0]
        if kind == 'rank':
            self.rank[sym] = dom[0]
        return dom[0]

    def next(self):
        while self.trail:
            k, d, i = self.trail.pop()
            if i + 1 < len(d):
                self.trail.append((k, d, i + 1))
                return True
        return False


class Session:
    def __init__(self, P, extra=None):
        self.P = P
        self.reach, self.rev, self.direct = event_fns(P, extra)
        self._he, self._th, self._rt, self._ft = {}, {}, {}, {}
        self._glob, self._ec = {}, {}
        self.lin = {}
        self.kernels = K.kernel_classes(P)

    def agg(self, t):
        t = re.sub(r'\bconst\b|&', '', t or '').strip()
        c = self.P.cls_q.get(t)
        if c and not t.startswith('std::') and c[0]['fields'] and all(not x.startswith('std::') for x in (t,)) and not c[0]['bases'] and c[0].get('f', '').startswith('libspu/mpc'):
            return c[0]
        return None

    def evclass(self, t):
        """repository classes (not kernels) some of whose methods communicate"""
        if t not in self._ec:
            b = re.sub(r'\bconst\b|&', '', t or '').strip().split('<')[0]
            fs = self.P.by_cls.get(b, ())
            self._ec[t] = b if fs and any(f in self.reach for f in fs) else None
        return self._ec[t]

    def glob(self, n):
        return None

    def member(self, p, b, f, n):
        return None

    def special(self, p, n, f, obj, args, env):
        q, nm = f.q, f.name
        if nm in ('Flush', 'flush') and not args:
            return Sym('void')
        if nm in ('getRank', 'Rank') and not args and q.startswith(('spu::mpc::', 'yacl::link', 'spu::')):
            return RI(p.rank)
        if nm in ('getWorldSize', 'WorldSize') and not args:
            return p.n
        if nm in ('nextRank', 'NextRank'):
            s = args[0] if args and isinstance(args[0], int) else 1
            return RI((p.rank + s) % p.n)
        if nm in ('prevRank', 'PrevRank'):
            s = args[0] if args and isinstance(args[0], int) else 1
            return RI((p.rank + p.n - s) % p.n)
        return NotImplemented

    def has_event(self, n):
        if n is None:
            return False
        i = id(n)
        if i not in self._he:
            r = False
            for x in walk(n):
                c = callee(x)
                if c is not None and (c.q in PRIM or c in self.reach or ot_prim(c)):
                    r = True
                    break
            self._he[i] = r
        return self._he[i]

    def hasev_or_lam(self, n):
        return self.has_event(n)

    def throws(self, n):
        """control always leaves by an exception, without events first"""
        if n is None:
            return False
        i = id(n)
        if i not in self._th:
            self._th[i] = not self.has_event(n) and flow.must_exit(n) and not any(x[0] in ('ret', 'break', 'cont') for x in walk(n))
        return self._th[i]

    def returns(self, n):
        if n is None:
            return False
        i = id(n)
        if i not in self._rt:
            r, st = False, [n]
            while st:
                x = st.pop()
                if x is None or x[0] == 'lam':
                    continue
                if x[0] in ('ret', 'break', 'cont'):
                    r = True
                    break
                st.extend(kids(x))
            self._rt[i] = r
        return self._rt[i]

    def fn_tail_events(self, f):
        return True

    def self_obj(self, p, f):
        """the object a method runs on, built by its constructor"""
        if not f.cls or f.static or f.cls in self.kernels or f.name == f.cls.rsplit('::', 1)[-1]:
            return None
        cs = [g for g in self.P.by_cls.get(f.cls, ()) if g.name == f.cls.rsplit('::', 1)[-1] and g.body is not None and g.params is not None and not g.dep
              and not (len(g.p) == 1 and f.cls in (g.p[0] or ''))]
        if not cs:
            return None
        g = max(cs, key=lambda g: len(g.p))
        o = Obj(f.cls)
        p.inline(g, [Sym('c:' + (g.vars[v][0] if v in g.vars else str(v))) for v in g.params if isinstance(v, int)], ['x', g.l, '', []], {}, o) if not any(
            t and t.endswith('&') and 'const' not in t for t in g.p) else None
        p.ev.clear()
        return o

    def runs(self, f, n, cap=300):
        """yield ([events of party 0], [events of party 1], ...) for every joint choice"""
        o = Oracle()
        k = 0
        while True:
            o.start()
            out = []
            bad = None
            for r in range(n):
                p = Party(self, r, n, o)
                p.fn = f
                o.who = r
                env = {v: Sym('p:' + (f.vars[v][0] if v in f.vars else str(v))) for v in f.params if isinstance(v, int)}
                try:
                    ob = self.self_obj(p, f)
                    if ob is not None:
                        env['this'] = ob
                    p.s(f.body, env)
                except Ret:
                    pass
                except Thrown as t:
                    bad = 'throw'
                    self.thrown = getattr(self, 'thrown', {})
                    self.thrown[t.args] = self.thrown.get(t.args, 0) + 1
                except Brk:
                    pass
                if bad:
                    break
                out.append(p.ev)
            k += 1
            yield (out if not bad else None), dict(o.val), [x for x, w in o.asked.items() if len(w) < n and x[0] != 'rank' and (len(x[1]) > 240 or '#' in x[1] or '(h ' in x[1] or RDEP.search(x[1]))]
            if k >= cap:
                raise Giveup(f'more than {cap} joint choices')
            if not o.next():
                return


def simulate(evs):
    """None if the parties' event sequences fit together; else (message, event)"""
    n = len(evs)
    pos = [0] * n
    q = {}
    while True:
        prog = False
        for i in range(n):
            while pos[i] < len(evs[i]):
                e = evs[i][pos[i]]
                if e[0] == 'send':
                    if e[1] >= n or e[1] == i:
                        return f'party {i} sends to party {e[1]}', e
                    q.setdefault((i, e[1]), []).append(e)
                elif e[0] == 'recv':
                    if e[1] >= n or e[1] == i:
                        return f'party {i} receives from party {e[1]}', e
                    ch = q.get((e[1], i))
                    if not ch:
                        break
                    s = ch.pop(0)
                    m = match(s, e, evs[e[1]], evs[i], i, e[1])
                    if m:
                        return m, e
                else:
                    break
                pos[i] += 1
                prog = True
        heads = [evs[i][pos[i]] if pos[i] < len(evs[i]) else None for i in range(n)]
        if all(h is None for h in heads):
            break
        if all(h is not None and h[0] == 'coll' for h in heads):
            a = heads[0]
            for i, b in enumerate(heads):
                if b[1] != a[1]:
                    return f'party 0 enters {a[1][0]}{"" if a[1][1] is None else f" with root {a[1][1]}"} while party {i} enters {b[1][0]}{"" if b[1][1] is None else f" with root {b[1][1]}"}', b
                if a[2] is not None and b[2] is not None and a[2] != b[2]:
                    return f'party 0 enters collective "{a[2]}" while party {i} enters "{b[2]}"', b
                if size(a[3]) != size(b[3]) and a[3] and b[3]:
                    return f'collective element types differ: {a[3]} / {b[3]}', b
            for i in range(n):
                pos[i] += 1
            prog = True
        if not prog and n == 2 and all(h is not None and h[0] == 'ot' for h in heads):
            (sa, ka, pa), (sb, kb_, pb) = heads[0][1], heads[1][1]
            if ka != kb_:
                return f'party 0 runs oblivious transfer {sa}{ka} while party 1 runs {sb}{kb_}', heads[1]
            if sa == sb:
                return f'both parties take the {"sending" if sa == "Send" else "receiving"} side of oblivious transfer {ka}', heads[1]
            if len(pa) == len(pb) and any(x is not None and y is not None and x != y for x, y in zip(pa, pb)):
                return f'the two sides of oblivious transfer {ka} use different parameters {pa} / {pb}', heads[1]
            pos[0] += 1
            pos[1] += 1
            continue
        if not prog:
            for i, h in enumerate(heads):
                if h is not None and h[0] == 'recv':
                    return f'party {i} waits for a message "{h[2]}" from party {h[1]} that is never sent (all parties are stuck)', h
            h = [x for x in heads if x is not None][0]
            if h[0] == 'ot':
                return f'the {"sending" if h[1][0] == "Send" else "receiving"} side of oblivious transfer {h[1][1]} has no partner', h
            return f'a collective operation ({h[1][0]}) is not entered by every party', h
    for (a, b), ch in sorted(q.items()):
        if ch:
            return f'party {a} sends "{ch[0][2]}" to party {b}, which never receives it', ch[0]
    return None


def size(t):
    return {'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8, 'unsigned __int128': 16, '__int128': 16, 'uint128_t': 16, 'unsigned char': 1, 'bool': 1, 'std::byte': 1, 'signed char': 1, 'char': 1}.get(t, t)


def match(s, r, se, re_, i, j):
    if s[2] is not None and r[2] is not None and s[2] != r[2]:
        # labels are only names, unless the one expected is also in flight elsewhere between these two
        other_s = [x[2] for x in se if x[0] == 'send' and x[1] == i]
        other_r = [x[2] for x in re_ if x[0] == 'recv' and x[1] == j]
        if r[2] in other_s or s[2] in other_r:
            return f'party {i} expects "{r[2]}" from party {j} but the next message in order is "{s[2]}"'
    if s[3] and r[3] and size(s[3]) != size(r[3]):
        return f'message "{s[2]}" from party {j} has elements of type {s[3]} but party {i} reads {r[3]}'
    return None
