"""How public or single-party values enter secret sharings, decided separately for every party.

Every expression of a kernel is given a class - zero, public, additively or xor shared, local randomness, one party's own value - and
the class is propagated through one pass per party rank (conditions on the rank are decided, all others explored both ways and joined).
A "mix" is a place where a value every party knows (or one party's own value) is added or xored into a sharing."""
import re
import program
from program import callee, strip, walk, kids
import kernels as K

Z, PUB, A, B, L, S, O, R0, R1, U = 'Z', 'P', 'A', 'B', 'L', 'S', 'O', 'R0', 'R1', 'U'


class RI(int):
    """an integer computed from the party's rank"""


class RB(int):
    """a condition on the party's rank"""


class Tup(list):
    """values kept apart by position"""


class Comp(dict):
    """a replicated share: component -> class"""


class Lam:
    __slots__ = ('n', 'env', 'fn')

    def __init__(self, n, env, fn):
        self.n, self.env, self.fn = n, env, fn


class Ret(Exception):
    pass


class Dead(Exception):
    """a path that ends here (throw, break, continue)"""


class Giveup(Exception):
    pass


def copyv(v):
    return Tup(copyv(x) for x in v) if isinstance(v, Tup) else Comp(v) if isinstance(v, Comp) else v


def vk(n):
    """name of a variable or structured binding"""
    return n[2] if n[0] == 'var' else ('b', n[2], n[3])


def flat(v):
    """class of a value taken as a whole"""
    if isinstance(v, bool):
        return PUB
    if isinstance(v, int):
        return Z if v == 0 else PUB
    if isinstance(v, (Tup, Comp)):
        vs = list(v.values()) if isinstance(v, Comp) else list(v)
        r = None
        for x in vs:
            x = flat(x)
            r = x if r is None else r if r == x else jn(r, x)
        return r if r is not None else U
    if isinstance(v, str):
        return v if v in CL else PUB
    return O if v is not None else PUB


CL = {Z, PUB, A, B, L, S, O, R0, R1, U}


def jn(a, b):
    """class of a value that is one or the other"""
    if type(a) is type(b) and a == b:
        return a
    if isinstance(a, Comp) and isinstance(b, Comp):
        return Comp({k: jn(a.get(k, U), b.get(k, U)) for k in set(a) | set(b)})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a) == len(b):
        return Tup(jn(x, y) for x, y in zip(a, b))
    if isinstance(a, Lam) or isinstance(b, Lam):
        return a if isinstance(a, Lam) else b
    a, b = flat(a), flat(b)
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if x == U:
            return y
        if x == Z:
            return y
        if x == L and y in (A, B):
            return y
    return O


RING = re.compile(r'^ring_(add|sub|neg|mul|mmul|xor|and|not|lshift|rshift|arshift|bitmask|bitrev|zeros|ones|rand|rand_range|randbit|sum|equal|set_value|assign|print|select|cast)_?$')
RANDOM = re.compile(r'^ring_rand')
KEEP = {'as', 'slice', 'reshape', 'clone', 'transpose', 'pad', 'broadcast_to', 'expand', 'reverse', 'concatenate', 'linear_gather', 'getValueShare', 'getMacShare', 'data', 'get', 'value', 'second_', 'flatten', 'begin', 'end', 'front', 'back', 'at', 'MakeSpan', 'MakeConstSpan', 'makeSpan', 'ring_cast', 'UnflattenBuffer', 'WrapValue', 'UnwrapValue', 'move', 'forward', 'ref', 'cref', 'as_const', 'make_shared', 'make_unique', 'getOrCreateCompactArray', 'getShare', 'fold', 'unfold', 'release', 'subspan', 'cbegin', 'cend', 'TensorRef', 'getFirstShare', 'getSecondShare', 'unflatten', 'SliceTensor', 'toNdArray', 'truncate'}
META = {'shape', 'numel', 'eltype', 'field', 'size', 'nbits', 'owner', 'strides', 'ndim', 'elsize', 'isa', 'isScalar', 'dtype', 'isCompact', 'sctx', 'getWorldSize_', 'empty', 'caller', 'config', 'offset'}
APIS = re.compile(r'^(?:wrap_|w_|dynDispatch_)?([a-z0-9_]+)$')


def suffix(name):
    """(operand domains, result domain) told by an operation's name"""
    m = re.search(r'(?:^|_)([apbvs])2([apbvs])(?:_\w+)?$', name) or re.match(r'^([apbvs])2([apbvs])', name)
    if m:
        return [m.group(1)], m.group(2)
    if re.match(r'^\w*(msb|carry)\w*_a2b$', name) or name == 'msb_a2b':
        return ['a'], 'b'
    t = name.rsplit('_', 1)
    if len(t) < 2 or not re.match(r'^[apbvs1m]+$', t[1]):
        return None, None
    ds = []
    for c in t[1]:
        if c == '1':
            continue
        ds.append(c)
    if re.match(r'^(equal|eqz|bitle|bitlt|lowmc|f_less|multi_key)', t[0]):
        return ds, ('b' if 'a' in ds or 'b' in ds else None)
    return ds, ('a' if 'a' in ds else 'b' if 'b' in ds else 'v' if 'v' in ds else 'p')


DOM = {'a': A, 'b': B, 'p': PUB, 'v': S, 's': O, 'm': L}


class Site:
    __slots__ = ('where', 'fn', 'dom', 'raw', 'hits', 'target')

    def __init__(self, where, fn, dom, raw, target):
        self.where, self.fn, self.dom, self.raw, self.hits, self.target = where, fn, dom, raw, [], target


class Walk:
    def __init__(self, P, rank, n, pick, sites, comps, modb=False):
        self.modb = modb
        self.P, self.rank, self.n, self.pick, self.sites, self.comps = P, rank, n, pick, sites, comps
        self.store, self.nc = {}, 0
        self.ctx, self.iters = (), ()
        self.steps, self.depth = 0, 0
        self.target = None
        self.secret = self.ghost = 0
        self.fn = None
        self.fns = set()

    # ---- cells
    def cell(self, v):
        self.nc += 1
        self.store[self.nc] = v
        return self.nc

    def get(self, env, v):
        c = env.get(v)
        return self.store.get(c, O) if c is not None else O

    def other(self, n, env, stmt):
        """what another party does at a place this one skips: only registers the sites there"""
        if n is None or self.ghost >= 2:
            return
        keep, ek = self.snap(), dict(env)
        self.ghost += 1
        try:
            if stmt:
                self.run(n, env, [])
            else:
                self.e(n, env)
        except (Dead, Giveup):
            pass
        self.ghost -= 1
        self.store = keep
        env.clear()
        env.update(ek)

    def snap(self):
        return {k: copyv(v) for k, v in self.store.items()}

    def merge(self, a, b):
        self.store = {k: (jn(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k))) for k in set(a) | set(b)}

    # ---- mixing
    def mix(self, n, dom, raw):
        comp = self.target[1] if self.target else None
        if self.comps and comp is None or self.secret:
            return
        key = (self.ctx, self.iters, id(n)) if not self.comps or comp is None else (self.ctx, self.iters, 'slot', self.target[0], dom, raw)
        s = self.sites.get(key)
        if s is None:
            s = self.sites[key] = Site(f'{self.fn.f}:{n[1]}', self.fn, dom, raw, comp is not None and self.comps)
        if not self.ghost:
            s.hits.append((self.rank, comp))

    def plus(self, n, x, y, minus=False):
        if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
            r = x - y if minus else x + y
            return RI(r) if isinstance(x, RI) or isinstance(y, RI) else r
        if isinstance(x, Comp) or isinstance(y, Comp):
            return Comp({k: self.plus(n, x.get(k, O) if isinstance(x, Comp) else x, y.get(k, O) if isinstance(y, Comp) else y) for k in (0, 1)})
        x, y = flat(x), flat(y)
        if {x, y} == {R0, R1}:
            return A if minus else O
        x, y = (L if v in (R0, R1) else v for v in (x, y))
        if x == Z or y == Z:
            return y if x == Z else x
        if x == y and x in (PUB, A, L, S):
            return x
        s = {x, y}
        if A in s:
            o = (s - {A}).pop() if len(s) > 1 else A
            if o in (PUB, S):
                self.mix(n, A, o)
                return A
            return A if o == L else O
        if s == {PUB, S}:
            return S
        if s == {PUB, L} or s == {S, L}:
            return L
        return O

    def xor(self, n, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x ^ y
        if isinstance(x, Comp) or isinstance(y, Comp):
            return Comp({k: self.xor(n, x.get(k, O) if isinstance(x, Comp) else x, y.get(k, O) if isinstance(y, Comp) else y) for k in (0, 1)})
        x, y = flat(x), flat(y)
        if {x, y} == {R0, R1}:
            return B
        x, y = (L if v in (R0, R1) else v for v in (x, y))
        if x == Z or y == Z:
            return y if x == Z else x
        if x == y and x in (PUB, B, L, S):
            return x
        s = {x, y}
        if B in s:
            o = (s - {B}).pop()
            if o in (PUB, S, A):
                self.mix(n, B, o)
                return B
            return B if o == L else O
        if s == {PUB, S}:
            return S
        if s == {PUB, L} or s == {S, L}:
            return L
        return O

    def mul(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            r = x * y
            return RI(r) if isinstance(x, RI) or isinstance(y, RI) else r
        if isinstance(x, Comp) or isinstance(y, Comp):
            return Comp({k: self.mul(x.get(k, O) if isinstance(x, Comp) else x, y.get(k, O) if isinstance(y, Comp) else y) for k in (0, 1)})
        x, y = flat(x), flat(y)
        x, y = (L if v in (R0, R1) else v for v in (x, y))
        if Z in (x, y):
            return Z
        if x == PUB:
            return y
        if y == PUB:
            return x
        return x if x == y and x in (L, S) else O

    def band(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x & y
        if isinstance(x, Comp) or isinstance(y, Comp):
            return Comp({k: self.band(x.get(k, O) if isinstance(x, Comp) else x, y.get(k, O) if isinstance(y, Comp) else y) for k in (0, 1)})
        one = any(isinstance(v, int) and v == 1 for v in (x, y))
        x, y = flat(x), flat(y)
        x, y = (L if v in (R0, R1) else v for v in (x, y))
        if Z in (x, y):
            return Z
        for a, b in ((x, y), (y, x)):
            if a == PUB:
                return B if b == A and one else O if b == A else b
        return x if x == y and x in (L, S) else O

    def bnot(self, n, x):
        if isinstance(x, int):
            return ~x
        if isinstance(x, Comp):
            return Comp({k: self.bnot(n, v) for k, v in x.items()})
        x = flat(x)
        if x == Z:
            return PUB
        if x in (A, B):
            self.mix(n, x, PUB)
        return x

    def neg(self, x):
        if isinstance(x, int):
            return -x
        if isinstance(x, Comp):
            return Comp({k: self.neg(v) for k, v in x.items()})
        x = flat(x)
        return x if x in (Z, PUB, A, L, S) else L if x in (R0, R1) else O

    def shl(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x << y if 0 <= y < 128 else PUB
        if isinstance(x, Comp):
            return Comp({k: self.shl(v, y) for k, v in x.items()})
        x, y = flat(x), flat(y)
        if y not in (PUB, Z, U):
            return O
        return L if x in (R0, R1) else x

    def shr(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x >> y if 0 <= y < 256 else PUB
        return self.shl(x, PUB if not isinstance(y, int) else 1) if flat(y) in (PUB, Z, U) else O

    def binval(self, n, op, x, y):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isinstance(x, RI) and not isinstance(y, int) and flat(y) == PUB and not isinstance(y, Lam):
                y = self.pick
            elif isinstance(y, RI) and not isinstance(x, int) and flat(x) == PUB and not isinstance(x, Lam):
                x = self.pick
            if isinstance(x, int) and isinstance(y, int):
                r = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
                return RB(r) if isinstance(x, RI) or isinstance(y, RI) else r
            fx, fy = flat(x), flat(y)
            return PUB if fx in (PUB, Z) and fy in (PUB, Z) else O
        if op == '+':
            return self.plus(n, x, y)
        if op == '-':
            return self.plus(n, x, y, True)
        if op == '*':
            return self.mul(x, y)
        if op == '^':
            return self.xor(n, x, y)
        if op == '&':
            return self.band(x, y)
        if op == '<<':
            return self.shl(x, y)
        if op == '>>':
            return self.shr(x, y)
        if op == '|':
            if isinstance(x, int) and isinstance(y, int):
                return x | y
            x, y = flat(x), flat(y)
            return y if x == Z else x if y == Z else PUB if x == y == PUB else x if x == y and x in (L, S) else O
        if op in ('/', '%'):
            if isinstance(x, int) and isinstance(y, int) and y:
                r = x // y if op == '/' else x % y
                return RI(r) if isinstance(x, RI) or isinstance(y, RI) else r
            return PUB if flat(x) in (PUB, Z) and flat(y) in (PUB, Z) else x if flat(x) in (L, S) else O
        return O

    # ---- expressions
    def e(self, n, env):
        self.steps += 1
        if self.steps > 300000:
            raise Giveup('too many steps')
        if n is None:
            return None
        k = n[0]
        if k in ('copy',):
            return copyv(self.e(n[2], env))
        if k == 'int':
            return int(n[2])
        if k in ('str', 'enum', 'flt', 'sizeof', 'this'):
            return PUB
        if k in ('null', 'zero'):
            return 0
        if k in ('var', 'bind'):
            return self.get(env, vk(n))
        if k == 'lam':
            e2 = env
            for nm, how, init in n[3]:
                if init is not None and isinstance(nm, int) and nm not in env:
                    env[nm] = self.cell(self.e(init, env))
            return Lam(n, e2, self.fn)
        if k == 'glob':
            try:
                return int(n[4])
            except (TypeError, ValueError):
                return PUB
        if k == 'mem':
            b = self.e(n[2], env)
            f = str(n[3]).rsplit('::', 1)[-1]
            if isinstance(b, Tup) and f in ('first', 'second') and len(b) == 2:
                return b[0 if f == 'first' else 1]
            if f == 'open_cache':
                return PUB
            return PUB if flat(b) == PUB else O if strip(n[2]) is not None and strip(n[2])[0] == 'this' else flat(b) if f in ('first', 'second', 'value') else O
        if k == 'cast':
            return self.e(n[3], env)
        if k == 'un':
            op = n[2]
            v = self.e(n[3], env)
            if op == '!':
                return type(v)(not v) if isinstance(v, (bool, RB)) else (not v) if isinstance(v, int) else PUB if flat(v) in (PUB, Z) else O
            if op == '-':
                return self.neg(v)
            if op == '~':
                return self.bnot(n, v)
            if '++' in op or '--' in op:
                t = strip(n[3])
                if isinstance(v, int) and t[0] == 'var':
                    self.store[env[t[2]]] = v + (1 if '+' in op else -1)
                return v
            return v
        if k == 'bin':
            op = n[2]
            if op in ('&&', '||'):
                x = self.e(n[3], env)
                if isinstance(x, int):
                    if (op == '&&' and not x) or (op == '||' and x):
                        return x if isinstance(x, RB) else bool(x)
                    y = self.e(n[4], env)
                    return RB(y) if isinstance(x, RB) and isinstance(y, int) else y
                y = self.e(n[4], env)
                if isinstance(y, int) and ((op == '&&' and not y) or (op == '||' and y)):
                    return y if isinstance(y, RB) else bool(y)
                return PUB if flat(x) in (PUB, Z) and flat(y) in (PUB, Z) else O
            if op == ',':
                self.e(n[3], env)
                return self.e(n[4], env)
            return self.binval(n, op, self.e(n[3], env), self.e(n[4], env))
        if k == 'asg':
            return self.assign_op(n, n[2], n[3], n[4], env)
        if k == 'cond':
            c = self.e(n[2], env)
            if isinstance(c, int):
                if isinstance(c, RB):
                    self.other(n[4] if c else n[3], env, False)
                return self.e(n[3] if c else n[4], env)
            return jn(self.e(n[3], env), self.e(n[4], env))
        if k == 'list':
            vs = [self.e(x, env) for x in n[2]]
            return vs[0] if len(vs) == 1 else Tup(vs)
        if k == 'idx':
            return self.elem(n, self.e(n[2], env), self.e(n[3], env))
        if k in ('call', 'mcall', 'op', 'new'):
            return self.call(n, env)
        if k == 'throw':
            raise Dead()
        if k == 'fref':
            return PUB
        vs = [self.e(x, env) for x in kids(n) if x is not None and x[0] not in ('block', 'decl', 'if', 'ret', 'for')]
        r = None
        for v in vs:
            r = flat(v) if r is None else jn(r, flat(v))
        return r if r is not None else PUB

    def elem(self, n, a, i):
        if isinstance(a, Tup):
            if isinstance(i, int) and 0 <= i < len(a):
                return a[i]
            return flat(a)
        if isinstance(a, Comp):
            if isinstance(i, int) and i in (0, 1) and not self.isview(n):
                return a.get(i, U)
            return a
        return a

    def isview(self, n):
        """an index into a tensor rather than into one of its elements"""
        f = callee(n) if n[0] in ('op', 'mcall') else None
        return f is not None and (f.cls or '').startswith('spu::NdArrayView')

    def lval(self, t, env):
        """(cell, component or None, position or None) of an assignment target"""
        t = strip(t)
        comp = pos = None
        while t is not None:
            k = t[0]
            if k in ('var', 'bind'):
                return env.get(vk(t)), comp, pos
            if k == 'idx' or (k == 'op' and t[2] == '[]'):
                b, i = (t[2], t[3]) if k == 'idx' else (t[4][0], t[4][1])
                iv = self.e(i, env)
                bb = strip(b)
                if isinstance(iv, int) and not self.isview(t) and iv in (0, 1) and bb is not None and (bb[0] == 'idx' or bb[0] == 'op' and bb[2] == '[]'):
                    comp = iv
                elif isinstance(iv, int) and not self.isview(t) and bb is not None and bb[0] == 'var':
                    pos = iv
                t = bb
            elif k == 'mcall' and t[2] is not None and t[2].name in ('data', 'at', 'get', 'back', 'front'):
                t = strip(t[3])
            elif k == 'un' and t[2] in '*&':
                t = strip(t[3])
            elif k == 'op' and t[2] in ('*', '->') and len(t[4]) == 1:
                t = strip(t[4][0])
            elif k == 'cast':
                t = strip(t[3])
            elif k == 'call' and t[2] is not None and t[2].name == 'get' and t[2].t and t[4]:
                if str(t[2].t[0]) in ('0', '1'):
                    comp = int(str(t[2].t[0]))
                t = strip(t[4][0])
            elif k == 'mem':
                if str(t[3]).rsplit('::', 1)[-1] in ('first', 'second'):
                    pos = 0 if str(t[3]).endswith('first') else 1
                    t = strip(t[2])
                else:
                    return None, None, None
            else:
                return None, None, None
        return None, None, None

    def put(self, c, comp, pos, v):
        if c is None or c not in self.store:
            return
        cur = self.store[c]
        if comp is not None and self.comps:
            d = Comp(cur) if isinstance(cur, Comp) else Comp()
            d[comp] = flat(v) if not isinstance(v, Comp) else flat(v)
            self.store[c] = d
        elif pos is not None and isinstance(cur, Tup) and 0 <= pos < len(cur):
            cur = Tup(cur)
            cur[pos] = v
            self.store[c] = cur
        elif pos is not None and not isinstance(cur, Tup) and isinstance(cur, str) and cur != U and flat(v) != cur:
            self.store[c] = jn(cur, v)
        else:
            self.store[c] = v

    def assign_op(self, n, op, lhs, rhs, env):
        c, comp, pos = self.lval(lhs, env)
        sv = self.target
        if comp is not None:
            t = strip(lhs)
            b = t
            while b is not None and b[0] not in ('var', 'bind'):
                nx = [x for x in kids(b) if x is not None]
                b = strip(nx[0]) if nx else None
            self.target = (vk(b) if b is not None else None, comp)
        else:
            self.target = None
        v = self.e(rhs, env)
        if op != '=':
            cur = self.e(lhs, env)
            v = self.binval(n, op[:-1], cur, v)
        self.target = sv
        self.put(c, comp, pos, v)
        return v

    # ---- calls
    def call(self, n, env):
        k = n[0]
        f = callee(n)
        if k == 'op':
            op, a = n[2], n[4]
            if op == '()' and a:
                o = self.e(a[0], env)
                args = [self.e(x, env) for x in a[1:]]
                if isinstance(o, Lam):
                    return self.apply(o, args)
                if f is not None and f.repo and f.body is not None and not f.dep:
                    return self.inline(f, n, args, [self.ref(x, env) for x in a[1:]])
                return self.default(n, f, None, a[1:], args, env)
            if op == '=' or op in ('+=', '-=', '*=', '^=', '&=', '|=', '<<=', '>>=', '%=', '/='):
                return self.assign_op(n, op, a[0], a[1], env) if len(a) == 2 else O
            vs = [self.e(x, env) for x in a]
            if op == '[]' and len(vs) == 2:
                return self.elem(n, vs[0], vs[1])
            if op in ('->', '*') and len(vs) == 1:
                return vs[0]
            if op == '-' and len(vs) == 1:
                return self.neg(vs[0])
            if op == '~':
                return self.bnot(n, vs[0])
            if len(vs) == 2:
                return self.binval(n, op, vs[0], vs[1])
            return vs[0] if vs else O
        if k == 'new':
            t = str(n[2])
            args = [self.e(x, env) for x in n[4]]
            hd = t.split('<')[0]
            if 'NdArrayView' in hd and args:
                return args[0]
            if 'NdArrayRef' in hd:
                if not args:
                    return U
                if len(args) == 1:
                    return args[0]
                return U if 'Type' in (f.p[0] if f is not None and f.p else '') else args[0]
            if re.search(r'\b(vector|array|Span|span|tuple|pair|unique_ptr|shared_ptr|optional|Buffer|PtBufferView)\b', t.split('<')[0]) or 'Value' in t:
                args = [x for x, y in zip(args, n[4]) if not (y is not None and y[0] == 'new' and 'allocator' in str(y[2]))]
                if not args:
                    return Tup() if 'vector' in t.split('<')[0] else U
                if len(args) == 1:
                    if isinstance(args[0], int) or (isinstance(args[0], str) and args[0] == PUB and 'vector' in t.split('<')[0] and not self.istensor(n[4][0])):
                        return U
                    return args[0]
                if 'vector' in t.split('<')[0]:
                    return args[1] if flat(args[0]) in (PUB, Z) and not isinstance(args[0], Tup) else args[0]
                if 'tuple' in t.split('<')[0] or 'pair' in t.split('<')[0]:
                    return Tup(args)
                return args[0]
            if f is not None and f.dep:
                return O
            if 'spu::mpc::' in t and f is not None and f.repo and not t.endswith(('Ty', 'Shr')):
                return O
            if len(args) == 1:
                return args[0]
            return PUB if all(isinstance(a, (int, str)) and flat(a) in (PUB, Z) for a in args) else O
        if f is None:
            o = self.e(n[3], env) if isinstance(n[3], list) else None
            args = [self.e(a, env) for a in n[4]]
            if isinstance(o, Lam):
                return self.apply(o, args)
            return O if any(flat(a) not in (PUB, Z) for a in args if not isinstance(a, Lam)) else PUB
        obj = self.e(n[3], env) if k == 'mcall' or isinstance(n[3], list) else None
        if k == 'mcall' and isinstance(obj, Lam):
            return self.apply(obj, [self.e(a, env) for a in n[4]])
        name = f.name
        q = f.q
        if (f.cls or '').endswith('Communicator') or (f.cls or '').startswith('yacl::link') or q.startswith('yacl::link'):
            return self.comm(n, f, env)
        if (f.cls or '').endswith('PrgState'):
            return self.prg(n, f, env)
        if name == 'TakeCachedBeaver':
            return A
        if re.search(r'[Bb]eaver\w*$', f.cls or '') or 'eaver' in str(n[3][-1] if isinstance(n[3], list) and n[3] else '') and k == 'mcall':
            for a in n[4]:
                self.e(a, env)
            return Tup([A, B]) if name == 'Eqz' else B if name == 'And' else A if name in ('Mul', 'Dot', 'Trunc', 'TruncPr', 'RandBit', 'Square', 'AuthMul', 'AuthDot', 'AuthTrunc', 'AuthAnd', 'AuthRandBit') else O
        if name in ('pforeach', 'parallel_for', 'for_each') or (q.startswith('std::') and name in ('transform', 'for_each', 'generate', 'async')) or name in ('vmap', 'vreduce', 'submit'):
            return self.hof(n, f, env)
        args = [self.e(a, env) for a in n[4]]
        m = RING.match(name) if q.startswith('spu::mpc::') else None
        if m:
            return self.ring(n, f, m.group(1), args, env)
        if name == 'get' and f.t and args and isinstance(args[0], (Tup, Comp)):
            try:
                i = int(str(f.t[0]))
                return args[0][i] if isinstance(args[0], Tup) and i < len(args[0]) else args[0].get(i, U) if isinstance(args[0], Comp) else O
            except ValueError:
                pass
        if k == 'mcall' and name in ('push_back', 'emplace_back'):
            c, _, _ = self.lval(n[3], env)
            if c is not None:
                cur = self.store.get(c)
                v = args[0] if len(args) == 1 else U
                if isinstance(cur, Tup):
                    self.store[c] = Tup(cur + [v]) if len(cur) < 40 else flat(jn(cur, v))
                else:
                    self.store[c] = jn(cur, v)
            return PUB
        if k == 'mcall' and name in ('resize', 'reserve', 'assign', 'clear'):
            return PUB
        if name in ('getRank', 'Rank'):
            return RI(self.rank)
        if name in ('getWorldSize', 'WorldSize'):
            return self.n
        if name in ('nextRank', 'NextRank'):
            return RI((self.rank + 1) % self.n)
        if name in ('prevRank', 'PrevRank'):
            return RI((self.rank + self.n - 1) % self.n)
        if name in META or name.startswith(('make', 'SizeOf')) and 'Share' not in name and name not in ('make_tuple', 'make_pair', 'makeConstantArrayRef', 'make_shared', 'make_unique'):
            return PUB
        if name in ('getValueShare', 'getMacShare', 'GetValueShare', 'GetMacShare', 'getShare'):
            return args[-1]
        if name in ('makeAShare', 'makeBShare'):
            return args[0]
        if name == 'key' and (f.cls or '').endswith('State'):
            return A
        if name in ('make_tuple', 'make_pair', 'tie', 'forward_as_tuple'):
            return Tup(args)
        if name == 'makeConstantArrayRef':
            return Z
        if name in KEEP and (obj is not None or args):
            b = obj if k == 'mcall' else args[0]
            if name in ('begin', 'end', 'back', 'front', 'at') and isinstance(b, Tup):
                return b if name in ('begin', 'end') else flat(b)
            if name == 'as' and flat(b) in (L, R0, R1):
                t = ' '.join(str(x) for a in n[4] for x in f_types(a))
                return A if 'AShr' in t else B if 'BShr' in t else b
            return b
        if f.cls is None or '(anon)' in q or f.static:
            ds, r = suffix(APIS.match(name).group(1)) if APIS.match(name) and (name.startswith(('wrap_', 'w_')) or q.startswith('spu::mpc::') and q.count('::') == 2 and f.f.endswith(('ab_api.cc', 'api.cc', 'ab_api.h', 'api.h', 'permute_api'))) else (None, None)
            if r is not None:
                return A if r == 'b' and self.modb else DOM[r]
        if f.repo and f.body is not None and not f.dep and f.f.startswith('libspu/mpc/') and (f.cls is None or f.static or k == 'mcall' and strip(n[3]) is not None and strip(n[3])[0] == 'this'):
            return self.inline(f, n, args, [self.ref(x, env) for x in n[4]])
        return self.default(n, f, obj, n[4], args, env)

    def istensor(self, n):
        return any(x[0] in ('new', 'call', 'mcall') and 'NdArrayRef' in str(x[-1]) for x in walk(n))

    def ref(self, t, env):
        t = strip(t)
        if t is not None and t[0] == 'un' and t[2] == '&':
            t = strip(t[3])
        if t is not None and t[0] in ('call', 'mcall') and callee(t) is not None and callee(t).name in ('move', 'MakeSpan', 'makeSpan', 'data', 'get'):
            t = strip(t[3]) if t[0] == 'mcall' else strip(t[4][0]) if t[4] else None
        if t is not None and t[0] == 'new' and t[4] and re.search(r'Span|View', str(t[2])):
            t = strip(t[4][0])
        return env.get(vk(t)) if t is not None and t[0] in ('var', 'bind') else None

    def root(self, t, env):
        """cell of the variable whose storage an expression points into"""
        t = strip(t)
        while t is not None:
            if t[0] in ('var', 'bind'):
                return env.get(vk(t))
            if t[0] in ('mcall', 'cast', 'un'):
                t = strip(t[3])
            elif t[0] == 'idx':
                t = strip(t[2])
            elif t[0] == 'bin' and t[2] in '+-':
                t = strip(t[3])
            elif t[0] == 'op' and t[4]:
                t = strip(t[4][0])
            elif t[0] in ('call', 'new') and t[4]:
                t = strip(t[4][0])
            else:
                return None
        return None

    def default(self, n, f, obj, an, args, env):
        if f is not None and f.name in ('memcpy', 'memmove', 'copy_n', 'copy', 'copyTo') and len(an) >= 2:
            d, s = (an[0], args[1]) if f.name.startswith('mem') else (an[-1], args[0])
            c = self.root(d, env)
            if c is not None:
                self.store[c] = flat(s)
            return PUB
        cl = [flat(a) for a in args if not isinstance(a, Lam)]
        r = PUB if all(c in (PUB, Z, U) for c in cl) and (obj is None or flat(obj) in (PUB, Z)) and not re.search(r'NdArrayRef|Buffer|Value|auto', f.r if f is not None and f.r else '') else O
        for a, t in zip(an, f.p if f is not None else []):
            t = t or ''
            if (t.endswith('&') and 'const' not in t and not t.endswith('&&')) or t.endswith('*') and 'const' not in t or 'Span<' in t and 'const' not in t:
                c = self.root(a, env)
                if c is not None and not isinstance(self.store.get(c), Lam):
                    self.store[c] = O if not isinstance(self.store.get(c), int) else PUB
        for a in args:
            if isinstance(a, Lam):
                self.apply(a, [O] * len(a.n[2]))
        return r

    def ring(self, n, f, op, args, env):
        name = f.name
        inplace = name.endswith('_')
        x = args[0] if args else O
        y = args[1] if len(args) > 1 else O
        sv = self.target
        self.target = None
        if op == 'add':
            v = self.plus(n, x, y)
        elif op == 'sub':
            v = self.plus(n, x, y, True)
        elif op == 'neg':
            v = self.neg(x)
        elif op in ('mul', 'mmul'):
            v = self.mul(x, y)
        elif op == 'xor':
            v = self.xor(n, x, y)
        elif op == 'and':
            v = self.band(x, y)
        elif op == 'not':
            v = self.bnot(n, x)
        elif op in ('lshift', 'rshift', 'arshift', 'bitmask', 'bitrev', 'cast'):
            v = self.shl(x, PUB)
        elif op == 'zeros':
            v = Z
        elif op == 'ones':
            v = PUB
        elif op.startswith('rand'):
            v = L
        elif op == 'sum':
            v = flat(x)
        elif op in ('equal', 'select'):
            v = PUB if all(flat(a) in (PUB, Z) for a in args) else O
        elif op == 'set_value':
            v, inplace = PUB if not (isinstance(y, int) and y == 0) else Z, True
        elif op == 'assign':
            v, inplace = y, True
        else:
            v = O
        self.target = sv
        if inplace:
            c = self.ref(n[4][0], env)
            if c is None:
                c, comp, pos = self.lval(n[4][0], env)
                self.put(c, comp, pos, v)
            else:
                self.store[c] = v
        return v

    def comm(self, n, f, env):
        name = f.name
        if name in ('getRank', 'Rank'):
            return RI(self.rank)
        if name in ('getWorldSize', 'WorldSize'):
            return self.n
        if name in ('nextRank', 'NextRank'):
            return RI((self.rank + 1) % self.n)
        if name in ('prevRank', 'PrevRank'):
            return RI((self.rank + self.n - 1) % self.n)
        vs = [self.e(a, env) for a in n[4]]
        if self.comps and name == 'rotate' and vs and flat(vs[0]) in (A, B):
            return flat(vs[0])
        if name in ('allReduce', 'broadcast', 'bcast', 'AllGather', 'AllGatherImpl', 'Broadcast'):
            return PUB
        if name in ('reduce', 'gather', 'Gather'):
            return S
        return PUB if name in ('lctx', 'addCommStatsManually') else O

    def prg(self, n, f, env):
        name = f.name
        args = [self.e(a, env) for a in n[4]]
        if name == 'genPrssPair':
            return Tup([R0, R1])
        if name == 'genPubl':
            return PUB
        if name == 'genPriv':
            return L
        outs = [self.ref(a, env) for a in n[4]]
        for i, c in enumerate(outs):
            if c is None:
                c, comp, pos = self.lval(n[4][i], env)
            if c is not None and not isinstance(self.store.get(c), int) and flat(self.store.get(c)) in (U, O, Z, PUB, L, R0, R1, A, B) and name.startswith('fill'):
                t = f.p[i] if i < len(f.p) else ''
                if '*' in t or 'Span' in t or '&' in t:
                    self.store[c] = {'fillPrssPair': R0 if i == 0 else R1, 'fillPubl': PUB, 'fillPriv': L}.get(name, L)
        return PUB if name.startswith('fill') else L

    def hof(self, n, f, env):
        """functions that call their lambda argument on every element"""
        vals = [self.e(a, env) for a in n[4]]
        lams = [v for v in vals if isinstance(v, Lam)]
        if not lams:
            return self.default(n, f, None, n[4], vals, env)
        lam = lams[-1]
        np = len(lam.n[2])
        if f.name == 'vmap':
            seqs = [v for v in vals if not isinstance(v, Lam)]
            k = min((len(v) for v in seqs if isinstance(v, Tup)), default=0)
            if seqs and all(isinstance(v, Tup) for v in seqs[:np]) and k and len(seqs) >= np:
                out = []
                sv = self.iters
                for i in range(k):
                    self.iters = sv + ('m%d' % i,)
                    out.append(self.apply(lam, [v[i] for v in seqs[:np]]))
                self.iters = sv
                return Tup(out)
            s2 = [flat(v) for v in seqs if not (isinstance(v, str) and v == PUB and len(seqs) > np)]
            if len(s2) == 2 * np:
                s2 = s2[::2]
            r = self.apply(lam, (s2 + [O] * np)[:np])
            return r
        if f.name == 'vreduce':
            return self.apply(lam, [flat(vals[0])] * np)
        if f.q.startswith('std::transform') or f.name == 'transform':
            ins = [flat(v) for v in vals if not isinstance(v, Lam)]
            r = self.apply(lam, (ins[:1] + ins[2:3] + [O] * np)[:np])
            for a in n[4][2:]:
                x = strip(a)
                if x is not None and x[0] in ('mcall', 'call') and callee(x) is not None and callee(x).name in ('begin', 'data'):
                    c, comp, pos = self.lval(x[3] if x[0] == 'mcall' else x[4][0], env)
                    last = (c, comp, pos)
            if 'last' in dir() or 'last' in locals():
                self.put(*locals()['last'], r)
            return PUB
        if f.name == 'async':
            return self.apply(lam, [v for v in vals if not isinstance(v, Lam)][:np] + [O] * np)
        if f.name == 'for_each':
            return self.apply(lam, [flat(vals[0])] * np) and PUB
        r = self.apply(lam, [PUB] * np)
        return r if f.name == 'submit' else PUB

    def apply(self, lam, args):
        env = lam.env
        for p, a in zip(lam.n[2], args):
            env[p if isinstance(p, int) else p[0]] = self.cell(a)
        sv = self.fn
        self.fn = lam.fn
        r = self.body(lam.n[4], env)
        self.fn = sv
        return r

    def body(self, b, env):
        self.depth += 1
        if self.depth > 40:
            raise Giveup('too deep')
        rets = []
        live = self.run(b, env, rets)
        self.depth -= 1
        if not rets:
            if not live:
                raise Dead()
            return PUB
        st = None
        r = None
        for v, s in rets:
            r = v if r is None else jn(r, v)
        if len(rets) > 1 or live:
            sts = [s for _, s in rets] + ([self.store] if live else [])
            acc = sts[0]
            for s in sts[1:]:
                self.merge(acc, s)
                acc = self.store
            self.store = acc
        else:
            self.store = rets[0][1]
        return r

    def inline(self, f, n, args, refs):
        if any(c == f for c, _ in self.ctx) or len(self.ctx) > 8:
            return O
        env = {}
        for i, p in enumerate(f.params):
            t = f.p[i] if i < len(f.p) else ''
            if i < len(refs) and refs[i] is not None and t.endswith(('&', '*')) and not t.endswith('&&'):
                env[p] = refs[i]
            else:
                env[p] = self.cell(args[i] if i < len(args) else PUB)
        sv = self.fn, self.ctx, self.iters, self.target
        self.fn, self.ctx, self.target = f, self.ctx + ((f, id(n)),), None
        if self.iters:
            self.ctx, self.iters = self.ctx + ((None, self.iters),), ()
        self.fns.add(f)
        try:
            return self.body(f.body, env)
        finally:
            self.fn, self.ctx, self.iters, self.target = sv

    # ---- statements: True when control can go on after the statement
    def run(self, n, env, rets):
        try:
            return self.s(n, env, rets)
        except Dead:
            return False

    def s(self, n, env, rets):
        if n is None:
            return True
        k = n[0]
        if k == 'block':
            for x in n[2]:
                if not self.s(x, env, rets):
                    return False
            return True
        if k == 'decl':
            for y in n[2]:
                i = y[1]
                t = self.fn.vars.get(y[0], ('', ''))[1] if isinstance(self.fn.vars, dict) and y[0] in self.fn.vars else ''
                if i is None:
                    env[y[0]] = self.cell(Tup() if 'vector' in str(t).split('<')[0] else U)
                    continue
                v = self.e(i, env)
                tgt = strip(i)
                while tgt is not None and tgt[0] == 'list' and len(tgt[2]) == 1:
                    tgt = strip(tgt[2][0])
                al = None
                if str(t).endswith('&') and tgt is not None and tgt[0] in ('var', 'bind'):
                    al = env.get(vk(tgt))
                elif tgt is not None and tgt[0] == 'new' and ('NdArrayView' in str(tgt[2]) or 'Span' in str(tgt[2])) and tgt[4]:
                    al = self.alias(tgt[4][0], env)
                elif tgt is not None and tgt[0] in ('call', 'mcall') and callee(tgt) is not None and callee(tgt).name in ('MakeSpan', 'makeSpan', 'data', 'MakeConstSpan'):
                    al = self.alias(tgt[3] if tgt[0] == 'mcall' else tgt[4][0], env)
                env[y[0]] = al if al is not None else self.cell(copyv(v))
                if len(y) > 2 and isinstance(y[2], list):
                    for j, b in enumerate(y[2]):
                        w = v[j] if isinstance(v, Tup) and j < len(v) else v.get(j, O) if isinstance(v, Comp) else v if isinstance(v, str) else O
                        env[('b', y[0], j)] = self.cell(copyv(w))
            return True
        if k in ('if', 'ifc'):
            self.s(n[2], env, rets)
            c = self.e(n[3], env)
            if isinstance(c, int):
                if isinstance(c, RB):
                    self.other(n[5] if c else n[4], env, True)
                return self.s(n[4] if c else n[5], env, rets)
            s0 = self.snap()
            # what depends on shared data is a correction of the local share, not a constant all parties know
            d = flat(c) not in (PUB, Z)
            self.secret += d
            a = self.run(n[4], env, rets)
            sa = self.store
            self.store = s0
            b = self.run(n[5], env, rets)
            self.secret -= d
            if a and b:
                self.merge(sa, self.store)
            elif a:
                self.store = sa
            return a or b
        if k in ('for', 'while', 'do'):
            return self.loop(n, env, rets)
        if k == 'rfor':
            v = self.e(n[3], env)
            items = list(v) if isinstance(v, Tup) and len(v) <= 8 else [flat(v) if not isinstance(v, Tup) else flat(v)]
            sv = self.iters
            for i, x in enumerate(items):
                self.iters = sv + (('r%d' % i,) if isinstance(v, Tup) else ())
                p = n[2]
                c = None if isinstance(v, Tup) else self.ref(n[3], env)
                env[p if isinstance(p, int) else p[0]] = c if c is not None else self.cell(x)
                self.run(n[4], env, rets)
            self.iters = sv
            return True
        if k == 'ret':
            v = self.e(n[2], env) if n[2] is not None else PUB
            rets.append((copyv(v), self.store))
            self.store = self.snap()
            return False
        if k == 'switch':
            self.e(n[2], env)
            live, acc = False, None
            cases = self.cases(n[3])
            s0 = self.snap()
            for c in cases:
                self.store = {kk: copyv(vv) for kk, vv in s0.items()}
                if self.run(c, env, rets):
                    if acc is None:
                        acc = self.store
                    else:
                        self.merge(acc, self.store)
                        acc = self.store
                    live = True
            if not cases:
                return True
            self.store = acc if acc is not None else self.store
            return live
        if k in ('case', 'default'):
            return self.s(n[-1], env, rets)
        if k in ('break', 'continue', 'goto'):
            return True
        if k == 'try':
            return self.s(n[2], env, rets)
        if k in ('s', 'omp', 'label'):
            for x in kids(n):
                if x is not None and not self.s(x, env, rets):
                    return False
            return True
        if k == 'throw':
            return False
        self.e(n, env)
        return True

    def alias(self, t, env):
        t = strip(t)
        while t is not None:
            if t[0] in ('var', 'bind'):
                return env.get(vk(t))
            if t[0] == 'mcall' and callee(t) is not None and callee(t).name in ('data', 'slice', 'reshape'):
                t = strip(t[3])
            elif t[0] == 'cast':
                t = strip(t[3])
            elif t[0] == 'un' and t[2] == '&':
                t = strip(t[3])
            else:
                return None
        return None

    def cases(self, b):
        out = []
        for x in (b[2] if b is not None and b[0] == 'block' else [b]):
            if x is None:
                continue
            if x[0] in ('case', 'default'):
                out.append(['block', x[1], [x]])
            elif out:
                out[-1][2].append(x)
        # a case that ends without leaving the switch continues at the next one; only the first body is followed
        return out

    def loop(self, n, env, rets):
        sv = self.iters
        if n[0] == 'for':
            self.s(n[2], env, rets)
            cond, step, body = n[3], n[4], n[5]
        else:
            cond, step, body = n[2], None, n[3]
        for i in range(9):
            c = self.e(cond, env) if cond is not None else PUB
            if not isinstance(c, int):
                # an unknown number of turns: one stands for all, with counters unknown
                self.iters = sv + ('*',)
                for t in self.counters(n):
                    if env.get(t) is not None and isinstance(self.store.get(env[t]), int):
                        self.store[env[t]] = PUB
                self.run(body, env, rets)
                break
            if not c:
                break
            if i == 8:
                for t in self.counters(n):
                    if env.get(t) is not None:
                        self.store[env[t]] = PUB
                break
            self.iters = sv + (i,)
            if not self.run(body, env, rets):
                self.iters = sv
                return False
            if step is not None:
                self.e(step, env)
        self.iters = sv
        return True

    def counters(self, n):
        out = set()
        for x in walk(n):
            if x[0] == 'un' and ('++' in x[2] or '--' in x[2]) and strip(x[3]) is not None and strip(x[3])[0] == 'var':
                out.add(strip(x[3])[2])
            elif x[0] == 'asg' and strip(x[3]) is not None and strip(x[3])[0] == 'var':
                out.add(strip(x[3])[2])
        return out


def f_types(a):
    for x in walk(a):
        if x[0] in ('call', 'mcall') and callee(x) is not None and callee(x).t:
            for t in callee(x).t:
                yield t
        if x[0] == 'var':
            yield ''
