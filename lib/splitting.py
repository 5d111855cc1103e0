"""Symbolic tensors: one generic element per tensor, held as a linear form (or a set of bits) over atoms. Used to evaluate how values are split into shares and put together."""
from fractions import Fraction
from decide import NO, Undecided, Throw, Ret
from wire import Obj, OEv, short, ancestry
from typetext import TEv
from program import callee, strip, show


class Lin:
    """sum of coef * atom"""
    def __init__(self, t=()):
        self.t = {a: c for a, c in dict(t).items() if c}

    def key(self):
        return ('L', frozenset(self.t.items()))


class Bits:
    """exclusive or of (the last bits of) atoms; full: of all their bits"""
    def __init__(self, s, full):
        self.s, self.full = frozenset(s), full

    def key(self):
        return ('B', self.s, self.full)


class Cut:
    def __init__(self, v, lo, hi):
        self.v, self.lo, self.hi = v, lo, hi

    def key(self):
        return ('C', self.v.key(), self.lo, self.hi)


def elem(v):
    if isinstance(v, (Lin, Bits, Cut)):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return Lin({1: v})
    raise Undecided('element value')


def padd(a, b, k=1):
    a, b = elem(a), elem(b)
    if isinstance(a, Lin) and isinstance(b, Lin):
        t = dict(a.t)
        for x, c in b.t.items():
            t[x] = t.get(x, 0) + k * c
        return Lin(t)
    if isinstance(a, Lin) and not a.t:
        return b
    if isinstance(b, Lin) and not b.t:
        return a
    raise Undecided('sum of other than linear forms')


def pxor(a, b):
    def one(v):
        if isinstance(v, Bits):
            return v
        if isinstance(v, Lin) and not v.t:
            return None
        if isinstance(v, Lin) and len(v.t) == 1 and list(v.t.values()) == [1]:
            return Bits(v.t, True)
        raise Undecided('exclusive or of a sum')
    a, b = one(elem(a)), one(elem(b))
    if a is None or b is None:
        return a or b or Lin()
    if a.full != b.full:
        raise Undecided('exclusive or of different widths')
    s = a.s ^ b.s
    return Bits(s, a.full) if s else Lin()


def low(v):
    """the last bit"""
    v = elem(v)
    if isinstance(v, Lin):
        return Bits([a for a, c in v.t.items() if c % 2], False)
    if isinstance(v, Bits):
        return Bits(v.s, False)
    raise Undecided('bit of')


class Arr:
    n = 0

    def __init__(self, ty, shape, store=None):
        self.ty, self.shape, self.store = ty, shape, store if store is not None else {}
        self.comp = None       # this tensor is component j of a tensor of tuples
        self.compact = True

    def view(self, ty=None, comp=None):
        a = Arr(ty or self.ty, self.shape, self.store)
        a.comp = self.comp if comp is None else comp
        a.compact = self.compact
        return a

    def ncomp(self, ev):
        """numbers per element"""
        return ncomp(ev, self.ty)

    def get(self, ev, key='i', comp=None):
        k = (key, self.comp if comp is None else comp)
        if k not in self.store:
            if (key, 'all') in self.store:
                return self.store[(key, 'all')]
            raise Undecided('element nobody wrote')
        return self.store[k]

    def put(self, v, key='i', comp=None):
        self.store[(key, self.comp if comp is None else comp)] = v


class View:
    def __init__(self, arr, tup):
        self.arr, self.tup = arr, tup


class Ref:
    """an element of a view; comp None: the element itself (of tuples: all components)"""
    def __init__(self, arr, key, comp=None, tup=False):
        self.arr, self.key, self.comp, self.tup = arr, key, comp, tup


class Vec:
    """a plain vector of numbers with one generic element"""
    def __init__(self, size, val):
        self.size, self.val = size, val


def ncomp(ev, ty):
    c = ty.cls
    s, r = ev.size(ty), None
    for n in ('getBacktype', 'field'):
        g = ev.resolve(c, n, 0)
        if g is not None:
            r = ev.call(g, ty, [])
            break
    w = {'E:FM32': 4, 'E:FM64': 8, 'E:FM128': 16, 'E:PT_U8': 1, 'E:PT_I1': 1, 'E:PT_I8': 1, 'E:PT_U16': 2, 'E:PT_U32': 4, 'E:PT_U64': 8, 'E:PT_U128': 16}.get(r)
    if w is None or not isinstance(s, int) or s % w:
        raise Undecided('components of ' + c)
    return s // w


IDX = ('idx',)


class SEv(TEv):
    def __init__(self, P, types=None):
        super().__init__(P, types or {})
        self.fresh = 0
        self.rands = set()
        self.streams = {}
        self.limit = 200000

    def atom(self):
        self.fresh += 1
        a = 'r%d' % self.fresh
        self.rands.add(a)
        return Lin({a: 1})

    def size(self, ty):
        g = self.resolve(ty.cls, 'size', 0)
        if g is None:
            raise Undecided('size of ' + ty.cls)
        return self.call(g, ty, [])

    def enumerator(self, e, v):
        return v

    def ex(self, n):
        if isinstance(n, list) and n and n[0] == 'list' and isinstance(n[2], list):
            return [self.ex(x) for x in n[2]]
        return super().ex(n)

    # values out of references
    def val(self, v):
        if isinstance(v, Ref):
            return v.arr.get(self, v.key, v.comp)
        return v

    def bin(self, o, a, b):
        a, b = self.val(a), self.val(b)
        if o == '*' and isinstance(a, Lin) != isinstance(b, Lin):
            l, k = (a, b) if isinstance(a, Lin) else (b, a)
            if isinstance(k, int):
                return Lin({x: c * k for x, c in l.t.items()})
        if isinstance(a, (Lin, Bits, Cut)) or isinstance(b, (Lin, Bits, Cut)):
            if o == '+':
                return padd(a, b)
            if o == '-':
                return padd(a, b, -1)
            if o == '^':
                return pxor(a, b)
            if o == '&' and (a == 1 or b == 1):
                return low(b if a == 1 else a)
            raise Undecided('operator %s on elements' % o)
        if isinstance(a, tuple) and a and a[0] == 'numel' and isinstance(b, int):
            if o == '!=' and b == 0 or o == '>' and b == 0:
                return True
            if o == '==' and b == 0:
                return False
        return super().bin(o, a, b)

    def store_(self, r, v):
        v = self.val(v)
        if isinstance(r, Ref):
            if r.tup and r.comp is None:
                if isinstance(v, list):
                    for j, x in enumerate(v):
                        r.arr.put(elem(self.val(x)), r.key, j)
                    return
                raise Undecided('tuple store')
            r.arr.put(elem(v), r.key, r.comp)
        else:
            raise Undecided('store')

    def store(self, x, v):
        y = strip(x)
        if y[0] == 'op' and y[2] == '[]' or y[0] == 'mcall' and callee(y) is not None and callee(y).name in ('operator[]', 'at', 'back', 'front'):
            b, i = (y[4][0], y[4][1]) if y[0] == 'op' else (y[3], y[4][0] if y[4] else None)
            c = self.ex(b)
            k = self.ex(i) if i is not None else -1
            if isinstance(c, list):
                if not isinstance(k, int) or k >= len(c):
                    raise Undecided('element of a sequence')
                c[k] = v
                return
            if isinstance(c, dict):
                c[str(k)] = v
                return
            return self.store_(self.index(c, k), v)
        if y[0] in ('var',) and isinstance(self.env.get(y[2]), Ref):
            return self.store_(self.env[y[2]], v)
        super().store(x, self.val(v) if not isinstance(v, Arr) else v)

    def index(self, c, k):
        if isinstance(c, View):
            if isinstance(k, tuple) and k[0] == 'idx':
                if k[1] != c.arr.shape:
                    raise Undecided('index of another tensor')
                key = 'i'
            elif isinstance(k, int):
                key = k
            else:
                raise Undecided('subscript')
            return Ref(c.arr, key, None, c.tup)
        if isinstance(c, Ref) and c.tup:
            if not isinstance(k, int):
                raise Undecided('component')
            return Ref(c.arr, c.key, k, False)
        if isinstance(c, Vec):
            if isinstance(k, tuple) and k[0] == 'idx' and ('numel', k[1]) == c.size:
                return c.val
            if isinstance(k, int) and isinstance(c.val, Lin) and any(c.val is x for x in self.streams.values()):
                a = '%s@%d' % (next(iter(c.val.t)), k)
                self.rands.add(a)
                return Lin({a: 1})
            raise Undecided('subscript of a vector')
        if isinstance(c, (list, tuple)) and isinstance(k, int):
            if not 0 <= k < len(c):
                raise Undecided('out of range')
            return c[k]
        raise Undecided('subscript')

    # statements: loops over all elements
    def st(self, n):
        if isinstance(n, list) and n and n[0] == 'for':
            d = n[2]
            while isinstance(d, list) and d and d[0] == 'block' and len(d[2]) == 1:
                d = d[2][0]
            c = strip(n[3]) if isinstance(n[3], list) else None
            if isinstance(d, list) and d and d[0] == 'decl' and c and c[0] == 'bin' and c[2] in ('<', '!='):
                v = d[2][0][0]
                try:
                    b = self.ex(c[4])
                except Undecided:
                    b = None
                lhs = strip(c[3])
                if isinstance(b, tuple) and b[:1] == ('numel',) and lhs[0] == 'var' and lhs[2] == v:
                    if self.ex(d[2][0][1]) not in (0, None):
                        raise Undecided('loop that skips elements')
                    step = strip(n[4]) if isinstance(n[4], list) else []
                    if not (step and step[0] == 'un' and '++' in step[2]):
                        raise Undecided('step')
                    for y in d[2][1:]:
                        self.env[y[0]] = self.ex(y[1])
                    self.env[v] = ('idx', b[1])
                    super().st(n[5])
                    return
        super().st(n)

    # calls
    def model(self, ev, name, g, obj, args):
        r = self.tensor(name, g, obj, args)
        return r if r is not NO else super().model(ev, name, g, obj, args)

    def drop(self, args):
        return [a for a in args if not (isinstance(a, list) and a and a[0] == 'new' and str(a[2]).startswith('std::allocator'))]

    def tensor(self, name, g, obj, args):
        ex = self.ex
        q = g.q if g is not None and hasattr(g, 'q') else ''
        if name == 'new':
            ty = str(g[2]).replace('const ', '')
            a = self.drop(args)
            if ty == 'spu::NdArrayRef':
                a = [ex(x) for x in a]
                if len(a) == 1 and isinstance(a[0], Arr):
                    return a[0]
                if not a:
                    return None
                if len(a) == 2 and isinstance(a[0], Obj):
                    return Arr(a[0], a[1])
                if len(a) == 5 and isinstance(a[0], tuple) and a[0][0] == 'buf':
                    return self.overlay(*a)
                raise Undecided('tensor constructor')
            if ty.startswith('spu::NdArrayView<'):
                x = ex(a[0])
                if not isinstance(x, Arr):
                    raise Undecided('view')
                return View(x, 'array<' in ty)
            if ty.startswith('std::vector<spu::NdArrayRef') or ty.startswith('std::vector<spu::Value'):
                if not a:
                    return []
                b = [ex(x) for x in a]
                if len(b) == 1 and isinstance(b[0], (list, tuple)):
                    return list(b[0])
                if len(b) == 1 and isinstance(b[0], int):
                    return [None] * b[0]
                if len(b) == 2 and isinstance(b[0], int):
                    return [b[1]] * b[0]
                raise Undecided('vector')
            if ty.startswith('std::vector<unsigned') and len(a) == 1:
                b = ex(a[0])
                if isinstance(b, tuple) and b[0] == 'numel':
                    return Vec(b, Lin())
                return NO
            if ty.startswith('std::initializer_list'):
                return [ex(x) for x in a]
            if ty in ('spu::Shape', 'spu::Strides') and len(a) == 1:
                return ex(a[0])
            return NO
        if name in ('operator[]', 'at') and (obj is not None or len(args) == 2):
            c, k = (ex(obj), ex(args[0])) if obj is not None and len(args) == 1 else (ex(args[0]), ex(args[1]))
            if isinstance(c, (View, Ref, Vec, list, tuple)):
                return self.index(c, k)
            return NO
        if name == 'pforeach' and len(args) == 3:
            lo, hi, lam = ex(args[0]), ex(args[1]), ex(args[2])
            if lo != 0 or not (isinstance(hi, tuple) and hi[0] == 'numel') or not (isinstance(lam, tuple) and lam[0] == 'lam'):
                raise Undecided('pforeach')
            ps = lam[1][2]
            if len(ps) != 1:
                self.env[ps[0]], self.env[ps[1]] = 0, hi
            else:
                self.env[ps[0]] = ('idx', hi[1])
            self.lam(lam[1])
            return None
        if name == 'PrgAesCtr' and len(args) == 2:
            v = ex(args[1])
            if isinstance(v, Vec):
                seed = ex(args[0])
                if isinstance(seed, int):
                    v.val = Lin({('fixed', seed): 1})       # a stream everybody can compute
                elif isinstance(seed, tuple) and seed and seed[0] == 'seed':
                    if seed not in self.streams:
                        self.streams[seed] = self.atom()
                    v.val = self.streams[seed]
                else:
                    raise Undecided('seed')
                return None
            raise Undecided('generator')
        if name in ('MakeSpan', 'MakeConstSpan') and len(args) == 1:
            return ex(args[0])
        if name == 'SecureRandSeed':
            self.fresh += 1
            return ('seed', self.fresh)
        if name == 'transform' and len(args) == 4 and 'std' in q:
            s, d, lam = ex(args[0]), ex(args[2]), ex(args[3])
            if isinstance(s, tuple) and s[0] == 'strides' and isinstance(lam, tuple) and lam[0] == 'lam':
                self.env[lam[1][2][0]] = Lin({'s': 1})
                r = self.lam(lam[1])
                if isinstance(r, Lin) and set(r.t) == {'s'}:
                    x = args[2]
                    while isinstance(x, list) and x and x[0] in ('new', 'cast', 'copy'):
                        x = x[4][0] if x[0] == 'new' else x[-1] if x[0] == 'copy' else x[3]
                    c = x[3] if x[0] == 'mcall' else None
                    if c is not None:
                        OEv.store(self, c, ('strides', s[1], s[2] * r.t['s']))
                        return None
            raise Undecided('transform')
        if q.startswith('spu::mpc::') and obj is None:
            r = self.ring(name, g, args)
            if r is not NO:
                return r
        if name == 'makeConstantArrayRef':
            a = Arr(ex(args[0]), ex(args[1]))
            a.compact = False
            a.store[('i', 'all')] = Lin()
            return a
        if obj is not None:
            try:
                o = ex(obj)
            except Undecided:
                return NO
            if isinstance(o, Ref):
                o = self.val(o)
            if isinstance(o, Arr):
                return self.method(o, name, args)
            if isinstance(o, tuple) and o and o[0] == 'strides' and name in ('begin', 'end', 'cbegin', 'cend', 'data'):
                return o
            if isinstance(o, list):
                if name in ('push_back', 'emplace_back'):
                    v = [ex(x) for x in args]
                    o.append(self.built(g, v) if len(v) != 1 else v[0])
                    return None
                if name in ('reserve', 'shrink_to_fit'):
                    return None
                if name == 'size':
                    return len(o)
                if name in ('front', 'back'):
                    return o[0 if name == 'front' else -1]
                if name == 'empty':
                    return not o
            if isinstance(o, tuple) and o and o[0] == 'shape' and name == 'numel':
                return ('numel', o)
            if isinstance(o, tuple) and o and o[0] == 'view':
                return NO
            if isinstance(o, Obj):
                if name == 'isa' and not args:
                    return str(g.t[0]).replace('(anon)::', '') in [c.replace('(anon)::', '') for c in ancestry(self.P, o.cls)]
                if name == 'size' and not args and q.startswith('spu::Type::'):
                    return self.size(o)
                if name == 'as' and not args:
                    if str(g.t[0]) not in ancestry(self.P, o.cls):
                        raise Throw()
                    return o
        return NO

    def built(self, g, v):
        raise Undecided('emplace_back')

    def overlay(self, buf, ty, shape, strides, offset):
        a = buf[1]
        n = a.ncomp(self)
        w = self.size(ty)
        if shape != a.shape or not (isinstance(strides, tuple) and strides[:2] == ('strides', a)):
            raise Undecided('overlay')
        if not isinstance(offset, Lin) or offset.t.get(('offset', a)) != 1 or set(offset.t) - {1, ('offset', a)}:
            raise Undecided('overlay offset')
        j, r = divmod(offset.t.get(1, 0), w)
        if w * n != self.size(a.ty) or strides[2] != n or r or j >= n:
            raise Wrong('component view of %s: stride factor %s, offset %s, component width %s' % (a.ty.cls, strides[2], offset.t.get(1, 0), w))
        return a.view(ty, j)

    def method(self, o, name, args):
        if name == 'eltype':
            return o.ty
        if name == 'shape':
            return o.shape
        if name == 'numel':
            return ('numel', o.shape)
        if name == 'elsize':
            return self.size(o.ty)
        if name == 'as':
            return o.view(self.ex(args[0]))
        if name in ('clone', 'copy'):
            c = Arr(o.ty, o.shape)
            for (k, j), v in o.store.items():
                if o.comp is None or j == o.comp:
                    c.store[(k, None if o.comp is not None else j)] = v
            return c
        if name == 'isCompact':
            return o.compact
        if name == 'strides':
            return ('strides', o, 1)
        if name == 'offset':
            return Lin({('offset', o): 1})
        if name == 'buf':
            return ('buf', o)
        raise Undecided('tensor method ' + name)

    def ring(self, name, g, args):
        ex = self.ex
        if not str(g.f).endswith('ring_ops.h') and not str(g.f).endswith('ring_ops.cc'):
            return NO
        n = name.rstrip('_')
        if n in ('ring_rand_additive_splits', 'ring_rand_boolean_splits', 'ring_sum'):
            return NO
        a = [ex(x) for x in args]
        if n in ('ring_rand', 'ring_rand_range'):
            if n == 'ring_rand_range':
                raise Undecided('bounded randomness')
            r = Arr(self.ringty(a[0]), a[1])
            r.put(self.atom())
            return r
        if n in ('ring_zeros', 'ring_ones'):
            r = Arr(self.ringty(a[0]), a[1])
            r.put(Lin() if n == 'ring_zeros' else Lin({1: 1}))
            return r
        if n in ('ring_add', 'ring_sub', 'ring_xor'):
            x, y = a[0].get(self), a[1].get(self)
            if a[0].shape != a[1].shape:
                raise Undecided('shapes')
            v = pxor(x, y) if n == 'ring_xor' else padd(x, y, 1 if n == 'ring_add' else -1)
        elif n == 'ring_neg':
            v = padd(Lin(), a[0].get(self), -1)
        elif n == 'ring_assign':
            a[0].put(a[1].get(self))
            return None
        elif n == 'ring_bitmask':
            x, lo, hi = a[0].get(self), a[1], a[2]
            if (lo, hi) == (0, 1):
                v = low(x)
            elif isinstance(lo, int) and isinstance(hi, int):
                v = Cut(elem(x), lo, hi)
            else:
                raise Undecided('mask')
        else:
            raise Undecided('ring operation ' + name)
        if name.endswith('_'):
            a[0].put(v)
            return None
        r = Arr(a[0].ty, a[0].shape)
        r.put(v)
        return r

    def ringty(self, field):
        return self.make('spu::RingTy', [field])

    def make(self, cls, args):
        if cls not in self.P.classes and '::' in cls:
            a, b = cls.rsplit('::', 1)
            if a + '::(anon)::' + b in self.P.classes:
                cls = a + '::(anon)::' + b
        return super().make(cls, args)


class Wrong(Exception):
    pass


def reveals(view, secret, rands):
    """do the linear forms a party sees determine the secret? Gaussian elimination over the random atoms"""
    rows = [dict((a, Fraction(c)) for a, c in v.t.items()) for v in view if isinstance(v, Lin)]
    for a in sorted(rands, key=str):
        p = next((r for r in rows if r.get(a)), None)
        if p is None:
            continue
        rows.remove(p)
        for r in rows:
            if r.get(a):
                k = r[a] / p[a]
                for x, c in p.items():
                    r[x] = r.get(x, 0) - k * c
    return any(r.get(s) for r in rows for s in secret)


def bitreveals(view, secret, rands):
    rows = [set(v.s) for v in view if isinstance(v, Bits)]
    for a in sorted(rands, key=str):
        p = next((r for r in rows if a in r), None)
        if p is None:
            continue
        rows.remove(p)
        rows = [r ^ p if a in r else r for r in rows]
    return any(s in r for r in rows for s in secret)
