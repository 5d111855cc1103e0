"""Abstract evaluation over objects: fields are slots holding tokens, strings are concrete token strings, everything else is a term.
Used to decide whether what one function writes is what its counterpart reads."""
import decide
from decide import NO, Undecided, Throw, Ret
from program import callee, strip, show, walk


def short(q):
    return str(q).rsplit('::', 1)[-1]


SIZES = {'bool': 1, 'signed char': 1, 'unsigned char': 1, 'char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8,
         '__int128': 16, 'unsigned __int128': 16, 'half_float::half': 2, 'std::complex<float>': 8, 'std::complex<double>': 16}


class Obj:
    def __init__(self, cls, fields=None, lazy=None):
        self.cls, self.f, self.lazy = cls, dict(fields or {}), lazy

    def get(self, n):
        if n not in self.f:
            if self.lazy is None:
                raise Undecided('unset field %s of %s' % (n, self.cls))
            self.f[n] = self.lazy(n)
        return self.f[n]

    def copy(self):
        o = Obj(self.cls, None, self.lazy)
        o.f = {k: (v.copy() if isinstance(v, Obj) else list(v) if isinstance(v, list) else v) for k, v in self.f.items()}
        return o

    def key(self):
        return (self.cls, tuple(sorted((k, v.key() if isinstance(v, Obj) else str(v)) for k, v in self.f.items())))


class OEv(decide.Ev):
    """P: program; prim(ev, name, fn, obj, argnodes) -> value or NO for calls the client models"""

    def __init__(self, P, prim=None, enter=None, limit=40000, term=True):
        super().__init__(lambda ev, n: self.obj_hook(n), limit=limit)
        self.P, self.prim, self.term = P, prim or (lambda *a: NO), term
        self.this = []
        self.want = enter or (lambda g: str(g.f).startswith('libspu/'))

    # -- calls ------------------------------------------------------------------------------------
    def call(self, g, this, args):
        if self.depth > 10:
            raise Undecided('depth')
        old, self.env = self.env, {}
        for p, a in zip(g.params, args):
            self.env[p] = a
        self.this.append(this)
        self.depth += 1
        try:
            if g.inits and isinstance(this, Obj):
                for nm, v, *_ in g.inits:
                    if isinstance(v, list) and v and v[0] == 'new' and str(v[2]) == str(nm):
                        if v[4] and getattr(v[3], 'body', None):   # a base class
                            self.call(v[3], this, [self.ex(a) for a in v[4]])
                    elif '::' in str(nm):
                        this.f[short(nm)] = self.ex(v)
            self.st(g.body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.this.pop()
            self.env = old

    def make(self, cls, args):
        """an object of a class of the code under analysis, by the constructor with that many arguments"""
        o = Obj(cls)
        cs = [g for g in self.P.by_cls.get(cls, []) if g.name == short(cls) and len(g.params) == len(args) and g.body is not None]
        if cls not in self.P.classes:
            raise Undecided('class ' + cls)
        for f in self.P.classes[cls]['fields']:
            o.f[f[0]] = ('default', f[0])
        if cs:
            self.call(cs[0], o, args)
        elif args:
            raise Undecided('constructor of ' + cls)
        return o

    def truth(self, n):
        try:
            v = self.ex(n)
        except Undecided:
            raise
        if isinstance(v, Obj):
            return True
        if isinstance(v, bool):
            return v
        if isinstance(v, list):
            raise Undecided('truth of a sequence')
        if isinstance(v, int):
            return v != 0
        if v is None:
            return False
        if isinstance(v, str):
            return True
        raise Undecided('truth ' + show(n)[:60])

    def st(self, n):
        # a guard whose condition is unknown and that only throws is taken to pass
        if isinstance(n, list) and n and n[0] in ('if', 'ifc') and not n[5] and only_throws(n[4]):
            self.tick()
            if isinstance(n[2], list):
                self.st(n[2])
            try:
                t = self.truth(n[3])
            except Undecided:
                self.skipped = getattr(self, 'skipped', 0) + 1
                return
            if t:
                self.guard = show(n[3])
                raise Throw()
            return
        super().st(n)

    # -- lvalues -----------------------------------------------------------------------------------
    def store(self, x, v):
        x = strip(x)
        if x[0] == 'var':
            self.env[x[2]] = v
        elif x[0] == 'mem':
            o = self.ex(x[2])
            if not isinstance(o, Obj):
                raise Undecided('store to ' + show(x)[:50])
            o.f[short(x[3])] = v
        elif x[0] == 'un' and x[2] == '*' or x[0] == 'op' and x[2] == '*':
            self.store(x[3] if x[0] == 'un' else x[4][0], v)
        else:
            raise Undecided('store to ' + show(x)[:50])

    def obj_hook(self, n):
        k = n[0]
        if k == 'this':
            return self.this[-1] if self.this else NO
        if k == 'sizeof':
            w = SIZES.get(str(n[2]))
            return NO if w is None else w
        if k == 'str':
            return str(n[2])
        if k == 'chr':
            return str(n[2])
        if k == 'glob':
            t = show(n)
            if '=' in t and t.rsplit('=', 1)[1].strip().lstrip('-').isdigit():
                return int(t.rsplit('=', 1)[1])
            return NO
        if k == 'mem':
            o = self.ex(n[2])
            if isinstance(o, Obj):
                return o.get(short(n[3]))
            return NO
        if k == 'asg':
            if n[2] == '=':
                v = self.ex(n[4])
                self.store(n[3], v)
                return v
            x = strip(n[3])
            cur = self.ex(x)
            v = self.bin(n[2][:-1], cur, self.ex(n[4]))
            self.store(x, v)
            return v
        if k == 'copy':
            v = self.ex(n[2])
            return v.copy() if isinstance(v, Obj) and v.cls in self.P.classes else v
        if k in ('call', 'mcall'):
            return self.anycall(n)
        if k == 'op':
            if n[2] == '=' and len(n[4]) == 2:
                v = self.ex(n[4][1])
                self.store(n[4][0], v.copy() if isinstance(v, Obj) and v.cls in self.P.classes else v)
                return v
            if n[2] in ('*', '->') and len(n[4]) == 1:
                return self.ex(n[4][0])
            if n[2] in ('==', '!=') and len(n[4]) == 2:
                r = self.prim(self, 'operator' + n[2], n[3], None, n[4])
                if r is not NO:
                    return r
                g = n[3]
                if g is not None and g.body and self.want(g):
                    a = [self.ex(x) for x in n[4]]
                    return self.call(g, a[0], a[1:]) if len(g.params) == 1 else self.call(g, None, a)
                return self.bin(n[2], self.ex(n[4][0]), self.ex(n[4][1]))
            r = self.prim(self, 'operator' + n[2], n[3], None, n[4])
            if r is not NO:
                return r
            if n[2] == '()' and strip(n[4][0])[0] != 'lam':
                v = self.ex(n[4][0])
                if isinstance(v, tuple) and v and v[0] == 'lam':
                    return self.apply(v, n[4][1:])
            if n[2] in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=') and len(n[4]) == 2:
                return self.bin(n[2], self.ex(n[4][0]), self.ex(n[4][1]))
            return NO
        if k == 'bin' and n[2] not in ('&&', '||'):
            return self.bin(n[2], self.ex(n[3]), self.ex(n[4]))
        if k == 'cast':
            v = self.ex(n[3])
            return v
        if k == 'lam':
            return ('lam', n, dict(self.env))
        if k == 'un' and n[2] == '!':
            return not self.truth(n[3])
        if k == 'un' and n[2] == '-':
            v = self.ex(n[3])
            return -v if isinstance(v, (int, float)) and not isinstance(v, bool) else ('neg', v)
        if k == 'new':
            r = self.prim(self, 'new', n, None, n[4])
            if r is not NO:
                return r
            ty = str(n[2]).replace('const ', '')
            if ty in self.P.classes and ty.startswith('spu::'):
                a = [self.ex(x) for x in n[4]]
                if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls == ty:
                    return a[0].copy()
                return self.make(ty, a)
            return NO
        return NO

    def bin(self, o, a, b):
        if isinstance(a, bool) and o not in ('==', '!='):
            a = int(a)
        if isinstance(b, bool) and o not in ('==', '!='):
            b = int(b)
        if o in ('==', '!='):
            if isinstance(a, Obj) and isinstance(b, Obj):
                return (a is b) if o == '==' else a is not b
            if isinstance(a, tuple) and isinstance(b, tuple) or type(a) is type(b) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return (a == b) if o == '==' else a != b
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return (a == b) if o == '==' else a != b
            raise Undecided('comparison of terms')
        if isinstance(a, int) and isinstance(b, int):
            if o in ('/', '%') and b == 0:
                raise Undecided('div0')
            return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                    '/': lambda: int(a / b), '%': lambda: a % b, '<<': lambda: a << min(b, 300), '>>': lambda: a >> min(b, 300), '&': lambda: a & b, '|': lambda: a | b,
                    '^': lambda: a ^ b, ',': lambda: b}[o]()
        if o == '+' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if self.term and o in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
            return (o, a, b)
        raise Undecided('operator ' + o)

    def apply(self, lam, argn):
        n = lam[1]
        a = [self.ex(x) for x in argn]
        for p, v in zip(n[2], a):
            self.env[p] = v
        return self.lam(n)

    def anycall(self, n):
        g = callee(n)
        obj = n[3]
        name = g.name if g is not None else ''
        r = self.prim(self, name, g, obj, n[4])
        if r is not NO:
            return r
        if name in ('move', 'forward', 'addressof', 'as_const') and len(n[4]) == 1:
            return self.ex(n[4][0])
        if name in ('make_unique', 'make_shared'):
            ty = str(n[5])
            i = ty.find('<')
            cls = ty[i + 1:].split(',')[0].split('>')[0].strip() if i >= 0 else ''
            return self.make(cls, [self.ex(a) for a in n[4]])
        if name in ('get', 'value', 'operator*', 'operator->') and not n[4] and n[0] == 'mcall' and not (g is not None and str(g.f).startswith('libspu/')):
            return self.ex(obj)
        if name == 'reset' and not n[4] and n[0] == 'mcall':
            self.store(obj, None)
            return None
        if name == 'operator bool' and n[0] == 'mcall':
            return self.truth(obj)
        if n[0] == 'mcall' and g is not None and (g.q.startswith('spu::') or str(g.f).startswith('libspu/')):
            o = self.ex(obj)
            if isinstance(o, Obj):
                if g.virt:
                    h = self.resolve(o.cls, g.name, len(n[4]))
                    g = h or g
                if g.body and not isinstance(g.body, str) and '.pb.h' not in str(g.f):
                    return self.call(g, o, [self.ex(a) for a in n[4]])
        if n[0] == 'call' and obj is None and g is not None and g.body and self.want(g):
            return self.call(g, None, [self.ex(a) for a in n[4]])
        if n[0] == 'call' and isinstance(obj, list) and strip(obj)[0] != 'lam':
            try:
                v = self.ex(obj)
            except Undecided:
                v = None
            if isinstance(v, tuple) and v and v[0] == 'lam':
                return self.apply(v, n[4])
        return NO

    def resolve(self, cls, name, np):
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for g in self.P.by_cls.get(c, []):
                if g.name == name and g.params is not None and len(g.params) == np and g.body is not None:
                    return g
            todo += bases(self.P, c)
        return None


def only_throws(b):
    while isinstance(b, list) and b and b[0] == 'block':
        if len(b[2]) != 1:
            return False
        b = b[2][0]
    return isinstance(b, list) and bool(b) and b[0] == 'throw'


def bases(P, cls):
    """direct bases of a class, looking through the TypeImpl template"""
    c = P.classes.get(cls)
    if not c:
        return []
    out = []
    for b in c['bases']:
        if b.startswith('spu::TypeImpl<'):
            out += [x.strip() for x in b[len('spu::TypeImpl<'):-1].split(',')][1:]
        else:
            out.append(b)
    return out


def ancestry(P, cls):
    seen, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        if c not in seen:
            seen.append(c)
            todo += bases(P, c)
    return seen
