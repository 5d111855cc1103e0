"""Concurrency effects of loop bodies handed to the thread pool.

A body runs for many indices at once.  Every store in it is resolved to the object it lands in (through views, references,
pointers and local lambdas) plus the subscripts on the way; a store into an object that outlives the iteration is only safe when
one of those subscripts separates the iterations.  Subscripts are evaluated in a small linear domain over the loop index."""
from program import walk, strip, callee, cargs, kids, show

LOOPS = {'spu::pforeach', 'yacl::parallel_for', 'yacl::parallel_reduce'}
# (class of object, method) whose call mutates the receiver without any per-element subscript
MUTATORS = {'push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'resize', 'clear', 'pop_back', 'append', 'assign', 'reserve', 'push', 'pop', 'swap', 'reset', 'Fill', 'push_front', 'emplace_front', 'merge'}
ELEM = {'data', 'begin', 'end', 'at', 'cbegin', 'cend', 'front', 'back', 'rbegin', 'rend', 'get'}
DEST = {'std::copy': 2, 'std::copy_n': 2, 'std::fill': 0, 'std::fill_n': 0, 'std::transform': -2, 'memcpy': 0, 'std::memcpy': 0, 'memset': 0, 'std::memset': 0, 'memmove': 0, 'std::memmove': 0, 'std::iota': 0, 'std::swap': 0, 'std::move_backward': 2, 'std::reverse': 0, 'std::sort': 0}
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'absl::MutexLock')


class Sub:
    """linear form over the index: ci * idx + sum(L) + k;  kind: lin | div | mod | perm | top"""
    __slots__ = ('kind', 'ci', 'L', 'k')

    def __init__(self, kind='lin', ci=0, L=None, k=0):
        self.kind, self.ci, self.L, self.k = kind, ci, dict(L or {}), k

    def const(self):
        return self.kind == 'lin' and self.ci == 0 and not self.L


def _addc(a, b, s=1):
    if a == 'S' or b == 'S':
        return 'S' if (a != 0 or b != 0) else 0
    return a + s * b


def add(a, b, s=1):
    if a.kind == 'top' or b.kind == 'top':
        return Sub('top')
    if a.kind == 'perm' or b.kind == 'perm':
        return Sub('perm')
    if {a.kind, b.kind} == {'div', 'mod'}:
        return Sub('perm')
    if a.kind != 'lin' or b.kind != 'lin':
        o = b if a.kind != 'lin' else a
        me = a if a.kind != 'lin' else b
        if o.kind == 'lin' and o.ci != 0:
            return Sub('perm')
        return Sub(me.kind, me.ci, {**me.L, **o.L}, 'K')
    L = dict(a.L)
    for v, c in b.L.items():
        L[v] = _addc(L.get(v, 0), c, s)
        if L[v] == 0:
            del L[v]
    k = 'K' if 'K' in (a.k, b.k) else a.k + s * b.k
    return Sub('lin', _addc(a.ci, b.ci, s), L, k)


def mul(a, b):
    if a.kind == 'top' or b.kind == 'top':
        return Sub('top')
    for x, y in ((a, b), (b, a)):
        if x.const():
            if x.k == 0 and x.k != 'K':
                return Sub()
            if y.kind != 'lin':
                return Sub(y.kind, y.ci, y.L, y.k)
            m = lambda c: 'S' if 'K' == x.k or c == 'S' else c * x.k
            return Sub('lin', m(y.ci) if y.ci != 0 else 0, {v: m(c) for v, c in y.L.items()}, 'K' if 'K' in (x.k, y.k) else x.k * y.k)
    return Sub('top')


class Loc:
    """where an lvalue lives: root = ('var', id) | ('local',) | ('this', field) | ('glob', q) | None; subs = subscripts on the way"""
    __slots__ = ('root', 'subs', 'bits')

    def __init__(self, root, subs=(), bits=False):
        self.root, self.subs, self.bits = root, tuple(subs), bits


class Body:
    """analysis of one loop body"""

    def __init__(self, P, fn, lam, style, mutates):
        self.P, self.fn, self.lam, self.style, self.mutates = P, fn, lam, style, mutates
        self.stores = []      # (line, Loc, what, guarded)
        self.reads = []       # (line, Loc)
        self.undec = []
        self.env = {}         # local var -> Sub (ints) / ('alias', expr) / lambda node
        self.inside = set()
        self.lv = set()       # local loop variables
        self.depth = 0
        self.outer = self._outer()
        for n in walk(lam[4]):
            if n[0] == 'decl':
                self.inside |= {y[0] for y in n[2]}
            elif n[0] == 'rfor':
                self.inside.add(n[2])
            elif n[0] == 'lam':
                self.inside |= set(n[2])
        for v, m, e in lam[3]:
            if m not in ('ref', 'this', '&') and e is not None and not (e[0] == 'var' and e[2] == v):
                self.env[v] = ('alias', e)
        ps = lam[2]
        if style == 'idx':
            self.env[ps[0]] = Sub('lin', 1)
        else:
            self.rng = ps[:2]
            for p in ps[:2]:
                self.env[p] = Sub('lin', 1)
        self.inside |= set(ps)
        self.stmt(lam[4], False)

    def _outer(self):
        """initialisers of the enclosing function's variables (views, references, pointers, lambdas)"""
        o = {}
        for n in walk(self.fn.body):
            if n[0] == 'decl':
                for y in n[2]:
                    o[y[0]] = y[1]
            elif n[0] == 'lam':
                for v, m, e in n[3]:
                    if e is not None and not (e[0] == 'var' and e[2] == v):
                        o.setdefault(v, e)
        return o

    def vt(self, v):
        return (self.fn.vars.get(v) or ('', '', 0))[1] or ''

    # ---- subscripts
    def sub(self, e):
        e = strip(e)
        if e is None:
            return Sub('top')
        k = e[0]
        if k == 'int':
            return Sub('lin', 0, None, int(e[2]))
        if k == 'cast':
            return self.sub(e[3])
        if k in ('sizeof', 'enum', 'glob'):
            return Sub('lin', 0, None, 'K')
        if k == 'var':
            v = e[2]
            x = self.env.get(v)
            if isinstance(x, Sub):
                return x
            if isinstance(x, tuple) and x[0] == 'alias':
                return self.sub(x[1])
            if v in self.lv:
                return Sub('lin', 0, {v: 1}, 0)
            if v in self.inside:
                return Sub('top')
            return Sub('lin', 0, None, 'K')
        if k == 'bin' or (k == 'op' and len(e[4]) == 2 and e[2] in '+-*/%<<>>&'):
            o, a, b = (e[2], e[3], e[4]) if k == 'bin' else (e[2], e[4][0], e[4][1])
            A, B = self.sub(a), self.sub(b)
            if o == '+':
                return add(A, B)
            if o == '-':
                return add(A, B, -1)
            if o == '*':
                return mul(A, B)
            if A.const() and B.const():
                return Sub('lin', 0, None, 'K')
            if o == '<<' and B.const():
                return mul(A, Sub('lin', 0, None, 'K' if B.k == 'K' else 1 << B.k))
            if o in ('/', '>>') and B.const():
                if A.kind == 'lin' and A.ci == 0:
                    return Sub('top') if A.L else Sub('lin', 0, None, 'K')
                return Sub('div') if A.kind == 'lin' and A.ci in (1, -1) and not A.L and B.k != (0 if o == '>>' else 1) else Sub('top')
            if o in ('%', '&') and B.const():
                return Sub('mod') if A.kind == 'lin' and A.ci in (1, -1) and not A.L else Sub('top')
            return Sub('top')
        if k == 'un' and e[2] in ('+', '-'):
            return mul(self.sub(e[3]), Sub('lin', 0, None, -1 if e[2] == '-' else 1))
        if k in ('idx', 'op') and not self.local_idx(e):
            # an entry of a table that the iterations do not write: a permutation of the index (assumption), or a constant
            s = self.sub(e[3] if k == 'idx' else e[4][-1])
            return Sub('lin', 0, None, 'K') if s.const() else (Sub('perm') if s.kind == 'perm' or (s.kind == 'lin' and s.ci != 0) else Sub('top'))
        if k in ('mcall', 'call', 'mem'):
            # a value that does not depend on anything inside the body is the same for every iteration
            if not any(x[0] == 'var' and x[2] in self.inside for x in walk(e)):
                return Sub('lin', 0, None, 'K')
            s = [self.sub(x) for x in cargs(e)] if k != 'mem' else []
            if s and any(x.kind == 'lin' and x.ci != 0 for x in s):
                return Sub('perm')
        return Sub('top')

    def local_idx(self, e):
        b = strip(e[2] if e[0] == 'idx' else e[4][0])
        return not (b is not None and (e[0] == 'idx' or e[2] == '[]'))

    # ---- lvalues
    def loc(self, e, d=0):
        e = strip(e)
        if e is None or d > 12:
            return Loc(None)
        k = e[0]
        if k == 'cast':
            return self.loc(e[3], d + 1)
        if k == 'var':
            v = e[2]
            x = self.env.get(v)
            if isinstance(x, Loc):
                return x
            if isinstance(x, tuple) and x[0] == 'alias':
                return self.loc(x[1], d + 1)
            if v in self.inside:
                return Loc(('local',))
            return self.canon(v, d)
        if k == 'this':
            return Loc(('this', ''))
        if k == 'glob':
            return Loc(('glob', e[2]))
        if k == 'mem':
            b = strip(e[2])
            if b is not None and b[0] == 'this':
                return Loc(('this', str(e[3]).rsplit('::', 1)[-1]))
            return self.loc(e[2], d + 1)
        if k == 'idx':
            b = self.loc(e[2], d + 1)
            return Loc(b.root, b.subs + (self.sub(e[3]),), b.bits)
        if k == 'op' and e[2] == '[]' and len(e[4]) == 2:
            b = self.loc(e[4][0], d + 1)
            g = e[3]
            bits = g is not None and ('vector<bool' in (g.q + str(g.clst or '')) or '_Bit_reference' in str(g.r))
            return Loc(b.root, b.subs + (self.sub(e[4][1]),), b.bits or bits)
        if k == 'op' and e[2] in ('*', '->') and len(e[4]) == 1:
            return self.loc(e[4][0], d + 1)
        if k == 'un' and e[2] in ('*', '&'):
            return self.loc(e[3], d + 1)
        if (k == 'bin' or k == 'op') and e[2] in ('+', '-'):
            a, b = (e[3], e[4]) if k == 'bin' else e[4][:2]
            la = self.loc(a, d + 1)
            if la.root is not None:
                return Loc(la.root, la.subs + (self.sub(b),), la.bits)
            lb = self.loc(b, d + 1)
            return Loc(lb.root, lb.subs + (self.sub(a),), lb.bits)
        if k == 'mcall':
            nm = e[2].name if e[2] is not None else ''
            b = self.loc(e[3], d + 1)
            if nm in ('at', 'subspan', 'slice', 'data') and e[4]:
                return Loc(b.root, b.subs + (self.sub(e[4][0]),), b.bits)
            if nm in ELEM or nm.startswith('operator '):
                return b
            return Loc(None)
        if k == 'call':
            g = callee(e)
            if g is not None and g.name in ('MakeSpan', 'MakeConstSpan', 'ref', 'get', 'data', 'begin', 'addressof') and e[4]:
                b = self.loc(e[4][0], d + 1)
                return Loc(b.root, b.subs + tuple(self.sub(x) for x in e[4][1:2] if g.name == 'data'), b.bits)
            return Loc(None)
        if k == 'new' and e[4]:
            t = str(e[2])
            if any(x in t for x in ('View', 'Span', 'span', 'iterator', 'Iterator')):
                b = self.loc(e[4][0], d + 1)
                return b
            return Loc(('local',))
        if k == 'cond':
            a, b = self.loc(e[3], d + 1), self.loc(e[4], d + 1)
            return a if a.root is not None and a.root != ('local',) else b
        return Loc(None)

    def canon(self, v, d):
        """captured views / references / pointers resolve to the object they look at"""
        e = self.outer.get(v)
        t = self.vt(v)
        if e is not None and (t.endswith('&') or t.endswith('*') or 'View' in t or 'Span' in t or 'iterator' in t):
            b = self.loc(e, d + 1) if not any(x[0] == 'var' and x[2] == v for x in walk(e)) else Loc(None)
            if b.root is not None and b.root != ('local',):
                return b
        return Loc(('var', v))

    # ---- statements
    def guard(self, c):
        """a condition that only one iteration satisfies"""
        c = strip(c)
        if c is None:
            return False
        if c[0] == 'bin' and c[2] == '&&':
            return self.guard(c[3]) or self.guard(c[4])
        if c[0] == 'bin' and c[2] == '==':
            a, b = self.sub(c[3]), self.sub(c[4])
            return (a.kind == 'lin' and a.ci != 0 and b.const()) or (b.kind == 'lin' and b.ci != 0 and a.const())
        return False

    def stmt(self, n, g):
        if n is None:
            return
        k = n[0]
        if k == 'block':
            lock = False
            for x in n[2]:
                if x is not None and x[0] == 'decl' and any(self.vt(y[0]).startswith(LOCKS) for y in x[2]):
                    lock = True
                self.stmt(x, g or lock)
            return
        if k == 'decl':
            for y in n[2]:
                self.bind(y[0], y[1], g)
            return
        if k in ('if', 'ifc'):
            self.stmt(n[2], g)
            self.expr(n[3], g)
            self.stmt(n[4], g or self.guard(n[3]))
            self.stmt(n[5], g)
            return
        if k == 'for':
            if n[2] is not None and n[2][0] == 'decl':
                for y in n[2][2]:
                    s = self.sub(y[1]) if y[1] is not None else Sub('top')
                    self.expr(y[1], g)
                    if self.style == 'range' and s.kind == 'lin' and s.ci == 1 and not s.L:
                        self.env[y[0]] = Sub('lin', 1)
                    elif self.style == 'range' and s.ci != 0:
                        self.env[y[0]] = s
                    else:
                        self.lv.add(y[0])
            else:
                self.stmt(n[2], g)
            self.expr(n[3], g)
            if n[4] is not None:
                self.step(n[4], g)
            self.stmt(n[5], g)
            return
        if k == 'rfor':
            self.expr(n[3], g)
            b = self.loc(n[3])
            if self.vt(n[2]).endswith('&') and not self.vt(n[2]).startswith('const') and b.root is not None:
                self.env[n[2]] = Loc(b.root, b.subs + (Sub('lin', 0, {n[2]: 1}),), b.bits)
            self.stmt(n[4], g)
            return
        if k in ('while', 'do', 'switch', 'case'):
            for x in n[2:4]:
                if x is not None:
                    self.stmt(x, g)
            return
        if k == 'try':
            self.stmt(n[2], g)
            return
        if k in ('ret', 'throw', 'default', 's', 'del', 'omp'):
            for x in kids(n):
                self.stmt(x, g)
            return
        self.expr(n, g)

    def step(self, n, g):
        """loop increment: not a store the iterations can see"""
        for x in walk(n):
            t = x[3] if x[0] == 'un' and x[2] in ('++', '--', 'p++', 'p--', '++p', '--p') else x[3] if x[0] == 'asg' else None
            if t is not None:
                l = self.loc(t)
                if l.root is not None and l.root[0] != 'local' and not (strip(t)[0] == 'var' and strip(t)[2] in self.inside):
                    self.store(n[1], t, 'loop step', g)

    def bind(self, v, e, g):
        if e is None:
            return
        t = self.vt(v)
        s = strip(e)
        self.expr(e, g)
        if s is None:
            return
        if s[0] == 'lam':
            self.env[v] = s
            return
        if t.endswith('&') or t.endswith('*') or 'View' in t or 'Span' in t or 'span' in t or 'iterator' in t:
            l = self.loc(e)
            if l.root is not None:
                self.env[v] = l
            return
        if any(t.replace('const ', '') == x for x in ('int', 'long', 'unsigned long', 'unsigned int', 'short', 'size_t', 'long long', 'unsigned long long', 'int64_t')):
            if not self.rewritten(v):
                self.env[v] = self.sub(e)

    def rewritten(self, v):
        for x in walk(self.lam[4]):
            t = x[3] if (x[0] == 'un' and ('++' in x[2] or '--' in x[2])) or x[0] == 'asg' else None
            if t is not None and strip(t)[0] == 'var' and strip(t)[2] == v:
                return True
        return False

    def store(self, line, e, what, g):
        l = self.loc(e)
        if l.root is None:
            self.undec.append((line, show(e)[:60]))
            return
        if l.root == ('local',):
            return
        s = strip(e)
        # assigning to a local reference variable's target, or to a by-value local
        if s[0] == 'var' and s[2] in self.inside and not isinstance(self.env.get(s[2]), (Loc, tuple)) and not self.vt(s[2]).endswith('&'):
            return
        if s[0] == 'var' and s[2] in self.inside and isinstance(self.env.get(s[2]), Loc) and not self.vt(s[2]).endswith('&'):
            return    # re-pointing a local pointer
        self.stores.append((line, l, what, g))

    def expr(self, n, g):
        if n is None:
            return
        k = n[0]
        if k in ('block', 'decl', 'if', 'ifc', 'for', 'rfor', 'while', 'do', 'switch', 'case', 'ret', 's', 'try', 'throw'):
            self.stmt(n, g)
            return
        if k == 'lam':
            return
        if k == 'asg':
            self.store(n[1], n[3], f'{n[2]}', g)
            self.lhs(n[3], g)
            if n[2] != '=':
                self.read(n[3])
            self.expr(n[4], g)
            return
        if k == 'un' and ('++' in n[2] or '--' in n[2]):
            self.store(n[1], n[3], n[2], g)
            self.lhs(n[3], g)
            return
        if k == 'op' and n[2] in ('=', '+=', '-=', '*=', '/=', '%=', '^=', '|=', '&=', '<<=', '>>=', '++', '--'):
            self.store(n[1], n[4][0], n[2], g)
            self.lhs(n[4][0], g)
            for x in n[4][1:]:
                self.expr(x, g)
            return
        if k == 'op' and n[2] == '()':
            f = strip(n[4][0])
            if f is not None and f[0] == 'var':
                f2 = self.env.get(f[2])
                if not (isinstance(f2, list) and f2[0] == 'lam'):
                    f2 = strip(self.outer.get(f[2])) if f[2] not in self.inside else None
                f = f2
            for x in n[4][1:]:
                self.expr(x, g)
            if f is not None and f[0] == 'lam':
                self.inline(f, n[4][1:], g)
            elif n[3] is not None and not n[3].const and n[3].repo is False and 'function' not in str(n[3].q):
                self.effect(n[1], n[4][0], n[3], g)
            return
        if k == 'mcall':
            f = n[2]
            if f is not None and not f.const and not f.static:
                if f.name in MUTATORS or (f.repo and self.mutates(f)):
                    self.effect(n[1], n[3], f, g)
            self.callargs(n, f, g)
            self.expr(n[3], g)
            return
        if k in ('call', 'new'):
            f = callee(n)
            self.callargs(n, f, g)
            if k == 'call' and isinstance(n[3], list):
                h = strip(n[3])
                if h[0] == 'var':
                    h = self.env.get(h[2]) if isinstance(self.env.get(h[2]), list) else strip(self.outer.get(h[2]))
                if h is not None and h[0] == 'lam':
                    self.inline(h, n[4], g)
            return
        if k in ('idx',) or (k == 'op' and n[2] == '[]') or k == 'mem':
            self.read(n)
        for x in kids(n):
            if x is not None:
                self.expr(x, g)

    def lhs(self, e, g):
        """subscripts inside a store's target are evaluated, the target itself is not read"""
        e = strip(e)
        if e is None:
            return
        if e[0] in ('idx',):
            self.expr(e[3], g)
            self.lhs(e[2], g)
        elif e[0] == 'op' and e[2] == '[]':
            self.expr(e[4][1], g)
            self.lhs(e[4][0], g)

    def read(self, e):
        l = self.loc(e)
        if l.root is not None and l.root != ('local',):
            self.reads.append((e[1], l))

    def effect(self, line, obj, f, g):
        l = self.loc(obj)
        if l.root is None or l.root == ('local',):
            return
        s = strip(obj)
        if s[0] == 'var' and s[2] in self.inside and not isinstance(self.env.get(s[2]), (Loc, tuple)):
            return
        self.stores.append((line, l, f'call of the mutating {f.name}()', g))

    def callargs(self, n, f, g):
        a = cargs(n)
        q = f.q if f is not None else (n[2] if isinstance(n[2], str) else '')
        if q in DEST and a:
            i = DEST[q]
            if i == -2:
                i = 2 if len(a) == 4 else 3
            if i < len(a):
                self.store(n[1], a[i], f'written by {q}', g)
        elif f is not None and f.body is None and f.p and not q.startswith(('std::min', 'std::max', 'std::forward', 'std::move', 'yacl::internal')):
            # a library function that takes a plain mutable reference / pointer to a captured scalar
            pass
        elif f is not None and f.repo and f.body is not None:
            w = self.mutates(f, args=True)
            for i, x in enumerate(a):
                if i in w:
                    self.store(n[1], x, f'written by {f.name}()', g)
        for x in a:
            self.expr(x, g)

    def inline(self, lam, args, g):
        if self.depth > 4:
            return
        self.depth += 1
        sv, si = dict(self.env), set(self.inside)
        for m in walk(lam[4]):
            if m[0] == 'decl':
                self.inside |= {y[0] for y in m[2]}
            elif m[0] == 'rfor':
                self.inside.add(m[2])
        for p, a in zip(lam[2], args):
            self.inside.add(p)
            t = self.vt(p)
            if t.endswith('&') or t.endswith('*') or 'View' in t or 'Span' in t:
                l = self.loc(a)
                if l.root is not None:
                    self.env[p] = l
            else:
                self.env[p] = self.sub(a)
        self.stmt(lam[4], g)
        self.env, self.inside = sv, si
        self.depth -= 1

    # ---- verdicts
    def verdicts(self):
        """[(line, message, key)]"""
        out = []
        written = {}
        for line, l, what, g in self.stores:
            if g:
                continue
            r = self.name(l)
            if l.bits:
                out.append((line, f'store into packed bits of {r}: neighbouring iterations share the byte', f'bits {r}'))
                continue
            v = self.sep(l.subs)
            if v == 'shared':
                out.append((line, f'{r} is written by every iteration ({what})', f'shared {r}'))
            elif v == 'div':
                out.append((line, f'{r} is written at a subscript that several iterations share ({what})', f'collide {r}'))
            elif v == 'window':
                out.append((line, f'{r} is written in overlapping windows: index + inner loop variable ({what})', f'window {r}'))
            elif v == 'top':
                self.undec.append((line, r))
            written.setdefault(l.root, []).append(l)
        for line, l in self.reads:
            for w in written.get(l.root, ()):
                if len(w.subs) == len(l.subs) and self.cross(w.subs, l.subs):
                    r = self.name(l)
                    out.append((line, f'{r} is read at an element another iteration writes', f'carried {r}'))
                    break
        return out

    def name(self, l):
        if l.root[0] == 'var':
            return self.fn.vars.get(l.root[1], ('?',))[0] or '?'
        return l.root[1]

    @staticmethod
    def sep(subs):
        if not subs:
            return 'shared'
        kinds = set()
        for s in subs:
            if s.kind == 'perm':
                return 'ok'
            if s.kind == 'top':
                kinds.add('top')
                continue
            if s.kind in ('div', 'mod'):
                kinds.add(s.kind)
                continue
            if s.ci != 0:
                if any(c == s.ci and c != 'S' for c in s.L.values()):
                    kinds.add('window')
                    continue
                return 'ok'
            kinds.add('const')
        if {'div', 'mod'} <= kinds:
            return 'ok'
        if 'top' in kinds:
            return 'top'
        if 'window' in kinds:
            return 'window'
        if 'div' in kinds or 'mod' in kinds:
            return 'div'
        return 'shared'

    @staticmethod
    def cross(w, r):
        """is the subscript tuple r an element that some other iteration writes through w?  Only definite answers."""
        hit = False
        for a, b in zip(w, r):
            if a.kind != 'lin' or b.kind != 'lin':
                return False
            if a.ci == 0 and b.ci == 0:
                if a.L or b.L or a.k == 'K' or b.k == 'K':
                    continue      # inner dimensions: may be equal
                if a.k != b.k:
                    return False
                continue
            if a.ci in (1, -1) and not a.L and a.k != 'K':
                if b.ci == a.ci and not b.L and b.k != 'K':
                    if a.k != b.k:
                        hit = True
                    continue
                if b.ci == 0 and not b.L and b.k != 'K':
                    hit = True
                    continue
            return False
        return hit


def mutation_oracle(P):
    """does a repo method change its object (without taking a lock)?  which parameters does a function write wholesale?"""
    memo, memoa = {}, {}

    def locked(f):
        return any((v[1] or '').startswith(LOCKS) for v in f.vars.values())

    def mutates(f, args=False, d=0):
        if args:
            if f not in memoa:
                memoa[f] = set()
                s = set()
                if not locked(f):
                    pos = {p: i for i, p in enumerate(f.params)}
                    for n in walk(f.body):
                        t = n[3] if n[0] == 'asg' or (n[0] == 'un' and ('++' in n[2] or '--' in n[2])) else n[4][0] if n[0] == 'op' and n[2] in ('=', '+=', '-=', '*=', '^=', '|=', '&=', '++', '--') else None
                        if t is None:
                            continue
                        t = strip(t)
                        while t is not None and t[0] in ('mem', 'cast'):
                            t = strip(t[2] if t[0] == 'mem' else t[3])
                        star = False
                        if t is not None and t[0] == 'un' and t[2] == '*':
                            t, star = strip(t[3]), True
                        if t is not None and t[0] == 'var' and t[2] in pos:
                            i = pos[t[2]]
                            ty = f.p[i] if i < len(f.p) else ''
                            if (ty.endswith('&') and not ty.startswith('const')) or (ty.endswith('*') and star):
                                s.add(i)
                memoa[f] = s
            return memoa[f]
        if f in memo:
            return memo[f]
        memo[f] = False
        r = False
        if f.body is not None and not locked(f):
            for n in walk(f.body):
                t = None
                if n[0] == 'asg' or (n[0] == 'un' and ('++' in n[2] or '--' in n[2])):
                    t = n[3]
                elif n[0] == 'op' and n[2] in ('=', '+=', '-=', '*=', '^=', '|=', '&=', '++', '--'):
                    t = n[4][0]
                elif n[0] == 'mcall' and n[2] is not None and not n[2].const:
                    o = strip(n[3])
                    if o is not None and o[0] == 'mem' and strip(o[2]) is not None and strip(o[2])[0] == 'this' and n[2].name in MUTATORS:
                        r = True
                    elif o is not None and o[0] == 'this' and n[2].repo and d < 4 and mutates(n[2], False, d + 1):
                        r = True
                t = strip(t) if t is not None else None
                while t is not None and t[0] in ('cast',):
                    t = strip(t[3])
                if t is not None and t[0] == 'mem' and strip(t[2]) is not None and strip(t[2])[0] == 'this' and 'atomic' not in str(t[4]):
                    r = True
                if r:
                    break
        memo[f] = r
        return r
    return mutates


def bodies(P):
    """every (function, lambda, style) handed to the thread pool"""
    for f in P.funcs:
        decls = None
        for n in walk(f.body):
            g = callee(n) if n[0] == 'call' else None
            if g is None or g.q not in LOOPS or f.q in LOOPS:
                continue
            lam = None
            for a in n[4]:
                s = strip(a)
                if s is not None and s[0] == 'var':
                    if decls is None:
                        decls = {y[0]: y[1] for m in walk(f.body) if m[0] == 'decl' for y in m[2]}
                    s = strip(decls.get(s[2]))
                if s is not None and s[0] == 'new' and len(s[4]) == 1:
                    s = strip(s[4][0])
                if s is not None and s[0] == 'lam':
                    lam = s
            yield f, n, lam, ('idx' if lam is not None and len(lam[2]) == 1 else 'range')


class Task(Body):
    """a std::async body, or the statements its creator runs meanwhile"""

    def __init__(self, P, fn, params, body, caps, mutates):
        super().__init__(P, fn, ['lam', body[1], list(params), caps, body], 'task', mutates)

    def expr(self, n, g):
        # every use of a captured object counts as a read
        if n is not None and n[0] in ('var', 'mem'):
            self.read(n)
        return super().expr(n, g)


def tasks(P):
    """(function, line, lambda, statements run until the future is awaited, in a loop?)"""
    for f in P.funcs:
        if not any(callee(n) is not None and callee(n).q == 'std::async' for n in walk(f.body) if n[0] == 'call'):
            continue
        yield from _tasks(f, f.body, False, {})


def _async(n):
    for x in walk(n):
        if x[0] == 'call' and callee(x) is not None and callee(x).q == 'std::async':
            yield x


def awaits(t, var):
    return any(x[0] == 'mcall' and x[2] is not None and x[2].name in ('get', 'wait', 'wait_for') and strip(x[3]) is not None and strip(x[3])[0] == 'var' and strip(x[3])[2] == var for x in walk(t))


def prefix(t, var):
    """statements of a compound statement that run before the future is awaited in it"""
    out = []
    if t[0] == 'block':
        for s in t[2]:
            if s is None:
                continue
            if awaits(s, var):
                return out + prefix(s, var)
            out.append(s)
    elif t[0] in ('if', 'ifc', 'for', 'rfor', 'while', 'do'):
        for x in kids(t):
            if x is not None:
                out += prefix(x, var) if awaits(x, var) else []
    return out


def _tasks(f, n, loop, decls):
    for b in walk(f.body):
        if b[0] != 'block':
            continue
        for i, s in enumerate(b[2]):
            if s is None or s[0] not in ('decl', 'call', 'mcall', 'asg', 'op'):
                continue
            for c in _async(s):
                lam = next((strip(a) for a in c[4] if strip(a) is not None and strip(a)[0] == 'lam'), None)
                var = s[2][0][0] if s[0] == 'decl' else None
                rest = []
                for t in b[2][i + 1:]:
                    if t is None:
                        continue
                    if var is None or awaits(t, var):
                        if var is not None:
                            rest += prefix(t, var)
                        break
                    rest.append(t)
                inloop = any(x[0] in ('for', 'rfor', 'while') and any(y is c for y in walk(x)) for x in walk(f.body))
                yield f, c, lam, rest, inloop, var
