"""Storage origins: whose storage does a tensor expression denote, and which functions write to their operands' storage?

Origins: 'F' fresh, ('p', i) storage of parameter i, 'M' a member / global, 'U' unknown.  Flow-sensitive over the structured IR.
"""
from program import walk, strip, callee, cargs, kids, show

ND = 'spu::NdArrayRef'
TENSORISH = ('NdArrayRef', 'spu::Value', 'yacl::Buffer', 'NdArrayView', 'PtBufferView', 'Span', 'shared_ptr<Buffer', 'Iterator')
FRESH = {'clone', 'concatenate', 'pad', 'linear_gather', 'getOrCreateCompactBuf'}
KEEP = {'as', 'slice', 'slice_scalar_at', 'reshape', 'transpose', 'broadcast_to', 'expand', 'reverse', 'data', 'buf', 'at', 'begin', 'end', 'cbegin', 'setDtype', 'get', 'value', 'front', 'back', 'second', 'first', 'cend'}
DSTLAST = {'copy', 'copy_n', 'transform', 'merge', 'partial_sum', 'copy_backward', 'move_backward', 'adjacent_difference'}
DSTFIRST = {'memcpy', 'memmove', 'memset', 'fill', 'fill_n', 'iota', 'generate', 'sort', 'reverse', 'swap', 'replace', 'for_each', 'rotate', 'shuffle', '__builtin_memcpy', 'stable_sort', 'nth_element'}
FU = frozenset('U')
FF = frozenset('F')
E0 = frozenset()


def carries(t):
    """may a variable of this type denote tensor storage?"""
    t = t or ''
    return any(x in t for x in TENSORISH) or '*' in t or t.rstrip().endswith('&') or 'auto' in t or 'tuple' in t or 'pair' in t or 'vector' in t or 'array' in t or 'optional' in t


class Origins:
    def __init__(self, P):
        self.P = P
        self.sum = {}

    def summary(self, f):
        """(origin of the result, {param: (line, how)} written, [(line, origin, how)] all writes)"""
        if f in self.sum:
            return self.sum[f]
        self.sum[f] = (FF if f.body is not None else FU, {}, [])
        r = _Run(self, f).go()
        self.sum[f] = r
        return r


class _Run:
    def __init__(self, O, f):
        self.O, self.f = O, f
        self.env = {}
        self.writes = []
        self.ret = set()
        self.seen = set()
        self.lams = []
        for i, v in enumerate(f.params or ()):
            self.env[v] = frozenset([('p', i)])
        self.scalars = {v for v, x in f.vars.items() if not carries(x[1])}

    def go(self):
        if self.f.inits:
            for a, b, w in self.f.inits:
                if b is not None:
                    self.val(b)
        self.stmt(self.f.body)
        w = {}
        for l, o, how, _ in self.writes:
            for x in o:
                if isinstance(x, tuple) and x[1] not in w:
                    w[x[1]] = (l, how)
        return (frozenset(self.ret) or FF, w, self.writes)

    # ---- statements
    def join(self, a, b):
        r = dict(a)
        for k, v in b.items():
            r[k] = r[k] | v if k in r else v
        return r

    def stmt(self, n):
        """returns True if control never continues after n"""
        if n is None:
            return False
        k = n[0]
        if k == 'block':
            for s in n[2]:
                if self.stmt(s):
                    return True
            return False
        if k in ('if', 'ifc'):
            self.stmt(n[2])
            self.val(n[3])
            e0 = dict(self.env)
            a = self.stmt(n[4])
            e1 = self.env
            self.env = dict(e0)
            b = self.stmt(n[5])
            if a and b:
                return True
            self.env = self.env if a else e1 if b else self.join(e1, self.env)
            return False
        if k in ('for', 'while', 'do', 'rfor'):
            if k == 'for':
                self.stmt(n[2])
                parts = [n[3], n[5], n[4]]
            elif k == 'while':
                parts = [n[2], n[3]]
            elif k == 'do':
                parts = [n[2], n[3]]
            else:
                self.val(n[3])
                self.env[n[2]] = self.val(n[3])
                parts = [n[4]]
            for _ in range(2):
                e0 = dict(self.env)
                for p in parts:
                    if p is not None:
                        if self.stmt(p):
                            break
                self.env = self.join(e0, self.env)
            return False
        if k == 'switch':
            self.val(n[2])
            e0 = dict(self.env)
            acc = None
            b = n[3]
            ss = b[2] if b is not None and b[0] == 'block' else [b]
            for s in ss:
                self.env = dict(e0) if acc is None else self.join(e0, acc)
                t = self.stmt(s)
                acc = self.env if acc is None else self.join(acc, self.env)
            self.env = acc if acc is not None else e0
            return False
        if k in ('case', 'default'):
            r = False
            for x in kids(n):
                if x is not None:
                    r = self.stmt(x) or r
            return r
        if k == 'ret':
            if n[2] is not None:
                o = self.val(n[2])
                (self.rets[-1] if self.lams else self.ret).update(o)
            return True
        if k in ('break', 'cont', 'throw'):
            for x in kids(n):
                if x is not None:
                    self.val(x)
            return k == 'throw'
        if k == 'try':
            for x in kids(n):
                if x is not None:
                    self.stmt(x)
            return False
        if k == 'decl':
            for y in n[2]:
                o = self.val(y[1]) if y[1] is not None else FF
                if y[0] is not None:
                    self.env[y[0]] = o
            return False
        self.val(n)
        return False

    # ---- expressions
    def write(self, n, o, how, tensor=True):
        key = (n[1], how)
        o = frozenset(x for x in o if x != 'F')
        if o:
            self.writes.append((n[1], o, how, tensor))

    def root(self, e):
        e = strip(e)
        while e is not None and (e[0] in ('mem', 'idx') or (e[0] == 'op' and e[2] in ('[]', '*', '->')) or e[0] == 'cast' or e[0] == 'un'):
            e = strip(e[4][0] if e[0] == 'op' else e[3] if e[0] in ('cast', 'un') else e[2])
        return e

    def lvalue_storage(self, l):
        """origin written through lvalue l, or None if l is a plain (re)binding of a variable"""
        s = strip(l)
        if s is None:
            return None
        k = s[0]
        if k == 'var':
            t = (self.f.vars.get(s[2]) or ('', ''))[1] or ''
            if t.rstrip().endswith('&') and s[2] in self.refs():
                return self.env.get(s[2], E0)
            return None
        if k == 'un' and s[2] == '*':
            return self.val(s[3])
        if k == 'idx':
            return self.storage(s[2])
        if k == 'op' and s[2] in ('[]', '*'):
            g = s[3]
            if g is not None and g.cls and ('vector' in g.cls or 'std::array' in g.cls or 'map' in g.cls) and s[2] == '[]':
                r = self.elem_write(s)
                return r
            return self.storage(s[4][0])
        if k == 'mcall' and s[2] is not None and s[2].name in ('at', 'data') and s[2].cls == ND:
            return self.val(s[3])
        if k == 'mem':
            return self.lvalue_storage(s[2])
        if k == 'cast':
            return self.lvalue_storage(s[3])
        if k == 'bind':
            return None
        return None

    def elem_write(self, s):
        """store to container[i]: storage only if the container is itself an element view of tensor storage"""
        b = strip(s[4][0])
        if b is None:
            return None
        if (b[0] == 'op' and b[2] == '[]') or b[0] == 'idx' or (b[0] == 'un' and b[2] == '*') or (b[0] == 'mcall' and b[2] is not None and b[2].cls == ND):
            return self.lvalue_storage(b)
        if b[0] == 'var' and b[2] in self.refs():
            return self.env.get(b[2], E0)
        return None

    def refs(self):
        """reference variables bound to elements"""
        if not hasattr(self, '_refs'):
            self._refs = set()
            for n in walk(self.f.body):
                if n[0] == 'decl':
                    for y in n[2]:
                        t = (self.f.vars.get(y[0]) or ('', ''))[1] or ''
                        if t.rstrip().endswith('&') and y[1] is not None:
                            s = strip(y[1])
                            if s is not None and ((s[0] == 'op' and s[2] in ('[]', '*') and 'NdArrayRef' not in t and 'Value' not in t) or s[0] == 'idx' or (s[0] == 'mcall' and s[2] is not None and s[2].name == 'at') or (s[0] == 'un' and s[2] == '*')):
                                self._refs.add(y[0])
                elif n[0] == 'rfor':
                    t = (self.f.vars.get(n[2]) or ('', ''))[1] or ''
                    if t.rstrip().endswith('&') and 'NdArrayRef' not in t and 'Value' not in t and 'const' not in t:
                        self._refs.add(n[2])
        return self._refs

    def storage(self, e):
        return self.val(e)

    def val(self, e):
        """origin of the storage e denotes; records writes on the way"""
        if e is None:
            return E0
        k = e[0]
        if k in ('int', 'flt', 'str', 'enum', 'null', 'sizeof', 'fref', 'zero'):
            return E0
        if k == 'var':
            return self.env.get(e[2], E0) if e[2] not in self.scalars else E0
        if k == 'bind':
            return self.env.get(e[2], E0)
        if k == 'this':
            return frozenset('M')
        if k == 'glob':
            return frozenset('M')
        if k == 'mem':
            return self.val(e[2])
        if k == 'asg' or (k == 'op' and e[2] in ('=', '+=', '-=', '*=', '/=', '%=', '^=', '|=', '&=', '<<=', '>>=') and len(e[4]) > 1):
            l, r = (e[3], e[4]) if k == 'asg' else (e[4][0], e[4][1])
            o = self.val(r)
            s = strip(l)
            st = self.lvalue_storage(l)
            if st is not None:
                self.write(e, st, 'an element store', tensor_lhs(s))
            elif s is not None:
                b = self.root(l)
                if s[0] == 'var':
                    if s[2] not in self.scalars:
                        self.env[s[2]] = o
                elif b is not None and b[0] == 'var' and b[2] not in self.scalars:
                    self.env[b[2]] = self.env.get(b[2], E0) | o
                    for x in kids(s):
                        if x is not None:
                            self.val(x)
            return o
        if k == 'un':
            o = self.val(e[3])
            if '++' in e[2] or '--' in e[2]:
                st = self.lvalue_storage(e[3])
                if st is not None:
                    self.write(e, st, 'an element store')
                    return E0
            return o
        if k == 'lam':
            e0 = self.env
            self.env = dict(e0)
            for c in e[3]:
                v, m, x = c[0], c[1], c[2] if len(c) > 2 else None
                if x is not None and strip(x) is not None and not (strip(x)[0] == 'var' and strip(x)[2] == v):
                    self.env[v] = self.val(x)
            self.lams.append(e)
            if not hasattr(self, 'rets'):
                self.rets = []
            self.rets.append(set())
            self.stmt(e[4])
            r = frozenset(self.rets.pop())
            self.lams.pop()
            inner = self.env
            self.env = e0
            for v in e0:                                  # assignments to captured tensors
                if v in inner and inner[v] != e0[v]:
                    self.env[v] = e0[v] | inner[v]
            return r
        if k == 'cond':
            self.val(e[2])
            e0 = dict(self.env)
            a = self.val(e[3])
            e1 = self.env
            self.env = dict(e0)
            b = self.val(e[4])
            self.env = self.join(e1, self.env)
            return a | b
        if k == 'new':
            t = str(e[2]).replace('const ', '')
            os = [self.val(a) for a in e[4] if a is not None]
            g = e[3] if hasattr(e[3], 'q') else None
            if t == ND:
                if os and (g is None or not g.p or 'Type' not in g.p[0]):
                    return os[0] or FF
                return FF
            if any(x in t for x in ('Shape', 'Index', 'Strides', 'string', 'Type', 'Sizes', 'allocator')) and 'View' not in t:
                return E0
            if g is not None and g.repo and g.body is not None:
                self.apply(e, g, None, [], os, e[4])
            r = E0
            for o in os:
                r |= o
            return r
        if k in ('call', 'mcall') or (k == 'op' and e[3] is not None and hasattr(e[3], 'q')):
            return self.call(e)
        if k == 'op' and e[2] == '()':
            h = strip(e[4][0])
            os = [self.val(a) for a in e[4]]
            return os[0] if os else E0
        if k == 'bin':
            a, b = self.val(e[3]), self.val(e[4])
            return a or b if e[2] in ('+', '-') else b if e[2] == ',' else E0
        r = E0
        for x in kids(e):
            if x is not None:
                r |= self.val(x)
        return r

    def call(self, e):
        k = e[0]
        g = callee(e) if k != 'op' else e[3]
        if k == 'call' and isinstance(e[3], list) and g is None:
            h = self.val(e[3])
            for a in e[4]:
                self.val(a)
            return h
        obj = e[3] if k == 'mcall' else None
        args = e[4]
        oo = self.val(obj) if obj is not None else E0
        os = [self.val(a) for a in args]
        if g is None:
            return FU
        nm = g.name
        if k == 'op' and e[2] == '()':
            h = strip(args[0])
            if h is not None and h[0] == 'lam':
                return os[0]
            if h is not None and h[0] == 'var':
                return self.env.get(h[2], FU) or FF
            return os[0]
        if k == 'op' and e[2] in ('[]', '*', '->', '+', '-', '++', '--'):
            return os[0]
        if k == 'op' and e[2] in ('==', '!=', '<', '>', '<=', '>=', '!', '<<'):
            return E0
        if g.q.startswith(('std::', 'absl::')) or (g.cls or '').startswith('std::') or g.q.startswith('__') or nm in ('memcpy', 'memmove', 'memset'):
            if nm in DSTFIRST and k == 'call' and os:
                self.write(e, os[0], f'{nm}()', tensor_lhs(args[0]))
                return os[0]
            if nm in DSTLAST and len(os) > 2:
                d = os[2] if nm in ('copy', 'copy_n', 'partial_sum', 'copy_backward', 'adjacent_difference') or (nm == 'transform' and len(os) == 4) else os[3] if nm == 'transform' else os[-1]
                self.write(e, d, f'{nm}()', any(tensor_lhs(a) for a in args[2:]))
                return d
            if k == 'mcall' and nm in ('push_back', 'emplace_back', 'insert', 'emplace', 'assign'):
                b = self.root(obj)
                if b is not None and b[0] == 'var':
                    for o in os:
                        self.env[b[2]] = self.env.get(b[2], E0) | o
                return E0
            if nm in ('size', 'empty', 'count', 'has_value', 'length'):
                return E0
            if nm in ('async',):
                return FU
            r = oo
            for o in os:
                r |= o
            return r
        if (g.cls == ND or g.cls == 'spu::Value') and k == 'mcall' and g.body is not None and any(x in (g.r or '') for x in ('NdArrayRef', 'Value')) and '&' not in (g.r or ''):
            ret, wr, ws = self.O.summary(g)
            for i, (l, how) in wr.items():
                if i < len(os):
                    self.write(e, os[i], f'{nm}()')
            if any('M' in x[1] for x in ws):
                self.write(e, oo, f'{nm}()')
            r = set()
            for x in ret:
                r |= (os[x[1]] if x[1] < len(os) else E0) if isinstance(x, tuple) else oo if x == 'M' else {x}
            return frozenset(r)
        if g.cls == ND or g.cls == 'spu::Value':
            if nm in FRESH:
                return FF
            if k == 'mcall' and g.body is not None and not g.const and nm not in KEEP and any('M' in x[1] for x in self.O.summary(g)[2]):
                self.write(e, oo, nm + '()')
                return oo
            if nm in KEEP:
                return oo
            if not any(x in (g.r or '') for x in ('NdArray', 'Value', '*', '&')) or nm in ('shape', 'strides', 'eltype', 'storage_type', 'imag' if False else 'dtype'):
                return E0
            return oo
        if g.cls and g.cls.startswith('spu::NdArrayView'):
            return oo
        if nm.startswith('dynDispatch'):
            return FU
        if g.body is not None and g.repo and not g.virt:
            return self.apply(e, g, obj, oo, os, args)
        if g.name.startswith('dynDispatch'):
            return FU
        # no body: non-const pointers and spans are written
        for i, o in enumerate(os):
            pt = g.p[i] if i < len(g.p) else ''
            if g.q.startswith(('yacl', 'emp', 'seal')) and outparam(pt):
                self.write(e, o, nm + '()', False)
        if g.virt:
            return FU
        return FU if any(x in (g.r or '') for x in ('NdArray', 'Value', 'Buffer')) else E0

    def apply(self, e, g, obj, oo, os, args):
        ret, wr, _ = self.O.summary(g)
        for i, (l, how) in wr.items():
            if i < len(os):
                self.write(e, os[i], f'{g.name}()', i < len(g.p) and any(x in g.p[i] for x in ('NdArray', 'spu::Value')) or tensor_lhs(args[i]) if i < len(args) else False)
        if '::linalg::' in g.q:                           # Eigen maps over raw pointers
            for i, o in enumerate(os):
                if i < len(g.p) and outparam(g.p[i]) and i not in wr:
                    self.write(e, o, f'{g.name}()')
        # lambdas handed to a function are run by it; their tensor parameters are unknown
        r = set()
        for x in ret:
            if isinstance(x, tuple):
                if x[1] < len(os):
                    r |= os[x[1]]
            elif x == 'M' and obj is not None:
                r |= oo or {'M'}
            else:
                r.add(x)
        if not any(x in (g.r or '') for x in ('NdArray', 'Value', '*', '&', 'Buffer', 'View', 'Span', 'auto', 'tuple', 'pair', 'vector', 'array')) or g.r in ('void',):
            return E0
        return frozenset(r)


def outparam(t):
    t = (t or '').strip()
    if t.endswith('*'):
        return 'const' not in t.split('*')[0]
    if 'Span<' in t:
        return 'const' not in t.split('Span<')[1]
    return False


def tensor_lhs(s):
    """is the store made through a tensor view or accessor (not a plain array)?"""
    for m in walk(s):
        g = callee(m) if m[0] != 'op' else m[3]
        if hasattr(g, 'cls') and g.cls and g.cls.startswith(('spu::NdArray', 'spu::Value', 'spu::PtBufferView')):
            return True
    return False


# ---- two names for one tensor: a copy of the handle, an in-place write through one name, a later use through the other
def path(e):
    e = strip(e)
    if e is None:
        return None
    if e[0] == 'var':
        return (e[2],)
    if e[0] == 'bind':
        return (('b', e[2], str(e[3:4])),)
    if e[0] == 'op' and e[2] == '[]' and e[4]:
        b, i = path(e[4][0]), strip(e[4][1])
        return None if b is None or i is None else b + (str(i[2]) if i[0] in ('int', 'var') else show(i),)
    return None


def order(n, out):
    """nodes in evaluation order (operands before the operation); lambdas where they are written"""
    if n is None:
        return
    ks = [x for x in kids(n) if x is not None]
    if n[0] in ('for',) and len(ks) >= 3:
        ks = [x for x in (n[2], n[3], n[5], n[4]) if x is not None]
    if n[0] == 'asg' or (n[0] == 'op' and n[2] == '='):
        ks = ks[::-1]
    for x in ks:
        order(x, out)
    out.append(n)


def shared_handles(O, f):
    """yields (line, a, b): after 'b = a' (one storage), a write through one is followed by a use of the other"""
    seq = []
    order(f.body, seq)
    al = []
    for i, n in enumerate(seq):
        pr = []
        if n[0] == 'decl':
            for y in n[2]:
                t = ((f.vars.get(y[0]) or ('', ''))[1] or '').replace('const ', '').strip() if y[0] is not None else ''
                if y[1] is not None and t == ND:
                    pr.append(((y[0],), y[1]))
        elif n[0] == 'op' and n[2] == '=' and getattr(n[3], 'cls', None) == ND and len(n[4]) > 1:
            pr.append((path(n[4][0]), n[4][1]))
        for b, e in pr:
            s = strip(e)
            while s is not None and s[0] == 'new' and len(s[4]) == 1 and ND in str(s[2]):
                s = strip(s[4][0])
            a = path(s)
            if a and b and a != b:
                for i0, l0, a0, b0 in list(al):          # b0 = a; b = a: b0 and b share as well
                    if a0 == a and b0 != b and not any(m[0] == 'op' and m[2] == '=' and m[4] and path(m[4][0]) == a for m in seq[i0 + 1:i]):
                        al.append((i, n[1], b0, b))
                al.append((i, n[1], a, b))
    return seq, al


def clashes(O, f):
    seq, al = shared_handles(O, f)
    for i, l, a, b in al:
        live = {a: True, b: True}
        wr = None
        for n in seq[i + 1:]:
            # rebinding one of the names ends the sharing
            if n[0] == 'op' and n[2] == '=' and n[4] and path(n[4][0]) in (a, b) and wr is None:
                break
            if n[0] == 'op' and n[2] == '=' and n[4] and path(n[4][0]) in (a, b):
                break
            if n[0] == 'decl' and any((y[0],) in (a, b) for y in n[2]):
                break
            g = callee(n)
            if g is not None and n[0] == 'call' and g.repo and g.body is not None:
                w = O.summary(g)[1]
                for j in w:
                    if j < len(n[4]) and path(n[4][j]) in (a, b):
                        wr = (n, path(n[4][j]))
                if wr is not None and wr[0] is n:
                    o = b if wr[1] == a else a
                    if any(path(x) == o for k, x in enumerate(n[4]) if k not in w):
                        pass
                    continue
            if wr is not None:
                o = b if wr[1] == a else a
                if g is not None and n[0] in ('call', 'mcall', 'new') and any(same_or_whole(x, o) for x in (n[4] or [])) or (n[0] == 'ret' and n[2] is not None and same_or_whole(n[2], o)):
                    yield l, a, b, wr[0], n
                    break


def pname(f, p):
    return ''.join((f.vars[x][0] if isinstance(x, int) and x in f.vars else f'[{x}]') for x in p)


def same_or_whole(e, o):
    p = path(e)
    if p is None:
        s = strip(e)
        if s is not None and s[0] in ('call', 'new') and s[4] and len(s[4]) == 1:
            return same_or_whole(s[4][0], o)
        return False
    return p == o[:len(p)]
