"""Which arrays have contiguous storage?  (C = contiguous by construction, N = may be a strided view, U = unknown)

Values are traced through locals, returns, views and helper parameters; a raw pointer used for a whole buffer needs C."""
from program import walk, strip, callee, cargs, kids, show

ND = 'spu::NdArrayRef'
VIEWS = {'slice', 'transpose', 'reverse', 'broadcast_to', 'slice_scalar_at', 'getShare', 'getFirstShare', 'getSecondShare', 'getThirdShare'}
KEEP = {'as', 'reshape', 'setEltype'}
SINGLE = ('elsize', 'sizeof', 'size')
BULK = {'memcpy', 'std::memcpy', 'memset', 'std::memset', 'memmove', 'memcmp', 'absl::MakeSpan', 'absl::MakeConstSpan', 'std::copy', 'std::copy_n', 'std::fill_n', 'std::fill', 'std::transform', 'std::equal', 'std::accumulate', 'std::memmove'}
BULKNEW = ('Span', 'span', 'ByteContainerView', 'Buffer', 'basic_string', 'string_view', 'vector')


class Layout:
    def __init__(self, P):
        self.P = P
        self.ret = {}
        self.work = set()
        self.defs = {}
        self.callers = None
        self.parm = {}

    # ---- definitions of a variable in a function
    def fdefs(self, f):
        d = self.defs.get(f)
        if d is None:
            d = {}
            for root in [f.body]:
                for n in walk(root):
                    if n[0] == 'decl':
                        for y in n[2]:
                            if y[1] is not None:
                                d.setdefault(y[0], []).append(y[1])
                            else:
                                d.setdefault(y[0], []).append(None)
                    elif n[0] == 'op' and n[2] == '=' and strip(n[4][0])[0] == 'var':
                        d.setdefault(strip(n[4][0])[2], []).append(n[4][1])
                    elif n[0] == 'asg' and strip(n[3])[0] == 'var':
                        d.setdefault(strip(n[3])[2], []).append(n[4])
                    elif n[0] == 'rfor':
                        d.setdefault(n[2], []).append(['x', n[1], 'elem', [n[3]]])
                    elif n[0] == 'lam':
                        for i, p in enumerate(n[2]):
                            d.setdefault(p, []).append(['x', n[1], 'lamparam', [], (n, i)])
                        for v, m, e in n[3]:
                            if e is not None and not (e[0] == 'var' and e[2] == v):
                                d.setdefault(v, []).append(e)
            self.defs[f] = d
        return d

    def join(self, xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        if any(x == 'N' for x in xs):
            return 'N'
        if any(x == 'U' for x in xs):
            return 'U'
        ps = {x for x in xs if isinstance(x, tuple)}
        if ps:
            return ps.pop() if len(ps) == 1 else ('p', tuple(sorted({i for p in ps for i in (p[1] if isinstance(p[1], tuple) else (p[1],))})))
        return 'C'

    def of(self, e, f, d=0):
        """layout of the array an expression denotes"""
        e = strip(e)
        if e is None or d > 25:
            return 'U'
        k = e[0]
        if k == 'var':
            v = e[2]
            if v in (f.params or []):
                i = f.params.index(v)
                ds = self.fdefs(f).get(v, [])
                # a parameter that is replaced by a contiguous copy when it is not contiguous
                return ('p', i) if not (ds and self.normalised(f, v)) else 'C'
            ds = self.fdefs(f).get(v)
            if not ds:
                return 'U'
            if self.normalised(f, v):
                return 'C'
            key = (f, v)
            if key in self.work:
                return None
            self.work.add(key)
            r = self.join([self.of(x, f, d + 1) if x is not None else None for x in ds])
            self.work.discard(key)
            return r or 'U'
        if k == 'bind':
            return 'U'
        if (k == 'op' and e[2] == '[]') or k == 'idx' or (k == 'x' and e[2] == 'elem'):
            c = self.container(e[4][0] if k == 'op' else e[2] if k == 'idx' else e[3][0], f)
            key = (f, 'c', c)
            if c is None or c in (f.params or ()) or key in self.work:
                return 'U' if c is None or key not in self.work else None
            self.work.add(key)
            xs = []
            for n in walk(f.body):
                if n[0] == 'op' and n[2] == '=' and strip(n[4][0]) is not None and strip(n[4][0])[0] == 'op' and strip(n[4][0])[2] == '[]' and self.container(strip(n[4][0])[4][0], f) == c:
                    xs.append(self.of(n[4][1], f, d + 1))
                elif n[0] == 'mcall' and n[2] is not None and n[2].name in ('push_back', 'emplace_back') and n[4] and self.container(n[3], f) == c:
                    xs.append(self.of(n[4][0], f, d + 1) if len(n[4]) == 1 else 'U')
            self.work.discard(key)
            return 'N' if 'N' in xs else 'U'
        if k == 'x' and e[2] == 'lamparam':
            lam, i = e[4]
            key = (f, id(lam), i)
            if key in self.work:
                return None
            self.work.add(key)
            r = self.join([self.of(a[i], f, d + 1) for a in self.lamcalls(f, lam) if i < len(a)]) or 'U'
            self.work.discard(key)
            return r
        if k == 'mem' and str(e[3]) == 'spu::Value::data_' or k == 'mem' and e[3] == 'data_' and f.cls == 'spu::Value':
            return 'N'
        if k == 'cond':
            c = strip(e[2])
            if self.tests(c, e[3]) == 1:
                return self.of(e[4], f, d + 1)
            if self.tests(c, e[4]) == -1:
                return self.of(e[3], f, d + 1)
            return self.join([self.of(e[3], f, d + 1), self.of(e[4], f, d + 1)]) or 'U'
        if k == 'new':
            t = str(e[2]).replace('const ', '')
            if t == ND:
                g = e[3]
                ps = g.p if g is not None else []
                if len(e[4]) == 1:
                    return self.of(e[4][0], f, d + 1)
                if any('Strides' in p for p in ps):
                    return 'U'
                return 'C' if len(e[4]) else 'U'
            if t == 'spu::Value' and e[4]:
                return self.of(e[4][0], f, d + 1)
            return 'U'
        if k == 'mcall':
            g = e[2]
            if g is None:
                return 'U'
            if g.cls == ND:
                if g.name == 'clone':
                    return 'C'
                if g.name in KEEP:
                    return self.of(e[3], f, d + 1)
                if g.name in VIEWS:
                    return 'N'
                if g.name in ('concatenate', 'pad', 'expand', 'linear_gather'):
                    return 'C'
            if g.cls == 'spu::Value' and g.name in ('data', 'clone', 'setDtype'):
                return self.of(e[3], f, d + 1) if g.name != 'clone' else 'C'
            if g.name in ('value', 'get') and 'optional' in (g.cls or ''):
                return self.of(e[3], f, d + 1)
            return self.result(g, e, [e[3]], f, d)
        if (k == 'op' and e[2] == '()') or (k == 'call' and isinstance(e[3], list)):
            h = strip(e[4][0] if k == 'op' else e[3])
            if h is not None and h[0] == 'var':
                hs = self.fdefs(f).get(h[2]) or []
                h = strip(hs[0]) if len(hs) == 1 else None
            if h is not None and h[0] == 'new' and len(h[4]) == 1:
                h = strip(h[4][0])
            if h is not None and h[0] == 'lam':
                return self.join(self.rets(h[4], f, d)) or 'U'
            return 'U'
        if k == 'call':
            g = callee(e)
            if g is None:
                return 'U'
            if (g.name in VIEWS and g.repo) or g.name == 'dynDispatch':
                return 'N'
            return self.result(g, e, [], f, d)
        return 'U'

    def result(self, g, e, pre, f, d):
        if g.body is None or d > 12:
            return 'U'
        r = self.returns(g, d)
        if isinstance(r, tuple):
            ix = r[1] if isinstance(r[1], tuple) else (r[1],)
            return self.join([self.of(e[4][i], f, d + 1) if i < len(e[4]) else 'U' for i in ix]) or 'U'
        return r

    def returns(self, g, d):
        if g in self.ret:
            return self.ret[g]
        if ('r', g) in self.work:
            return None
        self.work.add(('r', g))
        rs = self.rets(g.body, g, d)
        self.work.discard(('r', g))
        r = self.join(rs) or 'U'
        self.ret[g] = r
        return r

    def lamcalls(self, f, lam):
        """argument lists a local lambda is called with"""
        var = None
        out = []
        for n in walk(f.body):
            if n[0] == 'decl':
                for y in n[2]:
                    s = strip(y[1]) if y[1] is not None else None
                    if s is lam or (s is not None and s[0] == 'new' and len(s[4]) == 1 and strip(s[4][0]) is lam):
                        var = y[0]
        for n in walk(f.body):
            if n[0] == 'op' and n[2] == '()':
                h, a = strip(n[4][0]), n[4][1:]
            elif n[0] == 'call' and isinstance(n[3], list):
                h, a = strip(n[3]), n[4]
            else:
                continue
            if h is lam or (h is not None and h[0] == 'var' and h[2] == var and var is not None):
                out.append(a)
        return out

    def container(self, e, f, d=0):
        """the local container variable an element chain starts at"""
        e = strip(e)
        while e is not None and ((e[0] == 'op' and e[2] == '[]') or e[0] == 'idx'):
            e = strip(e[4][0] if e[0] == 'op' else e[2])
        if e is None or e[0] != 'var' or d > 4:
            return None
        ds = self.fdefs(f).get(e[2]) or []
        t = (f.vars.get(e[2]) or ('', ''))[1] or ''
        if t.endswith('&') and len(ds) == 1 and ds[0] is not None:
            return self.container(ds[0] if ds[0][0] != 'x' else ds[0][3][0] if ds[0][3] else None, f, d + 1)
        return e[2]

    def rets(self, body, g, d):
        """layouts of the returned arrays"""
        rs, st = [], [body]
        while st:
            n = st.pop()
            if n is None or n[0] == 'lam':
                continue
            if n[0] == 'ret':
                x = strip(n[2]) if n[2] is not None else None
                rs.append('C' if x is not None and x[0] == 'var' and self.guarded(g, n, x) else self.of(n[2], g, d + 1) if n[2] is not None else 'U')
            st.extend(kids(n))
        return rs

    def tests(self, c, e):
        """c is a test of e's contiguity: 1 true when contiguous, -1 true when not"""
        c = strip(c)
        if c is None:
            return 0
        if c[0] == 'bin' and c[2] == '==' and strip(c[4])[0] == 'int' and strip(c[4])[2] == '0' and 'numel' in show(c[3]):
            return 1      # an empty tensor
        if c[0] == 'un' and c[2] == '!':
            return -self.tests(c[3], e)
        if c[0] == 'mcall' and c[2] is not None and c[2].name == 'isCompact':
            o = strip(c[3])
            return 1 if e is None or show(o) == show(strip(e)) else 0
        return 0

    def normalised(self, f, v):
        """if (!x.isCompact()) x = <contiguous>"""
        al = [['var', 0, v]] + [x for x in self.fdefs(f).get(v, []) if x is not None and strip(x)[0] == 'var']
        for n in walk(f.body):
            if n[0] == 'if' and any(self.tests(n[3], x) == -1 for x in al):
                for m in walk(n[4]):
                    if m[0] == 'op' and m[2] == '=' and strip(m[4][0]) is not None and strip(m[4][0])[0] == 'var' and strip(m[4][0])[2] == v:
                        return True
        return False

    # ---- guards
    def guarded(self, f, site, x):
        """is the site dominated by a test / enforcement that x is contiguous?"""
        s = show(strip(x))

        def has(c, want):
            c = strip(c)
            if c is None:
                return False
            if c[0] == 'bin' and c[2] == '&&' and want == 1:
                return has(c[3], want) or has(c[4], want)
            if c[0] == 'bin' and c[2] == '||' and want == -1:
                return has(c[3], want) or has(c[4], want)
            return self.tests(c, x) == want

        def throws(n):
            return n is not None and any(m[0] in ('throw', 'ret') for m in walk(n))

        def go(n, ok):
            if n is None:
                return None
            if n is site:
                return ok
            if n[0] == 'block':
                for y in n[2]:
                    if y is None:
                        continue
                    r = go(y, ok)
                    if r is not None:
                        return r
                    for m in walk(y):
                        if m[0] == 'lam':
                            continue
                        if m[0] == 'if' and throws(m[4]):
                            # if (!(x.isCompact())) throw
                            c = strip(m[3])
                            if c is not None and c[0] == 'un' and c[2] == '!':
                                if has(c[3], 1):
                                    ok = True
                            elif has(c, -1):
                                ok = True
                return None
            if n[0] in ('if', 'ifc'):
                for y, w in ((n[2], 0), (n[3], 0), (n[4], 1), (n[5], -1)):
                    if y is None:
                        continue
                    r = go(y, ok or (w != 0 and has(n[3], w)))
                    if r is not None:
                        return r
                return None
            if n[0] == 'cond':
                for y, w in ((n[2], 0), (n[3], 1), (n[4], -1)):
                    r = go(y, ok or (w != 0 and has(n[2], w)))
                    if r is not None:
                        return r
                return None
            for y in kids(n):
                if y is not None:
                    r = go(y, ok)
                    if r is not None:
                        return r
            return None
        return bool(go(f.body, False))


def single(e, defs=None):
    """a size expression of one element"""
    e = strip(e)
    if e is not None and e[0] == 'var' and defs is not None and defs.get(e[2]) is not None:
        return single(defs[e[2]])
    while e is not None and e[0] == 'cast':
        e = strip(e[3])
    if e is None:
        return False
    if e[0] == 'sizeof':
        return True
    if e[0] == 'int':
        return int(e[2]) <= 1
    if e[0] in ('mcall', 'call'):
        g = callee(e)
        return g is not None and g.name in ('elsize', 'size', 'SizeOf') and (g.name == 'elsize' or 'Type' in (g.cls or '') or g.name == 'SizeOf')
    return False


def raw_uses(P, f):
    """[(site node, array expr, what, whole-buffer?)] for every raw pointer taken from an array in f"""
    ptr = {}
    views = {}
    defs = {}
    for n in walk(f.body):
        if n[0] == 'decl':
            for y in n[2]:
                defs[y[0]] = y[1]
        elif n[0] == 'lam':
            for v, m, e in n[3]:
                if e is not None and not (e[0] == 'var' and e[2] == v):
                    defs.setdefault(v, e)

    def viewed(e):
        e = strip(e)
        if e is not None and e[0] == 'var' and e[2] in defs:
            i = strip(defs[e[2]])
            if i is not None and i[0] == 'new' and 'NdArrayView' in str(i[2]) and i[4]:
                return i[4][0]
        if e is not None and e[0] == 'new' and 'NdArrayView' in str(e[2]) and e[4]:
            return e[4][0]
        return None

    def arr(e, d=0):
        """the array whose storage pointer e points into"""
        e = strip(e)
        if e is None or d > 8:
            return None
        k = e[0]
        if k == 'cast':
            return arr(e[3], d + 1)
        if k == 'mcall' and e[2] is not None:
            if e[2].cls == 'spu::NdArrayRef' and e[2].name == 'data':
                return e[3]
            if e[2].cls == 'yacl::Buffer' and e[2].name == 'data':
                o = strip(e[3])
                while o is not None and o[0] == 'op' and o[2] in ('->', '*'):
                    o = strip(o[4][0])
                if o is not None and o[0] == 'mcall' and o[2] is not None and o[2].cls == 'spu::NdArrayRef' and o[2].name == 'buf':
                    return o[3]
            return None
        if k == 'un' and e[2] == '&':
            t = strip(e[3])
            if t[0] == 'mcall' and t[2] is not None and t[2].cls == 'spu::NdArrayRef' and t[2].name == 'at':
                return t[3]
            if t[0] == 'op' and t[2] == '[]' and t[3] is not None and t[3].cls == 'spu::NdArrayView':
                return viewed(t[4][0])
            return None
        if k == 'bin' and e[2] in ('+', '-'):
            return arr(e[3], d + 1)
        if k == 'var' and e[2] in defs and ((f.vars.get(e[2]) or ('', '', 0))[1] or '').rstrip(' const').endswith('*'):
            return arr(defs[e[2]], d + 1) if defs[e[2]] is not None else None
        return None

    def strided(a):
        if 'stride' in show(a).lower():
            return True
        return any(x[0] == 'var' and defs.get(x[2]) is not None and 'stride' in show(defs[x[2]]).lower() for x in walk(a))

    out = []
    for n in walk(f.body):
        k = n[0]
        if k in ('call', 'new', 'mcall', 'op'):
            g = callee(n)
            q = g.q if g is not None else (n[2] if k == 'call' and isinstance(n[2], str) else '')
            args = cargs(n)
            xs = [(i, arr(a)) for i, a in enumerate(args)]
            xs = [(i, x) for i, x in xs if x is not None]
            if not xs:
                continue
            bulk = q in BULK or (k == 'new' and any(b in str(n[2]) for b in BULKNEW)) or k == 'mcall' or (k == 'call' and q not in BULK)
            if k == 'op' and n[2] != '()':
                continue
            if any(strided(a) for a in args):
                out.append((n, xs[0][1], q, 'strided'))
                continue
            sz = [a for i, a in enumerate(args) if i not in [j for j, _ in xs]]
            last = args[-1]
            if q in BULK or (k == 'new' and any(b in str(n[2]) for b in BULKNEW)):
                if single(last, defs):
                    for i, x in xs:
                        out.append((n, x, q, 'single'))
                    continue
                for i, x in xs:
                    out.append((n, x, q or str(n[2]), 'bulk'))
            else:
                # a pointer handed on together with a count
                ints = [a for a in sz if a is not None]
                for i, x in xs:
                    out.append((n, x, q, 'bulk' if len(args) >= 2 and not any(w in q for w in ('fmt', 'hash', 'find', 'pair', 'count', 'emplace', 'insert', 'contains', 'erase', 'format', 'static_pointer', 'EnforceNotMet', 'Log', 'reinterpret')) else 'other'))
        elif k == 'idx':
            b = strip(n[2])
            if b is not None and b[0] in ('var', 'mcall', 'cast'):
                x = arr(b)
                if x is not None:
                    i = strip(n[3])
                    out.append((n, x, 'subscript', 'single' if i is not None and i[0] == 'int' and i[2] == '0' else 'bulk'))
    return out
