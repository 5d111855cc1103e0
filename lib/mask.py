"""Which fresh randomness is added into a value before it is sent (may-analysis, backwards over additive data flow)."""
import re
from program import callee, strip, walk, kids
import share

COMM = {'allReduce', 'reduce', 'rotate', 'rotateR', 'bcast', 'broadcast', 'gather', 'scatter', 'sendAsync', 'allGather', 'allReduceImpl'}
LINK = {'SendAsync', 'SendAsyncThrottled', 'Send', 'AllGather', 'Gather', 'Broadcast', 'Scatter', 'AllGatherImpl'}
RECV = {'recv', 'Recv'}
FRESHM = re.compile(r'^(genPriv|genPrss\w*|fillPriv\w*|fillPrss\w*)$')
FRESHF = re.compile(r'^(ring_rand\w*|rand_\w+|FastRand\w*|SecureRand\w*|FillPRand\w*|FillRand\w*|FillPseudoRandom|RandA|RandB|genRand\w*|GenRand\w*|Rand\w*|rand\w*|PrgReplay\w*|getRandom\w*)$')
RCLS = re.compile(r'(Beaver|FerretO[tT]|BasicOT|EmpFerret|YaclFerret|TinyOT|KosOt|Ferret|Prg|PRG|CorrelatedRobust|EnableEmp|RandomOT)', re.I)
ADD = re.compile(r'^ring_(add|sub|xor|neg|not|sum|lshift|rshift|arshift|bitmask|assign|cast|select|bitrev|set_value)\w*$')
ADDAPI = re.compile(r'^(wrap_)?(add|sub|xor|negate|not|lshift|rshift)_[a-z]+$')
STOP = re.compile(r'^(wrap_)?(mul|and|mmul|msb|equal|eqz|square|a2b|b2a|trunc|bitrev|rand|conv2d)_?\w*$')
CONV = re.compile(r'^(wrap_)?(a2b|b2a)$')
PERM = re.compile(r'^apply(Inv)?Perm$')
META = share.META | {'kBindName', 'name'}


class Fun:
    """additive data flow inside one function"""

    def __init__(self, f):
        self.f = f
        self.par = {}
        self.defs = {}
        self.partial = set()
        self.pos, self.end, self.path = {}, {}, {}
        self.n = 0
        if f.body is not None:
            self.number(f.body, ())
        self.scan()

    def number(self, x, path):
        self.pos[id(x)] = self.n
        self.path[id(x)] = path
        self.n += 1
        k = x[0]
        if k in ('if', 'ifc', 'cond'):
            b = 3 if k == 'cond' else 4
            for i, c in enumerate(x):
                if isinstance(c, list):
                    self.number(c, path + (((id(x), i),) if i >= b else ()))
        elif k == 'switch':
            if x[2]:
                self.number(x[2], path)
            lab = 0
            for c in kids(x[3]) if x[3] else []:
                if c is None:
                    continue
                lab += c[0] in ('case', 'default')
                self.number(c, path + ((id(x), lab),))
            if x[3]:
                self.pos[id(x[3])] = self.pos[id(x)]
        else:
            for c in kids(x):
                if c is not None:
                    self.number(c, path)
        self.end[id(x)] = self.n
        self.n += 1

    def put(self, v, d, node=None, kill=False):
        at = self.end.get(id(node), -1) if node is not None else -1
        self.defs.setdefault(v, []).append((d, at, kill, self.path.get(id(node), ()) if node is not None else ()))

    def whole(self, l):
        """the assignment replaces the whole variable (element by element, or at once)"""
        l = strip(l)
        if l is not None and (l[0] == 'idx' or l[0] == 'op' and l[2] in ('[]',) and len(l[4]) == 2):
            i = strip(l[3] if l[0] == 'idx' else l[4][1])
            while i is not None and i[0] == 'cast':
                i = strip(i[3])
            if i is None or i[0] != 'var':
                return False
            l = strip(l[2] if l[0] == 'idx' else l[4][0])
        return l is not None and l[0] in ('var', 'bind')

    def reaching(self, v, use):
        ds = self.defs.get(v, ())
        if v in self.partial:
            return ds, False
        u = self.pos.get(id(use)) if use is not None else self.n
        if u is None:
            return ds, False
        up = set(self.path.get(id(use), ())) if use is not None else set()
        m = max((a for _, a, k, p in ds if k and a <= u and set(p) <= up), default=None)
        if m is None:
            return ds, False
        return [x for x in ds if x[1] >= m], True

    def find(self, v):
        while self.par.get(v, v) != v:
            v = self.par[v]
        return v

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.par[b] = a
            if b in self.partial:
                self.partial.add(a)
            self.defs.setdefault(a, []).extend(self.defs.pop(b, []))

    def root(self, e):
        """variable whose storage an lvalue or view expression denotes"""
        part = False
        e0 = e
        r = self.root_(e)
        if r is not None:
            for x in walk(e0):
                if x[0] == 'mcall' and callee(x) is not None and callee(x).name in ('subspan', 'slice', 'begin', 'end', 'first', 'second', 'front', 'back', 'at'):
                    self.partial.add(r)
                elif x[0] in ('call', 'mem') and (x[0] == 'mem' or callee(x) is not None and callee(x).name.startswith(('get', 'MakeSpan')) and callee(x).name != 'MakeSpan'):
                    self.partial.add(r)
        return r

    def root_(self, e):
        for _ in range(60):
            e = strip(e)
            if e is None:
                return None
            k = e[0]
            if k == 'var':
                return self.find(e[2])
            if k == 'bind':
                return self.find(('b', e[2], e[3]))
            if k in ('cast', 'un'):
                e = e[3]
            elif k in ('idx', 'mem'):
                e = e[2]
            elif k == 'op' and e[2] in ('[]', '*', '->', '()') and e[4]:
                e = e[4][0]
            elif k == 'mcall' and callee(e) is not None and callee(e).name in ('data', 'at', 'front', 'back', 'begin', 'end', 'getData', 'second', 'first', 'get', 'value', 'reserve', 'as', 'slice', 'reshape', 'rbegin', 'subspan'):
                e = e[3]
            elif k == 'call' and callee(e) is not None and callee(e).name in ('get', 'getShare', 'getFirstShare', 'getSecondShare', 'MakeSpan', 'MakeConstSpan', 'makeSpan', 'getValueShare', 'getMacShare', 'addressof') and e[4]:
                e = e[4][0]
            elif k == 'new' and len(e[4]) >= 1 and re.search(r'View|Span|span', e[2] or ''):
                e = e[4][0]
            else:
                return None
        return None

    def scan(self):
        f = self.f
        vs = f.vars
        al = []
        for x in walk(f.body):
            if x[0] == 'decl':
                for y in x[2]:
                    if y[1] is None:
                        continue
                    t = vs.get(y[0], ('', ''))[1] or ''
                    if len(y) > 2 and isinstance(y[2], list):
                        for i, nm in enumerate(y[2]):
                            self.put(('b', y[0], i), ('comp', y[1], i), x)
                            if isinstance(nm, int):
                                al.append((('b', y[0], i), nm))
                        continue
                    if re.search(r'View|Span<|\*$|&$', t.replace(' const', '')) and '&&' not in t:
                        r = self.root(y[1])
                        if r is not None:
                            al.append((r, y[0]))
                            continue
                    self.put(y[0], y[1], x)
            elif x[0] == 'rfor' and isinstance(x[2], int):
                self.put(x[2], x[3], x)
            elif x[0] == 'lam':
                for v, _, e in x[3]:
                    if isinstance(v, int) and e is not None and e[0] != 'this':
                        s = strip(e)
                        if s is not None and s[0] == 'var' and s[2] != v:
                            al.append((s[2], v))
                        elif s is not None and s[0] != 'var':
                            self.put(v, e)
        for a, b in al:
            self.union(a, b)
        for x in walk(f.body):
            k = x[0]
            if k == 'asg':
                r = self.root(x[3])
                if r is not None and x[2] in ('=', '+=', '-=', '^=', '|=', '<<='):
                    self.put(r, x[4], x, x[2] == '=' and self.whole(x[3]))
            elif k == 'op' and x[2] in ('=', '+=', '-=', '^=', '|=') and len(x[4]) == 2:
                l = strip(x[4][0])
                if l is not None and l[0] in ('call', 'new') and callee(l) is not None and (callee(l).name in ('tie', 'tuple') or (l[2] if isinstance(l[2], str) else '').startswith('std::tuple')):
                    for i, y in enumerate(l[4]):
                        r = self.root(y)
                        if r is not None:
                            self.put(r, ('comp', x[4][1], i), x, self.whole(y))
                    continue
                r = self.root(x[4][0])
                if r is not None:
                    self.put(r, x[4][1], x, x[2] == '=' and self.whole(x[4][0]))
            elif k in ('call', 'mcall', 'new', 'op'):
                c = callee(x)
                lams = [y for y in (strip(a) for a in x[4]) if y is not None and y[0] == 'lam']
                if k == 'op' and x[2] == '()' and x[4] and strip(x[4][0]) is not None and strip(x[4][0])[0] == 'lam':
                    lams = []
                for y in lams:
                    for v in y[2]:
                        if isinstance(v, int):
                            for a in x[4]:
                                if strip(a) is not y:
                                    self.put(v, a)
                if c is None:
                    # a lambda or function object is called: its written arguments are not followed
                    continue
                if k == 'mcall' and c.name in ('push_back', 'emplace_back', 'insert', 'assign', 'emplace', 'resize') or k == 'mcall' and c.q.startswith('std::') and c.name in ('swap',):
                    r = self.root(x[3])
                    if r is not None:
                        for a in x[4]:
                            self.put(r, a, x)
                    continue
                if c.q.startswith('std::') and c.name in ('transform', 'copy', 'generate', 'copy_n', 'for_each', 'memcpy', 'fill', 'swap') and x[4]:
                    for a in x[4]:
                        r = self.root(a)
                        if r is not None:
                            for b in x[4]:
                                if b is not a:
                                    self.put(r, b, x)
                    continue
                for i, a in enumerate(x[4]):
                    t = c.p[i] if i < len(c.p) else ''
                    if writes(t):
                        s = strip(a)
                        if s is not None and s[0] == 'un' and s[2] == '&':
                            s = strip(s[3])
                        r = self.root(s)
                        if r is not None:
                            self.put(r, ('out', x, i), x)
                            if c.name in ('memcpy', 'ring_assign'):
                                self.put(r, x[4][1], x)


def writes(t):
    t = (t or '').strip()
    if t.startswith('const ') and not t.endswith('&&') and '*' not in t.replace('const', ''):
        return False
    if 'SPUContext' in t or 'KernelEvalContext' in t or 'Communicator' in t or 'PrgState' in t or 'Context' in t:
        return False
    return (t.endswith('&') and not t.startswith('const ')) or (t.endswith('*') and not t.startswith('const ')) or (('Span<' in t or 'View<' in t) and 'const' not in t)


class Mask:
    def __init__(self, P):
        self.P = P
        self.funs = {}
        self.callers = {}
        for f in P.funcs:
            if f.body is None or f.dep or not f.repo:
                continue
            for n in walk(f.body):
                c = callee(n)
                if c is not None and c.repo and c.body is not None:
                    self.callers.setdefault(c, []).append((f, n))

    def fun(self, f):
        if f not in self.funs:
            self.funs[f] = Fun(f)
        return self.funs[f]

    def tokens(self, f, e, stack=()):
        out = set()
        self.go(f, e, out, set(), stack)
        return out

    def var(self, f, v, out, seen, stack, use=None):
        F = self.fun(f)
        v = F.find(v)
        ds, killed = F.reaching(v, use)
        key = (f, v, tuple(sorted(id(d[0]) for d in ds)))
        if key in seen:
            return
        seen.add(key)
        if not killed:
            for p in f.params:
                if F.find(p) == v:
                    out.add(('param', f, f.params.index(p)))
        for d in ds:
            self.go(f, d[0], out, seen, stack)

    def go(self, f, e, out, seen, stack):
        if isinstance(e, tuple):
            if e[0] == 'comp':
                t = set()
                self.go(f, e[1], t, seen, stack)
                for x in t:
                    out.add(('R', x[1], x[2], (x[3], e[2])) if x[0] == 'R' else x)
                return
            if e[0] == 'out':
                self.written(f, e[1], e[2], out, seen, stack)
                return
        e = strip(e)
        if e is None:
            return
        k = e[0]
        if k == 'var':
            return self.var(f, e[2], out, seen, stack, e)
        if k == 'bind':
            return self.var(f, ('b', e[2], e[3]), out, seen, stack, e)
        if k in ('int', 'flt', 'str', 'null', 'enum', 'this', 'glob', 'fref'):
            if k == 'glob':
                out.add(('glob', e[2]))
            return
        if k in ('cast', 'un'):
            return self.go(f, e[3], out, seen, stack)
        if k == 'mem':
            out.add(('mem', e[3]))
            return self.go(f, e[2], out, seen, stack) if isinstance(e[2], list) and strip(e[2])[0] != 'this' else None
        if k == 'idx':
            return self.go(f, e[2], out, seen, stack)
        if k == 'cond':
            return self.every(f, [e[3], e[4]], out, seen, stack)
        if k == 'bin':
            if e[2] in ('+', '-', '^', '|', '&'):
                self.go(f, e[3], out, seen, stack)
                return self.go(f, e[4], out, seen, stack)
            if e[2] in ('<<', '>>', '%'):
                return self.go(f, e[3], out, seen, stack)
            for x in (e[3], e[4]):
                t = set()
                self.go(f, x, t, set(seen), stack)
                out |= {('prod',) if y[0] == 'R' else y for y in t}
            return
        if k == 'asg':
            return self.go(f, e[4], out, seen, stack)
        if k == 'list':
            for x in e[2]:
                self.go(f, x, out, seen, stack)
            return
        if k == 'lam':
            return self.every(f, [x[2] for x in walk(e[4]) if x[0] == 'ret' and x[2] is not None], out, seen, stack)
        if k in ('call', 'mcall', 'op', 'new'):
            return self.callv(f, e, out, seen, stack)

    def every(self, f, es, out, seen, stack):
        """alternatives: random only when each of them is"""
        ts = []
        for x in es:
            t = set()
            self.go(f, x, t, set() if seen is None else set(seen), stack)
            ts.append(t)
        r = [any(y[0] in ('R', 'param', 'recv') for y in t) for t in ts]
        for t in ts:
            out |= t if all(r) else {('random on some paths only',) if y[0] == 'R' else y for y in t}

    def callv(self, f, e, out, seen, stack):
        k = e[0]
        c = callee(e)
        if k == 'op':
            if e[2] in ('+', '-', '^', '|', '&'):
                for x in e[4]:
                    self.go(f, x, out, seen, stack)
                return
            if e[2] in ('[]', '*', '->', '<<', '>>', '%', '~', '=', '+=', '-=', '^=') and len(e[4]):
                self.go(f, e[4][0], out, seen, stack)
                return
            if e[2] == '()':
                # a local lambda or generator
                for x in e[4]:
                    self.go(f, x, out, seen, stack)
                return
            for x in e[4]:
                t = set()
                self.go(f, x, t, set(seen), stack)
                out |= {('prod',) if y[0] == 'R' else y for y in t}
            return
        if k == 'new':
            for x in e[4]:
                self.go(f, x, out, seen, stack)
            return
        if c is None:
            out.add(('unknown',))
            for x in e[4]:
                self.go(f, x, out, seen, stack)
            if k == 'call' and isinstance(e[3], list):
                self.go(f, e[3], out, seen, stack)
            return
        q, n = c.q, c.name
        if n in META:
            return
        if self.fresh(e, c):
            out.add(('R', f, id(e), None))
            return
        if c.name in ('genPubl', 'fillPubl'):
            out.add(('public randomness',))
            return
        if self.opened(c):
            out.add(('recv',) if c.name in RECV else ('open',))
            if c.name == 'reduce':
                # only the designated party learns the sum, which still contains its own contribution
                for x in e[4]:
                    self.go(f, x, out, seen, stack)
            return
        if ADD.match(n) or ADDAPI.match(n):
            for x in e[4]:
                self.go(f, x, out, seen, stack)
            return
        if CONV.match(n) and q.startswith('spu::mpc') or PERM.match(n):
            for x in e[4]:
                self.go(f, x, out, seen, stack)
            return
        if STOP.match(n) and q.startswith('spu::mpc'):
            out.add(('shares', n))
            return
        if n.startswith('operator ') and k == 'mcall':
            return self.go(f, e[3], out, seen, stack)
        if k == 'mcall' and (n in share.KEEP or q.startswith(('std::', 'absl::', 'spu::NdArrayRef', 'spu::Value', 'spu::MemRef'))):
            return self.go(f, e[3], out, seen, stack)
        if n in share.KEEP or q.startswith(('std::', 'absl::', 'yacl::Buffer', 'fmt::')) or n in ('vmap', 'vreduce', 'makeAShare', 'makeBShare', 'ring_concate'):
            for x in e[4]:
                self.go(f, x, out, seen, stack)
            return
        if c.repo and c.body is not None and len(stack) < 6 and c not in stack:
            t = set()
            self.every(c, [x[2] for x in walk(c.body) if x[0] == 'ret' and x[2] is not None and not in_lambda(c, x)], t, None, stack + (c,))
            self.bindargs(f, c, e, t, out, seen, stack)
            return
        out.add(('call', q))
        for x in e[4]:
            t = set()
            self.go(f, x, t, set(seen), stack)
            out |= {('prod',) if y[0] == 'R' else y for y in t}

    def bindargs(self, f, c, e, t, out, seen, stack):
        for y in t:
            if y[0] == 'param' and y[1] is c:
                if y[2] < len(e[4]):
                    self.go(f, e[4][y[2]], out, seen, stack)
            else:
                out.add(y)

    def written(self, f, e, i, out, seen, stack):
        """what a call adds into its i-th argument"""
        c = callee(e)
        if self.fresh(e, c):
            out.add(('R', f, id(e), i))
            return
        if c.q.startswith(('std::', 'absl::')):
            return
        if c.name in ('genPubl', 'fillPubl'):
            out.add(('public randomness',))
            return
        if c.name in RECV or self.opened(c):
            out.add(('recv',) if c.name in RECV else ('open',))
            return
        if ADD.match(c.name):
            for j, x in enumerate(e[4]):
                if j != i:
                    self.go(f, x, out, seen, stack)
            return
        if c.repo and c.body is not None and len(stack) < 6 and c not in stack and i < len(c.params):
            t = set()
            self.var(c, c.params[i], t, set(), stack + (c,))
            t.discard(('param', c, i))
            self.bindargs(f, c, e, t, out, seen, stack)
            return
        out.add(('call', c.q))

    def fresh(self, e, c):
        if c.name in ('genPubl', 'fillPubl'):
            return False
        if e[0] == 'mcall' and FRESHM.match(c.name):
            return True
        if c.cls and (RCLS.search(c.cls) or c.name == 'TakeCachedBeaver') and c.name not in META and not c.name.startswith(('open', 'get', '~')):
            return True
        if c.cls and re.search(r'::\(?\w*(OT|Ot|Ferret)\w*\)?$', c.cls) and not c.name.startswith('~'):
            return True
        return e[0] == 'call' and bool(FRESHF.match(c.name))

    def opened(self, c):
        return (c.q.startswith('spu::mpc::Communicator::') and c.name in COMM | RECV) or (c.q.startswith('yacl::link::') and c.name in LINK | RECV)


_LAM = {}


def in_lambda(f, r):
    s = _LAM.get(id(f))
    if s is None:
        s = set()
        for x in walk(f.body):
            if x[0] == 'lam':
                for y in walk(x[4]):
                    if y[0] == 'ret':
                        s.add(id(y))
        _LAM[id(f)] = s
    return id(r) in s


_EACH = {}


def each(f, e):
    """the separate values behind a parameter of a mapping lambda"""
    v = strip(e)
    if v is None or v[0] != 'var':
        return [e]
    if f not in _EACH:
        m = _EACH[f] = {}
        for x in walk(f.body):
            if x[0] == 'call' and callee(x) is not None and callee(x).name == 'vmap':
                lam = [strip(a) for a in x[4] if strip(a) is not None and strip(a)[0] == 'lam']
                src = x[4][0]
                while src is not None and strip(src) is not None and strip(src)[0] in ('new', 'cast', 'call') and strip(src)[0] != 'list':
                    s = strip(src)
                    src = s[3] if s[0] == 'cast' else (s[4][0] if s[4] else None)
                s = src
                while s is not None and s[0] == 'copy':
                    s = s[2]
                if len(lam) == 1 and len(lam[0][2]) == 1 and s is not None and s[0] == 'list':
                    m[lam[0][2][0]] = s[2]
    return _EACH[f].get(v[2]) or [e]


def sends(P):
    """(function, node, sent expression) of every place a protocol routine hands data to the network"""
    for f in sorted(P.funcs, key=lambda f: (f.f or '', f.l or 0, f.sig())):
        if f.body is None or f.dep or not f.repo or '/mpc/' not in f.f or '_test' in f.f or f.q.startswith('spu::mpc::Communicator::'):
            continue
        for n in walk(f.body):
            c = callee(n)
            if c is None:
                continue
            if c.q.startswith('spu::mpc::Communicator::') and c.name in COMM:
                args = n[4]
                i = next((i for i, t in enumerate(c.p) if 'NdArrayRef' in t or 'Span<' in t or 'vector<' in t), None)
                if i is not None and i < len(args):
                    for e in each(f, args[i]):
                        yield f, n, e
            elif c.q.startswith('yacl::link::') and c.name in LINK:
                i = next((i for i, t in enumerate(c.p) if 'Buffer' in t or 'ByteContainerView' in t), None)
                if i is not None and i < len(n[4]):
                    yield f, n, n[4][i]
