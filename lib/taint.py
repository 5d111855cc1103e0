"""Element-value taint: which scalars are computed from the contents of tensors, and what do they decide?"""
from program import walk, strip, callee, cargs, kids, show

ND = 'spu::NdArrayRef'
COMMCLS = ('spu::mpc::Communicator', 'yacl::link::Context')
COMM = {'sendAsync', 'recv', 'rotate', 'allReduce', 'broadcast', 'gather', 'reduce', 'bcast', 'SendAsync', 'Send', 'Recv', 'SendAsyncThrottled', 'rotate', 'rotateR', 'allReduceHelper', 'SendBits', 'RecvBits'}
COMMFREE = {'AllGather', 'Broadcast', 'Gather', 'Scatter', 'AllToAll'}
RECVLIKE = {'recv', 'Recv', 'rotate', 'rotateR'}
SHAPELIKE = {'numel', 'shape', 'elsize', 'size', 'eltype', 'strides', 'offset', 'isCompact', 'empty', 'ndim', 'nbits', 'field', 'dim', 'storage_type', 'vtype', 'dtype', 'isPublic', 'isSecret', 'isPrivate', 'begin', 'end', 'data', 'length', 'isComplex', 'isInt', 'isFxp', 'buf', 'as', 'isSplat', 'capacity'}
INTEGRAL = ('int', 'long', 'bool', 'unsigned', 'char', 'short', '__int128', 'double', 'float', 'size_t', 'Range', 'uint', 'ring2k')


def is_comm(g):
    return g is not None and ((g.cls in COMMCLS and g.name in COMM) or (g.q.startswith('yacl::link::') and g.name in COMMFREE) or (g.cls or '').endswith(('CheetahIO', 'CheetahIo')) and g.name.startswith(('send', 'recv')))


def scalar_type(t):
    t = (t or '').replace('const ', '').rstrip('&').strip()
    return any(t.startswith(x) for x in INTEGRAL) and '<' not in t and '*' not in t or t.startswith('std::pair<') or t.startswith('std::optional<')


class Taint:
    def __init__(self, P, is_data=None):
        self.P = P
        self.memo = {}
        self.comm = {}
        self.ret = {}

    # ---- does a function communicate (transitively)?
    def communicates(self, g, d=0):
        if is_comm(g):
            return True
        if g is None or g.body is None:
            return g is not None and (g.cls or '').startswith('spu::mpc::PrgState') and g.name.startswith(('gen', 'fill'))
        if g in self.comm:
            return self.comm[g]
        self.comm[g] = False
        r = (g.cls or '') == 'spu::mpc::PrgState' and g.name.startswith(('gen', 'fill')) and 'Priv' not in g.name
        if not r:
            for n in walk(g.body):
                h = callee(n)
                if h is not None and h is not g and d < 40 and (is_comm(h) or (h.repo and self.communicates(h, d + 1))):
                    r = True
                    break
                if h is not None and h.name in ('dynDispatch',):
                    r = True
                    break
        self.comm[g] = r
        return r

    # ---- does a function return a scalar computed from tensor contents?
    def returns(self, g):
        if g.body is None:
            return False
        if g in self.ret:
            return self.ret[g]
        self.ret[g] = False
        if not scalar_type(g.r) or not (any('NdArray' in p or 'Value' in p or 'Span' in p or 'vector' in p for p in g.p) or (g.cls or '').startswith('spu::Value')):
            return False
        b = self.body(g, ())
        r = False
        for n in walk(g.body):
            if n[0] == 'ret' and n[2] is not None and b.hot(n[2]):
                r = True
            if n[0] in ('if', 'ifc') and b.hot(n[3]) and any(m[0] == 'ret' for m in walk(n)):
                r = True
        self.ret[g] = r
        return r

    def body(self, f, tp):
        k = (f, tuple(tp))
        if k not in self.memo:
            self.memo[k] = BodyTaint(self, f, tp)
        return self.memo[k]


class BodyTaint:
    def __init__(self, T, f, tp):
        self.T, self.f = T, f
        self.val = set(f.params[i] for i in tp if i < len(f.params))      # scalars computed from elements
        self.cont = set()                                                # containers of elements
        self.sized = set()                                               # containers whose size was decided by elements
        self.why = {}
        for _ in range(6):
            n0 = (len(self.val), len(self.cont), len(self.sized))
            self.scan(f.body, False)
            if (len(self.val), len(self.cont), len(self.sized)) == n0:
                break

    def vt(self, v):
        return (self.f.vars.get(v) or ('', '', 0))[1] or ''

    def root(self, e):
        e = strip(e)
        while e is not None:
            if e[0] in ('idx', 'mem'):
                e = strip(e[2])
            elif e[0] == 'op' and e[2] in ('[]', '*', '->') and e[4]:
                e = strip(e[4][0])
            elif e[0] == 'cast':
                e = strip(e[3])
            elif e[0] == 'mcall' and e[2] is not None and e[2].name in ('at', 'data', 'begin', 'back', 'front'):
                e = strip(e[3])
            elif e[0] == 'un':
                e = strip(e[3])
            else:
                break
        return e[2] if e is not None and e[0] == 'var' else None

    def hot(self, e):
        """is the scalar value of e computed from elements?"""
        if e is None:
            return False
        k = e[0]
        if k == 'var':
            return e[2] in self.val
        if k in ('int', 'flt', 'str', 'enum', 'glob', 'this', 'null', 'sizeof', 'lam', 'fref', 'zero'):
            return False
        if k == 'bind':
            return e[2] in self.val
        if k == 'op' and e[2] == '[]':
            g = e[3]
            if g is not None and g.cls == 'spu::NdArrayView':
                return True
            r = self.root(e)
            return r in self.cont or self.hot_root(e)
        if k == 'idx':
            r = self.root(e)
            return r in self.cont or r in self.val
        if k == 'mcall':
            g = e[2]
            if g is None:
                return False
            if g.cls == ND and g.name == 'at':
                return True
            if g.name in SHAPELIKE:
                return False
            if g.name in ('get', 'front', 'back', 'at', 'value', 'count'):
                return self.hot(e[3]) or self.root(e[3]) in self.cont
            if g.body is not None and g.repo:
                return self.T.returns(g)
            return False
        if k == 'call':
            g = callee(e)
            if g is None:
                return False
            if g.repo and g.body is not None:
                if self.T.returns(g):
                    return True
                return scalar_type(g.r) and any(self.hot(a) for a in e[4] if a is not None and not is_arr(a))
            if g.q.startswith('std::') and g.name in ('all_of', 'any_of', 'none_of', 'count_if', 'count', 'max_element', 'min_element', 'accumulate', 'find', 'find_if', 'equal', 'memcmp', 'is_sorted'):
                return any(self.root(a) in self.cont or self.contents(a) for a in e[4])
            return any(self.hot(a) for a in e[4])
        if k == 'new':
            return any(self.hot(a) for a in e[4] if a is not None) if scalar_type(str(e[2])) else False
        if k == 'op' and e[2] == '()':
            return any(self.hot(a) for a in e[4][1:])
        return any(self.hot(x) for x in kids(e) if x is not None)

    def hot_root(self, e):
        return False

    def contents(self, a):
        """an iterator / span over tensor contents"""
        a = strip(a)
        return a is not None and a[0] == 'mcall' and a[2] is not None and a[2].name in ('begin', 'data', 'cbegin') and 'NdArray' in str(a[2].cls)

    def elements(self, e):
        """does e denote a container filled with elements?"""
        e = strip(e)
        if e is None:
            return False
        if e[0] == 'var':
            return e[2] in self.cont
        g = callee(e)
        if g is not None and g.name in RECVLIKE and 'vector' in str(e[5] if len(e) > 5 else ''):
            return True
        if g is not None and g.repo and g.name.lower().startswith(('getshareas', 'bitdecompose', 'ring_cast_boolean', 'ring_cast_vector', 'getsharevec', 'open')) and 'vector' in str(g.r):
            return True
        return False

    def scan(self, n, ctl):
        if n is None:
            return
        k = n[0]
        if k == 'decl':
            for y in n[2]:
                self.bind(y[0], y[1])
                self.scan(y[1], ctl)
            return
        if k in ('asg',) or (k == 'op' and n[2] in ('=', '+=', '-=', '^=', '|=', '&=', '*=')):
            l, r = (n[3], n[4]) if k == 'asg' else (n[4][0], n[4][1] if len(n[4]) > 1 else None)
            ls = strip(l)
            h = self.hot(r)
            v = self.root(l)
            if v is not None:
                if ls[0] == 'var':
                    if scalar_type(self.vt(v)) and (h or ctl):
                        self.val.add(v)
                    elif self.elements(r):
                        self.cont.add(v)
                elif h and 'NdArray' not in self.vt(v) and 'Value' not in self.vt(v):
                    self.cont.add(v)
        elif k == 'un' and ('++' in n[2] or '--' in n[2]):
            v = self.root(n[3])
            if ctl and v is not None and scalar_type(self.vt(v)):
                self.val.add(v)
        elif k == 'mcall' and n[2] is not None and n[2].name in ('push_back', 'emplace_back', 'resize', 'insert', 'erase', 'pop_back', 'clear', 'append'):
            v = self.root(n[3])
            if v is not None:
                if ctl or (n[2].name == 'resize' and n[4] and self.hot(n[4][0])):
                    self.sized.add(v)
                if n[2].name in ('push_back', 'emplace_back') and n[4] and self.hot(n[4][0]):
                    self.cont.add(v)
        if k in ('if', 'ifc'):
            self.scan(n[2], ctl)
            self.scan(n[3], ctl)
            c = ctl or self.hot(n[3])
            self.scan(n[4], c)
            self.scan(n[5], c)
            return
        if k == 'for':
            self.scan(n[2], ctl)
            self.scan(n[3], ctl)
            c = ctl or self.hot(n[3])
            self.scan(n[4], c)
            self.scan(n[5], c)
            return
        if k in ('while', 'do', 'switch'):
            c = n[2] if k != 'do' else n[3]
            b = n[3] if k != 'do' else n[2]
            self.scan(c, ctl)
            self.scan(b, ctl or self.hot(c))
            return
        if k == 'rfor':
            s = strip(n[3])
            if self.elements(s) and scalar_type(self.vt(n[2])):
                self.val.add(n[2])
            self.scan(n[3], ctl)
            self.scan(n[4], ctl)
            return
        if k == 'lam':
            self.scan(n[4], ctl)
            return
        for x in kids(n):
            self.scan(x, ctl)

    def bind(self, v, e):
        if e is None:
            return
        s = strip(e)
        if s is None or s[0] == 'lam':
            return
        t = self.vt(v)
        if scalar_type(t):
            if self.hot(e):
                self.val.add(v)
        elif self.elements(e):
            self.cont.add(v)
        elif ('vector' in t or 'Span' in t or 'array' in t) and 'NdArray' not in t and self.root(e) in self.cont:
            self.cont.add(v)
        if s[0] == 'new' and ('vector' in str(s[2])) and s[4] and self.hot(s[4][0]):
            self.sized.add(v)

    # ---- decisions
    def decisions(self):
        """[(line, condition, what it decides)]"""
        out = []
        self._dec(self.f.body, out)
        # sizes and destinations of messages
        for n in walk(self.f.body):
            g = callee(n)
            if g is not None and is_comm(g):
                for a in n[4]:
                    s = strip(a)
                    while s is not None and s[0] in ('new', 'call', 'cast') and ('Span' in str(s[2]) or 'View' in str(s[2]) or s[0] == 'cast' or (callee(s) is not None and callee(s).name in ('move', 'MakeConstSpan', 'MakeSpan'))):
                        s = strip(s[3] if s[0] == 'cast' else s[4][0] if s[4] else None)
                    if s is None:
                        continue
                    if s[0] == 'var' and s[2] in self.sized:
                        out.append((n[1], show(s)[:40], 'the size of a message'))
                    elif self.hot(a) and self.intarg(g, n[4].index(a)):
                        out.append((n[1], show(s)[:40], 'the destination or size of a message'))
        return out

    def intarg(self, g, i):
        return i < len(g.p) and scalar_type(g.p[i])

    def comms(self, n):
        for m in walk(n):
            g = callee(m)
            if g is not None and (is_comm(g) or (g.repo and self.T.communicates(g))):
                return g
        return None

    def _dec(self, n, out):
        """walk statements; a hot condition decides what is in its branches, and what follows if a branch leaves"""
        if n is None:
            return None
        k = n[0]
        if k == 'block':
            ss = n[2]
            for i, s in enumerate(ss):
                lv = self._dec(s, out)
                if lv is not None:
                    for t in ss[i + 1:]:
                        if t is None:
                            continue
                        g = self.comms(t)
                        if g is not None:
                            out.append((lv[0], lv[1], f'whether {g.name}() is reached'))
                            break
            return None
        if k in ('if', 'ifc'):
            self._dec(n[2], out)
            if self.hot(n[3]):
                for b in (n[4], n[5]):
                    if b is None:
                        continue
                    g = self.comms(b)
                    if g is not None and not throws_only(b):
                        out.append((n[1], show(n[3])[:60], f'whether {g.name}() runs'))
                if any(b is not None and any(m[0] in ('ret', 'break', 'cont') for m in walk_nolam(b)) for b in (n[4], n[5])):
                    return (n[1], show(n[3])[:60])
                return None
            a = self._dec(n[4], out)
            b = self._dec(n[5], out)
            return a or b
        if k in ('for', 'while', 'do'):
            c = n[3] if k in ('for', 'do') else n[2]
            b = n[5] if k == 'for' else n[3] if k == 'while' else n[2]
            if c is not None and self.hot(c):
                g = self.comms(b) if b is not None else None
                if g is not None:
                    out.append((n[1], show(c)[:60], f'how often {g.name}() runs'))
            lv = self._dec(b, out)
            if lv is not None:
                g = self.comms(b)
                if g is not None:
                    out.append((lv[0], lv[1], f'how often {g.name}() runs'))
            return lv
        if k == 'rfor':
            lv = self._dec(n[4], out)
            if lv is not None and self.comms(n[4]) is not None:
                out.append((lv[0], lv[1], f'how often {self.comms(n[4]).name}() runs'))
            return lv
        if k == 'cond':
            if self.hot(n[2]):
                for b in (n[3], n[4]):
                    g = self.comms(b)
                    if g is not None:
                        out.append((n[1], show(n[2])[:60], f'whether {g.name}() runs'))
        if k == 'bin' and n[2] in ('&&', '||') and self.hot(n[3]):
            g = self.comms(n[4])
            if g is not None:
                out.append((n[1], show(n[3])[:60], f'whether {g.name}() runs'))
        lv = None
        for x in kids(n):
            if x is not None:
                r = self._dec(x, out)
                lv = lv or (r if k in ('switch', 'case', 'default', 's', 'try') else None)
        return lv


def walk_nolam(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None or x[0] == 'lam':
            continue
        yield x
        st.extend(y for y in kids(x) if y is not None)


def throws_only(b):
    return any(m[0] == 'throw' for m in walk_nolam(b))


def is_arr(a):
    a = strip(a)
    return False
