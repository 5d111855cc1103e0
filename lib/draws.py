"""typestate of pseudo-random streams: a (seed, position) pair is drawn from once

Paths of a function are followed with the helpers it calls on the same object; a state maps places (locals, members of this, what a
parameter points to) to abstract values, and remembers which (seed value, position value) pairs have been drawn."""
import re
from program import walk, callee, kids, strip, show

FILL = {'yacl::crypto::FillPRand', 'yacl::crypto::FillPRandWithLtN', 'yacl::crypto::FillPRandWithMersennePrime'}
SHUF = {'yacl::crypto::ReplayShuffle'}
AES = {'yacl::crypto::PrgAesCtr'}
FRESH = re.compile(r'^(yacl::crypto::(SecureRand\w*|FastRand\w*|RandU\d+|RandBits)|std::random_device::operator\(\))$')
RECV = re.compile(r'^(yacl::link::(Context::Recv|AllGather|Gather|Broadcast|Scatter)|spu::mpc::Communicator::(recv|allReduce|broadcast|gather|rotate\w*))$')
SENDS = re.compile(r'^(yacl::link::Context::Send\w*|yacl::link::(AllGather|Gather|Broadcast))$')
THRU = {'std::move', 'std::forward', 'std::as_const', 'absl::MakeSpan', 'absl::MakeConstSpan', 'std::addressof', 'std::ref', 'std::cref'}
CAP = 128
PTR = re.compile(r'(long|int|int128|char|_t|T|State|Desc|Operand)\s*(const)?\s*[*&]|Span<|byte')
WIDE = re.compile(r'^(const )?(unsigned long|unsigned __int128|uint128_t|uint64_t|size_t|unsigned int|__int128|long|int)\b')


def is_draw(f):
    return f is not None and (f.q in FILL or f.q in SHUF or f.q in AES)


def is_prg(n):
    return n[0] == 'new' and str(n[2]).replace('const ', '').startswith('yacl::crypto::Prg<')


class Many(Exception):
    pass


class St:
    __slots__ = ('env', 'used', 'rec', 'sent')

    def __init__(self, o=None):
        self.env = dict(o.env) if o else {}
        self.used = o.used if o else frozenset()
        self.rec = o.rec if o else frozenset()
        self.sent = o.sent if o else frozenset()

    def key(self):
        return (frozenset(self.env.items()), self.used, self.rec, self.sent)


class Draws:
    """reach: functions from which a draw is made"""

    def __init__(self, P):
        self.P = P
        self.fresh = set()
        reach, calls = set(), {}
        fr = set()
        for f in P.funcs:
            cs = set()
            for n in walk(f.body):
                c = callee(n)
                if is_draw(c) or is_prg(n):
                    reach.add(f)
                elif c is not None and c.repo and c.body is not None:
                    cs.add(c)
                if c is not None and FRESH.match(c.q):
                    fr.add(f)
            calls[f] = cs
        self.direct = set(reach)
        rev = {}
        for f, cs in calls.items():
            for c in cs:
                rev.setdefault(c, set()).add(f)
        for s in (reach, fr):
            st = list(s)
            while st:
                for g in rev.get(st.pop(), ()):
                    if g not in s:
                        s.add(g)
                        st.append(g)
        self.reach, self.fr, self.rev = reach, fr, rev
        self._has = {}

    def has(self, n):
        if n is None:
            return False
        i = id(n)
        if i not in self._has:
            self._has[i] = any(is_draw(callee(x)) or is_prg(x) or callee(x) in self.reach for x in walk(n))
        return self._has[i]


class Run:
    def __init__(self, D, fn, args=None):
        self.D, self.root = D, fn
        self.steps = 0
        self.finds = []       # (kind, where line, fn, message)
        self.pairs = {}       # (seed place, counter place) -> line, fn
        self.draws = 0
        self.frames = 0
        self.depth = 0
        self.fn = fn
        self.site = None
        self.ret = []

    def go(self):
        st = St()
        fr = self.frame()
        for i, (v, t) in enumerate(zip(self.root.params, self.root.p)):
            if isinstance(v, int):
                nm = self.root.vars[v][0] if v in self.root.vars else str(v)
                t = (t or '').strip()
                if t.endswith('*') or t.endswith('&'):
                    st.env[(fr, v)] = ('ref', ('par', nm))
        outs = self.body(self.root, fr, [st], 'this', top=True)
        return outs

    def nid(self, n):
        d = self.__dict__.setdefault('_nid', {})
        return d.setdefault(id(n), len(d))

    def frame(self):
        self.frames += 1
        return self.frames

    # ---- values
    def at(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] == 'm' and loc[1] != 'this' and st.env.get(('obj', loc[1])) == 'copy':
            return ('copied', loc[2])
        return ('tok', ('entry', loc))

    def short(self, v):
        if v is None:
            return 'a value'
        if v[0] == 'tok' and v[1][0] == 'entry':
            l = v[1][1]
            return l[2] if l[0] == 'm' else str(l[1])
        if v[0] == 'int':
            return v[1]
        if v[0] == 'ex':
            return v[1]
        return v[0]

    def lv(self, n, st, fr, this):
        """place an expression denotes, or None"""
        n = strip(n)
        if n is None:
            return None
        k = n[0]
        if k in ('var', 'bind'):
            v = st.env.get((fr, n[2]))
            t = self.fn.vars.get(n[2], ('', '', ''))[1] or ''
            if v is not None and v[0] == 'ref' and t.rstrip().endswith('&'):
                return v[1]
            return (fr, n[2])
        if k == 'mem':
            f = str(n[3]).rsplit('::', 1)[-1]
            b = strip(n[2])
            if b is not None and b[0] == 'this':
                return ('m', this, f)
            o = self.lv(b, st, fr, this)
            if o is None:
                return None
            w = st.env.get(o)
            if w is not None and w[0] == 'ref':
                o = w[1]
                w = st.env.get(o)
            if w is not None and w[0] == 'obj':
                return ('m', w[1], f)
            if w is not None and w[0] == 'pair' and f in ('first', 'second'):
                return None
            return ('m', str(o), f)
        if k == 'un' and n[2] == '*':
            v = self.pv(n[3], st, fr, this)
            return v[1] if v is not None and v[0] == 'ref' else None
        if k == 'op' and n[2] in ('*', '->') and len(n[4]) == 1:
            v = self.lv(n[4][0], st, fr, this)
            if v is None:
                return None
            w = st.env.get(v)
            return w[1] if w is not None and w[0] == 'ref' else v
        if k in ('copy', 'cast'):
            return self.lv(n[2] if k == 'copy' else n[3], st, fr, this)
        if k == 'call' and callee(n) is not None and callee(n).q in THRU and n[4]:
            return self.lv(n[4][0], st, fr, this)
        if k == 'this':
            return ('this', this)
        return None

    def rootvar(self, n):
        """the local variable an argument is made from"""
        n = strip(n)
        while n is not None:
            if n[0] in ('var', 'bind'):
                return n[2]
            nx = None
            if n[0] in ('mem', 'idx'):
                nx = n[2]
            elif n[0] == 'un' and n[2] in ('*', '&'):
                nx = n[3]
            elif n[0] == 'mcall':
                nx = n[3]
            elif n[0] in ('op', 'call') and n[4]:
                nx = n[4][0]
            elif n[0] == 'new' and n[4]:
                nx = n[4][0]
            elif n[0] == 'copy':
                nx = n[2]
            elif n[0] == 'cast':
                nx = n[3]
            n = strip(nx)
        return None

    def pv(self, n, st, fr, this):
        """value of an expression free of draws"""
        n = strip(n)
        if n is None:
            return None
        k = n[0]
        if k == 'int':
            return ('int', n[2])
        if k == 'enum':
            return ('int', 'E:' + str(n[2]).rsplit('::', 1)[-1])
        if k == 'lam':
            return ('lam', id(n))
        if k == 'this':
            return ('ref', ('this', this))
        if k in ('zero',):
            return ('int', '0')
        if k == 'glob' and len(n) > 4 and n[4] is not None and re.match(r'^-?\d+$', str(n[4])):
            return ('int', str(n[4]))
        if k in ('var', 'bind', 'mem'):
            l = self.lv(n, st, fr, this)
            if l is None:
                if k == 'mem':
                    b = self.pv(n[2], st, fr, this)
                    f = str(n[3]).rsplit('::', 1)[-1]
                    if b is not None and b[0] == 'pair' and f in ('first', 'second'):
                        return b[1 if f == 'first' else 2]
                    if b is not None and b[0] in ('fresh', 'recv', 'drawn'):
                        return b
                return None
            if k != 'mem' and l[0] == fr and l not in st.env:
                # by-value parameter or a local never assigned
                nm = self.fn.vars.get(n[2], ('?',))[0]
                return ('tok', ('entry', ('val', nm))) if self.fn is self.root and n[2] in self.fn.params else None
            v = self.at(st, l)
            if l[0] == 'm' and st.env.get(l) is None:
                # part of a local that is itself fresh
                pass
            return v
        if k == 'un' and n[2] == '&':
            l = self.lv(n[3], st, fr, this)
            return ('ref', l) if l is not None else self.pv(n[3], st, fr, this)
        if k == 'un' and n[2] == '*':
            l = self.lv(n, st, fr, this)
            if l is not None:
                return self.at(st, l)
            return self.pv(n[3], st, fr, this)
        if k == 'copy':
            return self.pv(n[2], st, fr, this)
        if k == 'cast':
            return self.pv(n[3], st, fr, this)
        if k == 'op' and n[2] in ('->', '*') and len(n[4]) == 1:
            return self.pv(n[4][0], st, fr, this)
        c = callee(n)
        if c is not None:
            if c.q in THRU and n[4]:
                return self.pv(n[4][0], st, fr, this)
            if c.q in ('std::make_pair', 'std::make_tuple') and len(n[4]) == 2:
                return ('pair', self.pv(n[4][0], st, fr, this), self.pv(n[4][1], st, fr, this))
            if FRESH.match(c.q):
                return ('fresh', n[1])
            if RECV.match(c.q):
                peer = next((callee(x).name for x in walk(n) if callee(x) is not None and callee(x).name in ('NextRank', 'PrevRank', 'nextRank', 'prevRank')), '')
                return ('recv', n[1], c.name, peer)
            if c in self.D.fr and c.repo:
                return ('fresh', n[1])
            if c.q == 'std::make_unique' or c.q == 'std::make_shared':
                cp = [a for a in n[4] if self.isself(a)]
                return ('newobj', n[1], bool(cp))
        if k == 'new' and len(n[4]) == 1:
            return self.pv(n[4][0], st, fr, this)
        if k == 'new' and str(n[2]).startswith(('std::pair<', 'const std::pair<')) and len(n[4]) == 2:
            return ('pair', self.pv(n[4][0], st, fr, this), self.pv(n[4][1], st, fr, this))
        if k == 'list' and len(n[2]) == 2 and str(n[3]).startswith('std::pair<'):
            return ('pair', self.pv(n[2][0], st, fr, this), self.pv(n[2][1], st, fr, this))
        # anything computed from a fresh or received value is one too; from a draw, a draw
        got = [self.pv(x, st, fr, this) for x in self.operands(n)]
        got = [self.at(st, g[1]) if g is not None and g[0] == 'ref' else g for g in got]
        for kind in ('fresh', 'recv', 'drawn'):
            for g in got:
                if g is not None and g[0] == kind:
                    return g
        if k == 'cond':
            return None
        return ('ex', show(n)[:80])

    def operands(self, n):
        if n[0] in ('call', 'mcall', 'op', 'new'):
            r = list(n[4] or [])
            if isinstance(n[3], list) and n[0] in ('mcall', 'call'):
                r.append(n[3])
            return r
        if n[0] == 'lam':
            return []
        return [x for x in kids(n) if isinstance(x, list)]

    def isself(self, n):
        n = strip(n)
        while n is not None and n[0] in ('un', 'copy', 'op', 'cast'):
            n = strip(n[3] if n[0] in ('un', 'cast') else n[2] if n[0] == 'copy' else (n[4][0] if n[4] else None))
        return n is not None and n[0] == 'this'

    def k3(self):
        return self.site[0] if self.site else 0

    # ---- expressions with draws: list of (state, value)
    def ev(self, n, st, fr, this):
        n = strip(n)
        if n is None:
            return [(st, None)]
        self.steps += 1
        if self.steps > 40000:
            raise Many()
        if not self.interesting(n):
            return [(st, self.pv(n, st, fr, this))]
        k = n[0]
        if k == 'lam':
            return [(st, ('lam', id(n)))]
        if k == 'asg':
            outs = []
            for s, v in self.ev(n[4], st, fr, this):
                if n[2] != '=':
                    o = self.pv(n[3], s, fr, this)
                    if not (v is not None and v[0] in ('fresh', 'recv', 'drawn')):
                        v = o if o is not None and o[0] in ('fresh', 'recv', 'drawn') else ('ex', f'{show(n[3])} {n[2]} {show(n[4])}'[:80])
                s = self.store(n[3], v, s, fr, this, n)
                outs.append((s, v))
            return outs
        if k == 'cond':
            outs = []
            for s, _ in self.ev(n[2], st, fr, this):
                outs += self.ev(n[3], St(s), fr, this) + self.ev(n[4], St(s), fr, this)
            return outs
        if k == 'bin' and n[2] in ('&&', '||') and self.has(n[4]):
            outs = []
            for s, _ in self.ev(n[3], st, fr, this):
                outs += [(St(s), None)] + self.ev(n[4], St(s), fr, this)
            return outs
        if k == 'un' and ('++' in n[2] or '--' in n[2]):
            return [(self.store(n[3], ('ex', show(n)[:60]), st, fr, this, n), None)]
        if k in ('call', 'mcall', 'op', 'new'):
            return self.call(n, st, fr, this)
        ps = [(st, [])]
        for x in kids(n):
            if isinstance(x, list):
                ps = [(s2, vs + [v]) for s, vs in ps for s2, v in self.ev(x, s, fr, this)]
        outs = []
        for s, vs in ps:
            if k == 'mem':
                outs.append((s, self.sub(vs[0] if vs else None, str(n[3]).rsplit('::', 1)[-1])))
            elif k in ('copy', 'cast'):
                outs.append((s, vs[-1] if vs else None))
            elif k == 'list' and len(vs) == 2 and 'pair<' in str(n[3]):
                outs.append((s, ('pair', vs[0], vs[1])))
            elif k == 'list' and len(vs) == 1:
                outs.append((s, vs[0]))
            else:
                outs.append((s, next((v for v in vs if v is not None and v[0] in ('fresh', 'recv', 'drawn')), None)))
        return outs

    def sub(self, b, f):
        if b is not None and b[0] == 'pair' and f in ('first', 'second'):
            return b[1 if f == 'first' else 2]
        return b if b is not None and b[0] in ('fresh', 'recv', 'drawn') else None

    def has(self, n):
        return self.D.has(n)

    def interesting(self, n):
        i = id(n)
        c = self.D.__dict__.setdefault('_int', {})
        if i not in c:
            r = self.D.has(n)
            if not r:
                for x in walk(n):
                    f = callee(x)
                    if x[0] == 'asg' or (x[0] == 'un' and ('++' in x[2] or '--' in x[2])) or (x[0] == 'op' and x[2] == '=') or (f is not None and (FRESH.match(f.q) or SENDS.match(f.q) or RECV.match(f.q) or f in self.D.fr)):
                        r = True
                        break
            c[i] = r
        return c[i]

    def store(self, t, v, st, fr, this, n):
        st = St(st)
        l = self.lv(t, st, fr, this)
        if l is None:
            r = self.rootvar(t)
            if r is not None and v is not None and v[0] in ('fresh', 'recv', 'drawn', 'pair'):
                st.env[(fr, r)] = v
            l = None
        if l is not None and l[0] == 'm' and l[2] in ('first', 'second'):
            b = strip(t)
            r = self.rootvar(b)
            if r is not None:
                o = st.env.get((fr, r))
                a = [None, None] if o is None or o[0] != 'pair' else [o[1], o[2]]
                a[0 if l[2] == 'first' else 1] = v
                st.env[(fr, r)] = ('pair', a[0], a[1])
                return st
        if l is not None:
            self.put(st, l, v, self.fn.vars.get(l[1], ('', '', ''))[1] if l[0] == fr else '')
            # a value assigned again at the same place starts a new life
            if v is not None and v[0] in ('fresh', 'recv', 'tok'):
                st.used = frozenset(u for u in st.used if u[0] != v and u[1] != v)
        # recorded positions
        src = strip(n[4]) if n[0] == 'asg' else (strip(n[4][1]) if n[0] == 'op' and len(n[4]) == 2 else None)
        while src is not None and src[0] in ('copy', 'new') and (src[0] == 'copy' or len(src[4]) == 1):
            src = strip(src[2] if src[0] == 'copy' else src[4][0])
        if src is not None and src[0] == 'list':
            for x in src[2]:
                y = strip(x)
                if y is not None and y[0] in ('un', 'mem', 'var'):
                    w = self.pv(y, st, fr, this)
                    if w is not None and w[0] == 'tok' and self.countery(w, st):
                        st.rec = st.rec | {(w, n[1], self.fn)}
        elif l is not None and l[0] == 'm' and l[1] != 'this' and v is not None and v[0] == 'tok' and 'counter' in l[2] and src is not None and src[0] in ('un', 'mem', 'var') and self.countery(v, st):
            st.rec = st.rec | {(v, n[1], self.fn)}
        return st

    def put(self, st, l, v, t):
        if v is None or v[0] == 'ex' or v[0] == 'int':
            member = not isinstance(l[0], int)
            if not (member and (l in st.env or l[1] == 'this') or WIDE.search(t or '')):
                if l in st.env:
                    del st.env[l]
                return
            if v is None:
                v = ('ex', '?')
        st.env[l] = v

    def countery(self, w, st):
        """the value is a position of some stream"""
        t = w[1]
        if t[0] == 'T':
            return True
        l = t[1]
        nm = str(l[2] if l[0] == 'm' else l[1])
        return 'counter' in nm or 'ctr' in nm or 'cnt' in nm

    def draw(self, n, seed, ctr, cl, st, out, what):
        """seed, ctr: values; cl: where the position lives; out: what is filled"""
        self.draws += 1
        st = St(st)
        top = self.site or (n[1], 0)
        if seed is not None and seed[0] == 'tok' and seed[1][0] == 'entry':
            sl = seed[1][1]
            if ctr is not None and ctr[0] == 'tok':
                base = cl
                if base is not None and base[0] == 'm' and sl[0] == 'm' and base[1] == sl[1]:
                    self.pairs[(sl, base)] = (n[1], self.fn)
        if seed is not None and ctr is not None:
            u = (seed, ctr)
            if seed[0] == 'int':
                self.finds.append(('const', n[1], self.fn, f'draws from the constant seed {seed[1]}'))
            elif ctr[0] == 'int' and seed[0] in ('tok', 'ex', 'copied'):
                if not (seed[0] == 'tok' and seed[1][1][0] == 'val' and self.D.rev.get(self.root)):
                    self.finds.append(('restart', n[1], self.fn, f'starts again at position {ctr[1]} of the stream of {self.short(seed)}, which this call did not draw afresh'))
            if u in st.used:
                self.finds.append(('again', n[1], self.fn, f'draws at a position of the stream of {self.short(seed)} that was drawn from before'))
            st.used = st.used | {u}
        if ctr is not None:
            st.rec = frozenset(x for x in st.rec if x[0] != ctr)
        tok = ('tok', ('T', top, n[1]))
        st.used = frozenset(x for x in st.used if x[1] != tok)
        field = None
        if seed is not None and seed[0] == 'tok' and seed[1][0] == 'entry':
            sl = seed[1][1]
            field = sl[2] if sl[0] == 'm' else str(sl[1])
        return st, tok, ('drawn', field or self.short(seed), n[1])

    def filled(self, st, arg, val, d, fr):
        """remember what has been filled by a draw"""
        if val is not None and val[0] == 'ref':
            st.env[val[1]] = d
            return
        r = self.rootvar(arg)
        if r is not None:
            v = st.env.get((fr, r))
            st.env[v[1] if v is not None and v[0] == 'ref' else (fr, r)] = d

    def call(self, n, st, fr, this):
        f = callee(n)
        k = n[0]
        if k == 'op' and n[2] == '=' and len(n[4]) == 2:
            return [(self.store(n[4][0], v, s, fr, this, n), v) for s, v in self.ev(n[4][1], st, fr, this)]
        argn = list(n[4] or [])
        obj = n[3] if k in ('mcall', 'call') and isinstance(n[3], list) else None
        # immediately called lambda
        if k == 'op' and n[2] == '()' and argn:
            lam = self.lam_of(argn[0], st, fr, this)
            if lam is not None:
                return self.apply(lam, argn[1:], st, fr, this)
        root_site = None
        if self.depth == 0:
            root_site = self.site
            self.site = (n[1], self.nid(n))
        try:
            ps = [(st, [])]
            for a in argn:
                ps = [(s2, vs + [v]) for s, vs in ps for s2, v in self.ev(a, s, fr, this)]
            if obj is not None and self.interesting(obj):
                ps = [(s2, vs) for s, vs in ps for s2, _ in self.ev(obj, s, fr, this)]
            outs = []
            for s, vs in ps:
                for a, v in zip(argn, vs):
                    if v is not None and v[0] in ('fresh', 'recv') and strip(a) is not None and strip(a)[0] in ('call', 'mcall', 'op'):
                        # drawn for this very call
                        s = St(s)
                        s.used = frozenset(u for u in s.used if u[0] != v)
                outs += self.call1(n, f, obj, argn, vs, s, fr, this)
            return outs
        finally:
            if self.depth == 0:
                self.site = root_site

    def lam_of(self, a, st, fr, this):
        a = strip(a)
        while a is not None and a[0] in ('copy', 'new'):
            a = strip(a[2] if a[0] == 'copy' else (a[4][0] if a[4] else None))
        if a is None:
            return None
        if a[0] == 'lam':
            return (a, fr, this, self.fn)
        if a[0] == 'var':
            v = st.env.get((fr, a[2]))
            if v is not None and v[0] == 'lam':
                return self.lams.get(v[1])
        return None

    lams = {}

    def apply(self, lam, argn, st, fr, this):
        node, lfr, lthis, lfn = lam
        ps = [(st, [])]
        for a in argn:
            ps = [(s2, vs + [v]) for s, vs in ps for s2, v in self.ev(a, s, fr, this)]
        outs = []
        self.depth += 1
        if self.depth > 14:
            self.depth -= 1
            return [(st, None)]
        svfn, self.fn = self.fn, lfn
        svsite = self.site
        if self.depth == 1:
            self.site = (node[1], 'lam')
        for s, vs in ps:
            s = St(s)
            for p, v, a in zip(node[2], vs, argn):
                p = p if isinstance(p, int) else p[0]
                l = self.lv(a, s, fr, this)
                if v is not None:
                    s.env[(lfr, p)] = v
                if l is not None and (lfn.vars.get(p, ('', '', ''))[1] or '').rstrip().endswith('&'):
                    s.env[(lfr, p)] = ('ref', l)
            outs += self.runbody(node[4], lfr, [s], lthis)
        self.fn = svfn
        self.site = svsite
        self.depth -= 1
        return self.dedupe(outs)

    def dedupe(self, outs):
        seen, r = set(), []
        for s, v in outs:
            kk = (s.key(), v)
            if kk not in seen:
                seen.add(kk)
                r.append((s, v))
        if len(r) > CAP:
            raise Many()
        return r

    def call1(self, n, f, obj, argn, vs, st, fr, this):
        k = n[0]
        if f is not None and f.q in FILL and len(vs) >= 4:
            cl = self.lv(argn[3], st, fr, this)
            c = vs[3]
            st, tok, d = self.draw(n, vs[1], c, cl, st, None, f.name)
            if len(argn) > 4:
                self.filled(st, argn[4], vs[4], d, fr)
            return [(st, tok)]
        if f is not None and f.q in SHUF and len(vs) >= 4:
            p = vs[3]
            cl = p[1] if p is not None and p[0] == 'ref' else None
            c = self.at(st, cl) if cl is not None else p
            st, tok, d = self.draw(n, vs[2], c, cl, st, None, f.name)
            if cl is not None:
                st.env[cl] = tok
            self.filled(st, argn[0], None, d, fr)
            return [(st, None)]
        if f is not None and f.q in AES and vs:
            st, tok, d = self.draw(n, vs[0], ('int', '0'), None, st, None, f.name)
            if len(argn) > 1:
                self.filled(st, argn[-1], vs[-1], d, fr)
            return [(st, tok)]
        if is_prg(n):
            if not argn or str(n[2]) in str(getattr(f, 'p', None)) or (vs and vs[0] is not None and vs[0][0] == 'prg'):
                return [(st, ('prg', n[1]))]
            st, tok, d = self.draw(n, vs[0], ('int', '0'), None, st, None, 'Prg')
            return [(st, ('prg', n[1]))]
        if f is None:
            lam = self.lam_of(obj, st, fr, this) if obj is not None else None
            if lam is not None:
                return self.apply(lam, argn, st, fr, this)
            return [(st, None)]
        # lambdas handed to helpers are run (twice: they may be run for many elements)
        for a in argn:
            lam = self.lam_of(a, st, fr, this)
            if lam is not None and self.D.has(lam[0]):
                ss = [(st, None)]
                for _ in range(2):
                    ss = self.dedupe([x for s, _v in ss for x in self.apply(lam, [], s, fr, this)])
                return ss if len(ss) == 1 else [(s, None) for s, _ in ss]
        if f.repo and f.body is not None and not f.dep and f in self.D.reach and self.depth < 12:
            o = self.objkey(obj, st, fr, this) if k == 'mcall' or obj is not None else None
            live = any(v is not None and v[0] in ('ref', 'tok', 'fresh', 'recv', 'int', 'pair') and not (v[0] == 'ref' and v[1][0] == 'this') and (v[0] != 'int' or WIDE.search((t or '').replace('const ', '')) and self.seedy(p, f)) and (v[0] != 'ref' or PTR.search(t or '')) for v, t, p in zip(vs, f.p, f.params))
            if o is not None and f.cls and not f.static or live:
                return self.inline(n, f, o, argn, vs, st, fr, this)
        st2 = st
        # values handed to a call: what it sends, what it fills
        if SENDS.match(f.q):
            st2 = St(st)
            peer = next((callee(x).name for a in argn for x in walk(a) if callee(x) is not None and callee(x).name in ('NextRank', 'PrevRank', 'nextRank', 'prevRank')), '')
            for v in vs:
                if v is not None and v[0] in ('fresh', 'tok', 'drawn'):
                    st2.sent = st2.sent | {(v, f.name, peer)}
        dvs = [self.at(st, v[1]) if v is not None and v[0] == 'ref' else v for v in vs]
        hot = next((v for v in dvs if v is not None and v[0] in ('fresh', 'recv')), None)
        if hot is not None and not SENDS.match(f.q):
            for a, t in zip(argn, f.p):
                t = (t or '').strip()
                if (t.endswith('*') or (t.endswith('&') and not t.endswith('&&'))) and 'const' not in t:
                    r = self.rootvar(a)
                    if r is not None:
                        if st2 is st:
                            st2 = St(st)
                        v0 = st2.env.get((fr, r))
                        if not (v0 is not None and v0[0] == 'ref'):
                            st2.env[(fr, r)] = hot
        c = self.pv(n, st2, fr, this) if not self.D.has(n) else None
        if c is None or c[0] == 'ex':
            c = hot or next((v for v in dvs if v is not None and v[0] == 'drawn'), c)
        if f.q in ('std::make_pair',) and len(vs) == 2:
            c = ('pair', vs[0], vs[1])
        elif k == 'new' and str(n[2]).startswith(('std::pair<', 'const std::pair<')) and len(vs) == 2:
            c = ('pair', vs[0], vs[1])
        elif k == 'new' and len(vs) == 1:
            c = dvs[0] if dvs[0] is not None and dvs[0][0] in ('fresh', 'recv', 'drawn') and vs[0][0] == 'ref' and 'unique_ptr' not in str(n[2]) and '*' not in str(n[2]) else vs[0]
        elif f.q in THRU and vs:
            c = vs[0]
        return [(st2, c)]

    def seedy(self, p, f):
        nm = str(f.vars.get(p, ('',))[0])
        return 'seed' in nm or 'cnt' in nm or 'ctr' in nm or 'counter' in nm

    def objkey(self, obj, st, fr, this):
        o = strip(obj)
        if o is None:
            return this
        if o[0] == 'this':
            return this
        l = self.lv(o, st, fr, this)
        if l is None:
            return None
        w = st.env.get(l)
        if w is not None and w[0] == 'obj':
            return w[1]
        if w is not None and w[0] == 'ref':
            l = w[1]
        if l[0] == 'this':
            return l[1]
        return None

    def inline(self, n, f, o, argn, vs, st, fr, this):
        fr2 = self.frame()
        st = St(st)
        for p, t, v, a in zip(f.params, f.p, vs, argn):
            if not isinstance(p, int):
                continue
            t = (t or '').strip()
            if t.endswith('&'):
                l = self.lv(a, st, fr, this)
                if l is not None:
                    st.env[(fr2, p)] = ('ref', l)
                    continue
            if v is not None:
                st.env[(fr2, p)] = v
        sv = self.fn
        self.fn = f
        self.depth += 1
        outs = self.body(f, fr2, [st], o)
        self.depth -= 1
        self.fn = sv
        r = []
        for s, v in outs:
            for kx in [x for x in s.env if isinstance(x[0], int) and x[0] == fr2]:
                del s.env[kx]
            self.gc(s)
            r.append((s, v))
        return self.dedupe(r)

    def body(self, f, fr, sts, this, top=False):
        sv = self.fn
        self.fn = f
        if f.inits:
            for a, b, w in f.inits:
                if b is None or not isinstance(a, str):
                    continue
                nx = []
                for s in sts:
                    for s2, v in self.ev(b, s, fr, this):
                        s2 = St(s2)
                        if v is not None:
                            s2.env[('m', this, a.rsplit('::', 1)[-1])] = v
                        nx.append(s2)
                sts = nx
        r = self.runbody(f.body, fr, sts, this)
        self.fn = sv
        return r

    def runbody(self, body, fr, sts, this):
        """list of (state, returned value)"""
        saved = self.ret
        self.ret = []
        out, brk, cont = self.s(body, sts, fr, this)
        outs = self.ret + [(s, None) for s in out + brk + cont]
        self.ret = saved
        return self.dedupe(outs)

    def gc(self, s):
        """forget draws that cannot be repeated, and recorded positions that have been drawn from"""
        vals = set(s.env.values())

        def alive(v):
            if v[0] == 'tok' and v[1][0] == 'entry':
                return s.env.get(v[1][1], v) == v or v in vals
            return v[0] in ('int', 'ex', 'copied') or v in vals
        if s.rec:
            ctrs = {u[1] for u in s.used}
            s.rec = frozenset(x for x in s.rec if x[0] not in ctrs)
        s.used = frozenset(u for u in s.used if alive(u[0]) and alive(u[1]))

    def merge(self, sts):
        seen, r = set(), []
        for s in sts:
            self.gc(s)
            kk = s.key()
            if kk not in seen:
                seen.add(kk)
                r.append(s)
        if len(r) > CAP:
            raise Many()
        return r

    # ---- statements: (fallthrough states, break states, continue states)
    def s(self, n, sts, fr, this):
        if n is None or not sts:
            return sts, [], []
        k = n[0]
        if k == 'block':
            b, c = [], []
            for x in n[2]:
                sts, b1, c1 = self.s(x, sts, fr, this)
                b += b1
                c += c1
            return sts, b, c
        if k == 'decl':
            for y in n[2]:
                if y[1] is None:
                    continue
                a = strip(y[1])
                while a is not None and a[0] in ('copy', 'new') and (a[0] == 'copy' or len(a[4]) == 1):
                    a = strip(a[2] if a[0] == 'copy' else a[4][0])
                if a is not None and a[0] == 'lam':
                    Run.lams[id(a)] = (a, fr, this, self.fn)
                    for s in sts:
                        s.env[(fr, y[0])] = ('lam', id(a))
                    continue
                nx = []
                for s in sts:
                    for s2, v in self.ev(y[1], s, fr, this):
                        s2 = St(s2)
                        t = (self.fn.vars.get(y[0], ('', '', ''))[1] or '').rstrip()
                        if t.endswith('&') and not t.endswith('&&'):
                            l = self.lv(y[1], s2, fr, this)
                            if l is not None:
                                v = ('ref', l)
                        if v is not None and v[0] == 'newobj':
                            key = f'o{v[1]}'
                            if v[2]:
                                s2.env[('obj', key)] = 'copy'
                            v = ('obj', key)
                        self.put(s2, (fr, y[0]), v, t)
                        if v is not None:
                            if v[0] in ('fresh', 'recv'):
                                s2.used = frozenset(u for u in s2.used if u[0] != v)
                        if len(y) > 2 and isinstance(y[2], list):
                            for i, bnd in enumerate(y[2]):
                                b = bnd if isinstance(bnd, int) else bnd[0]
                                w = v[1 + i] if v is not None and v[0] == 'pair' and i < 2 else v if v is not None and v[0] in ('fresh', 'recv', 'drawn') else None
                                if w is not None:
                                    s2.env[(fr, b)] = w
                        nx.append(s2)
                sts = self.merge(nx)
            return sts, [], []
        if k in ('if', 'ifc'):
            sts, _, _ = self.s(n[2], sts, fr, this) if n[2] is not None and n[2][0] in ('decl', 'block') else ([s2 for s in sts for s2, _ in self.ev(n[2], s, fr, this)] if n[2] is not None else sts, 0, 0)
            cs = [s2 for s in sts for s2, _ in self.ev(n[3], s, fr, this)]
            a, b1, c1 = self.s(n[4], [St(s) for s in cs], fr, this)
            b, b2, c2 = self.s(n[5], [St(s) for s in cs], fr, this)
            return self.merge(a + b), b1 + b2, c1 + c2
        if k == 'switch':
            cs = [s2 for s in sts for s2, _ in self.ev(n[2], s, fr, this)]
            known = [self.pv(n[2], s, fr, this) for s in cs]
            known = known[0][1] if known and all(v is not None and v == known[0] and v[0] == 'int' and v[1].startswith('E:') for v in known) else None
            items = n[3][2] if n[3] is not None and n[3][0] == 'block' else [n[3]]
            outs, brk, cont = [], [], []
            fall = []
            dflt = False
            for it in items:
                if it is not None and it[0] in ('case', 'default'):
                    dflt |= it[0] == 'default'
                    labels, y = set(), it
                    while y is not None and y[0] in ('case', 'default'):
                        v = self.pv(y[2], cs[0], fr, this) if y[0] == 'case' and cs else None
                        labels.add(v[1] if v is not None and v[0] == 'int' else None)
                        y = y[3] if y[0] == 'case' else y[2]
                    bodyn = it[3] if it[0] == 'case' else it[2]
                    while bodyn is not None and bodyn[0] in ('case', 'default'):
                        dflt |= bodyn[0] == 'default'
                        bodyn = bodyn[3] if bodyn[0] == 'case' else bodyn[2]
                    if known is None or known in labels or None in labels:
                        fall = fall + [St(s) for s in cs]
                    fall, b1, c1 = self.s(bodyn, fall, fr, this)
                else:
                    fall, b1, c1 = self.s(it, fall, fr, this)
                outs += b1
                cont += c1
            return self.merge(outs + fall), [], cont
        if k in ('for', 'while', 'do', 'rfor'):
            if k == 'for':
                sts, _, _ = self.s(n[2], sts, fr, this)
                cond, inc, bd = n[3], n[4], n[5]
            elif k == 'rfor':
                cond, inc, bd = None, None, n[4]
                if isinstance(n[2], (int, list)):
                    v = n[2] if isinstance(n[2], int) else n[2][0] if n[2] and isinstance(n[2][0], int) else None
                    for s in sts:
                        w = self.pv(n[3], s, fr, this)
                        if v is not None and w is not None and w[0] in ('fresh', 'recv', 'drawn'):
                            s.env[(fr, v)] = w
            elif k == 'while':
                cond, inc, bd = n[2], None, n[3]
            else:
                cond, inc, bd = n[3], None, n[2]
            if not self.inter_stmt(bd) and not (cond is not None and self.interesting(cond)):
                return sts, [], []
            outs = []
            loopv = {x[2][0][0] for x in [n[2]] if k == 'for' and x is not None and x[0] == 'decl'} if k == 'for' else set()
            names = {f'v{v}' for v in loopv}
            for it in range(2):
                if cond is not None:
                    sts = [s2 for s in sts for s2, _ in self.ev(cond, s, fr, this)] if not isinstance(cond, list) or cond[0] != 'decl' else sts
                sts, b, c = self.s(bd, sts, fr, this)
                outs += b
                sts = self.merge(sts + c)
                if names:
                    # another element of the same sequence on the next turn
                    rx = re.compile(r'\b(' + '|'.join(map(re.escape, names)) + r')\b')
                    for s in sts:
                        s.used = frozenset(u for u in s.used if not (u[0][0] == 'ex' and rx.search(u[0][1])))
                outs += [St(s) for s in sts]
            return self.merge(outs), [], []
        if k == 'ret':
            if n[2] is None:
                self.ret += [(s, None) for s in sts]
            else:
                for s in sts:
                    self.ret += self.ev(n[2], s, fr, this)
            return [], [], []
        if k == 'break':
            return [], sts, []
        if k in ('cont', 'continue'):
            return [], [], sts
        if k == 'throw':
            return [], [], []
        if k == 'try':
            return self.s(n[2], sts, fr, this)
        return self.merge([s2 for s in sts for s2, _ in self.ev(n, s, fr, this)]), [], []

    def inter_stmt(self, n):
        return n is not None and self.interesting(n)


def stale(st):
    """streams left at a position that has been drawn from: [(seed value, place of the counter)]"""
    out = []
    for s, c in st.used:
        if c[0] != 'tok' or c[1][0] != 'entry' or s[0] != 'tok':
            continue
        l = c[1][1]
        if not (l[0] == 'm' and l[1] == 'this' or l[0] == 'par'):
            continue
        if s[1][0] == 'entry' and st.env.get(s[1][1]) is not None:
            continue    # the seed was replaced
        if l not in st.env or st.env[l] == c:
            out.append((s, l))
    return out
