"""Where the arguments of a call come from.

A forward dataflow over one function: every variable (and every field of a local configuration object) is mapped to the set of
source tokens whose values reach it, by value or by the branch that chose it.  Tokens are produced by `src(node, prov)`, which the
client supplies; everything else is propagated.  Calls to helpers the client wants looked into are expanded with their parameters
bound to what the call passes."""
from program import walk, kids, callee, strip, show

MUT = {'push_back', 'emplace_back', 'insert', 'resize', 'assign', 'append', 'push', 'emplace', 'insert_or_assign', 'set', 'fill'}
DROP = {'size', 'empty', 'reserve', 'getNumOperands', 'getNumResults', 'ndim', 'length'}


class Prov:
    def __init__(self, P, src, enter, isk, isadd):
        self.P, self.src, self.enter, self.isk, self.isadd = P, src, enter, isk, isadd

    def fn(self, f, env):
        """-> (kernel calls, stores): each kernel call (node, [prov of args]), each store (node, prov per arg, control prov)"""
        self.env, self.fields, self.kcalls, self.stores = dict(env), {}, {}, {}
        self.defs = {}
        self.stack, self.rk = [f], [None]
        self.ret = {}
        for rnd in range(6):
            before = (sum(map(len, self.env.values())), sum(map(len, self.fields.values())), sum(len(x) for x in self.ret.values()))
            self.kcalls, self.stores, self.fields = [], [], {}
            self.block(f.body, frozenset(), (f.q, f.l))
            after = (sum(map(len, self.env.values())), sum(map(len, self.fields.values())), sum(len(x) for x in self.ret.values()))
            if before == after:
                break
        return self

    # ---- statements: only definitions and control matter
    def block(self, n, ctl, key):
        if not isinstance(n, list) or not n:
            return
        if not isinstance(n[0], str):
            for x in n:
                self.block(x, ctl, key)
            return
        k = n[0]
        if k == 'decl':
            for y in n[2]:
                if isinstance(y[1], list):
                    self.put((key, y[0]), self.ev(y[1], ctl, key) | ctl)
            return
        if k in ('if', 'ifc'):
            if isinstance(n[2], list):
                self.block(n[2], ctl, key)
            c = self.ctl(n[3], ctl, key)
            f0 = dict(self.fields)
            self.block(n[4], ctl | c, key)
            f1, self.fields = self.fields, f0
            self.block(n[5], ctl | c, key)
            self.merge(f1)
            return
        if k == 'switch':
            c = self.ctl(n[2], ctl, key)
            f0, out = dict(self.fields), None
            for x in (n[3][2] if n[3] and n[3][0] == 'block' else [n[3]]):
                if isinstance(x, list) and x and x[0] in ('case', 'default'):
                    out = out or []
                    out.append(self.fields)
                    self.fields = dict(f0)
                self.block(x, ctl | c, key)
            for o in out or []:
                self.merge(o)
            return
        if k == 'for':
            self.block(n[2], ctl, key)
            if isinstance(n[3], list):
                self.ev(n[3], ctl, key)
            self.block(n[4], ctl, key)
            self.block(n[5], ctl, key)
            return
        if k == 'rfor':
            p = self.ev(n[3], ctl, key)
            v = n[2]
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, (int, str)):
                    self.put((key, x), p | ctl)
            self.block(n[4], ctl, key)
            return
        if k == 'while':
            self.ev(n[2], ctl, key)
            self.block(n[3], ctl, key)
            return
        if k == 'do':
            self.block(n[2], ctl, key)
            self.block(n[3], ctl, key)
            return
        if k == 'ret':
            if isinstance(n[2], list):
                rk = self.rk[-1] or key
                self.ret[rk] = self.ret.get(rk, frozenset()) | self.ev(n[2], ctl, key) | ctl
            return
        if k in ('block', 'case', 'default', 'try', 'throw', 'omp', 's', 'del'):
            for x in kids(n):
                self.block(x, ctl, key)
            return
        self.ev(n, ctl, key)

    def merge(self, o):
        for kk, p in o.items():
            self.fields[kk] = self.fields.get(kk, frozenset()) | p

    def ctl(self, n, ctl, key):
        return frozenset('c:' + t if not t.startswith('c:') else t for t in self.ev(n, ctl, key, True) if not t.startswith(('#', 'k:', 'lam:')))

    def put(self, k, p):
        self.env[k] = self.env.get(k, frozenset()) | p

    def base(self, n):
        """(var key path) of an lvalue: (var, field or None)"""
        n = strip(n)
        fld = None
        while isinstance(n, list):
            if n[0] == 'mem':
                fld = n[3]
                n = strip(n[2])
            elif n[0] == 'idx':
                n = strip(n[2])
            elif n[0] == 'op' and n[2] in ('[]', '*', '->') and n[4]:
                n = strip(n[4][0])
            elif n[0] == 'un':
                n = strip(n[3])
            elif n[0] == 'mcall' and callee(n) and callee(n).q.rsplit('::', 1)[-1] in ('at', 'front', 'back', 'data', 'begin', 'end', 'value'):
                n = strip(n[3])
            elif n[0] == 'call' and n[4] and callee(n) and callee(n).q.rsplit('::', 1)[-1] in ('move', 'forward', 'back_inserter'):
                n = strip(n[4][0])
            else:
                break
        return (n[2] if isinstance(n, list) and n[0] == 'var' else None), fld

    def store(self, lhs, p, key, whole=False):
        v, fld = self.base(lhs)
        if v is None:
            return
        if fld:
            kk = (key, v, fld.rsplit('::', 1)[-1])
            self.fields[kk] = p if whole and strip(lhs)[0] == 'mem' else self.fields.get(kk, frozenset()) | p
        self.put((key, v), p)

    def ev(self, n, ctl, key, control=False):
        if not isinstance(n, list) or not n:
            return frozenset()
        if not isinstance(n[0], str):
            r = frozenset()
            for x in n:
                r |= self.ev(x, ctl, key, control)
            return r
        k = n[0]
        if k == 'var':
            return self.env.get((key, n[2]), frozenset())
        if k == 'int':
            return frozenset(['#' + str(n[2])])
        if k == 'flt':
            return frozenset(['#' + str(n[2])])
        if k == 'enum':
            return frozenset(['#' + str(n[2]).rsplit('::', 1)[-1]])
        if k == 'str':
            return frozenset()
        if k == 'lam':
            # a lambda body shares the variable numbering of the function it is in
            for v, mode, e in n[3]:
                if isinstance(e, list) and not (e[0] == 'var' and e[2] == v):
                    self.put((key, v), self.ev(e, ctl, key))
            for i, pid in enumerate(n[2]):
                self.put((key, pid), frozenset(['lam:%d' % i]))
            self.rk.append(('lam', key, n[1], n[2][0] if n[2] else None))
            self.block(n[4], ctl, key)
            rk = self.rk.pop()
            return frozenset(t for t in self.ret.get(rk, frozenset()) if not t.startswith('lam:'))
        if k == 'asg':
            p = self.ev(n[4], ctl, key, control)
            self.store(n[3], p | ctl, key, n[2] == '=')
            self.ev(n[3], ctl, key)
            return p
        if k == 'op' and n[2] in ('=', '+=', '-=', '*=', '|=', '&=') and len(n[4]) == 2:
            p = self.ev(n[4][1], ctl, key, control)
            self.store(n[4][0], p | ctl, key, n[2] == '=')
            self.ev(n[4][0], ctl, key)
            return p
        if k == 'cond':
            c = self.ctl(n[2], ctl, key)
            return c | self.ev(n[3], ctl | c, key, control) | self.ev(n[4], ctl | c, key, control)
        if k == 'idx' or (k == 'op' and n[2] == '[]'):
            a = (n[2], n[3]) if k == 'idx' else (n[4][0], n[4][1])
            self.ev(a[1], ctl, key)
            i = strip(a[1])
            r = self.src(self, n, lambda x: self.ev(x, ctl, key))
            if r is not None:
                return r
            b = self.ev(a[0], ctl, key, control)
            sub = self.ev(a[1], ctl, key, control)
            return b | frozenset(t for t in sub if not t.startswith(('#', 'lam:')))
        if k == 'sizeof':
            return frozenset()
        r = self.src(self, n, lambda x: self.ev(x, ctl, key))
        if r is not None:
            return r
        g = callee(n) if k in ('call', 'mcall', 'op', 'new') else None
        if k == 'mcall' and g is not None:
            nm = g.q.rsplit('::', 1)[-1]
            if nm in MUT:
                p = frozenset()
                for a in n[4]:
                    p |= self.ev(a, ctl, key)
                self.store(n[3], p | ctl, key)
                return p
            if nm in DROP and not control:
                self.ev(n[3], ctl, key)
                return frozenset()
        if k == 'mem':
            v, fld = self.base(n)
            if v is not None and fld and (key, v, fld.rsplit('::', 1)[-1]) in self.fields and strip(n[2])[0] == 'var':
                return self.fields[(key, v, fld.rsplit('::', 1)[-1])]
        if k in ('call', 'mcall') and g is not None:
            args = n[4]
            if self.isadd(g):
                self.stores.append((n, [self.ev(a, ctl, key) for a in args], ctl, key))
                return frozenset()
            if self.isk(g):
                ps = [self.ev(a, ctl, key) for a in args]
                flds = []
                for a in args:
                    v, _ = self.base(a)
                    flds.append({kk[2]: p for kk, p in self.fields.items() if kk[:2] == (key, v)} if v is not None else {})
                self.kcalls.append((n, ps, flds, ctl, key))
                r = frozenset(['k:' + g.q.rsplit('::', 1)[-1]])
                for p in ps:
                    r |= p
                return r
            if self.enter(g) and g.body and len(self.stack) < 5 and g not in self.stack:
                gk = (g.q, g.l, n[1], key)
                for pid, a in zip(g.params, args):
                    self.put((gk, pid), self.ev(a, ctl, key))
                    v, _ = self.base(a)
                    if v is not None:
                        for kk, p in list(self.fields.items()):
                            if kk[:2] == (key, v):
                                self.fields[(gk, pid, kk[2])] = self.fields.get((gk, pid, kk[2]), frozenset()) | p
                self.stack.append(g)
                self.rk.append(None)
                self.block(g.body, ctl, gk)
                self.rk.pop()
                self.stack.pop()
                for pid, a in zip(g.params, args):
                    t = g.vars.get(pid, ('', '', ''))[1]
                    if t.rstrip().endswith(('&', '*')) and not t.startswith('const'):
                        self.store(a, self.env.get((gk, pid), frozenset()), key)
                        v, _ = self.base(a)
                        for kk, p in list(self.fields.items()):
                            if kk[:2] == (gk, pid) and v is not None:
                                self.fields[(key, v, kk[2])] = self.fields.get((key, v, kk[2]), frozenset()) | p
                return self.ret.get(gk, frozenset())
        r = frozenset()
        for x in kids(n):
            r |= self.ev(x, ctl, key, control)
        if k == 'call' and g is not None and g.q.rsplit('::', 1)[-1] in ('abs', 'fabs'):
            r = frozenset('abs:' + t if not t.startswith(('#', 'abs:')) else t for t in r)
        if k in ('call', 'op') and g is not None and g.q.rsplit('::', 1)[-1] == 'swap':
            for a in kids(n):
                self.store(a, r, key)
        return r
