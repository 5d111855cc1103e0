"""A small structured abstract interpreter over the extracted IR. Domains override the hooks."""
from program import callee, strip, walk, kids


class AI:
    """env: dict var -> abstract value (missing = TOP = None). Subclasses define join(a,b), call(), refine()."""
    def __init__(self, P):
        self.P = P
        self.rets = None
        self.fn = None

    # ---- lattice on values; None is TOP
    def join(self, a, b):
        return a if a == b else None

    def joinenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a:
            if k in b:
                v = self.join(a[k], b[k])
                if v is not None:
                    out[k] = v
        return out

    # ---- hooks
    def call(self, n, fn, obj, args, env):
        """value of a call node; obj: value of receiver, args: list of values"""
        return None

    def other(self, n, env):
        return None

    def refine(self, n, env, want):
        """environment after atom n evaluated to want (None if impossible)"""
        return env

    def atthrow(self, n, env):
        pass

    def ondecl(self, v, val, env):
        return val

    # ---- expressions
    def ev(self, n, env):
        if n is None:
            return None
        k = n[0]
        if k == 'copy':
            return self.ev(n[2], env)
        if k == 'var':
            return env.get(n[2])
        if k in ('call', 'mcall', 'op', 'new'):
            if k == 'op' and n[2].endswith('=') and n[2] not in ('==', '!=', '<=', '>=') and len(n[4]) == 2:
                r = self.ev(n[4][1], env)
                self.assign(n[4][0], r, env, n)
                return r
            f = callee(n)
            if f is not None and f.q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref') and len(n[4]) == 1:
                return self.ev(n[4][0], env)
            obj = None
            if k == 'mcall':
                obj = self.ev(n[3], env)
            elif k == 'call' and isinstance(n[3], list):
                obj = self.ev(n[3], env)
            args = [self.ev(a, env) for a in n[4]]
            return self.call(n, f, obj, args, env)
        if k == 'cond':
            a, b = self.split(n[2], env)
            x = self.ev(n[3], a) if a is not None else 'bot'
            y = self.ev(n[4], b) if b is not None else 'bot'
            if x == 'bot':
                return y
            if y == 'bot':
                return x
            return self.join(x, y)
        if k == 'asg':
            r = self.ev(n[4], env)
            if n[2] != '=':
                self.ev(n[3], env)
                r = None
            self.assign(n[3], r, env, n)
            return r
        if k == 'list':
            vs = [self.ev(x, env) for x in n[2]]
            return self.listval(n, vs, env)
        if k == 'lam':
            return self.lam(n, env)
        if k == 'throw':
            self.ev(n[2], env)
            self.atthrow(n, env)
            return 'bot'
        r = self.other(n, env)
        if r is not NotImplemented:
            for x in kids(n):
                self.ev(x, env)
            return r
        return None

    def listval(self, n, vs, env):
        return vs[0] if len(vs) == 1 else None

    def lam(self, n, env):
        return None

    def assign(self, target, val, env, n):
        t = strip(target)
        if t is None:
            return
        if t[0] == 'var':
            if val is None or val == 'bot':
                env.pop(t[2], None)
            else:
                env[t[2]] = val
        else:
            b = t
            while b is not None and b[0] in ('idx', 'mem', 'op', 'mcall', 'un'):
                b = strip(b[2] if b[0] in ('idx', 'mem') else b[3] if b[0] in ('mcall', 'un') else (b[4][0] if b[4] else None))
            self.ev(t, env)
            if b is not None and b[0] == 'var':
                self.weak(b[2], t, val, env)

    def weak(self, v, t, val, env):
        """write through part of variable v"""
        if v in env:
            j = self.join(env[v], val)
            if j is None:
                env.pop(v)
            else:
                env[v] = j

    # ---- conditions
    def split(self, n, env):
        """(env if true, env if false)"""
        s = strip(n)
        if s is None:
            return env, env
        k = s[0]
        if k == 'un' and s[2] == '!':
            a, b = self.split(s[3], env)
            return b, a
        if k == 'bin' and s[2] == '&&':
            a, b = self.split(s[3], env)
            if a is None:
                return None, b
            c, d = self.split(s[4], dict(a))
            return c, self.joinenv(b, d)
        if k == 'bin' and s[2] == '||':
            a, b = self.split(s[3], env)
            if b is None:
                return a, None
            c, d = self.split(s[4], dict(b))
            return self.joinenv(a, c), d
        if k == 'int':
            return (env, None) if int(s[2]) else (None, env)
        if k == 'cast' and isinstance(s[3], list):
            return self.split(s[3], env)
        self.ev(s, env)
        t = self.refine(s, dict(env), True)
        f = self.refine(s, dict(env), False)
        return t, f

    # ---- statements: returns env falling through or None
    def ex(self, n, env):
        if n is None or env is None:
            return env
        k = n[0]
        if k == 'block':
            for x in n[2]:
                env = self.ex(x, env)
                if env is None:
                    return None
            return env
        if k == 'decl':
            for y in n[2]:
                v = self.ev(y[1], env) if y[1] is not None else None
                if v == 'bot':
                    return None
                v = self.ondecl(y, v, env)
                if v is not None:
                    env[y[0]] = v
                else:
                    env.pop(y[0], None)
                if len(y) > 2 and isinstance(y[2], list):
                    for i, b in enumerate(y[2]):
                        bv = self.binding(y, i, v, env)
                        if bv is not None:
                            env[b if isinstance(b, int) else b[0]] = bv
            return env
        if k in ('if', 'ifc'):
            env = self.ex(n[2], env)
            if env is None:
                return None
            a, b = self.split(n[3], env)
            a = self.ex(n[4], dict(a)) if a is not None else None
            b = self.ex(n[5], dict(b)) if b is not None else None
            return self.joinenv(a, b)
        if k == 'ret':
            v = self.ev(n[2], env) if n[2] is not None else None
            if v != 'bot':
                self.rets.append((n, v, dict(env)))
            return None
        if k == 'throw':
            self.ev(n[2], env)
            self.atthrow(n, env)
            return None
        if k in ('break', 'cont'):
            self.brk.append(dict(env))
            return None
        if k in ('while', 'for', 'rfor', 'do'):
            return self.loop(n, env)
        if k == 'switch':
            self.ev(n[2], env)
            sv = self.brk
            self.brk = []
            out = None
            fall = None
            has_default = False
            items = []

            def flat(x):
                # case labels nest: case 1: case 2: stmt
                if x is None:
                    return
                if x[0] == 'case':
                    items.append(('label', x))
                    flat(x[3])
                elif x[0] == 'default':
                    items.append(('default', x))
                    flat(x[2])
                else:
                    items.append(('s', x))
            for x in (n[3][2] if n[3] is not None and n[3][0] == 'block' else [n[3]]):
                flat(x)
            for kind, x in items:
                if kind == 'label':
                    e2 = self.caseenv(n, x, dict(env))
                    fall = self.joinenv(fall, e2)
                elif kind == 'default':
                    has_default = True
                    fall = self.joinenv(fall, self.defaultenv(n, dict(env)))
                else:
                    fall = self.ex(x, fall) if fall is not None else None
            out = fall
            for b in self.brk:
                out = self.joinenv(out, b)
            self.brk = sv
            if not has_default:
                out = self.joinenv(out, self.defaultenv(n, dict(env)))
            return out
        if k == 'try':
            a = self.ex(n[2], dict(env))
            for h in n[3]:
                e2 = dict(env)
                for x in walk(n[2]):
                    if x[0] in ('asg', 'decl', 'op'):
                        for y in walk(x):
                            if y[0] == 'var':
                                e2.pop(y[2], None)
                a = self.joinenv(a, self.ex(h[2], e2))
            return a
        if k == 'omp':
            return self.ex(n[2], env)
        r = self.ev(n, env)
        return None if r == 'bot' else env

    def caseenv(self, sw, case, env):
        return env

    def defaultenv(self, sw, env):
        return env

    def binding(self, y, i, v, env):
        return None

    def loopvar(self, n, env):
        """value of a range-for variable"""
        return None

    def loop(self, n, env):
        sv = self.brk
        k = n[0]
        if k == 'for':
            env = self.ex(n[2], env)
            if env is None:
                return None
        if k == 'do':
            c = strip(n[3])
            if c is not None and c[0] == 'int' and int(c[2]) == 0:
                self.brk = []
                out = self.ex(n[2], env)
                for b in self.brk:
                    out = self.joinenv(out, b)
                self.brk = sv
                return out
        cur = env
        out = None
        for it in range(6):
            self.brk = []
            if k == 'rfor':
                rv = self.ev(n[3], cur)
                body, exit_ = dict(cur), dict(cur)
                lv = self.loopvar(n, cur)
                if n[2] is not None:
                    if lv is not None:
                        body[n[2]] = lv
                    else:
                        body.pop(n[2], None)
            elif k == 'do':
                body, exit_ = dict(cur), None
            else:
                c = n[2] if k == 'while' else n[3]
                body, exit_ = self.split(c, dict(cur)) if c is not None else (dict(cur), None)
            e = self.ex(n[4] if k == 'rfor' else n[5] if k == 'for' else n[2] if k == 'do' else n[3], dict(body)) if body is not None else None
            for b in self.brk:
                exit_ = self.joinenv(exit_, b)
                e = self.joinenv(e, b)
            if k == 'for' and e is not None:
                e = self.ex(n[4], e)
            if k == 'do' and e is not None:
                a, b2 = self.split(n[3], e)
                exit_ = self.joinenv(exit_, b2)
                e = a
            out = exit_
            new = self.joinenv(dict(cur), e)
            if new == cur:
                break
            cur = new
        self.brk = sv
        return out

    def run(self, fn, env):
        sv = (self.rets, self.fn, getattr(self, 'brk', None))
        self.rets, self.fn, self.brk = [], fn, []
        end = self.ex(fn.body, dict(env))
        r = self.rets
        self.rets, self.fn, self.brk = sv
        return r, end
