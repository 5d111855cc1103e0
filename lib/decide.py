"""Decision tables of small functions: the function's syntax tree is evaluated over a finite abstract input, the client supplying the
value of every atom (a call, a type test, a member) it knows.  Anything else makes the table undecided."""
from program import callee, strip, show, walk


class Undecided(Exception):
    pass


class Throw(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


NO = object()


class Ev:
    """hook(ev, node) -> value or NO; enter(fn) -> should calls to fn be evaluated"""

    def __init__(self, hook, enter=lambda g: False, limit=20000):
        self.hook, self.enter, self.limit, self.env, self.depth = hook, enter, limit, {}, 0

    def run(self, f, args=()):
        """('ret', value) or ('throw', None)"""
        old, self.env = self.env, {}
        for p, a in zip(f.params, args):
            self.env[p] = a
        self.depth += 1
        try:
            if self.depth > 8:
                raise Undecided('depth')
            self.st(f.body)
            return ('ret', None)
        except Ret as r:
            return ('ret', r.v)
        except Throw:
            return ('throw', None)
        finally:
            self.depth -= 1
            self.env = old

    def tick(self):
        self.limit -= 1
        if self.limit < 0:
            raise Undecided('too long')

    def st(self, n):
        self.tick()
        if not isinstance(n, list) or not n:
            return
        if not isinstance(n[0], str):
            for x in n:
                self.st(x)
            return
        k = n[0]
        if k == 'block':
            for x in n[2]:
                self.st(x)
        elif k == 'decl':
            for y in n[2]:
                self.env[y[0]] = self.ex(y[1]) if isinstance(y[1], list) else None
        elif k in ('if', 'ifc'):
            if isinstance(n[2], list):
                self.st(n[2])
            if self.truth(n[3]):
                self.st(n[4])
            else:
                self.st(n[5])
        elif k == 'ret':
            raise Ret(self.ex(n[2]) if isinstance(n[2], list) else None)
        elif k == 'throw':
            raise Throw()
        elif k == 'switch':
            self.switch(n)
        elif k in ('case', 'default'):
            self.st(n[3] if k == 'case' else n[2])
        elif k == 'do':
            try:
                self.st(n[2])
            except Brk:
                return
            except Cont:
                pass
            if self.truth(n[3]):
                raise Undecided('do loop')
        elif k == 'for':
            self.st(n[2])
            while not isinstance(n[3], list) or self.truth(n[3]):
                self.tick()
                try:
                    self.st(n[5])
                except Brk:
                    break
                except Cont:
                    pass
                self.st(n[4])
        elif k == 'while':
            while self.truth(n[2]):
                self.tick()
                try:
                    self.st(n[3])
                except Brk:
                    break
                except Cont:
                    pass
        elif k == 'rfor':
            seq = self.ex(n[3])
            if not isinstance(seq, (list, tuple)):
                raise Undecided('range')
            for x in seq:
                self.tick()
                v = n[2]
                self.env[v[0] if isinstance(v, list) else v] = x
                try:
                    self.st(n[4])
                except Brk:
                    break
                except Cont:
                    pass
        elif k == 'break' or (k == 's' and n[2:3] == ['break']):
            raise Brk()
        elif k in ('cont', 'continue') or (k == 's' and n[2:3] == ['continue']):
            raise Cont()
        else:
            self.ex(n)

    def switch(self, n):
        v = self.ex(n[2])
        body = n[3]
        items = body[2] if body and body[0] == 'block' else [body]
        flat = []

        def add(x):
            if isinstance(x, list) and x and x[0] == 'case':
                flat.append(('case', x[2]))
                add(x[3])
            elif isinstance(x, list) and x and x[0] == 'default':
                flat.append(('default', None))
                add(x[2])
            else:
                flat.append(('s', x))
        for x in items:
            add(x)
        start = None
        for i, (t, x) in enumerate(flat):
            if t == 'case' and self.ex(x) == v:
                start = i
                break
        if start is None:
            for i, (t, x) in enumerate(flat):
                if t == 'default':
                    start = i
        if start is None:
            return
        try:
            for t, x in flat[start:]:
                if t == 's':
                    self.st(x)
        except Brk:
            pass

    def truth(self, n):
        v = self.ex(n)
        if v in (True, False):
            return v
        if isinstance(v, int):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (tuple, str)):
            return True
        raise Undecided('truth ' + show(n)[:60])

    def ex(self, n):
        self.tick()
        if not isinstance(n, list) or not n:
            return None
        h = self.hook(self, n)
        if h is not NO:
            return h
        k = n[0]
        if k == 'int':
            return int(n[2])
        if k == 'enum':
            return 'E:' + str(n[2]).rsplit('::', 1)[-1]
        if k == 'str':
            return 'S:' + n[2]
        if k in ('zero', 'null'):
            return None
        if k == 'var':
            if n[2] in self.env:
                return self.env[n[2]]
            raise Undecided('var ' + show(n))
        if k == 'cast':
            return self.ex(n[3])
        if k == 'copy':
            return self.ex(n[2])
        if k == 'list':
            return tuple(self.ex(x) for x in n[2])
        if k == 'throw':
            raise Throw()
        if k == 'cond':
            return self.ex(n[3]) if self.truth(n[2]) else self.ex(n[4])
        if k == 'un':
            if n[2] == '!':
                return not self.truth(n[3])
            if n[2] == '-':
                return -self.ex(n[3])
            if n[2] in ('*', '&'):
                return self.ex(n[3])
            if n[2] in ('++', '--', '++p', '--p', 'p++', 'p--') or '++' in n[2] or '--' in n[2]:
                x = strip(n[3])
                if x[0] == 'var' and isinstance(self.env.get(x[2]), int):
                    old = self.env[x[2]]
                    self.env[x[2]] += 1 if '+' in n[2] else -1
                    return old if n[2][0] == 'p' else self.env[x[2]]
            raise Undecided('un ' + str(n[2]))
        if k == 'bin' or (k == 'op' and len(n[4]) == 2 and n[2] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||')):
            o = n[2]
            a, b = (n[3], n[4]) if k == 'bin' else n[4]
            if o == '&&':
                return self.truth(a) and self.truth(b)
            if o == '||':
                return self.truth(a) or self.truth(b)
            a, b = self.ex(a), self.ex(b)
            if o == '==':
                return a == b
            if o == '!=':
                return a != b
            if isinstance(a, int) and isinstance(b, int):
                if o in ('/', '%') and b == 0:
                    raise Undecided('div0')
                return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '+': lambda: a + b, '-': lambda: a - b,
                        '*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a % b, '<<': lambda: a << min(b, 200), '>>': lambda: a >> min(b, 200),
                        '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}.get(o, lambda: self.no('bin ' + o))()
            raise Undecided('bin ' + show(n)[:60])
        if k == 'asg':
            x = strip(n[3])
            if x[0] == 'var' and n[2] == '=':
                self.env[x[2]] = self.ex(n[4])
                return self.env[x[2]]
            if x[0] == 'var' and n[2][-1] == '=' and isinstance(self.env.get(x[2]), int):
                self.env[x[2]] = self.ex(['bin', n[1], n[2][:-1], ['int', n[1], str(self.env[x[2]])], n[4], ''])
                return self.env[x[2]]
            raise Undecided('asg')
        if k == 'op' and n[2] == '=' and strip(n[4][0])[0] == 'var':
            self.env[strip(n[4][0])[2]] = self.ex(n[4][1])
            return None
        if k == 'op' and n[2] in ('*', '->') and len(n[4]) == 1:
            return self.ex(n[4][0])
        if k == 'call' and callee(n) is not None:
            g = callee(n)
            nm = g.q.rsplit('::', 1)[-1]
            if nm in ('make_pair', 'make_tuple'):
                return tuple(self.ex(a) for a in n[4])
            if nm in ('move', 'forward') and len(n[4]) == 1:
                return self.ex(n[4][0])
            if self.enter(g) and g.body:
                r = self.run(g, [self.ex(a) for a in n[4]])
                if r[0] == 'throw':
                    raise Throw()
                return r[1]
            if n[3] is not None and isinstance(n[3], list) and strip(n[3])[0] == 'lam' and not n[4]:
                return self.lam(strip(n[3]))
        if k == 'op' and n[2] == '()' and n[4] and strip(n[4][0])[0] == 'lam':
            return self.lam(strip(n[4][0]))
        if k == 'new':
            a = [self.ex(x) for x in n[4] if not (isinstance(x, list) and x and x[0] == 'new' and 'allocator' in str(x[2]))]
            return a[0] if len(a) == 1 else tuple(a)
        raise Undecided(k + ' ' + show(n)[:60])

    def lam(self, n):
        try:
            self.st(n[4])
            return None
        except Ret as r:
            return r.v

    def no(self, w):
        raise Undecided(w)
