"""Lock sets along every function: which mutexes are held at each access to shared state.

Guards are recognised from the declarations of std::unique_lock / lock_guard / shared_lock / scoped_lock objects (their scope and their lock()/unlock() calls), direct lock()/unlock() calls on a mutex, and std::call_once
regions. A lock is named by its path ('this.mutex_', 'this.event_.mutex', a global, a static local). Private helpers inherit the locks every one of their call sites holds."""
from program import walk, kids, callee, cargs, strip, show

GUARD = ('std::unique_lock', 'std::lock_guard', 'std::shared_lock', 'std::scoped_lock')
MUTEX = ('std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex')
SELFSYNC = MUTEX + ('std::condition_variable', 'std::once_flag', 'std::atomic', 'std::thread', 'std::future', 'std::vector<std::thread', 'std::vector<std::future', 'std::condition_variable_any')
TOP = None
MAPS = ('std::map<', 'std::unordered_map<', 'llvm::DenseMap<', 'absl::flat_hash_map<')
READERS = {'begin', 'end', 'cbegin', 'cend', 'find', 'at', 'front', 'back', 'data', 'get', 'count', 'size', 'empty', 'rbegin', 'rend', 'value', 'has_value', 'operator->', 'operator*', 'operator bool', 'operator[]', 'lower_bound', 'upper_bound', 'top', 'c_str', 'contains', 'equal_range', 'str'}


def sync(t):
    t = str(t or '').replace('const ', '').replace('mutable ', '')
    return t.startswith(SELFSYNC)


def path(n, al=None):
    """canonical name of a storage location: ('this',), ('v', id), ('g', q, file) followed by field names; None if it is not a plain path"""
    n = strip(n)
    if n is None:
        return None
    k = n[0]
    if k == 'this':
        return ('this',)
    if k == 'var':
        if al and n[2] in al:
            return al[n[2]]
        return (('v', n[2]),)
    if k == 'glob':
        return (('g', n[2]),)
    if k == 'mem':
        b = path(n[2], al)
        return None if b is None else b + (n[3],)
    if k == 'un' and n[2] in ('*', '&'):
        return path(n[3], al)
    if k in ('op',) and n[2] in ('->', '*') and n[4]:
        return path(n[4][0], al)
    if k == 'mcall' and n[2] is not None and n[2].name in ('get', 'operator->', 'operator*', 'value'):
        return path(n[3], al)
    return None


def inner(n, al=None):
    """location a subscript / element / member-of chain is rooted at (for element accesses)"""
    n = strip(n)
    while n is not None:
        p = path(n, al)
        if p is not None:
            return p
        if n[0] == 'idx':
            n = strip(n[2])
        elif n[0] == 'op' and n[2] in ('[]', '->', '*') and n[4]:
            n = strip(n[4][0])
        elif n[0] == 'mem':
            n = strip(n[2])
        elif n[0] == 'mcall' and n[2] is not None and n[2].name in READERS:
            n = strip(n[3])
        elif n[0] == 'un':
            n = strip(n[3])
        else:
            return None
    return None


class Access:
    __slots__ = ('f', 'l', 'p', 'w', 'held', 'how', 'pre')

    def __init__(self, f, l, p, w, held, how, pre):
        self.f, self.l, self.p, self.w, self.held, self.how, self.pre = f, l, p, w, held, how, pre


class Walk:
    """one function: accesses, lock acquisitions, calls with the lock set held"""

    def __init__(self, P, f, once):
        self.P, self.f, self.once = P, f, once
        self.acc, self.calls, self.acq, self.waits, self.notifies, self.spawns = [], [], [], [], [], []
        self.al = {}
        self.guards = {}
        self.nth = 0
        self.lamvars = {}
        self.seq = []  # ('call'|'acq'|'rel'|'notify'|'asg', line, data) in program order
        st = ()
        for a, b, w in (f.inits or []):
            self.expr(b, st)
        self.stmt(f.body, st)

    # held locks: tuple of (path, mode); mode 'x' exclusive, 's' shared, 'o' inside call_once, 'd' after call_once, 'r' released earlier in this function
    def add(self, held, p, m):
        return tuple(h for h in held if not (h[0] == p and h[1] == 'r')) + ((p, m),)

    def drop(self, held, p):
        out = tuple(h for h in held if not (h[0] == p and h[1] in 'xs'))
        return out if len(out) == len(held) else out + ((p, 'r'),)

    def stmt(self, n, held):
        if n is None:
            return held
        k = n[0]
        if k == 'block':
            local = []
            h = held
            for s in n[2]:
                before = set(self.guards)
                h2 = self.stmt(s, h)
                local += [g for g in self.guards if g not in before]
                h = h2
                if h is False:
                    break
            for g in local:
                ps = self.guards.pop(g, None)
                if ps and h is not False:
                    for p, m in ps:
                        h = self.drop(h, p)
                        self.seq.append(('rel', n[1], p))
            return h
        if k == 'decl':
            for d in n[2]:
                held = self.decl(d, held)
            return held
        if k == 'if':
            if n[2] is not None:
                held = self.stmt(n[2], held)
            held = self.expr(n[3], held)
            a, b = self.stmt(n[4], held), self.stmt(n[5], held) if n[5] is not None else held
            return self.meet(a, b)
        if k == 'ifc':
            a = self.stmt(n[4], held) if len(n) > 4 else held
            b = self.stmt(n[5], held) if len(n) > 5 and n[5] is not None else held
            return self.meet(a, b)
        if k == 'for':
            if n[2] is not None:
                held = self.stmt(n[2], held) if n[2][0] in ('decl', 'block') else self.expr(n[2], held)
            if n[3] is not None:
                held = self.expr(n[3], held)
            h = self.stmt(n[5], held)
            if h is not False and n[4] is not None:
                self.expr(n[4], h)
            return self.meet(held, h)
        if k == 'rfor':
            held = self.expr(n[3], held)
            p = inner(n[3], self.al)
            if p is not None and isinstance(n[2], int) and n[2] >= 0:
                t = str((self.f.vars.get(n[2]) or ('', '', ''))[1] or '')
                if '&' in t:
                    self.al[n[2]] = p + ('[]',)
            h = self.stmt(n[4], held)
            return self.meet(held, h)
        if k == 'while':
            held = self.expr(n[2], held)
            h = self.stmt(n[3], held)
            m = self.meet(held, h)
            if h is not False and m != held and tuple(x for x in held if x[1] != 'r') != tuple(x for x in m if x[1] != 'r'):
                m = self.expr(n[2], m)
                h = self.stmt(n[3], m)
                m = self.meet(m, h)
            return m
        if k == 'do':
            h = self.stmt(n[2], held)
            h = held if h is False else h
            return self.expr(n[3], h)
        if k == 'switch':
            held = self.expr(n[2], held)
            h = self.stmt(n[3], held)
            return self.meet(held, h)
        if k in ('case', 'default'):
            h = held
            for c in kids(n):
                if c is not None:
                    h = self.stmt(c, h)
            return h
        if k == 'try':
            h = self.stmt(n[2], held)
            for hd in n[3]:
                h = self.meet(h, self.stmt(hd[2], held))
            return h
        if k == 'ret':
            self.expr(n[2], held)
            return False
        if k == 'throw':
            self.expr(n[2], held)
            return False
        return self.expr(n, held)

    def meet(self, a, b):
        if a is False:
            return b
        if b is False:
            return a
        return tuple(h for h in a if h in b)

    def guard_args(self, init):
        """(paths, mode, held) of a guard declaration"""
        t = str(init[2]) if init[0] == 'new' else ''
        args = [a for a in cargs(init) if a is not None]
        mode = 's' if 'std::shared_lock' in t else 'x'
        defer = any('defer_lock' in show(a) or 'try_to_lock' in show(a) for a in args)
        ps = []
        for a in args:
            p = path(a, self.al)
            if p is not None and 'defer_lock' not in str(p) and 'adopt_lock' not in str(p) and 'try_to_lock' not in str(p):
                ps.append((p, mode))
        return ps, not defer

    def decl(self, d, held):
        vid, init = d[0], d[1]
        if init is None:
            return held
        t = str((self.f.vars.get(vid) or ('', '', ''))[1] or '')
        i2 = init
        if init[0] == 'copy':
            i2 = init[2]
        ty = str(i2[2]) if i2 is not None and i2[0] == 'new' else t
        if any(g in ty or g in t for g in GUARD) and i2 is not None and i2[0] in ('new', 'list', 'call'):
            if i2[0] == 'list':
                i2 = ['new', i2[1], t, None, i2[2]]
            ps, on = self.guard_args(i2)
            if ps:
                self.guards[vid] = ps
                if on:
                    for p, m in ps:
                        self.acq.append((i2[1], p, m, held))
                        self.seq.append(('acq', i2[1], p))
                        held = self.add(held, p, m)
                return held
        if i2 is not None and i2[0] == 'lam':
            self.lamvars[vid] = i2
            self.expr(i2, held)
            return held
        held = self.expr(init, held)
        p = inner(init, self.al)
        if p is not None:
            x = strip(init)
            if '&' in t or '*' in t:
                self.al[vid] = p if path(init, self.al) else p + ('[]',)
            elif x is not None and x[0] == 'mcall' and x[2] is not None and x[2].name in ('find', 'begin', 'end', 'data', 'lower_bound', 'upper_bound', 'rbegin'):
                self.al[vid] = p + ('[]',)
        return held

    def touch(self, n, w, held, how):
        x = strip(n)
        if w and x is not None and x[0] == 'var' and x[2] in self.al and not str((self.f.vars.get(x[2]) or ('', '', ''))[1]).rstrip().endswith('&'):
            return  # the local iterator / pointer itself is rebound
        p = inner(n, self.al)
        if p is not None:
            self.acc.append(Access(self.f, n[1], p, w, held, how, self.nth))

    def lam(self, n, held):
        g, a = dict(self.guards), None
        self.stmt(n[4], held)
        self.guards = g

    def expr(self, n, held):
        if n is None:
            return held
        k = n[0]
        if k in ('var', 'glob', 'mem', 'this'):
            if k == 'var' and n[2] not in self.al and not self.static(n[2]):
                return held
            self.touch(n, False, held, 'read')
            if k == 'mem' and path(n, self.al) is None:
                self.expr(n[2], held)
            return held
        if k == 'lam':
            for v, m, e in n[3]:
                if e is not None:
                    self.expr(e, held)
            self.lam(n, held)
            return held
        if k == 'asg':
            held = self.expr(n[4], held)
            self.touch(n[3], True, held, n[2])
            self.seq.append(('asg', n[1], None))
            x = strip(n[3])
            if x is not None and x[0] in ('idx', 'op', 'mcall', 'call'):
                for c in kids(x)[1:]:
                    if c is not None:
                        held = self.expr(c, held)
            return held
        if k == 'un' and n[2].strip('_') in ('++', '--', 'post++', 'post--', 'p++', 'p--'):
            self.touch(n[3], True, held, n[2])
            return held
        if k == 'op' and n[2] in ('=', '+=', '-=', '<<=', '|=', '&=', '^=', '*=', '++', '--') and n[4]:
            for c in n[4][1:]:
                held = self.expr(c, held)
            self.touch(n[4][0], True, held, n[2])
            self.seq.append(('asg', n[1], None))
            return held
        if k == 'op' and n[2] == '[]' and n[4]:
            t = str(n[3].cls or '') if n[3] is not None else ''
            if any(m.rstrip('<') in t for m in MAPS):
                self.touch(n[4][0], True, held, 'map[]')
                for c in n[4][1:]:
                    held = self.expr(c, held)
                return held
        if k in ('call', 'mcall', 'op', 'new'):
            return self.callexpr(n, held)
        if k in ('decl', 'block', 'if', 'for', 'rfor', 'while', 'do', 'switch', 'case', 'default', 'try', 'ret', 'throw', 'ifc'):
            return self.stmt(n, held)
        for c in kids(n):
            if c is not None:
                held = self.expr(c, held)
        return held

    def static(self, v):
        t = self.f.vars.get(v)
        return bool(t) and t[2] == 's'

    def callexpr(self, n, held):
        fn = callee(n)
        q = fn.q if fn is not None else ''
        obj = n[3] if n[0] == 'mcall' else None
        args = [a for a in cargs(n) if a is not None]
        ln = n[1]
        if q == 'std::call_once' and len(args) >= 2:
            p = path(args[0], self.al)
            lm = self.lamof(args[1])
            if lm is not None:
                self.lam(lm, held + ((p, 'o'),))
            self.acq.append((ln, p, 'o', held))
            return self.add(held, p, 'd')
        if q in ('std::async',) or q.endswith('std::thread::thread') or (n[0] == 'new' and str(n[2]).startswith('std::thread')):
            self.spawns.append(ln)
            for a in args:
                lm = self.lamof(a)
                if lm is not None:
                    for v, m, e in lm[3]:
                        if e is not None:
                            self.expr(e, held)
                    self.nth += 1
                    self.lam(lm, ())
                elif a[0] != 'fref' and not (a[0] == 'un' and a[3] and a[3][0] == 'fref'):
                    self.expr(a, held)
            self.nth += 1
            return held
        if obj is not None and fn is not None:
            o = strip(obj)
            # guard object or mutex
            if o is not None and o[0] == 'var' and o[2] in self.guards and fn.name in ('lock', 'unlock', 'release', 'try_lock'):
                for p, m in self.guards[o[2]]:
                    if fn.name == 'lock':
                        self.acq.append((ln, p, m, held))
                        self.seq.append(('acq', ln, p))
                        held = self.add(held, p, m)
                    elif fn.name == 'unlock':
                        held = self.drop(held, p)
                        self.seq.append(('rel', ln, p))
                return held
            if (fn.cls or '').startswith(MUTEX) or 'mutex' in (fn.cls or ''):
                p = path(obj, self.al)
                if p is not None and fn.name in ('lock', 'lock_shared'):
                    m = 's' if fn.name.endswith('shared') else 'x'
                    self.acq.append((ln, p, m, held))
                    self.seq.append(('acq', ln, p))
                    return self.add(held, p, m)
                if p is not None and fn.name in ('unlock', 'unlock_shared'):
                    self.seq.append(('rel', ln, p))
                    return self.drop(held, p)
            if 'condition_variable' in (fn.cls or '') and fn.name.startswith('wait'):
                g = strip(args[0]) if args else None
                gp = self.guards.get(g[2]) if g is not None and g[0] == 'var' else None
                lam = self.lamof(args[-1]) if len(args) > 1 else None
                self.waits.append((ln, path(obj, self.al), gp, lam, args, held))
                if lam is not None:
                    self.lam(lam, held)
                return held
            if 'condition_variable' in (fn.cls or '') and fn.name.startswith('notify'):
                self.notifies.append((ln, path(obj, self.al), fn.name, held, len(self.seq)))
                self.seq.append(('notify', ln, None))
                return held
            thr = fn.name in ('emplace_back', 'push_back') and 'std::thread' in str(self.otype(obj))
            if thr:
                self.spawns.append(ln)
                self.nth += 1
                for a in args:
                    lm = self.lamof(a)
                    if lm is not None:
                        self.lam(lm, ())
                return held
            w = not fn.const and not fn.static and fn.name not in READERS and fn.body is None
            if self.deref(obj, fn):
                w = False
            if obj is not None and w and not (fn.cls or '').startswith(SELFSYNC):
                self.touch(obj, True, held, fn.name + '()')
            else:
                held = self.expr(obj, held) if o is None or o[0] not in ('this',) else held
        for i, a in enumerate(args):
            x = strip(a)
            lm = self.lamof(a)
            if lm is not None and x[0] == 'var':
                continue
            byref = fn is not None and i < len(fn.p) and str(fn.p[i]).rstrip().endswith('&') and not str(fn.p[i]).rstrip().endswith('&&') and not str(fn.p[i]).startswith('const ') and n[0] != 'op'
            byptr = x is not None and x[0] == 'un' and x[2] == '&'
            if byref and x is not None and path(x, self.al) is not None and x[0] != 'this' and not (q.startswith('std::') and fn.name in ('forward', 'move', 'get')):
                self.touch(x, True, held, f'passed to {fn.name} by reference')
            elif byptr and path(x[3], self.al) is not None and fn is not None and fn.f.startswith('libspu/') and i < len(fn.p) and not str(fn.p[i]).startswith('const '):
                self.touch(x[3], True, held, f'address passed to {fn.name}')
            else:
                held = self.expr(a, held)
        if n[0] in ('call', 'op') and isinstance(n[3], list) and n[0] == 'call':
            o = strip(n[3])
            if o is not None and o[0] == 'lam':
                self.lam(o, held)
            elif o is not None and o[0] == 'var' and o[2] in self.lamvars:
                pass
            else:
                held = self.expr(n[3], held)
        if n[0] == 'op' and n[2] == '()' and args:
            pass
        if fn is not None:
            self.calls.append((ln, fn, path(obj, self.al) if obj is not None else None, held, n))
            self.seq.append(('call', ln, fn))
            for p in self.once.get(fn, ()):
                base = path(obj, self.al) if obj is not None else None
                p2 = translate(p[0], base)
                if p2 is not None:
                    held = self.add(held, p2, p[1])
        return held

    def deref(self, o, fn):
        """the call goes to what a pointer member points to"""
        o = strip(o)
        if o is None:
            return False
        if o[0] == 'op' and o[2] in ('->', '*') or o[0] == 'un' and o[2] == '*':
            return True
        if o[0] == 'mcall' and o[2] is not None and o[2].name in ('get', 'operator->', 'operator*'):
            return True
        return str(self.otype(o)).rstrip().endswith('*')

    def otype(self, o):
        o = strip(o)
        if o is None:
            return ''
        if o[0] == 'mem':
            return o[4] if len(o) > 4 else ''
        if o[0] == 'var':
            return (self.f.vars.get(o[2]) or ('', '', ''))[1]
        if o[0] == 'glob':
            return o[3]
        return ''

    def lamof(self, a):
        x = strip(a)
        if x is None:
            return None
        if x[0] == 'lam':
            return x
        if x[0] == 'new' and len(x[4]) == 1:
            return self.lamof(x[4][0])
        if x[0] == 'var' and x[2] in self.lamvars:
            return self.lamvars[x[2]]
        if x[0] == 'call' and x[2] is not None and not isinstance(x[2], str) and len(x[4]) == 1:
            return self.lamof(x[4][0])
        return None


def translate(p, base):
    """a callee path seen from the caller: this.x -> base.x"""
    if p is None:
        return None
    if p[0] == 'this':
        return None if base is None else base + p[1:]
    if isinstance(p[0], tuple) and p[0][0] == 'g':
        return p
    return None


class Locks:
    def __init__(self, P, files=('libspu/',)):
        self.P = P
        self.fs = [f for f in P.funcs if f.body is not None and f.f.startswith(files) and not f.f.startswith(('libspu/dialect/', 'libspu/compiler/'))]
        once = {}
        self.w = {}
        for f in self.fs:
            self.w[f] = Walk(P, f, {})
        # what a call leaves behind on its object: call_once done, or the mutex was acquired and released inside
        for f in self.fs:
            o = []
            for l, p, m, h in self.w[f].acq:
                if p is not None and (p[0] == 'this' or (isinstance(p[0], tuple) and p[0][0] == 'g')):
                    o.append((p, 'd' if m == 'o' else 'r'))
            if o:
                once[f] = o
        self.once = once
        users = set()
        for f in self.fs:
            if any(c[1] in once for c in self.w[f].calls):
                users.add(f)
        for f in users:
            self.w[f] = Walk(P, f, once)
        self.sites = {}
        self.frefs = set()
        for f in self.fs:
            for ln, fn, base, held, n in self.w[f].calls:
                self.sites.setdefault(fn, []).append((f, ln, base, held))
            for b in [f.body] + [x[1] for x in (f.inits or [])]:
                for n in walk(b):
                    if n[0] == 'fref' and n[2] is not None:
                        self.frefs.add(n[2])
        self.entry = {}
        self._entry()

    def ctor(self, f):
        return bool(f.cls) and (f.name == f.cls.rsplit('::', 1)[-1].split('<')[0] or f.name.startswith('~') or f.name == 'operator=')

    def _entry(self):
        ent = {}
        for f in self.fs:
            ss = self.sites.get(f, [])
            if f.cls and ss and f not in self.frefs and not f.virt and not f.static:
                ent[f] = TOP
            else:
                ent[f] = frozenset()
        ch = True
        n = 0
        while ch and n < 20:
            ch = False
            n += 1
            for f in self.fs:
                if ent[f] == frozenset():
                    continue
                cur = TOP
                for g, ln, base, held in self.sites.get(f, []):
                    if self.ctor(g) and base == ('this',) and g.cls == f.cls:
                        continue
                    e = ent.get(g, frozenset())
                    if e is TOP and g is not f:
                        # caller itself unconstrained so far (or only run while its own object is built)
                        if not held and g.cls == f.cls and base == ('this',):
                            continue
                    hs = set(h for h in held if h[1] in 'xsod') | (set(e) if e else set())
                    tr = set()
                    for p, m in hs:
                        if base is not None and p is not None and p[:len(base)] == base and len(p) > len(base):
                            tr.add((('this',) + p[len(base):], m))
                        elif p is not None and isinstance(p[0], tuple) and p[0][0] == 'g':
                            tr.add((p, m))
                    cur = tr if cur is TOP else cur & tr
                if cur is TOP:
                    continue
                new = frozenset(cur)
                if ent[f] is TOP or new != ent[f]:
                    if ent[f] is TOP or new < ent[f]:
                        ent[f] = new
                        ch = True
        self.entry = ent

    def held(self, a):
        e = self.entry.get(a.f)
        return set(a.held) | (set(e) if e else set())

    def protected(self, f):
        """every access in f happens before the object is shared (constructor context only)"""
        return self.ctor(f) or self.entry.get(f, frozenset()) is TOP

    def acquires(self, f, seen=None):
        """locks a call to f may take: set of (path from f, mode)"""
        if not hasattr(self, '_acq'):
            self._acq = {}
        if f in self._acq:
            return self._acq[f]
        self._acq[f] = set()
        out = set()
        W = self.w.get(f)
        if W is not None:
            for l, p, m, h in W.acq:
                if p is not None and m in 'xs':
                    out.add((self.ident(f, p), p, m))
            for ln, fn, base, held, n in W.calls:
                for i, p, m in self.acquires(fn):
                    out.add((i, translate(p, base), m))
        self._acq[f] = out
        return out

    def ident(self, f, p):
        """class-level identity of a lock"""
        if p[-1] != 'this' and isinstance(p[-1], str):
            return p[-1]
        if isinstance(p[0], tuple) and p[0][0] == 'g':
            return p[0][1]
        if isinstance(p[0], tuple) and p[0][0] == 'v':
            return f'{f.q}::{(f.vars.get(p[0][1]) or ("?",))[0]}'
        return str(p)
