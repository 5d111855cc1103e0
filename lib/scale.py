"""Abstract interpretation of fixed-point scale and element kind in the tensor operator library.

A tensor is (kind, scale): kind 'F' fixed-point, 'I' integer, 'U' without an element type, None unknown;
scale: how many fixed-point scaling factors its ring representation carries ('L': a literal ring constant, None: unknown)."""
from program import callee, cargs, strip, walk
import re
from ai import AI
import kernels as K
from visib import is_val, plain_val

HAL = 'spu::kernel::hal::'
F1, I0 = ('v', 'F', 1), ('v', 'I', 0)
TOPV = ('v', None, None)
DT_F = ('DT_F16', 'DT_F32', 'DT_F64')
# ring primitives: how they act on the scale
SAME2 = {'_add', '_sub', '_min', '_max', '_less', '_equal', '_xor', '_or', '_and'}
PROD = {'_mul', '_mmul', '_conv2d', '_tensordot'}
KEEP1 = {'_negate', '_prefer_a', '_prefer_b', '_cast_type', '_p2s', '_s2p', '_p2v', '_v2p', '_v2s', '_s2v', '_seal', '_reveal', 'copy', 'stop_gradient'}
ZERO = {'_msb', '_popcount', '_sign', '_eqz'}


def V(kind, scale):
    return ('v', kind, scale)


class Scale(AI):
    def __init__(self, P, report):
        super().__init__(P)
        self.report = report
        self.memo, self.active, self.chain = {}, set(), []
        self.nodes = 0
        self.sites = set()
        self.mute = 0

    # ---- lattice
    def join(self, a, b):
        if a == b:
            return a
        if a is None or b is None or a[0] != b[0]:
            return None
        if a[0] == 'v':
            sa, sb = a[2], b[2]
            s = sa if sa == sb else sb if sa == 'L' and sb is not None else sa if sb == 'L' and sa is not None else None
            if 'T' in (a[1], b[1]):
                return b if a[1] == 'T' else a
            return V(a[1] if a[1] == b[1] else None, s)
        return None

    def say(self, n, kind, msg):
        if self.mute:
            return
        self.report(self, n, kind, msg)

    def listval(self, n, vs, env):
        vs = [v for v in vs]
        if not vs:
            return None
        if all(v is not None and v[0] == 'v' for v in vs):
            r = vs[0]
            for v in vs[1:]:
                r = self.join(r, v)
            return r
        if len(vs) == 1:
            return vs[0]
        return None

    def other(self, n, env):
        k = n[0]
        if k == 'enum':
            nm = n[2].rsplit('::', 1)[-1]
            if nm.startswith('DT_') and nm != 'DT_INVALID':
                return ('d', 'F' if nm in DT_F else 'I')
            return None
        if k == 'int':
            return ('n', (0, int(n[2])))
        if k == 'fref':
            return ('f', n[2])
        return NotImplemented

    def ev(self, n, env):
        if n is None:
            return None
        k = n[0]
        if k == 'bind':
            return env.get(n[2])
        if k == 'cast':
            for x in n[2:]:
                if isinstance(x, list):
                    return self.ev(x, env)
            return None
        if k in ('mem', 'idx'):
            return self.ev(n[2], env) if isinstance(n[2], list) else None
        if k == 'un':
            v = self.ev(n[3], env)
            return v if n[2] in ('*', '&') else None
        if k == 'bin':
            a, b = self.ev(n[3], env), self.ev(n[4], env)
            if a and b and a[0] == b[0] == 'n':
                (x, c), (y, d) = a[1], b[1]
                if n[2] == '+':
                    return ('n', (x + y, c + d))
                if n[2] == '-':
                    return ('n', (x - y, c - d))
                if n[2] == '*' and (x == 0 or y == 0):
                    return ('n', (x * d + y * c, c * d))
            return None
        if k == 'glob':
            return None
        if k == 'lam':
            return ('lam', id(n), n, dict(env))
        return super().ev(n, env)

    def loopvar(self, n, env):
        v = self.ev(n[3], env)
        return v if v is not None and v[0] == 'v' else None

    def binding(self, y, i, v, env):
        return v[1][i] if v is not None and v[0] == 't' and i < len(v[1]) else None

    # ---- calls
    def unify(self, n, name, vals, kind='align'):
        """common scale of operands that must agree"""
        s = 'L'
        for v in vals:
            x = v[2]
            if x is None or x == 'X':
                return x
            if x == 'L':
                continue
            if s == 'L':
                s = x
            elif s != x:
                self.say(n, kind, f'{name} combines operands that carry {s} and {x} scaling factors')
                return None
        return s

    def label(self, n, v, d):
        """v gets element kind d"""
        if d is None or d[0] != 'd' or d[1] is None:
            return V(None, v[2] if v else None)
        want = 1 if d[1] == 'F' else 0
        have = v[2] if v is not None and v[0] == 'v' else None
        self.nodes += 1
        if have == 'X':
            self.say(n, 'label', f'a tensor rescaled by a number of bits other than the fraction bits is labelled {"fixed-point" if want else "integer"}')
        elif have is not None and have != 'L' and have != want:
            self.say(n, 'label', f'a tensor that carries {have} scaling factor{"s" if have != 1 else ""} is labelled {"fixed-point" if want else "integer"}')
        return V(d[1], want)

    def call(self, n, f, obj, args, env):
        k = n[0]
        if f is None:
            # call through a variable: a function passed as argument
            t = n[3] if k == 'call' and isinstance(n[3], list) else None
            v = self.ev(t, env) if t is not None else None
            if v is not None:
                return self.apply(n, v, args, env)
            return None
        q, name = f.q, f.name
        if k == 'op' and n[2] == '()':
            v = args[0] if args else None
            if v is not None and v[0] in ('f', 'lam'):
                return self.apply(n, v, args[1:], env)
            return None
        if k == 'mcall':
            if q.startswith('spu::Value::'):
                if name == 'setDtype':
                    forced = len(n[4]) > 1
                    o = obj if obj is not None and obj[0] == 'v' else TOPV
                    r = self.label(n, o, args[0] if args else None)
                    b = strip(n[3])
                    while b is not None and b[0] == 'op' and n[2] in ('*', '->') and b[4]:
                        b = strip(b[4][0])
                    if b is not None and b[0] in ('var', 'bind'):
                        env[b[2]] = r
                    return r
                if name == 'dtype':
                    return ('d', obj[1]) if obj is not None and obj[0] == 'v' and obj[1] in ('F', 'I') else ('d', None)
                if name == 'data' or name == 'clone':
                    return obj
                return None
            if q.startswith('spu::NdArrayRef::'):
                return obj if is_nd(f.r) else None
            if name == 'getFxpBits':
                return ('n', (1, 0))
            if q.startswith('std::') or q.startswith('absl::'):
                if name in ('push_back', 'emplace_back', 'insert', 'resize', 'assign'):
                    b = strip(n[3])
                    v = next((x for x in reversed(args) if x is not None and x[0] == 'v'), None)
                    if b is not None and b[0] == 'var':
                        cur = env.get(b[2])
                        if v is None:
                            if is_container(b, self.fn):
                                env[b[2]] = TOPV
                        else:
                            env[b[2]] = v if cur is None else self.join(cur, v)
                    return None
                if name in ('value', 'front', 'back', 'at', 'begin', 'end', 'data', 'operator*', 'operator[]'):
                    return obj
                if name in ('has_value', 'size', 'empty', 'clear', 'reserve'):
                    return None
            if f.repo and f.body is not None and not f.dep and is_val(f.r):
                return self.inline(n, f, args, obj)
            return None
        if k == 'op':
            if n[2] in ('[]', '*', '->') and args:
                return args[0]
            return None
        if k == 'new':
            t = K.norm_type(n[2] or '')
            if t == 'spu::Value':
                if len(n[4]) == 2:
                    v = args[0] if args[0] is not None and args[0][0] == 'v' else TOPV
                    return self.label(n, v, args[1])
                if len(n[4]) == 1 and args[0] is not None and args[0][0] == 'v':
                    return args[0]
                if not n[4]:
                    return V('T', None)
                return TOPV
            if t in ('spu::NdArrayRef',) and args:
                return args[0] if args[0] is not None and args[0][0] == 'v' else None
            if t.startswith(('std::vector<spu::Value', 'absl::InlinedVector<spu::Value')) and not [a for a in n[4] if a is not None and a[0] != 'def']:
                return V('T', None)
            if 'spu::Value' in (n[2] or '') and args:
                vs = [v for v in args if v is not None and v[0] == 'v']
                return vs[-1] if vs else None
            if 'Sizes' in (n[2] or '') and len(args) == 1:
                return args[0]
            if not (n[2] or '').startswith(('std::', 'spu::')) and len(args) == 1:
                return args[0]
            return args[0] if len(args) == 1 else None
        if k != 'call':
            return None
        vals = [v if v is not None and v[0] == 'v' else TOPV for v, t in zip(args, f.p) if plain_val(t)]
        if q in ('std::max', 'std::min') and len(args) == 2 and all(a is not None and a[0] == 'd' for a in args):
            a, b = args[0][1], args[1][1]
            if a is None or b is None:
                return ('d', None)
            return ('d', ('F' if 'F' in (a, b) else 'I') if name == 'max' else ('I' if 'I' in (a, b) else 'F'))
        if q in ('std::max', 'std::min'):
            return None
        if q in ('std::make_pair', 'std::make_tuple'):
            return ('t', tuple(args))
        if q in ('std::get',):
            return None
        if q.startswith(HAL) and name.startswith('_') and f.repo:
            r = self.prim(n, name, vals, args, n[4], env)
            if r is not NotImplemented:
                return r
        if q.startswith('spu::mpc::') and is_val(f.r):
            vs = [v if v is not None and v[0] == 'v' else TOPV for v, t in zip(args, f.p) if is_val(t)]
            if name in STRUCT and vs:
                return V('U', self.unify(n, name, vs, 'pack'))
            if PERM.match(name) and vs:
                return V('U', vs[0][2])
            return V('U', None)
        if q == HAL + 'constant':
            d = args[2] if len(args) > 2 else None
            return {'F': F1, 'I': I0}.get(d[1] if d is not None and d[0] == 'd' else None, TOPV)
        if q in (HAL + 'zeros', HAL + 'iota', HAL + 'epsilon'):
            d = args[1] if len(args) > 1 else None
            return {'F': F1, 'I': I0}.get(d[1] if d is not None and d[0] == 'd' else None, TOPV)
        if name in ('isFixedPoint', 'isInteger') or q in ('spu::isFixedPoint', 'spu::isInteger'):
            return None
        if f.repo and f.body is not None:
            return self.inline(n, f, args, None)
        return None

    def shift(self, s, b, sign):
        if b is None or b[0] != 'n' or not isinstance(s, int):
            return None
        a, c = b[1]
        if c == 0:
            return s + sign * a
        return 'X' if a else None  # by the fraction bits and a bit more or less

    def prim(self, n, name, vals, args, nodes, env):
        self.nodes += 1
        if name in PROD:
            s = [v[2] for v in vals[:2]]
            if None in s:
                return V('U', None)
            if 'X' in s:
                return V('U', 'X')
            if 'L' in s:
                return V('U', s[0] if s[1] == 'L' else s[1])
            return V('U', s[0] + s[1])
        if name == '_square':
            s = vals[0][2]
            return V('U', s * 2 if isinstance(s, int) else s)
        if name == '_trunc':
            b = args[2] if len(args) > 2 else None
            t = strip(nodes[2]) if len(nodes) > 2 else None
            if t is None or t[0] == 'def' or b == ('n', (0, 0)):
                b = ('n', (1, 0))  # default: the configured number of fraction bits
            return V('U', self.shift(vals[0][2], b, -1))
        if name in ('_lshift', '_rshift', '_arshift'):
            return V('U', self.shift(vals[0][2], args[2] if len(args) > 2 else None, 1 if name == '_lshift' else -1))
        if name in ('_less', '_equal'):
            self.unify(n, name, vals[:2])
            return V('U', 0)
        if name in ('_and', '_or', '_xor'):
            a, b = vals[0][2], vals[1][2]
            if a == b and a is not None:
                return V('U', a)
            return V('U', None)
        if name in SAME2:
            return V('U', self.unify(n, name, vals[:2]))
        if name == '_not':
            return V('U', vals[0][2])
        if name == '_mux':
            if vals[0][2] not in (None, 'L', 0):
                self.say(n, 'select', f'the selector of _mux carries {vals[0][2]} scaling factors')
            return V('U', self.unify(n, name, vals[1:3]))
        if name == '_clamp':
            return V('U', self.unify(n, name, vals[:3]))
        if name in KEEP1:
            return V(vals[0][1] if name in ('_prefer_a', '_prefer_b') else 'U', vals[0][2])
        if name in ZERO:
            return V('U', 0)
        if name == '_constant':
            x = strip(nodes[1])
            while x is not None and x[0] in ('cast', 'copy', 'new') and any(isinstance(y, list) for y in x[2:]):
                y = [y for y in x[2:] if isinstance(y, list) and y and isinstance(y[0], str)] or ([x[4][0]] if x[0] == 'new' and x[4] else [])
                if not y:
                    break
                x = strip(y[0])
            return V('U', 'L' if x is not None and x[0] == 'int' else None)
        if name[1:] in STRUCT or PERM.match(name[1:]):
            return NotImplemented
        f = callee(n)
        if is_val(f.r):
            return V('U', None)
        return NotImplemented

    # ---- interprocedural
    def freeze(self, v):
        if v is None:
            return None
        if v[0] == 'lam':
            return ('lam', v[1])
        if v[0] == 't':
            return ('t', tuple(self.freeze(x) for x in v[1]))
        return v

    def inline(self, n, f, args, obj):
        if f.dep and f.body is None:
            return None
        key = (f, tuple(self.freeze(a) for a in args))
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.chain) > 24:
            return None
        self.active.add(key)
        self.chain.append(f)
        env = {}
        for p, a in zip(f.params, args):
            if a is not None:
                env[p] = a
        sv = self.fn
        rets, end = self.run(f, env)
        self.fn = sv
        r = 'none'
        for _, v, _ in rets:
            r = v if r == 'none' else self.join(r, v) if r is not None and v is not None else None
        if r == 'none':
            r = None if end is not None else 'bot'
        self.chain.pop()
        self.active.discard(key)
        self.memo[key] = r
        return r

    def apply(self, n, v, args, env):
        if v[0] == 'f':
            f = v[1]
            if f is None:
                return None
            if f.q.startswith(HAL) and f.name.startswith('_'):
                vals = [a if a is not None and a[0] == 'v' else TOPV for a, t in zip(args, f.p) if plain_val(t)]
                r = self.prim(n, f.name, vals, args, n[4], env)
                if r is not NotImplemented:
                    return r
            return self.inline(n, f, args, None) if f.body is not None else None
        if v[0] == 'lam':
            lam, cenv = v[2], v[3]
            if len(self.chain) > 24:
                return None
            e = dict(cenv)
            for p, a in zip(lam[2], args):
                e.pop(p, None)
                if a is not None and isinstance(p, int):
                    e[p] = a
            sv = (self.rets, self.brk)
            self.rets, self.brk = [], []
            self.chain.append(self.fn)
            self.ex(lam[4], e)
            self.chain.pop()
            r = 'none'
            for _, x, _ in self.rets:
                r = x if r == 'none' else self.join(r, x) if r is not None and x is not None else None
            self.rets, self.brk = sv
            return None if r == 'none' else r
        return None

    # ---- conditions
    def refine(self, n, env, want):
        f = callee(n)
        if f is not None and n[0] == 'mcall' and f.q in ('spu::Value::isFxp', 'spu::Value::isInt', 'spu::Value::isComplex'):
            v = self.ev(n[3], env)
            if f.name == 'isComplex':
                return None if want else env
            k = 'F' if (f.name == 'isFxp') == want else 'I'
            if v is not None and v[0] == 'v' and v[1] in ('F', 'I') and v[1] != k:
                return None
            b = strip(n[3])
            if b is not None and b[0] in ('var', 'bind') and (v is None or v[1] not in ('F', 'I')) and (want or v is not None):
                env[b[2]] = F1 if k == 'F' else I0
            return env
        if f is not None and f.name in ('isFixedPoint', 'isInteger') and n[4]:
            d = self.ev(n[4][0], env)
            k = 'F' if (f.name == 'isFixedPoint') == want else 'I'
            if d is not None and d[0] == 'd' and d[1] is not None and d[1] != k:
                return None
            b = strip(n[4][0])
            if b is not None and b[0] == 'var':
                env[b[2]] = ('d', k)
            return env
        if n[0] == 'call' and f is not None and f.repo and (f.r or '') == 'bool' and f.body is not None and len(self.chain) < 24:
            # inline a one-line predicate
            rs = [x[2] for x in walk(f.body) if x[0] == 'ret']
            if len(rs) == 1 and not [x for x in walk(f.body) if x[0] in ('if', 'for', 'while')]:
                sub = {p: v for p, v in zip(f.params, [self.ev(a, env) for a in n[4]]) if v is not None}
                self.chain.append(f)
                a, b = self.split(rs[0], sub)
                self.chain.pop()
                r = a if want else b
                if r is None:
                    return None
                for p, arg in zip(f.params, n[4]):
                    t = strip(arg)
                    if t is not None and t[0] in ('var', 'bind') and r.get(p) is not None:
                        env[t[2]] = r[p]
                return env
        if n[0] in ('bin', 'op') and n[2] in ('==', '!='):
            a, b = (n[3], n[4]) if n[0] == 'bin' else (n[4][0], n[4][1])
            x, y = self.ev(a, env), self.ev(b, env)
            if x is not None and y is not None and x[0] == y[0] == 'd' and x[1] and y[1] and x[1] != y[1]:
                if (n[2] == '==') == want:
                    return None
            if ((x is not None and x[0] == 'd') or (y is not None and y[0] == 'd')) and (n[2] == '==') == want:
                for p, r in ((a, y), (b, x)):
                    if r is None or r[0] != 'd':
                        continue
                    t = strip(p)
                    if t is not None and t[0] == 'var' and r[1]:
                        env[t[2]] = r
                    elif t is not None and t[0] == 'mcall' and callee(t) is not None and callee(t).q == 'spu::Value::dtype' and r[1]:
                        o = strip(t[3])
                        if o is not None and o[0] in ('var', 'bind'):
                            v = env.get(o[2])
                            if v is None or v[1] not in ('F', 'I'):
                                env[o[2]] = F1 if r[1] == 'F' else I0
        return env


STRUCT = {'broadcast', 'reshape', 'extract_slice', 'update_slice', 'transpose', 'reverse', 'fill', 'pad', 'concatenate', 'slice', 'permute'}
PERM = re.compile(r'^(inv_)?perm_[a-z]+$|^perm$')


def is_nd(t):
    return t is not None and 'spu::NdArrayRef' in t


def is_container(b, fn):
    return True
