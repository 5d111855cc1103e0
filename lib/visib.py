"""Visibility domain: which storage kinds (Public, priVate, A/B/O/OP/M shares) a value may have."""
import itertools, re
from ai import AI
from program import callee, cargs, strip, walk, kids
import kernels as K

Pk, V, A, B, O, OP, M = 'P', 'V', 'A', 'B', 'O', 'OP', 'M'
S = frozenset({A, B})
ALLS = frozenset({A, B, O, OP, M})
ANY4 = frozenset({Pk, V, A, B})
TYPES = {'spu::Public': {Pk}, 'spu::Private': {V}, 'spu::Secret': ALLS, 'spu::AShare': {A}, 'spu::BShare': {B}, 'spu::OShare': {O}, 'spu::OPShare': {OP}, 'spu::PShare': {M}}
LET = {'p': frozenset({Pk}), 'v': frozenset({V}), 's': S, 'a': frozenset({A}), 'b': frozenset({B}), 'm': frozenset({M}), 'o': frozenset({O})}
# operations whose suffix does not follow the letter-per-operand rule
SPECIAL = {
    'oram_read_ss': ([{O}, {A}], S), 'oram_read_sp': ([{OP}, {Pk}], S), 'oram_read_aa': ([{O}, {A}], S), 'oram_read_ap': ([{OP}, {Pk}], S),
    'oramread_ss': ([{O}, {A}], S), 'oramread_sp': ([{OP}, {Pk}], S),
    'oram_onehot_ss': ([{A}], {O}), 'oram_onehot_sp': ([{A}], {OP}), 'oram_onehot_aa': ([{A}], {O}), 'oram_onehot_ap': ([{A}], {OP}),
    'oramonehot_ss': ([{A}], {O}), 'oramonehot_sp': ([{A}], {OP}),
    'perm_ss': ([S, {M}], S), 'perm_am': ([{A}, {M}], {A}), 'inv_perm_ss': ([S, {M}], S), 'inv_perm_am': ([{A}, {M}], {A}),
    'rand_perm_s': ([], {M}), 'rand_perm_m': ([], {M}), 'conv2d_ss': ([S, S], S), 'mul_a1b': ([{A}, {B}], {A}), 'mul_a1bv': ([{A}, {V}], {A}),
    'msb_a2b': ([{A}], {B}), 'make_p': ([], {Pk}), 'cast_type_s': ([S], S), 'cast_type_b': ([{B}], {B}), 'b2a_disassemble': ([{B}], {A}),
    'add_vvs': ([{V}, {V}], S), 'mul_vvs': ([{V}, {V}], S), 'and_vvs': ([{V}, {V}], S), 'xor_vvs': ([{V}, {V}], S), 'mmul_vvs': ([{V}, {V}], S),
    'equal_aa': ([{A}, {A}], S), 'equal_bb': ([{B}, {B}], S), 'equal_ap': ([{A}, {Pk}], S), 'equal_bp': ([{B}, {Pk}], S),
    'v2s': ([{V}], {A}), 'p2s': ([{Pk}], {A}), 'exp_a': ([{A}], {A}), 'lowmc_b': ([{B}], {B}), 'multi_key_lowmc_b': ([{B}], {B}),
    'merge_keys_p': ([{Pk}], {Pk}), 'merge_keys_v': ([{V}], {V}), 'group_mark_p': ([{Pk}], {Pk}), 'group_mark_v': ([{V}], {V}),
}
SAMEOWNER = {'add_vvv', 'mul_vvv', 'and_vvv', 'xor_vvv', 'mmul_vvv', 'equal_vvv'}
STRUCT = {'broadcast', 'reshape', 'extract_slice', 'transpose', 'reverse', 'fill'}
_BASE = re.compile(r'^_?((?:[a-z0-9]+_)+)([spvabm]{1,3})$')
_CONV = re.compile(r'^_?([spvabm])2([spvabm])$')
OPS = {'add', 'mul', 'and', 'xor', 'mmul', 'square', 'not', 'negate', 'msb', 'lshift', 'rshift', 'arshift', 'trunc', 'bitrev', 'equal', 'rand', 'perm', 'inv_perm',
       'bitintl', 'bitdeintl', 'bitle', 'gen_inv_perm', 'or', 'carry', 'mmul_aa_simple'}


def sig(name):
    """([set per value operand], result set) of a variant-named operation, or None"""
    n = name[1:] if name.startswith('_') else name
    if n in SPECIAL:
        a, r = SPECIAL[n]
        return [frozenset(x) for x in a], frozenset(r)
    m = _CONV.match(n)
    if m:
        return [LET[m.group(1)]], LET[m.group(2)]
    m = _BASE.match(n)
    if not m or m.group(1)[:-1] not in OPS:
        return None
    op, suf = m.group(1)[:-1], m.group(2)
    ins = [LET[c] for c in suf]
    if op == 'rand':
        return [], ins[0]
    if set(suf) == {'p'}:
        r = LET['p']
    elif set(suf) == {'v', 'p'} or suf == 'v':
        r = LET['v']
    elif suf == 'vvv':
        return ins[:2], LET['v']
    elif suf == 'vv':
        r = LET['v'] if 'perm' in op else frozenset({V, A, B})
    elif set(suf) & {'s'}:
        r = S
    elif set(suf) & {'b'}:
        r = LET['b']
    else:
        r = LET['a'] if op in ('add', 'mul', 'mmul', 'square', 'negate', 'lshift', 'trunc', 'perm', 'inv_perm') else S
    return ins, r


def is_val(t):
    return t is not None and re.search(r'\bspu::Value\b', t) is not None


def plain_val(t):
    return t is not None and K.norm_type(t) in ('spu::Value',)


class Vis(AI):
    def __init__(self, P, on_call, on_throw=None, inline=True):
        super().__init__(P)
        self.on_call, self.on_throw = on_call, on_throw
        self.memo, self.active, self.depth = {}, {}, 0
        self.chain = []
        self.inline = inline
        self.quiet = 0

    def join(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a if a is b else None
        return a | b if a is not None and b is not None else None

    def other(self, n, env):
        if n[0] == "glob" and n[2] in ('std::nullopt', 'spu::mpc::NotAvailable'):
            return frozenset()
        if n[0] == 'glob':
            return None
        if n[0] in ('bind', 'mem', 'idx', 'un', 'cast'):
            if n[0] == 'bind':
                return env.get(n[2])
            for x in kids(n):
                r = self.ev(x, env)
                if n[0] in ('mem', 'idx', 'un'):
                    return r if r is not None else None
                return r
            return None
        return NotImplemented

    def ev(self, n, env):
        if n is not None and n[0] in ('bind', 'mem', 'idx', 'un', 'cast', 'glob'):
            return self.other(n, env)
        return super().ev(n, env)

    def listval(self, n, vs, env):
        vs = [v for v in vs]
        if vs and all(v is not None for v in vs):
            out = frozenset()
            for v in vs:
                out |= v
            return out
        return None

    def lam(self, n, env):
        # body of a lambda that runs here: parameters unknown, captured values as now
        e = dict(env)
        for p in n[2]:
            e.pop(p if isinstance(p, int) else None, None)
        sv = (self.rets, self.brk)
        self.rets, self.brk = [], []
        self.ex(n[4], e)
        self.rets, self.brk = sv
        return None

    def loopvar(self, n, env):
        return self.ev(n[3], env)

    def call(self, n, f, obj, args, env):
        k = n[0]
        if f is None:
            return None
        q, name = f.q, f.name
        if k == 'mcall':
            if q.startswith('spu::Value::'):
                if name in ('storage_type', 'setDtype', 'clone', 'data', 'storage_type'):
                    return obj
                return None
            if q.startswith('spu::NdArrayRef::'):
                return obj if name in ('reshape', 'eltype', 'slice', 'broadcast_to', 'transpose', 'as', 'clone', 'reverse', 'expand') and name != 'as' else None
            if q.startswith('std::') and name in ('value', 'front', 'back', 'at', 'begin', 'end', 'operator[]', 'data', 'operator*'):
                return obj
            if name in ('push_back', 'emplace_back') and q.startswith(('std::', 'absl::')):
                o = strip(n[3])
                if o is not None and o[0] == 'var':
                    v = args[0] if args else None
                    cur = env.get(o[2])
                    if v is None:
                        env[o[2]] = None
                        env.pop(o[2])
                        env[('top', o[2])] = True
                    elif not env.get(('top', o[2])):
                        env[o[2]] = (cur or frozenset()) | v
                return None
        if k == 'op':
            if n[2] in ('[]', '*', '->') and args:
                return args[0]
            return None
        if k == 'new':
            t = n[2] or ''
            if (t.startswith(('spu::Value', 'const spu::Value', 'std::optional<spu::Value', 'absl::InlinedVector<spu::Value')) or 'std::vector<spu::Value' in t or 'Span<' in t) and args:
                vs = [v for v, a in zip(args, n[4]) if v is not None]
                return vs[0] if vs else None
            return None
        if k != 'call':
            return None
        if q == 'spu::dynDispatch':
            s = K.str_of(self.P, n[4][1], self.fn)
            out = frozenset()
            for x in sorted(s or ()):
                r = self.variant(n, x, n[4][2:], args[2:], env, q)
                if r is None:
                    g = [v for v in args[2:] if v is not None]
                    r = g[0] if x in STRUCT and g else None
                if r is None:
                    return None
                out |= r
            return out or None
        if q == 'spu::kernel::hal::_constant' or q == 'spu::kernel::hal::_make_p':
            return LET['p']
        vals = [(a, v) for a, v, t in zip(n[4], args, f.p) if is_val(t)]
        if sig(name) is not None and f.repo and (vals or name.strip('_') in ('make_p', 'rand_p', 'rand_a', 'rand_b', 'rand_s', 'rand_perm_s')):
            return self.variant(n, name, [a for a, _ in vals], [v for _, v in vals], env, q)
        if q in ('std::get', 'std::make_pair', 'std::tie', 'std::make_tuple') and args:
            vs = [v for v in args if v is not None]
            return self.listval(None, args, env) if len(vs) == len(args) else None
        if f.repo and f.body is not None and self.inline and not f.dep and (is_val(f.r) or (f.r or '') == 'bool' or (f.r or '').startswith('spu::Type')):
            return self.summary(f, args)
        return None

    def variant(self, n, name, nodes, vals, env, q):
        ins, out = sig(name) or (None, None)
        if ins is None:
            return None
        if not self.quiet:
            for i, want in enumerate(ins):
                if i < len(vals):
                    self.on_call(self, n, name, i, want, vals[i], env)
            if name in SAMEOWNER:
                self.on_call(self, n, name, 'owner', True, env.get('same'), env)
        return out

    def summary(self, f, args):
        key = (f, tuple(args[i] if i < len(args) else None for i in range(len(f.params))))
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return self.active[key]
        if self.depth > 14:
            return None
        self.depth += 1
        self.chain.append(f)
        res = frozenset()
        for it in range(4):
            self.active[key] = res
            env = {p: a for p, a in zip(f.params, args) if a is not None}
            sv = self.fn
            rets, end = self.run(f, env)
            self.fn = sv
            r = frozenset()
            for _, v, _ in rets:
                if v is None:
                    r = None
                    break
                r = r | v
            if r == res:
                break
            res = r
            if res is None:
                break
        self.active.pop(key, None)
        self.depth -= 1
        self.chain.pop()
        self.memo[key] = res
        return res

    # ---- conditions
    def kinds_test(self, n):
        """(expression tested, kinds for which it is true) for a visibility test"""
        f = callee(n)
        if n[0] == 'mcall' and f is not None:
            if f.q == 'spu::Value::isPublic':
                return n[3], frozenset({Pk})
            if f.q == 'spu::Value::isPrivate':
                return n[3], frozenset({V})
            if f.q == 'spu::Value::isSecret':
                return n[3], ALLS
            if f.name == 'isa' and f.t and f.t[0] in TYPES:
                return n[3], frozenset(TYPES[f.t[0]])
        if n[0] in ('bin', 'op') and n[2] in ('==', '!='):
            a, b = (n[3], n[4]) if n[0] == 'bin' else (n[4][0], n[4][1])
            for x, y in ((a, b), (b, a)):
                y = strip(y)
                if y is not None and y[0] == 'enum' and y[2].endswith(('VIS_PUBLIC', 'VIS_SECRET', 'VIS_PRIVATE')):
                    x = strip(x)
                    if x is not None and x[0] == 'mcall' and callee(x) is not None and callee(x).name == 'vtype':
                        ks = {'P': frozenset({Pk}), 'S': ALLS, 'V': frozenset({V})}['P' if y[2].endswith('PUBLIC') else 'S' if y[2].endswith('SECRET') else 'V']
                        return x[3], (ks if n[2] == '==' else (ANY4 | ALLS) - ks)
        return None

    def base(self, n):
        """variable an expression's visibility is that of"""
        n = strip(n)
        while n is not None:
            if n[0] in ('var', 'bind'):
                return n
            if n[0] == 'mcall' and callee(n) is not None and callee(n).name in ('storage_type', 'eltype', 'data', 'vtype', 'value', 'front'):
                n = strip(n[3])
            elif n[0] == 'op' and n[2] in ('[]', '*') and n[4]:
                n = strip(n[4][0])
                return None  # one element: do not refine the whole container
            else:
                return None
        return None

    def refine(self, n, env, want):
        t = self.kinds_test(n)
        if t is not None:
            ks = t[1] if want else (ANY4 | ALLS) - t[1]
            self.quiet += 1
            v = self.ev(t[0], env)
            self.quiet -= 1
            if v is not None and not (v & ks):
                return None
            b = self.base(t[0])
            if b is not None and v is not None:
                env[b[2]] = v & ks
            elif b is not None and v is None and want:
                env[b[2]] = S if ks == ALLS else ks  # an unknown secret tensor is an ordinary share
            return env
        f = callee(n)
        if n[0] == 'call' and f is not None and f.repo and (f.r or '') == 'bool' and f.body is not None:
            rs = [x[2] for x in walk(f.body) if x[0] == 'ret']
            if len(rs) == 1 and len([x for x in walk(f.body) if x[0] in ('if', 'for', 'while')]) == 0 and self.depth < 6:
                # inline a one-line predicate
                sub = {}
                for p, a in zip(f.params, n[4]):
                    v = self.ev(a, env)
                    if v is not None:
                        sub[p] = v
                self.depth += 1
                a, b = self.split(rs[0], dict(sub))
                self.depth -= 1
                r = a if want else b
                if r is None:
                    return None
                if r.get('same') is not None:
                    env['same'] = r['same']
                for p, arg in zip(f.params, n[4]):
                    v = self.base(arg)
                    if v is not None and r.get(p) is not None and (strip(arg)[0] in ('var', 'bind')):
                        env[v[2]] = r[p]
                return env
        if n[0] == 'bin' and n[2] in ('==', '!='):
            # equality of the owners of two different operands
            o = [self.ownerof(x) for x in (n[3], n[4])]
            if o[0] is not None and o[1] is not None and o[0] != o[1]:
                env['same'] = (n[2] == '==') == want
                return env
        if n[0] in ('op', 'bin') and n[2] in ('==', '!='):
            a, b = (n[3], n[4]) if n[0] == 'bin' else (n[4][0], n[4][1]) if len(n[4]) == 2 else (None, None)
            f0 = callee(n)
            if a is not None and (f0 is None or 'Type' in ' '.join(f0.p) or 'Type' in f0.q):
                self.quiet += 1
                va, vb = self.ev(a, env), self.ev(b, env)
                self.quiet -= 1
                if va is not None and vb is not None and ((n[2] == '==') == want):
                    if not (va & vb):
                        return None
        return env

    def ownerof(self, n, d=0):
        n = strip(n)
        if n is None or d > 4:
            return None
        f = callee(n)
        if f is None or f.name in ('index', 'numel'):
            return None
        if f.name == 'owner' and not f.params:
            vs = [x[2] for x in walk(n) if x[0] == 'var']
            return vs[0] if len(vs) == 1 else None
        if f.repo and f.body is not None:
            rs = [x[2] for x in walk(f.body) if x[0] == 'ret']
            if len(rs) == 1:
                p = self.ownerof(rs[0], d + 1)
                if p in f.params:
                    vs = [x[2] for x in walk(cargs(n)[f.params.index(p)]) if x[0] == 'var']
                    return vs[0] if len(vs) == 1 else None
        return None

    def ownpred(self, env):
        return env.get('same')
