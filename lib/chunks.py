"""A value cut into chunks and joined again: sizes and offsets as polynomials over the size S of the tensor, the chunk limit M and the iteration i."""
from decide import NO, Undecided, Throw
from wire import Obj, OEv, short, only_throws
from program import walk, callee, strip, show

ELEM, NUM = ('elsize',), ('numel',)


def poly(t):
    """term -> {sorted tuple of atoms: coefficient}; divisions and minima are atoms"""
    if isinstance(t, bool):
        t = int(t)
    if isinstance(t, int):
        return {(): t} if t else {}
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ('+', '-'):
        a, b = dict(poly(t[1])), poly(t[2])
        for k, v in b.items():
            a[k] = a.get(k, 0) + (v if t[0] == '+' else -v)
        return {k: v for k, v in a.items() if v}
    if isinstance(t, tuple) and len(t) == 3 and t[0] == '*':
        out = {}
        for k, v in poly(t[1]).items():
            for l, w in poly(t[2]).items():
                m = tuple(sorted(k + l, key=str))
                out[m] = out.get(m, 0) + v * w
        return {k: v for k, v in out.items() if v}
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ('/', 'min'):
        a, b = [tuple(sorted(poly(x).items(), key=str)) for x in t[1:]]
        return {((t[0],) + (tuple(sorted((a, b), key=str)) if t[0] == 'min' else (a, b)),): 1}
    return {(t,): 1}


def same(a, b):
    return poly(a) == poly(b)


S = ('*', NUM, ELEM)
M, I = ('M',), ('i',)
COUNTS = [('/', ('-', ('+', S, M), 1), M), ('+', ('/', ('-', S, 1), M), 1)]


def neg(p):
    return {k: -v for k, v in p.items()}


def sub(a, b):
    return ('-', a, b)


# iteration i is followed by another, is the last and shorter than M, or the last and full
MODES = ('inner', 'short', 'full')


def sign(t, mode):
    """sign of a term in iteration i, None when not known"""
    p = poly(t)
    if not p:
        return 0
    if set(p) == {()}:
        return 1 if p[()] > 0 else -1
    facts = [(('-', ('+', I, 1), c), {'inner': -1, 'short': 0, 'full': 0}[mode]) for c in COUNTS]
    facts += [(('-', ('+', ('*', I, M), M), S), {'inner': -1, 'short': 1, 'full': 0}[mode]), (('-', ('*', I, M), S), -1), (M, 1), (S, 1), (sub(I, COUNTS[0]), -1), (sub(I, COUNTS[1]), -1)]
    for f, v in facts:
        if p == poly(f):
            return v
        if p == neg(poly(f)):
            return -v
    return None


class CEv(OEv):
    """one generic iteration of each counting loop"""
    mode = 'inner'

    def __init__(self, W, P, compact):
        self.W = W
        self.base = W.prim()
        super().__init__(P, self.model)
        self.compact, self.loops = compact, []

    def array(self, tag):
        return Obj('array', {'tag': tag})

    def model(self, ev, name, g, obj, args):
        if name == 'new':
            ty = str(g[2])
            if ty == 'spu::ValueProto':
                a = [ev.ex(x) for x in args]
                return a[0].copy() if a and isinstance(a[0], Obj) else Obj('spu::ValueProto', {'meta': self.W.message('ValueMetaProto'), 'chunks': []})
            if 'NdArrayRef' in ty:
                return NO
            return self.base(ev, name, g, obj, args)
        if name == 'min' and len(args) == 2:
            a, b = ev.ex(args[0]), ev.ex(args[1])
            d = sign(sub(a, b), self.mode)
            return ('min', a, b) if d is None else a if d <= 0 else b
        if name == 'max' and len(args) == 2:
            a, b = ev.ex(args[0]), ev.ex(args[1])
            d = sign(sub(a, b), self.mode)
            return ('max', a, b) if d is None else a if d >= 0 else b
        if name in ('size',) and isinstance(obj, list):
            try:
                o = ev.ex(obj)
            except Undecided:
                return NO
            if isinstance(o, tuple) and o[:1] == ('buf',):
                return S
        if isinstance(obj, list):
            try:
                o = ev.ex(obj)
            except Undecided:
                return NO
            if isinstance(o, Obj) and o.cls == 'array':
                if name == 'isCompact':
                    return True if o.f['tag'].endswith("'") else self.compact
                if name == 'data':
                    return ('data', o.f['tag'] if self.compact or o.f['tag'].endswith("'") else o.f['tag'] + ' although it is not compact')
                if name == 'clone':
                    return self.array(o.f['tag'] + "'")
                if name in ('numel', 'elsize'):
                    return (name,)
                if name == 'buf':
                    return ('buf', o.f['tag'])
                if name == 'eltype':
                    return ('eltype', o.f['tag'])
                if name in ('has_value', 'operator bool'):
                    return True
            if isinstance(o, tuple) and o[:1] == ('eltype',) and name == 'toString':
                return ('text of', o)
            if isinstance(o, Obj) and o.cls == 'spu::Value' and name in ('numel', 'elsize', 'vtype', 'isComplex', 'shape', 'dtype', 'storage_type'):
                if name == 'shape':
                    return ['d0', 'd1', 'd2']
                if name == 'storage_type':
                    return ('eltype', 'data')
                return ('dtype',) if name == 'dtype' else (name,)
            if isinstance(o, Obj) and o.cls.startswith('pb::') and name == 'set_content' and len(args) == 2:
                o.f['content'] = (ev.ex(args[0]), ev.ex(args[1]))
                return None
            if isinstance(o, list) and name == 'insert' and len(args) == 3:
                a = [ev.ex(x) for x in args]
                if a[0] == ('it', o, 1) and isinstance(a[1], tuple) and a[1][0] == 'it':
                    o += a[1][1]
                    return None
        if name in ('isCompact', 'data', 'clone') and isinstance(obj, list):
            return NO
        return self.base(ev, name, g, obj, args)

    def bin(self, o, a, b):
        if o in ('==', '!=', '<', '<=', '>', '>=') and all(isinstance(x, (int, tuple)) for x in (a, b)) and any(isinstance(x, tuple) for x in (a, b)):
            if all(numeric(x) for x in (a, b)):
                d = sign(sub(a, b), self.mode)
                if d is not None:
                    return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[o]
                raise Undecided('comparison ' + term(a) + o + term(b))
        if o == '%' and same(a, S) and same(b, M):
            # the last iteration leaves S - iM when it is short
            r = {'short': sub(S, ('*', I, M)), 'full': 0}.get(self.mode)
            if r is not None:
                return r
        return super().bin(o, a, b)

    def st(self, n):
        if isinstance(n, list) and n and n[0] in ('for', 'while'):
            self.loop(n)
            return
        super().st(n)

    def loop(self, n):
        if n[0] != 'for' or not isinstance(n[2], list) or n[2][0] != 'decl' or len(n[2][2]) != 1:
            raise Undecided('loop')
        (v, init, *_), = n[2][2]
        c0 = self.ex(init)
        cond, inc = strip(n[3]), strip(n[4])
        if cond[0] != 'bin' or cond[2] not in ('<', '!=') or strip(cond[3])[:1] != ['var'] or strip(cond[3])[2] != v:
            raise Undecided('loop condition')
        bound = self.ex(cond[4])
        if inc[0] == 'un' and inc[2] in ('++', 'p++') and strip(inc[3])[2] == v:
            step = 1
        elif inc[0] == 'asg' and inc[2] == '+=' and strip(inc[3])[2] == v:
            step = self.ex(inc[4])
        else:
            raise Undecided('loop step')
        self.loops.append((c0, bound, step))
        self.env[v] = ('+', c0, ('*', I, step))
        self.st(n[5])
        self.env[v] = bound


def numeric(t):
    return isinstance(t, int) or t in (S, M, I, ELEM, NUM) or isinstance(t, tuple) and len(t) == 3 and t[0] in ('+', '-', '*', '/', '%', 'min', 'max') and all(numeric(x) for x in t[1:])


def term(t):
    if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], str) and t[0] in ('+', '-', '*', '/'):
        return '(%s %s %s)' % (term(t[1]), t[0], term(t[2]))
    if isinstance(t, tuple) and t:
        return '%s(%s)' % (t[0], ', '.join(term(x) for x in t[1:])) if len(t) > 1 else str(t[0])
    return str(t)


def cut(w):
    P, rep = w.P, w.rep
    f = next((g for g in P.by_cls.get('spu::Value', []) if g.name == 'toProto' and g.body), None)
    if f is None:
        rep.count('chunk code not found')
        return
    rep.fn(f)
    where = '%s:%d' % (f.f, f.l)
    for imag in (False, True):
        for compact, mode in [(c, m) for c in (True, False) for m in MODES]:
            e = CEv(w, P, compact)
            e.mode = mode
            v = Obj('spu::Value', {'data_': e.array('data'), 'imag_': e.array('imag') if imag else None, 'dtype_': ('dtype',)})
            try:
                r = e.call(f, v, [M])
                if not isinstance(r, Obj) or not isinstance(r.f.get('chunks'), list):
                    raise Undecided('result')
            except (Undecided, Throw, KeyError, TypeError) as x:
                rep.count('chunk loops not decided')
                rep.sample('undecided', 'toProto: %s' % x)
                continue
            rep.count('chunk loops followed', len(e.loops))

            def bad(key, msg):
                rep.finding('chunk:' + key, where, 'Value::toProto: ' + msg)
            want = ['data', 'imag'] if imag else ['data']
            if not compact:
                want = [x + "'" for x in want]
            if len(r.f['chunks']) != len(want) or len(e.loops) != len(want):
                bad('parts', '%d of %d parts of a%s value are written' % (len(r.f['chunks']), len(want), ' complex' if imag else ''))
                continue
            for tag, c, (c0, bound, step) in zip(want, r.f['chunks'], e.loops):
                off = ('*', I, M)
                if same(step, M) and same(c0, 0):
                    good = same(bound, S)
                else:
                    good = same(c0, 0) and same(step, 1) and any(same(bound, x) for x in COUNTS)
                if not good:
                    bad('count', 'the chunks counted from %s below %s by %s do not cover the %s bytes' % (term(c0), term(bound), term(step), term(S)))
                else:
                    rep.good()
                for n, exp in (('total_bytes', S), ('chunk_offset', off)):
                    if same(c.f.get(n), exp):
                        rep.good()
                    else:
                        bad(n, 'chunk i has %s = %s, not %s' % (n, term(c.f.get(n)), term(exp)))
                ct = c.f.get('content')
                if not isinstance(ct, tuple) or len(ct) != 2:
                    bad('content', 'chunk i has no content')
                elif not same(ct[0], ('+', ('data', tag), off)):
                    bad('content', 'chunk i starts at %s, not at %s + %s' % (term(ct[0]), tag, term(off)))
                elif not (mode != 'short' and same(ct[1], M) or mode != 'inner' and same(ct[1], ('-', S, off))):
                    bad('length', 'chunk i holds %s bytes when it is %s, not %s' % (term(ct[1]), {'inner': 'not the last', 'short': 'the last and not full', 'full': 'the last and full'}[mode],
                                                                                     term(M if mode != 'short' else ('-', S, off))))
                else:
                    rep.good()


def meta(w):
    P, rep = w.P, w.rep
    f = next((g for g in P.by_cls.get('spu::Value', []) if g.name == 'toMetaProto' and g.body), None)
    if f is None:
        return
    rep.fn(f)
    where = '%s:%d' % (f.f, f.l)
    e = CEv(w, P, True)
    old = e.hook
    wev = w.ev()

    def hook(ev, n):
        if n[0] == 'x' and len(n) > 3 and isinstance(n[3], list) and n[3] and isinstance(n[3][0], list) and n[3][0] and n[3][0][0] == 'fref':
            fr = n[3][0]
            if len(fr) > 3 and hasattr(fr[2], 'name'):
                r = ev.model(ev, fr[2].name, fr[2], fr[3], n[3][1:])
                if r is not NO:
                    return r
        return old(ev, n)
    e.hook = hook
    v = Obj('spu::Value', {'data_': e.array('data'), 'imag_': None, 'dtype_': ('dtype',)})
    try:
        r = e.call(f, v, [])
        got = {k: r.f[k] for k in ('data_type', 'is_complex', 'visibility', 'storage_type')}
        got['shape'] = r.f['shape'].f['dims']
    except (Undecided, Throw, KeyError, AttributeError, TypeError) as x:
        rep.count('chunk loops not decided')
        rep.sample('undecided', 'toMetaProto: %s' % x)
        return
    rep.count('metadata fields', len(got))
    for k, exp in (('data_type', ('dtype',)), ('is_complex', ('isComplex',)), ('visibility', ('vtype',)), ('storage_type', ('text of', ('eltype', 'data'))), ('shape', ['d0', 'd1', 'd2'])):
        if got[k] == exp:
            rep.good()
        else:
            rep.finding('meta:' + k, where, 'Value::toMetaProto writes %s from %s' % (k, term(got[k])))


class REv(CEv):
    """reading: chunk lists are concrete sequences of opaque chunks"""

    def model(self, ev, name, g, obj, args):
        if name == 'new':
            ty = str(g[2])
            a = [x for x in args if not (isinstance(x, list) and x and x[0] == 'new' and 'allocator' in str(x[2]))]
            if ty == 'spu::Value':
                a = [ev.ex(x) for x in a]
                return a[0] if len(a) == 1 else ('Value',) + tuple(a)
            if 'NdArrayRef' in ty:
                a = [ev.ex(x) for x in a]
                return a[0] if len(a) == 1 else ('array',) + tuple(tuple(x) if isinstance(x, list) else x for x in a)
            if 'Shape' in ty:
                a = [ev.ex(x) for x in a]
                if len(a) == 2 and isinstance(a[0], tuple) and a[0][0] == 'it':
                    return list(a[0][1])
                return a[0] if len(a) == 1 else NO
            if 'map<' in ty:
                return []
        if name == 'fromString':
            return ('parsed', ev.ex(args[0]))
        if name == 'getVisibilityFromType':
            return 'msg.visibility'
        if name == 'fromProto' and args:
            v = ev.ex(args[0])
            return Obj('part', {'chunks': tuple(v.f['chunks']), 'complex': v.f['meta'].f['is_complex'], 'meta': v.f['meta'].f['storage_type']})
        if name == 'copy_n' and len(args) == 3:
            it, n, dst = [ev.ex(x) for x in args]
            dst += self.items(it, n)
            return None
        if name in ('copy', ) and len(args) == 3:
            a, b, dst = [ev.ex(x) for x in args]
            dst += self.items(a, None)[:len(self.items(a, None)) - len(self.items(b, None))]
            return None
        if name in ('back_inserter',):
            return ev.ex(args[0])
        if name in ('operator+', 'operator-', 'next', 'prev') and len(args) == 2:
            a, b = [ev.ex(x) for x in args]
            if isinstance(a, tuple) and a[:1] == ('it',) and isinstance(b, int):
                return self.shift(a, b if name in ('operator+', 'next') else -b)
        if name.startswith('operator basic_string') and obj is not None:
            return ev.ex(obj)
        if isinstance(obj, list):
            try:
                o = ev.ex(obj)
            except Undecided:
                return NO
            if isinstance(o, Obj) and o.cls == 'part':
                if name == 'data':
                    return ('data of', o.f['chunks'], o.f['complex'], o.f['meta'])
                if name == 'dtype':
                    return ('dtype of part',)
            if isinstance(o, tuple) and o[:1] == ('array',):
                if name in ('buf', 'data'):
                    return ('buffer',)
                if name == 'elsize':
                    return ELEM
            if o == ('buffer',) and name == 'size':
                return 0
            if isinstance(o, list) and name == 'empty':
                return not o
        return super().model(ev, name, g, obj, args)

    def shift(self, it, n):
        pos = it[2] if it[2] != 1 or not it[1] else it[2]
        return ('at', it[1], (len(it[1]) if it[2] == 1 and it[0] == 'it' else it[2] if it[0] == 'at' else 0) + n)

    def items(self, it, n):
        p = it[2] if it[0] == 'at' else (len(it[1]) if it[2] == 1 else 0)
        return list(it[1][p:] if n is None else it[1][p:p + n])

    def bin(self, o, a, b):
        if o in ('+', '-') and isinstance(a, tuple) and a[:1] in (('it',), ('at',)) and isinstance(b, int):
            return self.shift(a, b if o == '+' else -b)
        return super().bin(o, a, b)

    def st(self, n):
        OEv.st(self, n)


def join(w):
    P, rep = w.P, w.rep
    f = next((g for g in P.by_cls.get('spu::Value', []) if g.name == 'fromProto' and g.body), None)
    if f is None:
        return
    rep.fn(f)
    where = '%s:%d' % (f.f, f.l)
    for cx in (False, True):
        e = REv(w, P, True)
        msg = w.message('ValueMetaProto', 'msg')
        msg.f['is_complex'] = cx
        msg.f['shape'].f['dims'] = ['d0', 'd1', 'd2']
        src = Obj('spu::ValueProto', {'meta': msg, 'chunks': [('c', i) for i in range(4)] if cx else []})
        try:
            r = e.call(f, None, [src])
        except (Undecided, Throw, KeyError, TypeError, AttributeError) as x:
            rep.count('chunk loops not decided')
            rep.sample('undecided', 'fromProto: %s' % x)
            continue
        rep.count('values read back')
        if cx:
            parts = [(('c', 0), ('c', 1)), (('c', 2), ('c', 3))]
            for i, p in enumerate(parts):
                x = r[i + 1] if isinstance(r, tuple) and len(r) > i + 1 else None
                nm = ('real', 'imaginary')[i]
                if isinstance(x, tuple) and x[:1] == ('data of',) and x[1] == p and x[2] in (False, 0) and x[3] == 'msg.storage_type':
                    rep.good()
                else:
                    rep.finding('join:' + nm, where, 'Value::fromProto reads the %s part from %s' % (nm, 'chunks %s of 4' % (', '.join(str(c[1]) for c in x[1]) or 'none') if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], tuple) else x))
        else:
            a = r[1] if isinstance(r, tuple) and len(r) == 3 else None
            exp = ('array', ('parsed', 'msg.storage_type'), ('d0', 'd1', 'd2'))
            if a == exp:
                rep.good()
            else:
                rep.finding('join:array', where, 'Value::fromProto makes the tensor from %s' % (a,))
            d = r[2] if isinstance(r, tuple) and len(r) == 3 else None
            if d == 'msg.data_type':
                rep.good()
            else:
                rep.finding('join:dtype', where, 'Value::fromProto takes the data type from %s' % (d,))


def copies(w):
    """a copy whose length comes from a message is bounded by the size of its destination first"""
    P, rep = w.P, w.rep
    n = 0
    for f in P.funcs:
        if not f.body or not str(f.f).startswith('libspu/core/') and not str(f.f).startswith('libspu/device/'):
            continue
        for path, c in calls(f.body, []):
            g = callee(c)
            if g is None or g.name not in ('memcpy', 'memmove', 'copy_n') or len(c[4]) != 3:
                continue
            ln = c[4][2] if g.name != 'copy_n' else c[4][1]
            defs = inits(f)
            src = [x for x in leaves(ln, defs) if x[0] == 'mcall' and callee(x) is not None and callee(x).name == 'content']
            if not src:
                continue
            n += 1
            rep.fn(f)
            rep.count('copies of message content')
            where = '%s:%d' % (f.f, c[1])
            if any(bounds(cond, defs) for cond in path):
                rep.good()
            else:
                rep.finding('copy:%s' % f.q, where, '%s copies as many bytes as the message holds without comparing them with the size of the tensor first' % f.q)
    rep.count('copies of message content', 0)


def inits(f):
    out = {}
    for x in walk(f.body):
        if isinstance(x, list) and x and x[0] == 'decl':
            for d in x[2]:
                if isinstance(d[1], list):
                    out.setdefault(d[0], d[1])
    return out


def leaves(e, defs, depth=0):
    for x in walk(e):
        if isinstance(x, list) and x:
            yield x
            if x[0] == 'var' and x[2] in defs and depth < 4:
                yield from leaves(defs[x[2]], defs, depth + 1)


def bounds(cond, defs):
    """the condition compares the content's size with the total or with the tensor's buffer"""
    for x in walk(cond):
        if isinstance(x, list) and x and (x[0] == 'bin' and x[2] in ('<', '<=', '>', '>=')):
            a, b = [list(leaves(y, defs)) for y in x[3:5]]
            for s, t in ((a, b), (b, a)):
                content = any(y[0] == 'mcall' and callee(y) is not None and callee(y).name == 'content' for y in s)
                limit = any(y[0] in ('mcall', 'call') and callee(y) is not None and callee(y).name in ('total_bytes', 'buf', 'numel', 'elsize') for y in t)
                if content and limit:
                    return True
    return False


def calls(n, path):
    """(conditions known to hold or to have been tested, call)"""
    if not isinstance(n, list):
        return
    if n and n[0] == 'block':
        p = list(path)
        for x in n[2]:
            yield from calls(x, p)
            y = x
            while isinstance(y, list) and y and y[0] in ('do', 'block'):
                y = y[2] if y[0] == 'do' else (y[2][0] if len(y[2]) == 1 else None)
            if isinstance(y, list) and y and y[0] in ('if', 'ifc') and leaves_block(y[4]):
                p.append(y[3])
        return
    if n and n[0] in ('if', 'ifc'):
        yield from calls(n[3], path)
        for b in n[4:6]:
            yield from calls(b, path + [n[3]])
        return
    if n and n[0] in ('call', 'mcall'):
        yield path, n
    for x in n:
        if isinstance(x, list):
            yield from calls(x, path)


def leaves_block(b):
    last = b
    while isinstance(last, list) and last and last[0] == 'block':
        if not last[2]:
            return False
        last = last[2][-1]
    return isinstance(last, list) and bool(last) and last[0] in ('throw', 'ret', 'break', 'continue')


def run(w):
    cut(w)
    meta(w)
    join(w)
    copies(w)
