"""The client side: plaintext buffers to values and back, sizes announced, variables exchanged between co-located parties."""
from decide import NO, Undecided, Throw, Ret, Brk, Cont
from wire import Obj, OEv, short, ancestry
from splitting import SEv, Arr, Lin, Bits, Cut, Wrong, elem, low
from sharing_io import SHAPE, FIELDS, PARTIES, value, BITS, same
from program import walk, callee, strip, show

PT = ('PT_I1', 'PT_I8', 'PT_U8', 'PT_I16', 'PT_U16', 'PT_I32', 'PT_U32', 'PT_I64', 'PT_U64', 'PT_F32', 'PT_F64', 'PT_CF32', 'PT_CF64')
WIDTH = {'PT_F32': 4, 'PT_F64': 8}
PV = 'spu::PtBufferView'


def pv(ptr, t, strides):
    o = Obj('(view)')
    o.f.update({'ptr': ptr, 'pt_type': t, 'shape': SHAPE, 'strides': strides})
    return o


def viewkey(v):
    return (elem(v.f['ptr']).key(), v.f['pt_type'], tuple(elem(s).key() for s in v.f['strides']) if isinstance(v.f['strides'], list) else str(v.f['strides']))


class IEv(SEv):
    """adds values, buffer views and the encoding"""
    def __init__(self, P, enc=None):
        super().__init__(P)
        self.encoded, self.decoded = {}, []

    def val_new(self, a):
        o = Obj('spu::Value')
        if len(a) == 2:
            o.f.update({'data_': a[0], 'imag_': None, 'dtype_': a[1]})
        elif len(a) == 3:
            o.f.update({'data_': a[0], 'imag_': a[1], 'dtype_': a[2]})
        else:
            raise Undecided('value constructor')
        return o

    def built(self, g, v):
        if len(v) in (2, 3) and isinstance(v[0], Arr):
            return self.val_new(v)
        raise Undecided('emplace_back')

    def st(self, n):
        if isinstance(n, list) and n and n[0] == 'rfor':
            seq = self.ex(n[3])
            if isinstance(seq, list) and all(isinstance(x, Lin) for x in seq):
                v = n[2][0] if isinstance(n[2], list) else n[2]
                for i, x in enumerate(list(seq)):
                    self.env[v] = x
                    try:
                        self.st(n[4])
                    except Cont:
                        pass
                    seq[i] = self.env[v]
                return
        super().st(n)

    def store(self, x, v):
        y = strip(x)
        super().store(x, v)

    def tensor(self, name, g, obj, args):
        ex = self.ex
        if name == 'new':
            ty = str(g[2]).replace('const ', '')
            if ty == PV:
                a = [ex(x) for x in self.drop(args)]
                if len(a) >= 4:
                    return pv(a[0] if isinstance(a[0], Lin) else elem(a[0]), a[1], list(a[3]) if isinstance(a[3], list) else a[3])
                if len(a) == 1:
                    return a[0]
                raise Undecided('view')
            if ty == 'spu::Value':
                a = [ex(x) for x in self.drop(args)]
                if len(a) == 1 and isinstance(a[0], Obj):
                    return a[0]
                if not a:
                    return None
                return self.val_new(a)
            if ty.startswith('absl::Span'):
                return ex(args[0])
            if ty in ('spu::Strides', 'spu::Shape') and len(args) == 1:
                v = ex(args[0])
                return list(v) if isinstance(v, list) else v
            return super().tensor(name, g, obj, args)
        if name == 'encodeToRing':
            v = ex(args[0])
            dt = 'E:DT_' + v.f['pt_type'].split('_', 1)[1]
            a = Arr(self.ringty(ex(args[1])), v.f['shape'])
            at = ('enc', viewkey(v), str(ex(args[2])))
            self.encoded[at] = v
            a.put(Lin({at: 1}))
            if len(args) > 3 and isinstance(args[3], list):
                x = strip(args[3])
                if x[0] == 'un' and x[2] == '&':
                    self.store(x[3], dt)
            return a
        if name == 'decodeFromRing':
            self.decoded.append((ex(args[0]), ex(args[1]), ex(args[2]), ex(args[3])))
            return None
        if name in ('has_value', 'operator bool') and obj is not None:
            o = ex(obj)
            if o is None or isinstance(o, Arr):
                return o is not None
        if name == 'value' and obj is not None and not args:
            o = ex(obj)
            if o is None:
                raise Throw()
            if isinstance(o, Arr):
                return o
        return super().tensor(name, g, obj, args)

    def obj_hook(self, n):
        if n[0] == 'copy':
            v = self.ex(n[2])
            if isinstance(v, list):
                return list(v)
        if n[0] == 'un' and n[2] in ('*', '&'):
            return self.ex(n[3])
        if n[0] == 'asg' and n[2] == '*=' and strip(n[3])[0] == 'var':
            x = strip(n[3])
            v = self.bin('*', self.env[x[2]], self.ex(n[4]))
            self.env[x[2]] = v
            return v
        return super().obj_hook(n)


def client(P, c, field, n, co):
    ev = IEv(P)
    io = Obj(c)
    io.f.update({'field_': field, 'world_size_': n})
    conf = Obj('spu::RuntimeConfig', {}, lambda k: ('conf', k))
    conf.f.update({'field': field, 'experimental_enable_colocated_optimization': co, 'fxp_fraction_bits': 18})
    cl = Obj('spu::device::IoClient')
    cl.f.update({'world_size_': n, 'config_': conf, 'base_io_': io})
    return ev, cl


def strides():
    return [Lin({'s0': 1}), Lin({'s1': 1})]


def run(P, rep):
    fs = {x.name: x for x in P.by_cls.get('spu::device::IoClient', []) if x.body}
    if 'makeShares' not in fs or 'combineShares' not in fs:
        rep.need('client functions', len(fs), 3)
        return
    ios = sorted(c for c in P.classes if 'spu::mpc::BaseIo' in ancestry(P, c) and c != 'spu::mpc::BaseIo' and 'Test' not in c)
    for c in ios:
        g = next((x for x in P.by_cls[c] if x.name == 'toShares'), None)
        if g is None:
            continue
        key = g.f.split('/')[-2]
        for n in PARTIES.get(key, (2, 3))[-1:]:
            for field in FIELDS[1:2]:
                for t in PT:
                    for vis in ('E:VIS_PUBLIC', 'E:VIS_SECRET'):
                        for owner in (-1, 0, n - 1):
                            for co in (False, True):
                                one(P, rep, fs, c, key, n, field, 'E:' + t, vis, owner, co)


def flatten(v, ev):
    return [v.f['data_']] + ([v.f['imag_']] if v.f['imag_'] is not None else [])


def one(P, rep, fs, c, key, n, field, t, vis, owner, co):
    what = '%s, %s, %s, owner %d%s' % (key, t[2:], vis[6:].lower(), owner, ', co-located' if co else '')

    def bad(k, msg, f):
        rep.finding('client:%s' % k, '%s:%d' % (fs[f].f, fs[f].l), '%s: %s' % (what, msg))
    try:
        ev, cl = client(P, c, field, n, co)
        base = ev.tensor

        def tensor(name, g, obj, args):
            if name == 'get' and obj is not None and len(args) == 1:
                o = ev.ex(obj)
                if isinstance(o, Obj) and o.cls == '(view)':
                    return Lin({('bit', viewkey(o)): 1})
            return base(name, g, obj, args)
        ev.tensor = tensor
        src = pv(Lin({'src': 1}), t, strides())
        vals = ev.call(fs['makeShares'], cl, [src, vis, owner])
        if not isinstance(vals, list) or len(vals) != n:
            return bad('count', 'makes %s values' % (len(vals) if isinstance(vals, list) else '?'), 'makeShares')
        rep.count('buffers shared')
        if 'getShareSize' in fs:
            size = ev.call(fs['getShareSize'], cl, [src, vis, owner])
            for v in vals:
                w = sum(ev.size(a.ty) for a in flatten(v, ev))
                if total(size) != w:
                    return bad('size', 'the announced size of a share is %s bytes per element, its tensors take %d' % (total(size), w), 'getShareSize')
            rep.good()
        out_t = ev.call(fs['getPtType'], cl, [vals]) if 'getPtType' in fs and 'C' in t else t
        if out_t != t:
            return bad('type', 'read back as ' + str(out_t), 'getPtType')
        dst = pv(Lin({'dst': 1}), t, [Lin({'d0': 1}), Lin({'d1': 1})])
        ev.decoded = []
        ev.call(fs['combineShares'], cl, [vals, dst])
        # what is written where
        half = {'E:PT_CF32': ('E:PT_F32', 4), 'E:PT_CF64': ('E:PT_F64', 8)}.get(t)
        want = []
        for off in ((0, half[1]) if half else (0,)):
            k = 2 if half else 1
            pt = half[0] if half else t
            want.append((Lin({'src': 1, 1: off}), Lin({'dst': 1, 1: off}), pt, k))
        if len(ev.decoded) != len(want):
            return bad('parts', '%d parts are written for %d' % (len(ev.decoded), len(want)), 'combineShares')
        for (arr, dt, fb, o), (sp, dp, pt, k) in zip(sorted(ev.decoded, key=lambda d: str(elem(d[3].f['ptr']).key())), sorted(want, key=lambda d: str(d[1].key()))):
            src_k = viewkey(pv(sp, pt, [Lin({'s0': k}), Lin({'s1': k})]))
            if viewkey(o) != viewkey(pv(dp, pt, [Lin({'d0': k}), Lin({'d1': k})])):
                return bad('place', 'a part of the result is written with another offset, type or stride than that of its half', 'combineShares')
            v = value(arr.get(ev), BITS[field])
            if isinstance(v, Bits):
                ok = v.key() == Bits([('bit', src_k)], False).key() or v.key() == Bits([('bit', src_k)], True).key()
            else:
                ok = v.key() == Lin({('enc', src_k, str(18)): 1}).key()
            if not ok:
                return bad('value', 'the value read back is not the one that was shared (%s)' % (v.key(),), 'combineShares')
            if dt != 'E:DT_' + pt.split('_', 1)[1] or fb != 18:
                return bad('decode', 'decoded as %s with %s fraction bits' % (dt, fb), 'combineShares')
        rep.count('buffers read back')
        rep.good()
    except Throw:
        rep.count('buffers rejected')
        if key in ('semi2k', 'aby3'):
            bad('throws', 'it throws', 'makeShares')
    except Wrong as x:
        bad('view', str(x), 'makeShares')
    except (Undecided, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
        rep.count('buffers not decided')
        rep.sample('undecided buffers', '%s: %s %s' % (what, type(x).__name__, x))


def total(t):
    """bytes per element of a size term"""
    if isinstance(t, tuple) and t[0] == 'numel':
        return 1
    if isinstance(t, tuple) and t[0] == '*':
        a, b = t[1], t[2]
        return (a if isinstance(a, int) else total(a)) * (b if isinstance(b, int) else total(b))
    if isinstance(t, tuple) and t[0] == '+':
        return total(t[1]) + total(t[2])
    raise Undecided('size')


# ---- exchange of variables between co-located parties -----------------------------------------------
class Wait(Exception):
    pass


class XEv(IEv):
    def __init__(self, P, rank, n, world):
        super().__init__(P)
        self.rank, self.n, self.world = rank, n, world
        self.sent, self.gath, self.taken, self.problem = {}, 0, {}, None

    def ex(self, n):
        if isinstance(n, list) and n and n[0] == 'bind':
            return self.env[n[2]][n[3]]
        return super().ex(n)

    def st(self, n):
        if isinstance(n, list) and n and n[0] == 'rfor':
            seq = self.ex(n[3])
            if isinstance(seq, dict):
                v = n[2][2] if isinstance(n[2], list) and n[2][:1] == ['var'] else n[2][0] if isinstance(n[2], list) else n[2]
                for k, x in list(seq.items()):
                    self.env[v] = [k, x]
                    try:
                        super().st(n[4])
                    except Cont:
                        pass
                    except Brk:
                        break
                return
        super().st(n)

    def sval(self, v):
        while isinstance(v, tuple) and v and v[0] in ('str', 'bytes'):
            v = v[1]
        return v

    def tensor(self, name, g, obj, args):
        ex = self.ex
        q = g.q if g is not None and hasattr(g, 'q') else ''
        if name == 'new':
            ty = str(g[2]).replace('const ', '')
            a = self.drop(args)
            if ty.startswith('std::unordered_map') or ty.startswith('std::map') or ty.startswith('std::set') or ty.startswith('std::unordered_set'):
                if not a:
                    return {}
                v = ex(a[0])
                return v
            if ty.startswith('std::vector'):
                if not a:
                    return []
                if len(a) == 1:
                    v = ex(a[0])
                    if isinstance(v, int):
                        return [{} for _ in range(v)] if 'unordered_map' in ty else [None] * v
                    return v
            if ty.startswith('std::pair') or ty.startswith('std::tuple'):
                v = [ex(x) for x in a]
                return v if len(v) > 1 else v[0]
            if ty == 'spu::ValueProto':
                if a:
                    return ex(a[0])
                o = Obj('(proto)')
                o.f.update({'meta': Obj('(msg)', {'v': None}), 'chunks': []})
                return o
            if 'string' in ty or ty == 'yacl::ByteContainerView':
                return ex(a[0])
            if ty == 'spu::device::IoClient':
                return ('client',)
            if ty == PV:
                return [ex(x) for x in a]
            return super().tensor(name, g, obj, args)
        if name == 'AllGather':
            self.gath += 1
            v = ex(args[1])
            self.world['gather'].setdefault(self.gath, {})[self.rank] = v
            got = self.world['gather'][self.gath]
            if len(got) < self.n:
                raise Wait()
            return [got[i] for i in range(self.n)]
        if name == 'to_string':
            return ex(args[0])
        if name in ('operator basic_string_view',) or name.startswith('operator basic_string_view'):
            return ex(obj)
        if name == 'SimpleAtoi':
            v = self.sval(ex(args[0]))
            if not isinstance(v, int):
                self.problem = 'a message that is not a number is read as a number'
                raise Throw()
            self.store(strip(args[1])[3], v)
            return True
        if name == 'makeShares':
            v = ex(args[0])
            return [('val', v, ex(args[1]), ex(args[2]), i) for i in range(self.n)]
        if name == 'toProto' and obj is not None:
            v = ex(obj)
            o = Obj('(proto)')
            k = abs(hash(str(v[1]))) % 3 if False else len(str(v[1])) % 3
            o.f.update({'meta': Obj('(msg)', {'v': ('meta', v)}), 'chunks': [Obj('(msg)', {'v': ('chunk', v, j, k)}) for j in range(k)]})
            return o
        if name == 'fromProto' and len(args) == 1:
            o = ex(args[0])
            m = o.f['meta'].f['v']
            c = [x.f['v'] if isinstance(x, Obj) else None for x in o.f['chunks']]
            if not (m and m[0] == 'meta'):
                self.problem = 'a value is made without its metadata'
                raise Throw()
            k = len(str(m[1][1])) % 3
            if c != [('chunk', m[1], j, k) for j in range(k)]:
                self.problem = 'a value is put together from chunks that are not its own, in order'
                raise Throw()
            return m[1]
        if name == 'SerializeAsString':
            return ('bytes', ex(obj).f['v'])
        if name == 'ParseFromArray':
            v = ex(args[0])
            ex(obj).f['v'] = self.sval(v)
            return True
        if name in ('CopyFrom', 'Swap'):
            ex(obj).f['v'] = ex(args[0]).f['v']
            return None
        if obj is not None:
            try:
                o = ex(obj)
            except Undecided:
                return NO
            if name == 'insert' and isinstance(o, dict) or name in ('emplace', 'try_emplace', 'insert_or_assign') and isinstance(o, dict):
                a = [ex(x) for x in args]
                k, v = a if len(a) == 2 else a[0] if isinstance(a[0], list) else (a[0], True)
                if name == 'insert_or_assign' or self.sval(k) not in o:
                    o[self.sval(k)] = v
                return ('it', k)
            if isinstance(o, dict):
                if name in ('find', 'end', 'cend', 'count', 'contains'):
                    if name in ('end', 'cend'):
                        return None
                    k = self.sval(ex(args[0]))
                    r = ['it', k] if k in o else None
                    if r is not None:
                        r = Obj('(iterator)', {'first': k, 'second': o[k]})
                    return r if name == 'find' else r is not None
                if name == 'size':
                    return len(o)
                if name == 'empty':
                    return not o
                if name == 'clear':
                    o.clear()
                    return None
                if name == 'erase':
                    o.pop(self.sval(ex(args[0])), None)
                    return None
                if name == 'at' or name == 'operator[]':
                    k = self.sval(ex(args[0]))
                    if k not in o:
                        raise Throw()
                    return o[k]
            if isinstance(o, list):
                if name == 'resize':
                    k = ex(args[0])
                    if not isinstance(k, int):
                        raise Undecided('resize')
                    while len(o) > k:
                        o.pop()
                    while len(o) < k:
                        o.append(Obj('(msg)', {'v': None}))
                    return None
            if o == ('lctx',):
                if name == 'WorldSize':
                    return self.n
                if name == 'Rank':
                    return self.rank
                if name in ('SendAsync', 'Send', 'SendAsyncThrottled'):
                    self.sent.setdefault(ex(args[0]), []).append(ex(args[1]))
                    return None
                if name == 'Recv':
                    p = ex(args[0])
                    k = self.taken.get(p, 0)
                    q_ = self.world['sent'].get((p, self.rank), [])
                    if k >= len(q_):
                        raise Wait()
                    self.taken[p] = k + 1
                    return ('bytes', q_[k])
            if isinstance(o, tuple) and o and o[0] == 'bytes' and name in ('data', 'begin'):
                return o
            if isinstance(o, tuple) and o and o[0] == 'bytes' and name in ('size', 'end'):
                return ('len', o)
            if isinstance(o, tuple) and o and o[0] == 'arr' and name in ('data', 'eltype', 'shape', 'strides', 'isa', 'as', 'pt_type'):
                return True if name == 'isa' else o
        if name == 'operator[]' and len(args) == 2 and obj is None:
            c = ex(args[0])
            if isinstance(c, dict):
                k = self.sval(ex(args[1]))
                return c.setdefault(k, None)
        return super().tensor(name, g, obj, args)


def exchange(P, rep):
    g = next((x for x in P.by_cls.get('spu::device::ColocatedIo', []) if x.name == 'sync' and x.body), None)
    if g is None:
        return
    where = '%s:%d' % (g.f, g.l)
    try:
        for n in (2, 3):
            world = {'gather': {}, 'sent': {}}
            done, res = set(), {}
            names = {r: ['u%d' % r + 'x' * k for k in range(r + 1)] for r in range(n)}
            for rnd in range(2 * n + 4):
                for r in range(n):
                    if r in done:
                        continue
                    ev = XEv(P, r, n, world)
                    me = Obj('spu::device::ColocatedIo')
                    sym = Obj('spu::device::SymbolTable')
                    sym.f['data_'] = {}
                    uns = {}
                    for j, nm in enumerate(names[r]):
                        p = Obj('(private)')
                        p.f.update({'arr': ('arr', nm), 'vtype': ('vis', nm), 'owner_rank': ('own', r)})
                        uns[nm] = p
                    me.f.update({'symbols_': sym, 'unsynced_': uns, 'sctx_': Obj('(ctx)')})
                    base = ev.prim

                    def prim(e, nm, h, obj, args, base=base):
                        if nm == 'lctx' and not args:
                            return ('lctx',)
                        if nm == 'config' and not args:
                            return ('config',)
                        return base(e, nm, h, obj, args)
                    ev.prim = prim
                    ok = False
                    try:
                        ev.call(g, me, [])
                        ok = True
                    except Wait:
                        pass
                    except Throw:
                        rep.finding('exchange:throws', where, 'party %d of %d: exchanging the variables throws%s' % (r, n, ': ' + ev.problem if ev.problem else ''))
                        return
                    for q, ms in ev.sent.items():
                        world['sent'][(r, q)] = ms
                    if ok:
                        done.add(r)
                        res[r] = (sym.f['data_'], uns, ev)
                if len(done) == n:
                    break
            if len(done) < n:
                raise Undecided('parties wait')
            for r in range(n):
                tab, uns, ev = res[r]
                for p in range(n):
                    for nm in names[p]:
                        v = tab.get(nm)
                        if v is None:
                            rep.finding('exchange:missing', where, 'after the exchange party %d does not know %s of party %d' % (r, nm, p))
                            return
                        if not (isinstance(v, tuple) and v[0] == 'val' and ('arr', nm) in v[1] and v[2] == ('vis', nm) and v[3] == ('own', p) and v[4] == r):
                            rep.finding('exchange:value', where, 'after the exchange the variable %s of party %d is at party %d: %s' % (nm, p, r, str(v)[:160]))
                            return
                if len(tab) != sum(len(x) for x in names.values()):
                    rep.finding('exchange:extra', where, 'party %d has other variables than those exchanged' % r)
                    return
                if uns:
                    rep.finding('exchange:pending', where, 'variables are still pending at party %d after the exchange: they would be sent again' % r)
                    return
                for q in range(n):
                    if q != r and ev.taken.get(q, 0) != len(world['sent'].get((q, r), [])):
                        rep.finding('exchange:rest', where, 'messages from party %d to party %d are left over' % (q, r))
                        return
                rep.count('party exchanges followed')
                rep.good()
    except (Undecided, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
        rep.count('exchanges not decided')
        rep.sample('undecided exchanges', '%s %s' % (type(x).__name__, x))
    table(P, rep)


def table(P, rep):
    """the symbol table returns what was stored last under a name"""
    fs = {x.name: x for x in P.by_cls.get('spu::device::SymbolTable', []) if x.body}
    try:
        t = Obj('spu::device::SymbolTable')
        t.f['data_'] = {}
        ev = XEv(P, 0, 1, {})
        w = '%s:%d' % (fs['setVar'].f, fs['setVar'].l)

        def chk(k, ok, msg):
            if ok:
                rep.good()
                rep.count('symbol table cases')
            else:
                rep.finding('table:' + k, w, msg)

        def get(k):
            try:
                return ev.call(fs['getVar'], t, [k])
            except Throw:
                return 'throws'
        ev.call(fs['setVar'], t, ['a', ('v', 1)])
        ev.call(fs['setVar'], t, ['b', ('v', 2)])
        ev.call(fs['setVar'], t, ['a', ('v', 3)])
        chk('get', get('a') == ('v', 3) and get('b') == ('v', 2), 'a variable is not what was stored last under its name')
        chk('missing', get('c') == 'throws', 'reading a name that was never stored does not fail')
        chk('has', bool(ev.call(fs['hasVar'], t, ['a'])) and not ev.call(fs['hasVar'], t, ['c']), 'hasVar is wrong')
        ev.call(fs['delVar'], t, ['a'])
        chk('delete', not ev.call(fs['hasVar'], t, ['a']) and get('b') == ('v', 2), 'deleting a variable does not delete exactly it')
        ev.call(fs['clear'], t, [])
        chk('clear', not ev.call(fs['hasVar'], t, ['b']), 'clear leaves variables')
    except (Undecided, AttributeError, KeyError, TypeError, Throw) as x:
        rep.count('symbol table cases not decided')
        rep.sample('undecided table', '%s %s' % (type(x).__name__, x))
