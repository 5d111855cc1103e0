"""Splitting and reconstruction by every protocol's io class."""
from decide import NO, Undecided, Throw, Ret
from wire import Obj, short, ancestry
from splitting import SEv, Arr, Lin, Bits, Cut, Wrong, reveals, bitreveals, elem, low
from program import walk, callee

PARTIES = {'aby3': (3,), 'swift': (3,), 'securenn': (3,), 'cheetah': (2,), 'spdz2k': (2, 3), 'ref2k': (1, 2, 3)}
FIELDS = ('E:FM32', 'E:FM64', 'E:FM128')
BITS = {'E:FM32': 32, 'E:FM64': 64, 'E:FM128': 128}
SHAPE = ('shape', 'x')


def state(t):
    return tuple(sorted((k, str(v)) for k, v in t.f.items() if k != 'has_mac_'))


def same(a, b):
    return isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and state(a) == state(b)


def run(P, rep):
    ios = sorted(c for c in P.classes if 'spu::mpc::BaseIo' in ancestry(P, c) and c != 'spu::mpc::BaseIo' and 'Test' not in c)
    for c in ios:
        g = next((x for x in P.by_cls[c] if x.name == 'toShares'), None)
        if g is None:
            continue
        rep.count('protocol io classes')
        key = g.f.split('/')[-2]
        for n in PARTIES.get(key, (2, 3, 5)):
            for field in FIELDS:
                for vis in ('E:VIS_PUBLIC', 'E:VIS_SECRET'):
                    for owner in (-1,) + tuple(range(n)):
                        one(P, rep, c, key, g, n, field, vis, owner)
                bits(P, rep, c, key, n, field)
                boolean(P, rep, c, key, g, n, field)
    overlays(P, rep)
    factory(P, rep)
    rep.need('protocol io classes', len(ios), 6)


def start(P, c, field, n):
    ev = SEv(P)
    io = Obj(c)
    io.f.update({'field_': field, 'world_size_': n})
    return ev, io


def call(ev, io, name, args):
    g = ev.resolve(io.cls, name, len(args))
    if g is None:
        raise Undecided('no ' + name)
    return ev.call(g, io, args), g


def comps(ev, a):
    n = a.ncomp(ev) if a.comp is None else 1
    return [a.get(ev, 'i', j if n > 1 else None) for j in range(n)]


def one(P, rep, c, key, g, n, field, vis, owner):
    where = '%s:%d' % (g.f, g.l)
    ev, io = start(P, c, field, n)
    what = '%s with %d parties, %s, %s%s' % (key, n, field[2:], vis[6:].lower(), '' if owner < 0 else ', owner %d' % owner)

    def bad(k, msg, w=where):
        rep.finding('split:%s:%s' % (key, k), w, '%s: %s' % (what, msg))
    try:
        raw = Arr(ev.ringty(field), SHAPE)
        raw.put(Lin({'x': 1}))
        try:
            sh, _ = call(ev, io, 'toShares', [raw, vis, owner])
        except Wrong as x:
            return bad('view', str(x))
        if not isinstance(sh, list):
            raise Undecided('shares')
        rep.count('splits followed')
        if len(sh) != n or any(not isinstance(s, Arr) for s in sh):
            return bad('count', 'a value is split into %d shares' % len(sh))
        ty, gt = call(ev, io, 'getShareType', [vis, owner])
        for i, s in enumerate(sh):
            if not same(s.ty, ty):
                return bad('type', 'the share of party %d has type %s%s, the declared share type is %s%s' % (i, s.ty.cls, state(s.ty), ty.cls, state(ty)))
            if s.shape != SHAPE:
                return bad('shape', 'the share of party %d has another shape' % i)
        cs = [comps(ev, s) for s in sh]
        private = 'spu::Private' in ancestry(P, ty.cls)
        secret = 'spu::Secret' in ancestry(P, ty.cls)
        if key != 'ref2k':
            if private:
                for i in range(n):
                    if i != owner and any(elem(v).key() != Lin().key() for v in cs[i]):
                        return bad('private', 'party %d is given the private input of party %d' % (i, owner))
            elif secret:
                for i in range(n):
                    if reveals(cs[i], ['x'], ev.rands):
                        return bad('hidden', 'what party %d is given determines the secret' % i)
            if vis == 'E:VIS_SECRET' and not private and not secret:
                return bad('kind', 'a secret is held as %s' % ty.cls)
        if vis == 'E:VIS_PUBLIC' and (private or secret):
            return bad('kind', 'a public value is held as %s' % ty.cls)
        r = layout(key, n, cs, secret)
        if r:
            return bad('layout', r)
        out, gf = call(ev, io, 'fromShares', [list(sh)])
        if not isinstance(out, Arr):
            raise Undecided('reconstruction')
        v = value(out.get(ev), BITS[field])
        if v.key() != Lin({'x': 1}).key():
            return bad('value', 'reconstructing the shares does not give the value that was split', '%s:%d' % (gf.f, gf.l))
        f = next((x for k, x in out.ty.f.items() if 'field' in k), None)
        if f != field:
            return bad('field', 'the reconstructed value has field %s' % f, '%s:%d' % (gf.f, gf.l))
        rep.count('values reconstructed')
        rep.good()
    except Throw:
        if key == 'spdz2k' and field == 'E:FM128':
            rep.count('splits rejected')        # its runtime ring would be wider than the widest field
        else:
            bad('throws', 'splitting it and putting it together throws')
    except (Undecided, RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
        rep.count('splits not decided')
        rep.sample('undecided splits', '%s: %s %s' % (what, type(x).__name__, x))


def value(v, bits):
    v = elem(v)
    if isinstance(v, Cut):
        if v.lo == 0 and v.hi >= bits:
            return v.v
    return v


def layout(key, n, cs, secret):
    """what several parties hold of one share agrees"""
    if not secret:
        return None
    k = [[elem(v).key() for v in c] for c in cs]
    if key == 'aby3' and any(len(c) != 2 for c in k) or key == 'swift' and any(len(c) != 3 for c in k):
        return 'unexpected number of components'
    if key == 'aby3':
        for i in range(n):
            if k[i][1] != k[(i + 1) % n][0]:
                return 'the second share of party %d is not the first share of party %d' % (i, (i + 1) % n)
    if key == 'swift':
        for (a, i), (b, j), t in (((0, 0), (1, 0), 'alpha1'), ((0, 1), (2, 0), 'alpha2'), ((1, 1), (2, 1), 'beta'), ((1, 2), (2, 2), 'gamma')):
            if k[a][i] != k[b][j]:
                return 'parties %d and %d hold different %s' % (a, b, t)
        from splitting import padd
        try:
            if elem(padd(cs[1][1], cs[1][2])).key() != k[0][2]:
                return 'party 0 does not hold beta + gamma'
        except Undecided:
            pass
    if key == 'securenn' and k[2] != [Lin().key()]:
        return 'the helper party holds a share'
    return None


def bits(P, rep, c, key, n, field):
    """single-bit secrets"""
    ev, io = start(P, c, field, n)
    what = '%s bit secrets, %d parties' % (key, n)
    try:
        has, g = call(ev, io, 'hasBitSecretSupport', [])
        if not has:
            return
        g = ev.resolve(c, 'makeBitSecret', 1)
        where = '%s:%d' % (g.f, g.l)

        def bad(k, msg):
            rep.finding('split:%s:bit:%s' % (key, k), where, '%s: %s' % (what, msg))
        pv = Obj('(buffer)')
        pv.f.update({'pt_type': 'E:PT_I1', 'shape': SHAPE})
        base = ev.tensor

        def tensor(name, g, obj, args):
            if name == 'get' and obj is not None and len(args) == 1:
                o = ev.ex(obj)
                if o is pv:
                    i = ev.ex(args[0])
                    if i != ('idx', SHAPE):
                        raise Undecided('index')
                    return Lin({'x': 1})
            return base(name, g, obj, args)
        ev.tensor = tensor
        sh, _ = call(ev, io, 'makeBitSecret', [pv])
        rep.count('splits followed')
        if len(sh) != n:
            return bad('count', '%d shares' % len(sh))
        for s in sh:
            if 'spu::Secret' not in ancestry(P, s.ty.cls) or not same(s.ty, sh[0].ty):
                return bad('type', 'the shares are held as ' + s.ty.cls)
            if s.shape != SHAPE:
                return bad('shape', 'another shape')
        w = ev.size(sh[0].ty)
        r, _ = call(ev, io, 'getBitSecretShareSize', [('numel', SHAPE)])
        if r not in (('*', ('numel', SHAPE), w), ('*', w, ('numel', SHAPE))):
            return bad('size', 'the declared size of a share is %s, its elements take %s bytes' % (r, w))
        cs = [comps(ev, s) for s in sh]
        m = layout(key, n, cs, True)
        if m:
            return bad('layout', m)
        if all(isinstance(elem(v), Bits) for c_ in cs for v in c_):
            for i in range(n):
                if bitreveals([elem(v) for v in cs[i]], ['x'], ev.rands):
                    return bad('hidden', 'what party %d is given determines the bit' % i)
        out, _ = call(ev, io, 'fromShares', [list(sh)])
        if low(out.get(ev)).key() != Bits(['x'], False).key():
            return bad('value', 'reconstructing the shares does not give the bit that was split')
        rep.count('values reconstructed')
        rep.good()
    except Throw:
        bad('throws', 'splitting a bit and putting it together throws')
    except (Undecided, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
        rep.count('splits not decided')
        rep.sample('undecided splits', '%s: %s %s' % (what, type(x).__name__, x))


def boolean(P, rep, c, key, g, n, field):
    """boolean shares of the protocol are put together by exclusive or"""
    if key not in ('semi2k', 'aby3', 'securenn', 'cheetah', 'swift'):
        return
    ns = c.rsplit('::', 1)[0]
    b = ns + '::BShrTy'
    if b not in P.classes:
        b = next((x for x in P.classes if x.startswith(ns.rsplit('::', 1)[0]) and key in x and x.endswith('::BShrTy')), None)
    ev, io = start(P, c, field, n)
    what = '%s boolean shares, %d parties, %s' % (key, n, field[2:])
    try:
        ty = None
        for a in ([field, 8], [field], ['E:PT_U8', 8], ['E:PT_U8']):
            try:
                ty = ev.make(b, a)
                ncompv = Arr(ty, SHAPE).ncomp(ev)
                break
            except (Undecided, Throw, KeyError):
                ty = None
        if ty is None:
            raise Undecided('boolean share type')
        at = ['b%d' % i for i in range(3 if key == 'swift' else n)]
        sh = []
        for i in range(n):
            s = Arr(ty, SHAPE)
            if key == 'swift':
                v = [Bits([at[0]], True), Bits([at[1]], True), Bits([at[2], 'g'], True)] if i == 0 else [Bits([at[i - 1]], True), Bits([at[2]], True), Bits(['g'], True)]
            else:
                v = [Bits([at[(i + j) % n]], True) for j in range(ncompv)]
            for j, x in enumerate(v):
                s.put(x, 'i', j if ncompv > 1 else None)
            sh.append(s)
        if key == 'securenn':
            sh[2].put(Lin())
            at = at[:2]
        out, gf = call(ev, io, 'fromShares', [sh])
        if elem(out.get(ev)).key() != Bits(at, True).key():
            rep.finding('split:%s:boolean' % key, '%s:%d' % (gf.f, gf.l), '%s: they are not combined by exclusive or of every share once' % what)
        else:
            rep.count('values reconstructed')
            rep.good()
    except (Undecided, Throw, Wrong, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
        rep.count('splits not decided')
        rep.sample('undecided splits', '%s: %s %s' % (what, type(x).__name__, x))


def overlays(P, rep):
    """component views: getShare(t, j) addresses component j"""
    for g in P.funcs:
        if g.name not in ('getShare',) or not g.body or len(g.params or ()) != 2 or not g.f.endswith('value.cc'):
            continue
        ns = g.q.rsplit('::', 1)[0]
        for t in sorted(P.classes):
            if not t.startswith(ns + '::') or not t.endswith('ShrTy') or t.endswith('BShrTy') and 'spdz2k' in t:
                continue
            for field in FIELDS:
                ev = SEv(P)
                try:
                    ty = None
                    for a in ([field], ['E:PT_U32', 4], ['E:PT_U32']):
                        try:
                            ty = ev.make(t, a)
                            k = Arr(ty, SHAPE).ncomp(ev)
                            break
                        except (Undecided, Throw):
                            ty = None
                    if ty is None or k < 2:
                        continue
                    for j in range(k):
                        a = Arr(ty, SHAPE)
                        for i in range(k):
                            a.put(Lin({'c%d' % i: 1}), 'i', i)
                        r = ev.call(g, None, [a, j])
                        if elem(r.get(ev)).key() != Lin({'c%d' % j: 1}).key():
                            raise Wrong('component %d of %s is read for component %d' % (r.comp if r.comp is not None else -1, t, j))
                        rep.count('component views')
                        rep.good()
                except Wrong as x:
                    rep.finding('split:view:%s' % t, '%s:%d' % (g.f, g.l), str(x))
                    break
                except Throw:
                    continue
                except (Undecided, AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
                    rep.count('component views not decided')
                    rep.sample('undecided views', '%s: %s' % (t, x))


def factory(P, rep):
    """every protocol kind gets its own implementation"""
    kinds = [n for n, v in P.enums['spu::ProtocolKind']['v'] if n != 'PROT_INVALID']
    for name in ('RegisterProtocol', 'CreateIO'):
        g = next((x for x in P.funcs if x.q == 'spu::mpc::Factory::' + name and x.body), None)
        if g is None:
            continue
        for k in kinds:
            ev = SEv(P)
            got = []
            base = ev.model
            conf = Obj('spu::RuntimeConfig', {}, lambda n: ('conf', n))
            conf.f['protocol'] = 'E:' + k

            def model(e, nm, h, obj, args, got=got, base=base, conf=conf):
                if nm == 'config' and not args:
                    return conf
                if h is not None and hasattr(h, 'f') and str(h.f).startswith('libspu/mpc/') and obj is None and str(h.f).split('/')[-2] != 'mpc' and 'factory' not in str(h.f):
                    got.append((h, [tuple(e.ex(a)) if isinstance(e.ex(a), tuple) else e.ex(a) for a in args] if name == 'CreateIO' else None))
                    return ('made', h.q)
                return base(e, nm, h, obj, args)
            ev.prim = model
            try:
                r = ev.call(g, None, [('ctx',), ('lctx',)] if name == 'RegisterProtocol' else [conf, ('npc',)])
            except Throw:
                rep.count('protocol kinds without implementation')
                continue
            except (Undecided, AttributeError, TypeError) as x:
                rep.count('factory cases not decided')
                rep.sample('undecided factory cases', '%s %s: %s' % (name, k, x))
                continue
            if len(got) != 1 or got[0][0].f.split('/')[-2] != k.lower() or name == 'CreateIO' and got[0][1] != [('conf', 'field'), ('npc',)]:
                rep.finding('factory:%s:%s' % (name, k), '%s:%d' % (g.f, g.l), '%s for %s calls %s' % (name, k, ', '.join('%s%s' % (h.q, a or '') for h, a in got) or 'nothing'))
            else:
                rep.count('factory cases')
                rep.good()
