"""Tables that invert each other, defaults, the encoding of plaintext values, and chunks of a serialised value."""
import re
from decide import NO, Undecided, Throw
from wire import Obj, OEv, short
from program import walk, callee, strip, show


def fn(P, q, n=None):
    return next((f for f in P.by_q.get(q, []) if f.body and (n is None or len(f.params) == n)), None)


def ask(P, f, *args):
    e = OEv(P)
    try:
        return e.call(f, None, list(args))
    except Throw:
        return Throw


def names(P, q):
    return ['E:' + n for n, _ in P.enums[q]['v']]


def digits(n):
    m = re.search(r'(\d+)$', n)
    return int(m.group(1)) if m else None


def tables(P, rep):
    want = {k: fn(P, 'spu::' + k, 1) for k in ('getEncodeType', 'getDecodeType', 'GetStorageType', 'PtTypeToField', 'SizeOf', 'getWidth', 'isInteger', 'isFixedPoint', 'isUInteger',
                                              'GetMersennePrimeExp')}
    sz = [f for f in P.by_q.get('spu::SizeOf', []) if f.body and 'PtType' in f.vars[f.params[0]][1]]
    want['SizeOf'] = sz[0] if sz else None
    for k in sorted(want):
        if want[k] is None:
            rep.count('tables not found')
    T = {}
    for k, f in want.items():
        if f is None:
            continue
        e = f.vars[f.params[0]][1].replace('const ', '').rstrip(' &')
        if e not in P.enums:
            continue
        rep.fn(f)
        T[k] = {}
        for v in names(P, e):
            try:
                T[k][v] = ask(P, f, v)
            except Undecided as x:
                rep.count('table entries not decided')
                rep.sample('undecided', '%s(%s): %s' % (k, v, x))
                continue
            rep.count('table entries')

    def at(k):
        return '%s:%d' % (want[k].f, want[k].l)

    def check(ok, key, k, msg):
        if ok:
            rep.good()
        else:
            rep.finding('table:' + key, at(k), msg)

    def val(k, v):
        r = T.get(k, {}).get(v)
        return None if r is Throw else r
    for v, d in T.get('getEncodeType', {}).items():
        if d is Throw or 'getDecodeType' not in T:
            continue
        b = T['getDecodeType'].get(d)
        check(b == v, 'codec:%s' % v, 'getDecodeType', 'a value given as %s is encoded as %s and decoded as %s' % (v[2:], d[2:], b[2:] if isinstance(b, str) else 'nothing'))
        isf, ptf = val('isFixedPoint', d), v.startswith('E:PT_F')
        if isf is not None:
            check(bool(isf) == ptf, 'fxp:%s' % d, 'isFixedPoint', '%s is encoded as %s, which is %sa fixed-point type' % (v[2:], d[2:], '' if isf else 'not '))
        isi = val('isInteger', d)
        if isi is not None:
            check(bool(isi) != ptf, 'int:%s' % d, 'isInteger', '%s is encoded as %s, which is %san integer type' % (v[2:], d[2:], '' if isi else 'not '))
        isu = val('isUInteger', d)
        if isu is not None:
            check(bool(isu) == (v.startswith('E:PT_U') or v == 'E:PT_I1'), 'uint:%s' % d, 'isUInteger', '%s is encoded as %s, which is %san unsigned type' % (v[2:], d[2:], '' if isu else 'not '))
        w = val('getWidth', d)
        if w is not None:
            check(w == digits(v), 'width:%s' % d, 'getWidth', '%s holds values of %s but its width is %s' % (d[2:], v[2:], w))
    for d, v in T.get('getDecodeType', {}).items():
        if v is not Throw and 'getEncodeType' in T:
            check(T['getEncodeType'].get(v) == d, 'decode:%s' % d, 'getEncodeType', '%s is decoded as %s, which is encoded as %s' % (d[2:], v[2:], T['getEncodeType'].get(v)))
    for f, v in T.get('GetStorageType', {}).items():
        if v is Throw:
            continue
        w = digits(f)
        check(val('SizeOf', v) is None or val('SizeOf', v) * 8 == w, 'storage:%s' % f, 'GetStorageType', 'elements of %s are stored as %s' % (f[2:], v[2:]))
        check(v.startswith('E:PT_U'), 'storage-sign:%s' % f, 'GetStorageType', 'elements of %s are stored as %s, whose right shift copies the sign' % (f[2:], v[2:]))
        if 'PtTypeToField' in T:
            check(T['PtTypeToField'].get(v) == f, 'field:%s' % f, 'PtTypeToField', '%s is stored as %s, which is taken for %s' % (f[2:], v[2:], T['PtTypeToField'].get(v)))
        p = val('GetMersennePrimeExp', f)
        if p is not None:
            check(p < w and p in (2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127), 'prime:%s' % f, 'GetMersennePrimeExp', '2^%s-1 is not a Mersenne prime that fits %s' % (p, f[2:]))
    for v, n in T.get('SizeOf', {}).items():
        if n is Throw or v == 'E:PT_INVALID':
            continue
        w = digits(v)
        exp = 1 if v == 'E:PT_I1' else w // 4 if v.startswith('E:PT_CF') else w // 8
        check(n == exp, 'size:%s' % v, 'SizeOf', 'SizeOf(%s) is %s' % (v[2:], n))
    rep.need('table entries', rep.counts.get('table entries', 0), 60)


# -- defaults --------------------------------------------------------------------------------------
FXP = {'E:FM32': 8, 'E:FM64': 18, 'E:FM128': 26}


class CEv(OEv):
    """tokens ('n', name) are numbers other than any the code names; ('mode', name) is an enumerator other than the default"""

    def bin(self, o, a, b):
        if o in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[:1] == ('n',) and isinstance(y, int):
                    return o == '!='
                if isinstance(x, tuple) and x[:1] == ('mode',) and isinstance(y, str):
                    return (o == '==') == (not default_name(y) and self.other(x[1], y))
            if isinstance(a, int) and isinstance(b, str) or isinstance(a, str) and isinstance(b, int):
                raise Undecided('enum against number')
        if isinstance(a, tuple) and a[:1] == ('n',) and b == 0 and o in ('>', '<='):
            return o == '>'
        return super().bin(o, a, b)

    def other(self, field, y):
        raise Undecided('mode of ' + field)

    def truth(self, n):
        v = self.ex(n)
        if isinstance(v, tuple) and v[:1] == ('n',):
            return True
        return super().truth(n)


def default_name(y):
    return y.endswith('_DEFAULT')


def camel(s):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', s).lower()


def defaults(P, rep):
    C = 'spu::RuntimeConfig'
    pop, full = fn(P, 'spu::populateRuntimeConfig', 1), fn(P, 'spu::makeFullRuntimeConfig', 1)
    if pop is None or C not in P.classes:
        rep.count('defaults not found')
        return
    rep.fn(pop)
    where = '%s:%d' % (pop.f, pop.l)
    types = {f[0]: f[1] for f in P.classes[C]['fields'] if not f[0].startswith('kDefault')}
    inits = {}
    for g in P.by_cls.get(C, []):
        if g.name == 'RuntimeConfig' and not g.params and g.inits:
            for nm, v, *_ in g.inits:
                inits[short(nm)] = v
    # documented values: the constants the fields are initialised with
    doc = {}
    for n, v in inits.items():
        m = re.search(r'kDefault\w+=(-?\d+)$', show(v))
        if m:
            doc[n] = int(m.group(1))
            c = re.search(r'kDefault(\w+)=', show(v)).group(1)
            rep.count('documented defaults')
            if camel(c) == n:
                rep.good()
            else:
                rep.finding('default:init:' + n, where, 'RuntimeConfig::%s starts as kDefault%s' % (n, c))
    modes = [n for n, t in types.items() if t in P.enums and any(x.endswith('_DEFAULT') for x, _ in P.enums[t]['v']) and n != 'sort_method']
    nums = [n for n in doc if n != 'share_max_chunk_size'] + ['fxp_fraction_bits', 'max_concurrency']

    def blank(fld, unset):
        o = Obj(C)
        for n, t in types.items():
            if n == 'protocol':
                o.f[n] = 'E:SEMI2K'
            elif n == 'field':
                o.f[n] = fld
            elif n in modes:
                o.f[n] = 'E:' + next(x for x, _ in P.enums[t]['v'] if x.endswith('_DEFAULT')) if n in unset else ('mode', n)
            elif t == 'bool':
                o.f[n] = True
            elif t in ('long', 'int', 'unsigned long', 'unsigned int'):
                o.f[n] = 0 if n in unset else ('n', n)
            elif '_ptr' in t:
                o.f[n] = None
            else:
                o.f[n] = ('text', n)
        return o
    # values a user may set, around every number the code names
    ints = {int(x[2]) for x in walk(pop.body) if isinstance(x, list) and len(x) > 2 and x[0] == 'int' and str(x[2]).isdigit()}
    reps = sorted({1} | {c + d for c in ints for d in (-1, 0, 1) if c + d > 0})
    for fld in ('E:FM32', 'E:FM64', 'E:FM128'):
        for val, unset in [(v, set()) for v in reps] + [(None, u) for u in [set(), set(nums) | set(modes)] + [{n} for n in nums + modes]]:
            # the other modes: every enumerator that is not the default
            alts = [None] if len(unset) > 1 else [None] + [x for n in modes if n not in unset for x in [(n, 'E:' + y) for y, _ in P.enums[types[n]]['v'] if not y.endswith('_DEFAULT')]]
            for alt in alts:
                src = blank(fld, unset)
                if val is not None:
                    for n in nums:
                        src.f[n] = val
                for n in modes:
                    if n not in unset:
                        src.f[n] = 'E:' + next(y for y, _ in P.enums[types[n]]['v'] if not y.endswith('_DEFAULT'))
                if alt:
                    src.f[alt[0]] = alt[1]
                o = src.copy()
                e = CEv(P, lambda ev, name, g, obj, args: ('threads',) if name in ('get_num_threads', 'hardware_concurrency') else NO)
                try:
                    e.call(pop, None, [o])
                except Throw:
                    rep.finding('default:throws', where, 'populateRuntimeConfig rejects a configuration with protocol and field set')
                    return
                except Undecided as x:
                    rep.count('evaluations not decided')
                    rep.sample('undecided', 'populateRuntimeConfig: %s' % x)
                    continue
                rep.count('configurations completed')
                for n in types:
                    key = 'default:%s' % n
                    a, b = src.f[n], o.f[n]
                    if n not in unset:
                        if a != b:
                            rep.finding(key, where, 'populateRuntimeConfig replaces %s, which the user set, by %s' % (n, b))
                        else:
                            rep.good()
                    elif n in modes:
                        if isinstance(b, str) and default_name(b):
                            rep.finding(key, where, 'populateRuntimeConfig leaves %s undecided' % n)
                        else:
                            rep.good()
                    elif n == 'fxp_fraction_bits':
                        if b != FXP[fld]:
                            rep.finding(key, where, 'the default of fxp_fraction_bits for %s is %s, documented as %d' % (fld[2:], b, FXP[fld]))
                        else:
                            rep.good()
                    elif n == 'max_concurrency':
                        if b == 0:
                            rep.finding(key, where, 'populateRuntimeConfig leaves max_concurrency 0')
                        else:
                            rep.good()
                    elif b != doc[n]:
                        rep.finding(key, where, 'the default of %s is %s after populateRuntimeConfig and %s in RuntimeConfig' % (n, b, doc[n]))
                    else:
                        rep.good()
    if full is not None:
        rep.fn(full)
        src = blank('E:FM64', set(nums) | set(modes))
        keep = src.copy()
        try:
            r = CEv(P, lambda ev, name, g, obj, args: ('threads',) if name == 'get_num_threads' else NO).call(full, None, [src])
            if not isinstance(r, Obj) or any(src.f[n] != keep.f[n] for n in types):
                rep.finding('default:full', '%s:%d' % (full.f, full.l), 'makeFullRuntimeConfig changes its argument')
            elif any(r.f[n] == 0 for n in nums):
                rep.finding('default:full', '%s:%d' % (full.f, full.l), 'makeFullRuntimeConfig returns a configuration with unset options')
            else:
                rep.good()
        except (Undecided, Throw) as x:
            rep.count('evaluations not decided')
            rep.sample('undecided', 'makeFullRuntimeConfig: %s' % x)


# -- encoding --------------------------------------------------------------------------------------
class EncEv(OEv):
    """the element is the opaque number x in one region of the number line"""

    def __init__(self, P, region, bits=('n', 'fxp')):
        super().__init__(P, self.model)
        self.region, self.out, self.bits = region, [], bits

    def model(self, ev, name, g, obj, args):
        if name == 'new':
            ty = str(g[2])
            if 'NdArrayView' in ty:
                return ('view',)
            if 'NdArrayRef' in ty:
                return ('array',)
            if 'half' in ty and args:
                return ev.ex(args[0])
            return NO
        if name in ('isnan',):
            return self.region == 'nan'
        if name == 'pow' and len(args) == 2:
            a, b = ev.ex(args[0]), ev.ex(args[1])
            return a ** b if isinstance(a, int) and isinstance(b, int) and 0 <= b < 200 else ('pow', a, b)
        if name == 'pforeach':
            lam = next((x for x in args if isinstance(strip(x), list) and strip(x)[0] == 'lam'), None)
            if lam is None:
                return NO
            lam = strip(lam)
            lo, hi = ev.ex(args[0]), ev.ex(args[1])
            if lo != 0 or hi != ('numel',):
                self.out.append(('range', lo, hi))
            self.env[lam[2][0]] = ('idx',)
            if len(lam[2]) > 1:
                return NO
            self.lam(lam)
            return None
        if name == 'numel':
            return ('numel',)
        if name == 'get' and args and obj is not None:
            if ev.ex(args[0]) != ('idx',):
                return NO
            return ('x',)
        if name == 'set' and len(args) == 2:
            self.out.append(('set', ev.ex(args[0]), ev.ex(args[1])))
            return None
        if name in ('isa', 'eltype', 'makeType'):
            return True if name == 'isa' else ('ty',)
        if name == 'as':
            return ('ty',)
        if name == 'field':
            return self.fld
        if name in ('operator[]',) and args:
            v = ev.ex(args[0])
            if v == ('view',):
                return ('x',) if ev.ex(args[1]) == ('idx',) else NO
        if name.startswith('operator ') and obj is not None and ('float' in name or 'double' in name):
            return ev.ex(obj)
        if name in ('operator>=', 'operator<=', 'operator<', 'operator>') and len(args) == 2:
            return self.bin(name[8:], ev.ex(args[0]), ev.ex(args[1]))
        if name in ('isinf', 'isfinite') and self.region in ('nan', 'in'):
            return (name == 'isfinite') == (self.region == 'in')
        return NO

    def store(self, x, v):
        x = strip(x)
        if x[0] == 'op' and x[2] == '[]':
            b = self.ex(x[4][0])
            if b == ('view',):
                self.out.append(('set', self.ex(x[4][1]), v))
                return
        if x[0] == 'un' and x[2] == '*' or x[0] == 'op' and x[2] == '*':
            return
        super().store(x, v)

    def bin(self, o, a, b):
        def side(t):
            """which end of the range a bound is: value * 2^fxp"""
            if isinstance(t, tuple) and len(t) == 3 and t[0] == '/' and isinstance(t[1], int) and t[2] == ('<<', 1, self.bits):
                return 1 if t[1] > 0 else -1
            return None
        if o in ('<', '<=', '>', '>='):
            flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
            if b == ('x',) and a != ('x',):
                a, b, o = b, a, flip[o]
            if a == ('x',):
                s = side(b)
                if s is None:
                    raise Undecided('bound ' + str(b)[:40])
                self.bounds = getattr(self, 'bounds', {})
                self.bounds[s] = b[1]
                if self.region == 'nan':
                    return False
                if self.region == 'in':
                    return (o in ('<', '<=')) == (s == 1)
                if self.region == 'high':
                    return o in ('>', '>=')
                return o in ('<', '<=')
        if o == '&' and (a == ('x',) and b == 1 or b == ('x',) and a == 1) and self.region in ('odd', 'even', 'zero'):
            return 1 if self.region == 'odd' else 0
        if o in ('==', '!=') and a == ('x',) and b == 0 and self.region in ('odd', 'even', 'zero'):
            return (o == '==') == (self.region == 'zero')
        if o == '%' and a == ('x',) and b == 2 and self.region in ('even', 'zero'):
            return 0
        if o in ('==', '!=') and isinstance(a, tuple) and isinstance(b, int):
            raise Undecided('comparison')
        return super().bin(o, a, b)


SCALE = {('*', ('x',), ('<<', 1, ('n', 'fxp'))), ('*', ('<<', 1, ('n', 'fxp')), ('x',))}
UNSCALE = {('/', ('x',), ('<<', 1, ('n', 'fxp')))}


def encoding(P, rep):
    enc, dec = fn(P, 'spu::encodeToRing', 4), fn(P, 'spu::decodeFromRing', 5)
    for f in (enc, dec):
        if f is None:
            rep.count('codecs not found')
    pts = [n for n in names(P, 'spu::PtType')]
    decided = 0
    for fld in ('E:FM32', 'E:FM64', 'E:FM128'):
        k = digits(fld)
        for pt in pts if enc is not None else ():
            isf = pt.startswith('E:PT_F')
            for region in (('nan', 'high', 'low', 'in') if isf else ('in',)):
                e = EncEv(P, region)
                e.fld = fld
                where = '%s:%d' % (enc.f, enc.l)
                try:
                    e.call(enc, None, [Obj('bv', {'pt_type': pt, 'shape': ('shape',)}), fld, ('n', 'fxp'), None])
                except Throw:
                    continue
                except Undecided as x:
                    rep.count('encodings not decided')
                    rep.sample('undecided', 'encodeToRing(%s, %s, %s): %s' % (pt[2:], fld[2:], region, x))
                    continue
                decided += 1
                rep.count('encodings followed')
                key = 'encode:%s' % region if isf else 'encode:int'
                desc = 'encodeToRing: a %s %s into %s ' % ({'nan': 'NaN', 'high': 'too large', 'low': 'too small', 'in': 'representable'}[region], pt[5:], fld[2:])
                sets = [x for x in e.out if x[0] == 'set']
                if any(x[0] == 'range' for x in e.out) or len(sets) != 1 or sets[0][1] != ('idx',):
                    rep.finding(key, where, desc + 'is not stored exactly once per element')
                    continue
                v = sets[0][2]
                hi, lo = 2 ** (k - 2) - 1, -2 ** (k - 2)
                ok = v == 0 if region == 'nan' else v in SCALE if region == 'in' and isf else v == ('x',) if region == 'in' else v == (hi if region == 'high' else lo)
                b = getattr(e, 'bounds', {})
                if not ok:
                    rep.finding(key, where, desc + 'becomes %s' % term(v))
                elif isf and (b.get(1, hi) != hi or b.get(-1, lo) != lo):
                    rep.finding(key, where, desc + 'is recognised by the bounds %s' % sorted(b.values()))
                else:
                    rep.good()
        for d in names(P, 'spu::DataType') if dec is not None else ():
            isf = d.startswith('E:DT_F')
            for region in (('odd', 'even', 'zero') if d == 'E:DT_I1' else ('in',)):
                e = EncEv(P, region)
                e.fld = fld
                where = '%s:%d' % (dec.f, dec.l)
                try:
                    e.call(dec, None, [('array',), d, ('n', 'fxp'), ('bv',), None])
                except Throw:
                    continue
                except Undecided as x:
                    rep.count('encodings not decided')
                    rep.sample('undecided', 'decodeFromRing(%s, %s): %s' % (d[2:], fld[2:], x))
                    continue
                decided += 1
                rep.count('decodings followed')
                key = 'decode:' + ('bool' if d == 'E:DT_I1' else 'fxp' if isf else 'int')
                desc = 'decodeFromRing: a %s of %s ' % (d[5:], fld[2:])
                sets = [x for x in e.out if x[0] == 'set']
                if any(x[0] == 'range' for x in e.out) or len(sets) != 1 or sets[0][1] != ('idx',):
                    rep.finding(key, where, desc + 'is not stored exactly once per element')
                    continue
                v = sets[0][2]
                ok = (v in (True, 1) if region == 'odd' else v in (False, 0)) if d == 'E:DT_I1' else v in UNSCALE if isf else v == ('x',)
                if ok:
                    rep.good()
                else:
                    rep.finding(key, where, desc + 'becomes %s' % term(v))
    rep.need('encodings and decodings followed', decided, 20)


def term(v):
    if isinstance(v, tuple) and len(v) == 3:
        return '(%s %s %s)' % (term(v[1]), v[0], term(v[2]))
    if isinstance(v, tuple) and v:
        return str(v[-1])
    return str(v)
