"""Texts as sequences of characters and opaque parts; share types written to and read from them."""
import itertools
from decide import NO, Undecided, Throw
from wire import Obj, OEv, short, ancestry
from program import walk, callee, strip, show

NPOS = 18446744073709551615
ENUMS = ('spu::FieldType', 'spu::PtType')
# state that may be lost: the share is authenticated again by the first kernel that needs its MAC
DERIVABLE = {('spu::mpc::spdz2k::AShrTy', 'has_mac_')}


class Txt:
    """a text: characters, ('num', v), ('name', enum, v), ('other', v). Opaque parts contain no punctuation."""
    def __init__(self, a):
        self.a = tuple(a)

    def __eq__(self, o):
        return isinstance(o, Txt) and self.a == o.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return ''.join(x if isinstance(x, str) else '<%s>' % (x[-1],) for x in self.a)


def txt(v):
    return v if isinstance(v, Txt) else Txt(v) if isinstance(v, str) else None


class TEv(OEv):
    def __init__(self, P, types):
        super().__init__(P, self.model)
        self.types, self.owner = types, None

    def bin(self, o, a, b):
        # an opaque number is none of the numbers named in the code
        if o in ('==', '!=') and any(isinstance(x, tuple) and x[:1] == ('n',) for x in (a, b)) and any(isinstance(x, int) for x in (a, b)):
            return o == '!='
        return super().bin(o, a, b)

    def enumerator(self, e, v):
        for n, x in self.P.enums[e]['v']:
            if x == v:
                return n
        return None

    def printed(self, v, node):
        ty = typeof(self, node)
        for e in ENUMS:
            if ty is not None and e in ty:
                return (('name', e, v),) if by_name(self.P, e) else (('other', v),)
        if isinstance(v, (Txt, str)):
            return txt(v).a
        if isinstance(v, bool):
            return ('true' if v else 'false',)
        return (('num', v),)

    def model(self, ev, name, g, obj, args):
        q = g.q if g is not None and hasattr(g, 'q') else ''
        if name == 'new':
            ty = str(g[2])
            if 'string' in ty:
                a = [ev.ex(x) for x in args if not (isinstance(x, list) and x and x[0] == 'new' and 'allocator' in str(x[2]))]
                return txt(a[0]) if a and txt(a[0]) is not None else Txt(()) if not a else NO
            if ty == 'spu::Type':
                a = [ev.ex(x) for x in args]
                if len(a) == 1 and isinstance(a[0], Obj):
                    return a[0]
            if 'lock' in ty:
                return None
            return NO
        if name == 'enum_name' and 'magic_enum' in q:
            e = next((x for x in ENUMS if x in str(g.t)), None)
            return Txt((('name', e, ev.ex(args[0])),))
        if name == 'enum_cast' and 'magic_enum' in q:
            e = next((x for x in ENUMS if x in str(g.t)), None)
            v = txt(ev.ex(args[0]))
            if v is None or e is None:
                return NO
            if len(v.a) == 1 and isinstance(v.a[0], tuple) and v.a[0][:2] == ('name', e):
                return ('some', v.a[0][2])
            return None
        if name == 'format' and q.startswith('fmt::') and args:
            f = args[0]
            while isinstance(f, list) and f and f[0] == 'new':
                f = f[4][0]
            f = strip(f)
            if f[0] != 'str':
                raise Undecided('format')
            out, rest, i = [], list(args[1:]), 0
            s = str(f[2])
            while i < len(s):
                if s[i:i + 2] == '{}':
                    if not rest:
                        raise Throw()
                    n = rest.pop(0)
                    out += self.printed(ev.ex(n), n)
                    i += 2
                elif s[i:i + 2] in ('{{', '}}'):
                    out.append(s[i])
                    i += 2
                elif s[i] in '{}':
                    raise Undecided('format ' + s)
                else:
                    out.append(s[i])
                    i += 1
            return Txt(out)
        if name in ('stoul', 'stoull', 'stoi', 'stol', 'stoll') and args:
            v = txt(ev.ex(args[0]))
            if v is None:
                return NO
            if not v.a or not isinstance(v.a[0], tuple) or v.a[0][0] != 'num':
                raise Throw()
            return v.a[0][1]
        if name == 'to_string' and q.startswith('std::'):
            return Txt((('num', ev.ex(args[0])),))
        if name in ('StrCat', 'StrJoin', 'StrSplit', 'operator+') and 'absl' in q:
            if name == 'StrCat':
                out = []
                for a in args:
                    out += self.printed(ev.ex(a), a)
                return Txt(out)
            return NO
        if name == 'operator+' and len(args) == 2:
            a, b = [ev.ex(x) for x in args]
            if txt(a) is not None and (txt(b) is not None):
                return Txt(txt(a).a + txt(b).a)
            return NO
        if name in ('operator==', 'operator!=') and len(args) == 2:
            a, b = [ev.ex(x) for x in args]
            if isinstance(a, (Txt, str)) and isinstance(b, (Txt, str)):
                return (txt(a) == txt(b)) == (name == 'operator==')
            return NO
        if name in ('getTypeCreateFunction',):
            v = txt(ev.ex(args[0]))
            hit = [c for c, i in self.types.items() if i == v]
            if not hit:
                raise Throw()
            if len(hit) > 1 and self.owner in hit:
                hit = [self.owner]
            return ('creator', hit[0])
        if name == 'operator()' and args:
            v = ev.ex(args[0])
            if isinstance(v, tuple) and v and v[0] == 'creator':
                return self.parse(v[1], ev.ex(args[1]))
            return NO
        if name == 'getTypeContext':
            return ('ctx',)
        if name in ('getId', 'getStaticId') and (obj is None or name == 'getStaticId'):
            return NO
        if isinstance(obj, list) and obj:
            try:
                o = ev.ex(obj)
            except Undecided:
                return NO
            if name == 'getId' and isinstance(o, Obj) and o.cls in self.types:
                return self.types[o.cls]
            if isinstance(o, tuple) and o and o[0] == 'some' or o is None and name in ('has_value', 'value', 'operator bool'):
                if name in ('has_value', 'operator bool'):
                    return o is not None
                if name in ('value', 'operator*'):
                    if o is None:
                        raise Throw()
                    return o[1]
            if isinstance(o, (Txt, str)):
                t = txt(o)
                a = [ev.ex(x) for x in args]
                if name in ('find_first_of', 'find', 'find_last_of', 'rfind'):
                    c = a[0]
                    if isinstance(c, int):
                        c = chr(c)
                    elif isinstance(c, Txt):
                        c = ''.join(x for x in c.a if isinstance(x, str))
                    idx = [i for i, x in enumerate(t.a) if isinstance(x, str) and (x in c if 'of' in name else x == c)]
                    if not idx:
                        return NPOS
                    return idx[-1] if name in ('find_last_of', 'rfind') else idx[0]
                if name == 'substr':
                    p = a[0] if a else 0
                    n = a[1] if len(a) > 1 else NPOS
                    if not isinstance(p, int) or not isinstance(n, int):
                        raise Undecided('substr')
                    p &= NPOS
                    if p > len(t.a):
                        raise Throw()
                    return Txt(t.a[p:p + n])
                if name in ('length', 'size'):
                    return len(t.a)
                if name == 'empty':
                    return not t.a
                if name in ('back', 'front') and t.a:
                    x = t.a[-1 if name == 'back' else 0]
                    return ord(x) if isinstance(x, str) else 0
                if name in ('remove_prefix', 'remove_suffix', 'pop_back'):
                    n = a[0] if a else 1
                    ev.store(obj, Txt(t.a[n:] if name == 'remove_prefix' else t.a[:len(t.a) - n]))
                    return None
                if name in ('operator basic_string_view', 'c_str', 'data') or name.startswith('operator basic_string_view'):
                    return t
        return NO

    def parse(self, cls, text):
        o = self.blank(cls)
        g = self.resolve(cls, 'fromString', 1)
        if g is None:
            raise Undecided('fromString of ' + cls)
        self.call(g, o, [text])
        return o

    def blank(self, cls):
        """the object a default constructor leaves: fields nobody set hold a marker"""
        o = Obj(cls)
        for c in ancestry(self.P, cls):
            for f in (self.P.classes.get(c) or {'fields': []})['fields']:
                o.f[f[0]] = ('unset', f[0])
        for g in self.P.by_cls.get(cls, []):
            if g.name == short(cls) and not g.params and g.body is not None and g.l:
                self.call(g, o, [])
        return o

    def build(self, cls, g, args):
        o = self.blank(cls)
        self.call(g, o, args)
        return o


def typeof(ev, n):
    """the type of an expression that is formatted"""
    n = strip(n)
    if not isinstance(n, list) or not n:
        return None
    if n[0] in ('mem', 'enum', 'call', 'mcall', 'op', 'cast'):
        if n[0] == 'cast':
            return str(n[2])
        return str(n[5] if n[0] in ('call', 'mcall', 'op') else n[4])
    return None


_BN = {}


def by_name(P, e):
    """printing a value of this enum prints the enumerator's name"""
    if e not in _BN:
        gs = [g for g in P.funcs if g.name == 'operator<<' and g.body and len(g.params) == 2 and g.vars[g.params[1]][1].replace('const ', '').rstrip(' &') == e]
        _BN[e] = bool(gs) and all(any(callee(c) is not None and callee(c).name == 'enum_name' for c in walk(g.body) if isinstance(c, list) and c and c[0] == 'call')
                                  and not any(isinstance(c, list) and c and c[0] == 'str' for c in walk(g.body)) for g in gs)
    return _BN[e]


def run(P, rep):
    classes = sorted(c for c in P.classes if not c.startswith('spu::TypeImpl') and c != 'spu::TypeObject' and 'spu::TypeObject' in ancestry(P, c) and not c.endswith('Test'))
    types, where = {}, {}
    ev = TEv(P, types)
    for c in classes:
        g = ev.resolve(c, 'getStaticId', 0)
        try:
            i = ev.call(g, None, [])
        except (Undecided, Throw, AttributeError):
            rep.count('type identifiers not decided')
            continue
        types[c] = txt(i)
        where[c] = '%s:%d' % (g.f, g.l)
    reg = set()
    for f in P.funcs:
        if f.name in ('addTypes', 'addType') and f.q.startswith('spu::TypeContext::'):
            reg |= {str(t).replace('(anon)::', '') for t in (f.t or ())}
    byid = {}
    for c in sorted(types):
        rep.count('share and value types')
        if types[c] in byid:
            rep.finding('type:%s:id' % c, where[c], '%s and %s have the same identifier %s: a value of one is read back as the other' % (byid[types[c]], c, types[c]))
        else:
            byid[types[c]] = c
            rep.good()
        if c.replace('(anon)::', '') not in reg:
            rep.finding('type:%s:registered' % c, where[c], '%s is never registered: the text of such a type cannot be read' % c)
        else:
            rep.good()
    for c in sorted(types):
        ctors = [g for g in P.by_cls.get(c, []) if g.name == short(c) and g.body is not None and not (len(g.params) == 1 and short(c) in g.vars[g.params[0]][1])]
        ctors = [g for g in ctors if g.params or not any(h.params for h in ctors)] or [None]
        for g in ctors:
            one(P, rep, ev, c, g)
    # Type: the identifier in front, equality compares identifier and state
    outer(P, rep, ev, types)
    rep.need('share and value types', len(types), 15)


def domain(P, g, p):
    ty = g.vars[p][1].replace('const ', '').rstrip(' &')
    if ty in ENUMS:
        return ['E:' + n for n, v in P.enums[ty]['v'] if n not in ('PT_INVALID', 'FT_INVALID', 'PT_CF32', 'PT_CF64')]
    if ty == 'bool':
        return [False, True]
    return [('n', g.vars[p][0]), ('n', g.vars[p][0] + "'"), 0]


def one(P, rep, ev, c, g):
    where = '%s:%d' % ((g.f, g.l) if g is not None else (P.classes[c]['f'], 0))
    objs = []
    for args in itertools.product(*[domain(P, g, p) for p in (g.params if g is not None else [])]):
        ev.owner, ev.limit = c, 40000
        ev.limit = 40000
        try:
            o = ev.build(c, g, list(args)) if g is not None else ev.blank(c)
        except Throw:
            continue
        except Undecided as x:
            rep.count('types not decided')
            rep.sample('undecided types', '%s: %s' % (c, x))
            return
        objs.append((args, o))
        rep.count('type values followed')
        stage = 'writing'
        try:
            s = ev.call(ev.resolve(c, 'toString', 0), o, [])
            stage = 'reading'
            r = ev.parse(c, s)
        except Throw:
            rep.finding('type:%s:text' % c, where, '%s: %s its own text throws' % (c, stage))
            return
        except (Undecided, AttributeError) as x:
            rep.count('types not decided')
            rep.sample('undecided types', '%s: %s' % (c, x))
            return
        for n in sorted(o.f):
            if (c, n) in DERIVABLE:
                continue
            if o.f[n] != r.f.get(n):
                rep.finding('type:%s:%s' % (c, n), where, '%s: reading its text %s does not restore %s' % (c, s, n))
            else:
                rep.good()
    if g is None:
        return
    eq = ev.resolve(c, 'equals', 1)
    for i, (a, o) in enumerate(objs):
        for b, p in objs[:: max(1, len(objs) // 12)]:
            if sum(x != y for x, y in zip(a, b)) > 1:
                continue
            diff = [n for n in o.f if o.f[n] != p.f[n] and (c, n) not in DERIVABLE]
            try:
                r = ev.call(eq, o, [p])
            except (Undecided, Throw, AttributeError):
                rep.count('type comparisons not decided')
                continue
            rep.count('type comparisons')
            if bool(r) != (not diff):
                rep.finding('type:%s:equals' % c, '%s:%d' % (eq.f, eq.l), '%s: equals is %s for values that differ in %s' % (c, r, ', '.join(diff) or 'nothing'))
                return
            rep.good()


def outer(P, rep, ev, types):
    ts, fs, eq = ev.resolve('spu::Type', 'toString', 0), ev.resolve('spu::Type', 'fromString', 1), [g for g in P.by_cls.get('spu::Type', []) if g.name == 'operator==']
    objs = []
    for c in sorted(types):
        for g in P.by_cls.get(c, []):
            if g.name == short(c) and g.body is not None and g.params and short(c) not in g.vars[g.params[0]][1]:
                try:
                    o = ev.build(c, g, [domain(P, g, p)[-1] for p in g.params])
                except (Undecided, Throw):
                    continue
                t = Obj('spu::Type', {'model_': o, 'cached_model_size_': ('size',)})
                objs.append((c, t))
                break
    for c, t in objs:
        ev.owner, ev.limit = c, 40000
        try:
            s = ev.call(ts, t, [])
            r = ev.call(fs, None, [s])
        except Throw:
            rep.finding('type:Type:text', '%s:%d' % (fs.f, fs.l), 'Type: the text of a %s cannot be read' % c)
            continue
        except (Undecided, AttributeError) as x:
            rep.count('types not decided')
            rep.sample('undecided types', 'Type of %s: %s' % (c, x))
            continue
        if isinstance(r, Obj) and r.cls == c:
            rep.good()
        else:
            rep.finding('type:Type:text', '%s:%d' % (fs.f, fs.l), 'Type: the text %s of a %s is read as a %s' % (s, c, getattr(r, 'cls', r)))
    for c, a in objs:
        ev.limit = 40000
        for d, b in objs:
            if not eq or types[c] == types[d] and c != d:
                continue
            try:
                r = ev.call(eq[0], a, [b])
            except (Undecided, Throw):
                if c != d:
                    rep.count('type comparisons not decided')
                continue
            rep.count('type comparisons')
            if bool(r) != (c == d):
                rep.finding('type:Type:equals', '%s:%d' % (eq[0].f, eq[0].l), 'Type: a %s and a %s compare as %s' % (c, d, 'equal' if r else 'different'))
                return
            rep.good()
