"""What is written to a message, type string or table is read back as it was."""
import os, re
import driver, decide, wire, typetext, tables, chunks, binding
from decide import NO, Undecided, Throw
from wire import Obj, OEv, short, ancestry
from program import walk, callee, strip, show

RULE = ('every field of a configuration, option set, executable and value is stored in and read from the message field of the same name; enum values keep their name; '
        'a type\'s text holds all state its constructor sets and is parsed back to it; chunks are cut and joined at their offsets inside the tensor; '
        'type tables are mutually inverse; defaults fill exactly the options left unset')
EXPLAIN = ('Each writer is evaluated abstractly on an object whose fields are distinct tokens, for every combination of present and absent sub-messages; its counterpart is evaluated on the '
           'result and the fields compared. Tables are evaluated for every enumerator. The message definitions are read from spu.proto, the Python bindings as tokens. '
           'Chunk loops are compared as linear terms, and copies must be dominated by a bound on what they write.')
ASSUME = ['protobuf serialises and parses its own messages faithfully', 'pybind11 calls the accessors it is given']

SPU = 'libspu/spu.cc'
PBTY = {'int64': 'long', 'int32': 'int', 'uint64': 'unsigned long', 'uint32': 'unsigned int', 'bool': 'bool'}


# -- spu.proto ------------------------------------------------------------------------------------
def proto():
    with open(os.path.join(driver.SRC, 'libspu/spu.proto')) as f:
        t = re.sub(r'/\*.*?\*/', '', re.sub(r'//[^\n]*', '', f.read()), flags=re.S)
    toks = re.findall(r'"[^"]*"|[\w.]+|[{}=;,\[\]<>]', t)
    msgs, enums = {}, {}

    def block(i, path):
        fields, vals = [], []
        while toks[i] != '}':
            if toks[i] in ('message', 'enum'):
                nm, kind = toks[i + 1], toks[i]
                p = path + [nm]
                i, fs, vs = block(i + 3, p)
                (msgs if kind == 'message' else enums)['::'.join(p)] = fs if kind == 'message' else vs
            elif toks[i] in ('reserved', 'option', 'extensions'):
                while toks[i] != ';':
                    i += 1
                i += 1
            else:
                j = i
                while toks[j] != ';':
                    j += 1
                s = toks[i:j]
                if '[' in s:
                    s = s[:s.index('[')]
                if '=' in s:
                    e = s.index('=')
                    if e == 1:
                        vals.append((s[0], int(s[2], 0)))
                    else:
                        fields.append((s[e - 1], s[e - 2], s[0] == 'repeated', int(s[e + 1])))
                i = j + 1
        return i + 1, fields, vals
    i = 0
    while i < len(toks):
        if toks[i] in ('message', 'enum'):
            nm, kind = toks[i + 1], toks[i]
            i, fs, vs = block(i + 3, [nm])
            (msgs if kind == 'message' else enums)[nm] = fs if kind == 'message' else vs
        else:
            i += 1
    return msgs, enums


class W:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.msgs, self.enums = proto()

    def msgty(self, m, f):
        for nm, ty, r, _ in self.msgs.get(m, ()):
            if nm == f:
                return ty
        return None

    # message object: every field a slot; absent sub-messages are None
    def message(self, m, tok=None, present=True):
        o = Obj('pb::' + m)
        for nm, ty, rep, _ in self.msgs[m]:
            if tok is None:
                o.f[nm] = [] if rep else None if ty in self.msgs else ('zero',)
            elif rep:
                o.f[nm] = [tok + '.' + nm + '#0', tok + '.' + nm + '#1']
            elif ty in self.msgs:
                p = tok + '.' + nm
                o.f[nm] = self.message(ty, p, present) if present is True or p.split('.', 1)[1] in present else None
            else:
                o.f[nm] = tok + '.' + nm
        return o

    def struct(self, cls, tok, present):
        """an object of class cls with distinct tokens; optional parts exist where named in present"""
        o = Obj(cls)
        for f in self.P.classes[cls]['fields']:
            nm, ty = f[0], f[1]
            p = tok + '.' + nm
            sub = re.match(r'std::(?:shared|unique)_ptr<(spu::\w+)', ty)
            if f[1].startswith('static') or nm.startswith('kDefault'):
                continue
            if sub:
                o.f[nm] = self.struct(sub.group(1), p, present) if p.split('.', 1)[1] in present else None
            elif ty in self.P.classes and ty.startswith('spu::') and self.P.classes[ty]['fields']:
                o.f[nm] = self.struct(ty, p, present)
            elif 'std::vector' in ty:
                o.f[nm] = [p + '#0', p + '#1']
            else:
                o.f[nm] = p
        return o

    def prim(self, parse=None):
        """messages: accessors of the generated code; parsing fills the message with the tokens of `parse`"""
        def fill(o):
            if parse is not None:
                src = parse(o.cls[4:])
                o.f.clear()
                o.f.update(src.f)

        def h(ev, name, g, obj, args):
            q = g.q if g is not None and hasattr(g, 'q') else ''
            if name == 'new':
                m = str(g[2]).replace('spu::pb::', '') if isinstance(g, list) else ''
                if m in self.msgs and 'spu::pb::' in str(g[2]):
                    a = [ev.ex(x) for x in args]
                    return a[0].copy() if a and isinstance(a[0], Obj) else self.message(m)
                if 'string' in str(g[2]) or 'vector' in str(g[2]) or '_ptr' in str(g[2]):
                    a = [ev.ex(x) for x in args if not (isinstance(x, list) and x and x[0] == 'new' and 'allocator' in str(x[2]))]
                    if len(a) == 2 and isinstance(a[0], tuple) and a[0][:1] == ('it',):
                        return list(a[0][1]) if a[0][1] is a[1][1] else NO
                    return a[0] if a else ([] if 'vector' in str(g[2]) else None)
                return NO
            if 'JsonStringToMessage' in name:
                for x in args:
                    v = None
                    try:
                        v = ev.ex(x)
                    except Undecided:
                        continue
                    if isinstance(v, Obj):
                        if parse is None:
                            return ('status', False)
                        fill(v)
                        return ('status', True)
                return NO
            if name == 'ok' and obj is not None:
                v = ev.ex(obj)
                return v[1] if isinstance(v, tuple) and v[0] == 'status' else NO
            if name == 'operator=' and len(args) == 2 and isinstance(strip(args[1]), list) and strip(args[1])[0] in ('list', 'initlist'):
                return NO
            if obj is None or not isinstance(obj, list):
                return NO
            try:
                o = ev.ex(obj)
            except Undecided:
                return NO
            if isinstance(o, list):
                if name in ('begin', 'cbegin'):
                    return ('it', o, 0)
                if name in ('end', 'cend'):
                    return ('it', o, 1)
                if name in ('push_back', 'emplace_back', 'Add') and len(args) == 1:
                    o.append(ev.ex(args[0]))
                    return None
                if name in ('clear', 'Clear'):
                    del o[:]
                    return None
                if name in ('reserve', 'Reserve'):
                    return None
                if name == 'size':
                    return len(o)
                if name in ('assign', 'CopyFrom'):
                    a = [ev.ex(x) for x in args]
                    o[:] = list(a[0][1]) if isinstance(a[0], tuple) else list(a[0])
                    return None
            if not isinstance(o, Obj) or not o.cls.startswith('pb::'):
                return NO
            m = o.cls[4:]
            if name in ('ParseFromString', 'ParseFromArray'):
                if parse is None:
                    return False
                fill(o)
                return True
            if name in ('SerializeAsString',):
                return ('ser', o)
            if name == 'DebugString':
                return ('debug', o)
            if name == 'CopyFrom':
                s = ev.ex(args[0])
                o.f = s.copy().f
                return None
            for pre in ('set_', 'mutable_', 'has_', 'add_', 'clear_', ''):
                nm = name[len(pre):]
                ty = self.msgty(m, nm) if name.startswith(pre) else None
                if ty is None:
                    continue
                if pre == 'set_':
                    o.f[nm] = ev.ex(args[0])
                    return None
                if pre == 'has_':
                    return o.f[nm] is not None
                if pre == 'clear_':
                    o.f[nm] = self.message(m).f[nm]
                    return None
                if pre == 'add_':
                    o.f[nm].append(ev.ex(args[0]))
                    return None
                if ty in self.msgs and not isinstance(o.f[nm], list):
                    if pre == 'mutable_':
                        if o.f[nm] is None:
                            o.f[nm] = self.message(ty)
                        return o.f[nm]
                    return o.f[nm] if o.f[nm] is not None else self.message(ty)
                return o.f[nm]
            return NO
        return h

    def ev(self, parse=None):
        base = self.prim(parse)
        e = OEv(self.P, base)
        old = e.obj_hook

        def hook(ev, n):
            # calls whose overload needs a newer protobuf than the one installed
            if n[0] == 'x' and len(n) > 3 and isinstance(n[3], list) and n[3] and isinstance(n[3][0], list) and n[3][0] and n[3][0][0] == 'fref':
                fr = n[3][0]
                if len(fr) > 3 and hasattr(fr[2], 'name'):
                    r = base(ev, fr[2].name, fr[2], fr[3], n[3][1:])
                    if r is not NO:
                        return r
            if n[0] == 'asg' or n[0] == 'op' and n[2] == '=':
                rhs = strip(n[4]) if n[0] == 'asg' else strip(n[4][1])
                if isinstance(rhs, list) and rhs and rhs[0] in ('list', 'initlist', 'new') and ('vector' in str(rhs[2]) or rhs[0] != 'new'):
                    items = rhs[2] if rhs[0] != 'new' else rhs[4]
                    if isinstance(items, list):
                        vals = [ev.ex(x) for x in items if not (isinstance(x, list) and x and x[0] == 'new' and 'allocator' in str(x[2]))]
                        if len(vals) == 2 and all(isinstance(v, tuple) and v[:1] == ('it',) for v in vals):
                            ev.store(n[3] if n[0] == 'asg' else n[4][0], list(vals[0][1]))
                            return None
            return old(n)
        e.hook = hook
        return e


def tail(v, root):
    return v[len(root) + 1:] if isinstance(v, str) and v.startswith(root + '.') else v


def flat(o, pre=''):
    """field path -> value; absent sub-objects as None"""
    out = {}
    for k, v in o.f.items():
        if isinstance(v, Obj):
            out.update(flat(v, pre + k + '.'))
        else:
            out[pre + k] = v
    return out


PAIRS = [('RuntimeConfig', 'spu::RuntimeConfig'), ('ClientSSLConfig', 'spu::ClientSSLConfig'), ('TTPBeaverConfig', 'spu::TTPBeaverConfig'), ('CheetahConfig', 'spu::CheetahConfig'),
         ('CompilerOptions', 'spu::CompilerOptions'), ('ExecutableProto', 'spu::ExecutableProto'), ('CompilationSource', 'spu::CompilationSource')]


def sfields(P, cls):
    return [f for f in P.classes[cls]['fields'] if not f[0].startswith('kDefault')]


def schema(w):
    """struct fields and message fields are the same set, with types that hold the same values; enums agree by name and number"""
    P, rep = w.P, w.rep
    for m, cls in PAIRS:
        if m not in w.msgs or cls not in P.classes:
            rep.finding('schema:' + m, 'libspu/spu.proto', '%s is no longer defined in both spu.proto and spu.h' % m)
            continue
        pf = {f[0]: f for f in w.msgs[m]}
        sf = {f[0]: f for f in sfields(P, cls)}
        for nm in sorted(set(pf) | set(sf)):
            rep.count('fields compared')
            key = 'schema:%s.%s' % (m, nm)
            if nm not in sf:
                rep.finding(key, 'libspu/spu.h', 'message %s has a field %s, struct %s does not' % (m, nm, cls))
            elif nm not in pf:
                rep.finding(key, 'libspu/spu.proto', 'struct %s has a field %s, message %s does not: it is lost when serialised' % (cls, nm, m))
            else:
                want, got = PBTY.get(pf[nm][1]), sf[nm][1]
                if want and want != got:
                    rep.finding(key, 'libspu/spu.h', '%s.%s is %s in the message but %s in the struct' % (m, nm, pf[nm][1], got))
                else:
                    rep.good()
        nums = {}
        for f in w.msgs[m]:
            if nums.setdefault(f[3], f[0]) != f[0]:
                rep.finding('tag:%s.%s' % (m, f[0]), 'libspu/spu.proto', 'fields %s and %s of %s share the number %d' % (f[0], nums[f[3]], m, f[3]))
    for e, vals in w.enums.items():
        q = 'spu::' + e
        if q not in P.enums:
            rep.finding('enum:' + e, 'libspu/spu.h', 'enum %s of spu.proto has no counterpart in spu.h' % e)
            continue
        a, b = dict(vals), {n: v for n, v in P.enums[q]['v']}
        for n in sorted(set(a) | set(b)):
            rep.count('enumerators compared')
            if a.get(n) != b.get(n):
                rep.finding('enum:%s.%s' % (e, n), 'libspu/spu.h', 'enumerator %s of %s is %s in spu.proto and %s in spu.h: the number cast between them changes its meaning'
                            % (n, e, a.get(n), b.get(n)))
            else:
                rep.good()


def subsets(xs):
    out = [set()]
    for x in xs:
        out += [s | {x} for s in out]
    return out


def writers(w):
    """(struct class, function, kind)"""
    P = w.P
    for f in P.funcs:
        if not f.body or f.f != SPU:
            continue
        if f.cls in ('spu::RuntimeConfig', 'spu::CompilerOptions', 'spu::ExecutableProto'):
            if f.name in ('SerializeAsString', 'ToProto', 'DebugString'):
                yield f.cls, f, 'write'
            elif f.name.startswith('ParseFrom'):
                yield f.cls, f, 'read'
            elif f.name == short(f.cls) and len(f.params) == 1 and 'pb::' in f.vars[f.params[0]][1]:
                yield f.cls, f, 'init'


def optional(P, w, cls, pre=''):
    """paths of sub-messages that can be absent"""
    m = short(cls)
    out = []
    for nm, ty, rep, _ in w.msgs.get(m, ()):
        if ty in w.msgs:
            out.append(pre + nm)
            out += optional(P, w, 'spu::' + ty, pre + nm + '.')
    return out


def pointers(P, cls, pre=''):
    out = []
    for f in sfields(P, cls):
        s = re.match(r'std::(?:shared|unique)_ptr<(spu::\w+)', f[1])
        if s:
            out.append(pre + f[0])
            out += pointers(P, s.group(1), pre + f[0] + '.')
    return out


def closed(s):
    return all(not ('.' in x) or x.rsplit('.', 1)[0] in s for x in s)


def roundtrip(w):
    P, rep = w.P, w.rep
    n = 0
    for cls, f, kind in writers(w):
        n += 1
        m = short(cls)
        where = '%s:%d' % (f.f, f.l)
        rep.fn(f)
        if kind == 'write':
            for pres in subsets(pointers(P, cls)):
                if not closed(pres):
                    continue
                src = w.struct(cls, 'src', pres)
                extra = None
                try:
                    e = w.ev()
                    guard = conf_guards(f, e, src)
                    r = e.call(f, src, [])
                except (Undecided, Throw) as x:
                    rep.count('evaluations not decided')
                    rep.sample('undecided', '%s: %s' % (f.q, x))
                    continue
                o = r[1] if isinstance(r, tuple) else r
                if not isinstance(o, Obj):
                    rep.finding('write:%s:none' % f.q, where, '%s does not return the message it fills' % f.q)
                    continue
                rep.count('evaluations')
                got = flat(o)
                want = {tail(v, 'src') if isinstance(v, str) else k: v for k, v in flat(src).items()}
                for k, v in flat(src).items():
                    rep.count('fields followed')
                    if v is None:
                        if any(g == k or g.startswith(k + '.') for g in got if got[g] is not None and not got[g] == ('zero',)):
                            rep.finding('write:%s:%s' % (f.q, k), where, '%s writes %s although it is absent' % (f.q, k))
                        else:
                            rep.good()
                        continue
                    if k not in got or got[k] is None:
                        par = k
                        while '.' in par and got.get(par, 0) == 0:
                            par = par.rsplit('.', 1)[0]
                    if got.get(k) == v or str(got.get(k)) == str(v):
                        rep.good()
                    else:
                        rep.finding('write:%s:%s' % (f.q, k), where, '%s leaves field %s of the message %s%s' %
                                    (f.q, k, 'unset' if got.get(k) in (None, ('zero',), []) else 'set from ' + str(tail(got.get(k), 'src')), ' when %s present' % ', '.join(sorted(pres)) if pres else ''))
        else:
            for ok in ((True, False) if kind == 'read' else (True,)):
                for pres in subsets(optional(P, w, cls)):
                    if not closed(pres) or not ok and pres:
                        continue
                    msg = lambda mm: w.message(mm, 'msg', pres)
                    dst = w.struct(cls, 'old', set(pointers(P, cls)))
                    try:
                        e = w.ev(msg if ok else None)
                        r = e.call(f, dst, [msg(m)] if kind == 'init' else [('data',)])
                    except (Undecided, Throw) as x:
                        rep.count('evaluations not decided')
                        rep.sample('undecided', '%s: %s' % (f.q, x))
                        continue
                    rep.count('evaluations')
                    if kind == 'read' and bool(r) is not ok:
                        rep.finding('read:%s:result' % f.q, where, '%s returns %s when the data %s' % (f.q, r, 'parses' if ok else 'does not parse'))
                        continue
                    got, want = flat(dst), {}
                    if not ok:
                        if any(isinstance(v, str) and not v.startswith('old.') for v in got.values()):
                            rep.finding('read:%s:partial' % f.q, where, '%s changes the object although the data does not parse' % f.q)
                        else:
                            rep.good()
                        continue
                    src = flat(w.message(m, 'msg', pres))
                    for k in sorted(set(x for x in flat(w.struct(cls, 'old', set(pointers(P, cls)))))):
                        rep.count('fields followed')
                        par, absent = k, False
                        while True:
                            if par in src and src[par] is None:
                                absent = True
                            if '.' not in par:
                                break
                            par = par.rsplit('.', 1)[0]
                        v = got.get(k)
                        if v is None and any(g in got and got[g] is None for g in prefixes(k)):
                            v = None
                        key = 'read:%s:%s' % (f.q, k)
                        if absent:
                            if isinstance(v, str) and v.startswith('old.'):
                                if kind == 'init':
                                    rep.good()
                                    continue
                                rep.finding(key, where, '%s keeps the previous %s when the data has none' % (f.q, k))
                            elif isinstance(v, str) and v.startswith('msg.'):
                                rep.finding(key, where, '%s sets %s from %s, which is absent' % (f.q, k, tail(v, 'msg')))
                            else:
                                rep.good()
                            continue
                        exp = 'msg.' + k
                        if v == exp or isinstance(v, list) and v == [exp + '#0', exp + '#1']:
                            rep.good()
                        else:
                            rep.finding(key, where, '%s reads %s from %s' % (f.q, k, 'nothing: it keeps its previous value' if isinstance(v, str) and v.startswith('old.') or v is None
                                                                             else tail(v, 'msg') if isinstance(v, str) else v))
    rep.need('message writers and readers', n, 8)


def prefixes(k):
    while '.' in k:
        k = k.rsplit('.', 1)[0]
        yield k


def conf_guards(f, e, src):
    """the Cheetah settings are only meaningful, and only written, for that protocol"""
    if 'cheetah_2pc_config' in src.f:
        src.f['protocol'] = 'E:CHEETAH'
    return True


def equality(w):
    """two option sets are equal when all their fields are"""
    P, rep = w.P, w.rep
    for m, cls in PAIRS:
        for f in P.by_cls.get(cls, []):
            if f.name != 'operator==' or not f.body or len(f.params) != 1:
                continue
            rep.fn(f)
            a = w.struct(cls, 'o', set(pointers(P, cls)))
            for nm in [None] + [x[0] for x in sfields(P, cls)]:
                b = a.copy()
                if nm:
                    b.f[nm] = ['other'] if isinstance(b.f[nm], list) else 'other'
                try:
                    r = w.ev().call(f, a, [b])
                except (Undecided, Throw) as x:
                    rep.count('evaluations not decided')
                    rep.sample('undecided', '%s: %s' % (f.q, x))
                    continue
                rep.count('comparisons evaluated')
                if bool(r) is (nm is None):
                    rep.good()
                else:
                    rep.finding('equal:%s:%s' % (cls, nm), '%s:%d' % (f.f, f.l), '%s: two values that %s compare as %s' %
                                (f.q, 'differ in ' + nm if nm else 'hold the same', 'equal' if r else 'different'))


def run(P, rep):
    w = W(P, rep)
    schema(w)
    roundtrip(w)
    equality(w)
    typetext.run(P, rep)
    tables.tables(P, rep)
    tables.defaults(P, rep)
    tables.encoding(P, rep)
    chunks.run(w)
    binding.run(P, rep, w.msgs)
