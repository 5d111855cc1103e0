"""The Python bindings as a table: which C++ member each Python name stands for. libspu.cc is read as tokens (pybind11 is not installed here)."""
import os, re
import driver
from wire import short

NOT_EXPORTED = {('ProtocolKind', 'SWIFT')}   # experimental, commented out on purpose
TOK = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|\w+|::|->|[^\s\w]')


def tokens(path):
    with open(path) as f:
        t = f.read()
    t = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.S))
    out = []
    for ln, s in enumerate(t.split('\n'), 1):
        out += [(x, ln) for x in TOK.findall(s)]
    return out


def close(T, i):
    """index of the bracket matching T[i]"""
    pair = {'(': ')', '{': '}', '[': ']', '<': '>'}
    o, c, d = T[i][0], pair[T[i][0]], 0
    while i < len(T):
        if T[i][0] == o:
            d += 1
        elif T[i][0] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


def split(T):
    """arguments of a call: token lists"""
    out, cur, d, i = [], [], 0, 0
    while i < len(T):
        x = T[i][0]
        if x in '({[':
            j = close(T, i)
            cur += T[i:j + 1]
            i = j + 1
            continue
        if x == '<' and cur and re.match(r'\w+$', cur[-1][0]):
            try:
                j = close(T, i)
                if not any(y[0] in (';', '&&', '||') for y in T[i:j]):
                    cur += T[i:j + 1]
                    i = j + 1
                    continue
            except ValueError:
                pass
        if x == ',':
            out.append(cur)
            cur = []
        else:
            cur.append(T[i])
        i += 1
    if cur:
        out.append(cur)
    return out


def text(T):
    return ''.join((' ' if re.match(r'\w', x[0]) and i and re.match(r'\w', T[i - 1][0]) else '') + x[0] for i, x in enumerate(T))


def chains(T):
    """(kind, C++ type, [(method, template args, arguments, line)])"""
    names, out, i = {}, [], 0
    while i < len(T):
        x = T[i][0]
        if x in ('class_', 'enum_') and T[i + 1][0] == '<':
            j = close(T, i + 1)
            ty = text(split(T[i + 2:j])[0])
            kind = x
            i = j + 1
            if T[i][0] not in '({':
                names[T[i][0]] = ty
                i += 1
            calls = []
            i = close(T, i) + 1
        elif x in names and T[i + 1][0] == '.':
            kind, ty, calls = 'class_', names[x], []
            i += 1
        else:
            i += 1
            continue
        while i < len(T) and T[i][0] == '.':
            m, ln = T[i + 1]
            i += 2
            targ = []
            if T[i][0] == '<':
                j = close(T, i)
                targ = split(T[i + 1:j])
                i = j + 1
            j = close(T, i)
            calls.append((m, targ, split(T[i + 1:j]), ln))
            i = j + 1
        out.append((kind, ty, calls))
    return out


def unq(s):
    return s[1:-1] if s[:1] == '"' else None


def run(P, rep, msgs):
    path = os.path.join(driver.REPO, 'spu/libspu.cc')
    F = 'spu/libspu.cc'
    try:
        T = tokens(path)
        cs = chains(T)
    except (OSError, ValueError) as x:
        rep.count('bindings not read')
        rep.sample('undecided', 'bindings: %s' % x)
        return
    structs = {}
    for kind, ty, calls in cs:
        base = short(ty)
        cls = next((c for c in ('spu::' + ty, ty, 'spu::pb::' + base) if c in P.classes), None)
        if kind == 'enum_':
            q = next((c for c in ('spu::' + ty, ty) if c in P.enums), None)
            seen = set()
            for m, _, a, ln in calls:
                if m != 'value' or len(a) < 2:
                    continue
                py, cpp = unq(text(a[0])), text(a[1])
                rep.count('names exported to Python')
                seen.add(cpp.rsplit('::', 1)[-1])
                if py.lower() == cpp.rsplit('::', 1)[-1].lower() and (cpp.rsplit('::', 2)[-2:-1] in ([base], []) or '::'.join(ty.split('::')[:-1]) == cpp.rsplit('::', 1)[0]):
                    rep.good()
                else:
                    rep.finding('py:%s.%s' % (ty, py), '%s:%d' % (F, ln), 'Python: %s.%s is %s' % (ty, py, cpp))
            if q:
                for n, _ in P.enums[q]['v']:
                    if n not in seen and (ty, n) not in NOT_EXPORTED:
                        rep.finding('py:%s.%s:missing' % (ty, n), F, 'Python: %s has no %s' % (ty, n))
            continue
        bound = structs.setdefault(ty, set())
        for m, targ, a, ln in calls:
            where = '%s:%d' % (F, ln)
            if m in ('def_readwrite', 'def_readonly') and len(a) >= 2:
                py, cpp = unq(text(a[0])), text(a[1])
                rep.count('names exported to Python')
                bound.add(py)
                if cpp == '&%s::%s' % (ty, py):
                    rep.good()
                else:
                    rep.finding('py:%s.%s' % (ty, py), where, 'Python: %s.%s is %s' % (ty, py, cpp[1:]))
            elif m == 'def_property' and len(a) >= 2:
                py = unq(text(a[0]))
                rep.count('names exported to Python')
                bound.add(py)
                flds = {f[0] for f in msgs.get(base, ())}
                used = set()
                for part in a[1:]:
                    for i, t in enumerate(part):
                        if i and part[i - 1][0] in ('.', '->', '::'):
                            n = re.sub(r'^(set|mutable|clear|has|add)_', '', t[0])
                            if n in flds and part[i - 1][0] != '->' and (part[i - 2][0] in ('self', base)):
                                used.add(n)
                if not flds or used == {py} or not used:
                    rep.good()
                else:
                    rep.finding('py:%s.%s' % (ty, py), where, 'Python: %s.%s reads and writes %s' % (ty, py, ', '.join(sorted(used))))
            elif m == 'def' and a and text(a[0]).startswith('py::init<'):
                names = []
                for x in a[1:]:
                    s = re.match(r'py::arg\("(\w+)"\)', text(x))
                    if s:
                        names.append(s.group(1))
                if not names or cls is None:
                    continue
                ctors = [[g.vars[p][0] for p in g.params] for g in P.by_cls.get(cls, []) if g.name == base and g.params and len(g.params) == len(names)]
                rep.count('constructors exported to Python')
                if not ctors or names in ctors:
                    rep.good()
                    continue
                # an order of parameters that the constructor does not have
                for i, n in enumerate(names):
                    for c in ctors:
                        if n in c and c.index(n) != i:
                            rep.finding('py:%s(%s)' % (ty, n), where, 'Python: argument %s of %s is passed as %s' % (n, ty, c[i]))
            elif m == 'def' and a and text(a[0]).startswith('py::pickle'):
                pickle(P, rep, ty, a[0], where, F)
    for ty, bound in structs.items():
        cls = 'spu::' + ty
        m = msgs.get(short(ty))
        if cls in P.classes and m and bound & {f[0] for f in m}:
            want = {f[0] for f in P.classes[cls]['fields'] if not f[0].startswith('kDefault')}
        elif m and bound:
            want = {f[0] for f in m}
        else:
            continue
        for n in sorted(want - bound):
            rep.finding('py:%s.%s:missing' % (ty, n), F, 'Python: %s has no %s' % (ty, n))
    formats(rep, T, F)
    rep.need('names exported to Python', rep.counts.get('names exported to Python', 0), 80)


def pickle(P, rep, ty, a, where, F):
    t = text(a)
    rep.count('pickled classes')
    d = re.search(r'make_tuple\(([^()]*)\)', t)
    if d:
        dumped = [x.rsplit('.', 1)[-1].strip() for x in d.group(1).split(',')]
        order = [int(x) for x in re.findall(r'\bt\[(\d+)\]', t)]
        cls = [c for c in P.classes if short(c) == ty]
        fields = [f[0] for f in P.classes[cls[0]]['fields']] if cls else struct_fields(ty)
        named = dict((n, int(i)) for n, i in re.findall(r'\.(\w+)=\w+\[(\d+)\]', t))
        if named:
            bad = [n for n, i in named.items() if i >= len(dumped) or dumped[i] != n]
        else:
            bad = [f for f, i in zip(fields, order) if i >= len(dumped) or dumped[i] != f] if fields else []
        if bad or set(dumped) != set(fields or dumped):
            rep.finding('py:%s:pickle' % ty, where, 'Python: unpickling %s fills %s from another field' % (ty, ', '.join(bad) or 'not all fields'))
        else:
            rep.good()
        return
    if 'SerializeAsString' in t and 'ParseFromString' in t:
        rep.good()
    elif 'SerializeAsString' in t or 'ParseFromString' in t:
        rep.finding('py:%s:pickle' % ty, where, 'Python: %s is pickled in one form and unpickled from another' % ty)


def struct_fields(ty):
    t = ' '.join(x[0] for x in tokens(os.path.join(driver.REPO, 'spu/libspu.cc')))
    m = re.search(r'struct %s \{([^{}]*)\}' % ty, t)
    return [x.split('=')[0].split()[-1] for x in m.group(1).split(';') if x.strip() and '(' not in x] if m else None


def formats(rep, T, F):
    seen, back = {}, {}
    for i in range(len(T) - 4):
        a, b = T[i][0], T[i + 2][0]
        if T[i - 1][0] == '(' and T[i + 1][0] == ',' and b.startswith('PT_') and T[i + 3][0] == ')' and a[:1] == '"':
            py = unq(a)
            m = re.match(r'(int|uint|float|complex|bool)(\d*)$', py)
            rep.count('numpy formats')
            if not m:
                continue
            k, w = m.groups()
            want = {'int': 'PT_I', 'uint': 'PT_U', 'float': 'PT_F', 'complex': 'PT_CF', 'bool': 'PT_I1'}[k] + (str(int(w) // 2) if k == 'complex' else w)
            if b == want:
                rep.good()
            else:
                rep.finding('py:format:%s' % py, '%s:%d' % (F, T[i][1]), 'Python: a numpy array of %s is taken as %s' % (py, b))
