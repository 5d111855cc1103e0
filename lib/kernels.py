"""Facts about the kernel layer: kernel classes, bind names, per-protocol registrations, dispatch sites."""
import re
from program import walk, callee, cargs, strip, kids
from driver import Broken


def anc(P, c, seen=None):
    seen = set() if seen is None else seen
    for b in P.bases.get(c, ()):
        if b not in seen:
            seen.add(b)
            anc(P, b, seen)
    return seen


def norm_type(t):
    if t is None:
        return None
    t = re.sub(r'\bconst\b', '', t).replace('&', '').strip()
    return re.sub(r'\s+', ' ', t)


def str_of(P, n, fn=None, depth=0):
    """set of constant strings an expression may denote (None if unknown)"""
    n = strip(n)
    if n is None or depth > 6:
        return None
    k = n[0]
    if k == 'str':
        return {n[2]}
    if k == 'glob' and isinstance(n[4], str):
        return {n[4]}
    if k == 'glob':
        for (q, _), g in P.globals.items():
            if q == n[2] and g['const']:
                return str_of(P, g['init'], None, depth + 1)
        for c in P.classes.values():
            for s in c['statics']:
                if c['q'] + '::' + s[0] == n[2] and isinstance(s[1], str):
                    return {s[1]}
        return None
    if k == 'new' and n[4]:
        return str_of(P, n[4][0], fn, depth + 1)
    if k == 'cast':
        return str_of(P, n[3], fn, depth + 1)
    if k == 'cond':
        a, b = str_of(P, n[3], fn, depth + 1), str_of(P, n[4], fn, depth + 1)
        return a | b if a and b else None
    if k in ('call', 'mcall') and callee(n) is not None and callee(n).body is not None:
        f = callee(n)
        out = set()
        for x in walk(f.body):
            if x[0] == 'ret':
                s = str_of(P, x[2], f, depth + 1)
                if s is None:
                    return None
                out |= s
        return out or None
    if k == 'var' and fn is not None and n[2] in fn.vars:
        defs = []
        if n[2] in (fn.params or []):
            return None
        for x in walk(fn.body):
            if x[0] == 'decl':
                defs += [y[1] for y in x[2] if y[0] == n[2] and y[1] is not None]
            elif x[0] == 'asg' and strip(x[3]) == n or (x[0] == 'op' and x[2] == '=' and strip(x[4][0])[0] == 'var' and strip(x[4][0])[2] == n[2]):
                defs.append(x[4] if x[0] == 'asg' else x[4][1])
        out = set()
        for d in defs:
            s = str_of(P, d, fn, depth + 1)
            if s is None:
                return None
            out |= s
        return out or None
    return None


def kernel_classes(P):
    return {c for c in P.bases if 'spu::Kernel' in anc(P, c)}


def bind_names(P):
    out = {}
    for c in P.bases:
        for f in P.by_cls.get(c, ()):
            if f.name == 'kBindName':
                r = [str_of(P, n[2], f) for n in walk(f.body) if n[0] == 'ret']
                if r and r[0]:
                    out[c] = sorted(r[0])[0]
    for c, cl in P.cls_q.items():
        for k in cl:
            for s in k['statics']:
                if s[0] == 'kBindName' and isinstance(s[1], str):
                    out[c] = s[1]
    return out


def resolve_cls(P, t, file):
    t = t if t in P.bases else t.split('<')[0]
    loc = [c for c in P.bases if c.replace('(anon)::', '') == t and '(anon)' in c and any(k['f'] == file for k in P.cls_q.get(c, ()))]
    if loc:
        return loc[0]
    return t


def method(P, c, name, pred=None):
    """nearest definition of a method along the base chain"""
    seen, q = set(), [c]
    while q:
        x = q.pop(0)
        if x in seen:
            continue
        seen.add(x)
        for f in P.by_cls.get(x, ()):
            if f.name == name and (pred is None or pred(f)):
                return f
        q += P.bases.get(x, [])
    return None


def registrations(P, root):
    """[(bindname, kernel class, guards, fn, line)] reachable from a protocol's registration entry"""
    names = bind_names(P)
    out = []

    def visit(f, guards, stack):
        if f in stack or f.body is None:
            return

        def go(n, g):
            if n is None:
                return
            if n[0] in ('if', 'ifc'):
                go(n[2], g)
                go(n[3], g)
                go(n[4], g + ((id(n), 1, n[3]),))
                go(n[5], g + ((id(n), 0, n[3]),))
                return
            if n[0] == 'switch':
                for i, c in enumerate(kids(n[3]) if n[3] else []):
                    go(c, g + ((id(n), ('case', i), n[2]),))
                return
            c = callee(n)
            if c is not None and n[0] in ('call', 'mcall'):
                if c.q == 'spu::Object::regKernel':
                    lit = None
                    if n[4]:
                        lit = str_of(P, n[4][0], f)
                        if lit is None:
                            raise Broken(f'kernel registered under a computed name at {f.f}:{n[1]}')
                    ts = list(c.t)
                    if not ts and len(n[4]) == 2:
                        m = re.search(r'unique_ptr<([\w:]+)', str(n[4][1]))
                        ts = ['?']
                        for x in walk(n[4][1]):
                            y = callee(x)
                            if y is not None and y.q == 'std::make_unique' and y.t:
                                ts = [y.t[0]]
                    for t in ts:
                        cl = resolve_cls(P, t, f.f)
                        nm = sorted(lit)[0] if lit else names.get(cl)
                        if nm is None:
                            raise Broken(f'no bind name known for kernel {t} registered at {f.f}:{n[1]}')
                        out.append((nm, cl, g, f, n[1]))
                elif c.repo and c.body is not None and any('SPUContext' in p or 'spu::Object' in p for p in c.p):
                    visit(c, g, stack | {f})
            for x in kids(n):
                go(x, g)
        go(f.body, guards)
    visit(root, (), frozenset())
    return out


def exclusive(g1, g2):
    d1 = {a: b for a, b, _ in g1}
    return any(a in d1 and d1[a] != b for a, b, _ in g2)


def protocol_roots(P):
    out = {}
    for f in P.by_q.get('spu::mpc::Factory::RegisterProtocol', []):
        for n in walk(f.body):
            c = callee(n)
            if n[0] == 'call' and c is not None and c.repo and c.body is not None and any('SPUContext' in p for p in c.p):
                m = re.match(r'reg(\w+?)Protocol$', c.name)
                out[(m.group(1) if m else c.name).lower()] = c
    for f in P.by_q.get('spu::mpc::regSpdz2kProtocol', []):
        out.setdefault('spdz2k', f)
    return out


def dispatch_sites(P):
    """[(name, ret type, [arg types], fn, line, via)]"""
    out, dyn = [], []
    wrappers = {}  # Fn -> (param position of the name, [(ret,args)])
    for f in P.funcs:
        if f.q.startswith('spu::dynDispatch') or f.dep:
            continue
        for n in walk(f.body):
            c = callee(n)
            if n[0] == 'call' and c is not None and c.q == 'spu::dynDispatch':
                t = [norm_type(x) for x in c.t]
                s = str_of(P, n[4][1], f)
                if s:
                    for x in s:
                        out.append((x, t[0], t[1:], f, n[1], None))
                else:
                    a = n[4][1]
                    v = [x for x in walk(a) if x[0] == 'var']
                    pos = [i for i, p in enumerate(f.params) if v and p == v[0][2]]
                    # a lambda capture or copy of a parameter keeps the same variable
                    if not pos and v:
                        for x in walk(f.body):
                            if x[0] == 'lam':
                                for a2, b2, e2 in x[3]:
                                    if a2 == v[0][2] and e2 is not None:
                                        for y in walk(e2):
                                            if y[0] == 'var' and y[2] in f.params:
                                                pos = [f.params.index(y[2])]
                            if x[0] == 'decl':
                                for y in x[2]:
                                    if y[0] == v[0][2] and y[1] is not None:
                                        for z in walk(y[1]):
                                            if z[0] == 'var' and z[2] in f.params:
                                                pos = [f.params.index(z[2])]
                    if not pos:
                        raise Broken(f'dispatch under a name this analysis cannot resolve at {f.f}:{n[1]}')
                    wrappers.setdefault(f, (pos[0], []))[1].append((t[0], t[1:]))
    for _ in range(3):
        new = {}
        for f in P.funcs:
            for n in walk(f.body):
                c = callee(n)
                if n[0] in ('call', 'mcall') and c in wrappers and not f.dep:
                    pos, sigs = wrappers[c]
                    s = str_of(P, n[4][pos], f)
                    if s:
                        for x in s:
                            for r, a in sigs:
                                if (x, r, a, f, n[1], c) not in out:
                                    out.append((x, r, a, f, n[1], c))
                    else:
                        v = [x for x in walk(n[4][pos]) if x[0] == 'var' and x[2] in (f.params or [])]
                        if v and f not in wrappers:
                            new[f] = (f.params.index(v[0][2]), sigs)
        if not new:
            break
        wrappers.update(new)
    return out
