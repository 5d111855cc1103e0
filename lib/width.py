"""Integer widths of expressions and the conversions between them, per source site over all template instantiations."""
import re
from program import callee, walk, show, strip

W = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, '__int128': 128, 'unsigned __int128': 128,
     'unsigned char': 8, 'char': 8, 'signed char': 8, 'unsigned short': 16, 'short': 16, 'bool': 1}


def width(t):
    return W.get(re.sub(r'\bconst\b|&', '', t if isinstance(t, str) else str(t)).strip())


def bare(n):
    while n is not None and n[0] == 'copy':
        n = n[2]
    return n


def etype(f, n):
    n = bare(n)
    if n is None:
        return None
    k = n[0]
    if k == 'var':
        return f.vars.get(n[2], ('', None))[1]
    if k in ('bin', 'asg', 'op', 'call', 'mcall', 'idx', 'mem', 'bind', 'un', 'cond'):
        return n[-1]
    if k == 'glob':
        return n[3]
    if k == 'cast':
        return n[2]
    if k == 'int':
        return n[-1] if len(n) > 3 else 'int'
    return None


def conversions(f):
    """(expression, type it is used as, what uses it)"""
    lam = {}
    for n in walk(f.body):
        if n[0] == 'lam':
            for x in walk(n[4]):
                if x[0] == 'ret':
                    lam[id(x)] = n
    for n in walk(f.body):
        k = n[0]
        if k == 'bin' and n[2] in ('+', '-', '*', '/', '&', '|', '^', '%'):
            yield n[3], n[5], 'operand'
            yield n[4], n[5], 'operand'
        elif k == 'asg':
            yield n[4], etype(f, n[3]), 'assignment'
        elif k == 'op' and n[2] in ('=', '+=', '-=', '^=', '|=', '&=') and len(n[4]) == 2:
            yield n[4][1], etype(f, n[4][0]), 'assignment'
        elif k == 'cast':
            yield n[3], n[2], 'cast'
        elif k == 'decl':
            for y in n[2]:
                if y[1] is not None and y[0] in f.vars:
                    yield y[1], f.vars[y[0]][1], 'initialiser'
        elif k in ('call', 'mcall', 'new'):
            c = callee(n)
            if c is not None:
                for a, t in zip(n[4], c.p):
                    yield a, t, 'argument of ' + c.name
        elif k == 'ret' and id(n) not in lam and n[2] is not None:
            yield n[2], f.r, 'return value'


def shape(n):
    s = show(n)
    for _ in range(4):
        s = re.sub(r'<[^<>]*>', '', s)
    return re.sub(r'\d+', '#', s)[:90]


def small(n, w, f, depth=0):
    """an explicit mask, remainder or shift keeps the value inside w bits"""
    n = strip(n)
    if n is None or depth > 6:
        return False
    k = n[0]
    if k == 'int':
        return 0 <= int(n[2]) < 1 << w
    if k == 'cast':
        t = width(n[2])
        return t is not None and t <= w or small(n[3], w, f, depth + 1)
    t = width(etype(f, n) or '')
    if t is not None and t <= w:
        return True
    if k == 'bin':
        if n[2] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '%', '&'):
            return True
        if n[2] in ('^', '|'):
            return small(n[3], w, f, depth + 1) and small(n[4], w, f, depth + 1)
        if n[2] == '>>':
            a = strip(n[4])
            if a is not None and a[0] == 'bin' and a[2] == '-' and strip(a[3])[0] == 'var' and strip(a[4])[0] == 'int' and int(strip(a[4])[2]) <= min(w, 8):
                # the top bits, counted from a width
                return True
            return a is not None and a[0] == 'int' and t is not None and int(a[2]) >= t - w
    if k == 'un' and n[2] == '!':
        return True
    return False
