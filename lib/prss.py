"""pairwise random streams: which stream each party draws from, in which order and how much"""
import re
from program import walk, callee
from party import Session, Sym, RI, Lst, Obj, Giveup, first_arg, size

C = 'spu::mpc::PrgState::'
PRSS = {C + 'genPrssPair': 'a', C + 'fillPrssPair': 'f', C + 'genPrssPermPair': 'p', C + 'genPubl': 'pa', C + 'fillPubl': 'pf'}
BITS = {'FM32': 4, 'FM64': 8, 'FM128': 16}


def amount(t):
    """(coefficient, base term or None) of a size term; None when unknown"""
    if isinstance(t, bool):
        return None
    if isinstance(t, int):
        return (int(t), '')
    if not isinstance(t, str):
        return None
    t = str(t)
    m = re.match(r'^\((\*|<<|/|>>) ', t)
    if m:
        a, rest = first_arg(t)
        b = first_arg('(x ' + rest)[0] if rest else ''
        x, y = amount(conv(a)), amount(conv(b))
        if x is None or y is None:
            return None
        if m.group(1) == '*':
            if x[1] and y[1]:
                return (x[0] * y[0], ' '.join(sorted((x[1], y[1]))))
            return (x[0] * y[0], x[1] or y[1])
        if m.group(1) == '<<' and not y[1]:
            return (x[0] << min(y[0], 200), x[1])
        return None
    return (1, norm(t))


def conv(s):
    s = s.strip()
    return int(s) if re.match(r'^-?\d+$', s) else s


NUM = re.compile(r'^\((?:spu::)?(?:[\w:]*::)?(numel|shape|size)(?:<[^ ]*>)? ')


def norm(t):
    """the element count of a tensor, however it is spelled"""
    t = str(t)
    for _ in range(8):
        m = NUM.match(t)
        if not m:
            break
        t = first_arg(t)[0]
    return t


class Draws(Session):
    def __init__(self, P):
        super().__init__(P, PRSS)
        self.reach |= {f for f in P.funcs if f.q in PRSS}

    def special(self, p, n, f, obj, args, env):
        k = PRSS.get(f.q)
        if k is None:
            if args and f.repo and f.body is not None and not f.dep and all(isinstance(a, int) and not isinstance(a, bool) for a in args) and f.cls in (None, '') and len(list(walk(f.body))) < 60:
                return p.inline(f, args, n, env, obj)
            return super().special(p, n, f, obj, args, env)
        if k in ('a', 'pa'):
            fld, am = args[0], amount(args[1] if not isinstance(args[1], Lst) else shp(args[1]))
            el = BITS.get(str(fld).rsplit('::', 1)[-1], norm(fld) if isinstance(fld, str) else None)
        elif k == 'f':
            el, am = size(f.t[0]) if f.t else None, amount(args[2])
        elif k == 'pf':
            el, am = size(f.t[0]) if f.t else None, amount(args[0])
        else:
            el, am = 'perm', amount(args[0])
        if k.startswith('p') and k != 'p':
            p.ev.append(('publ', None, None, (el, am), n[1], p.fn))
            return Sym('PUB')
        ctl = args[-1] if k in ('a', 'f') else 'E:Both'
        ctl = str(ctl).rsplit('::', 1)[-1].replace('E:', '') if isinstance(ctl, str) else '?'
        if ctl not in ('First', 'Second', 'Both'):
            # which of the two is drawn is chosen at run time
            i = p.oracle.choose('cond', Sym('ctl ' + p.key(args[-1])), [0, 1, 2])
            ctl = ('Both', 'First', 'Second')[i]
        if ctl in ('First', 'Both'):
            p.ev.append(('self', None, None, (el, am), n[1], p.fn))
        if ctl in ('Second', 'Both'):
            p.ev.append(('next', None, None, (el, am), n[1], p.fn))
        return p.sym('PRSS', Sym(str(n[1])))


def shp(l):
    r = Sym('')
    c, syms = 1, []
    for x in l:
        if isinstance(x, int):
            c *= int(x)
        else:
            a = amount(x)
            if a is None:
                return None
            c *= a[0]
            if a[1]:
                syms.append(a[1])
    if not syms:
        return c
    t = ' '.join(sorted(syms))
    return Sym(f'(* {c} {t})') if len(syms) == 1 and c != 1 else Sym(t) if c == 1 and len(syms) == 1 else None


def differ(a, b):
    """True when the two amounts are certainly different"""
    (e1, m1), (e2, m2) = a, b
    if ('perm' in (e1, e2)) and e1 != e2:
        return True
    if m1 is None or m2 is None or e1 is None or e2 is None:
        return False
    if m1[1] != m2[1]:
        return False
    x1 = (m1[0] * e1, '') if isinstance(e1, int) else (m1[0], e1)
    x2 = (m2[0] * e2, '') if isinstance(e2, int) else (m2[0], e2)
    return x1[1] == x2[1] and x1[0] != x2[0]


def clash(evs):
    """the first place where linked streams get out of step: (message, event)"""
    n = len(evs)
    for i in range(n):
        j = (i + n - 1) % n
        a = [e for e in evs[i] if e[0] == 'self']
        b = [e for e in evs[j] if e[0] == 'next']
        for k, (x, y) in enumerate(zip(a, b)):
            if differ(x[3], y[3]):
                return f'draw {k + 1} from the stream that party {i} shares with party {j} has different sizes at the two parties', x
        if len(a) != len(b):
            e = (a if len(a) > len(b) else b)[min(len(a), len(b))]
            return f'party {i} draws {len(a)} times from the stream it shares with party {j}, which draws {len(b)} times: from then on their streams disagree', e
    p0 = [e for e in evs[0] if e[0] == 'publ']
    for i in range(1, n):
        p = [e for e in evs[i] if e[0] == 'publ']
        if len(p) != len(p0):
            q = p if len(p) > len(p0) else p0
            return f'party 0 draws {len(p0)} times from the public stream and party {i} {len(p)} times', q[min(len(p), len(p0))]
        for x, y in zip(p0, p):
            if differ(x[3], y[3]):
                return f'a draw from the public stream has different sizes at party 0 and party {i}', y
    return None
