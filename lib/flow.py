"""Structured control-flow helpers shared by the rules."""
from program import kids, walk, callee, strip


def truth(n, ev):
    """three-valued evaluation of a condition; ev(n) decides atoms (True/False/None)"""
    n = strip(n)
    if n is None:
        return None
    r = ev(n)
    if r is not None:
        return r
    k = n[0]
    if k == 'un' and n[2] == '!':
        x = truth(n[3], ev)
        return None if x is None else not x
    if k == 'bin' and n[2] in ('&&', '||'):
        a, b = truth(n[3], ev), truth(n[4], ev)
        if n[2] == '&&':
            return False if a is False or b is False else (True if a and b else None)
        return True if a is True or b is True else (False if a is False and b is False else None)
    if k == 'int':
        return int(n[2]) != 0
    if k == 'cast' and isinstance(n[3], list):
        return truth(n[3], ev)
    return None


def reach(n, ev, out):
    """collect every node reachable under ev into out; returns True if control can fall through n"""
    if n is None:
        return True
    k = n[0]
    out.append(n)
    if k == 'block':
        for x in n[2]:
            if not reach(x, ev, out):
                return False
        return True
    if k in ('if', 'ifc'):
        reach(n[2], ev, out)
        reach(n[3], ev, out)
        t = truth(n[3], ev)
        a = reach(n[4], ev, out) if t is not False else False
        b = (reach(n[5], ev, out) if n[5] is not None else True) if t is not True else False
        return a or b
    if k in ('ret', 'throw'):
        reach(n[2], ev, out)
        return False
    if k in ('break', 'cont'):
        return False
    if k == 'do':
        r = reach(n[2], ev, out)
        reach(n[3], ev, out)
        c = strip(n[3])
        if c is not None and c[0] == 'int' and int(c[2]) == 0:
            return r or any(x[0] == 'break' for x in walk(n[2]))
        return True
    if k == 'cond':
        reach(n[2], ev, out)
        t = truth(n[2], ev)
        if t is not False:
            reach(n[3], ev, out)
        if t is not True:
            reach(n[4], ev, out)
        return True
    if k == 'lam':
        for x in kids(n):
            reach(x, ev, out)
        return True
    for x in kids(n):
        reach(x, ev, out)
    return True


def reach_nodes(body, ev):
    out = []
    reach(body, ev, out)
    return out


def must_exit(n):
    """a statement that never falls through (returns or throws on every path)"""
    return not reach(n, lambda x: None, [])


def events_on_paths(body, is_event, cap=2):
    """set of (#events capped) possible at normal exits; throw exits are ignored. Loops: 0..cap iterations."""
    def seq(xs, ins):
        cur, done = ins, set()
        for x in xs:
            c2, d = go(x, cur)
            done |= d
            cur = c2
        return cur, done

    def go(n, ins):
        # ins: set of counts reaching n; returns (counts falling through, counts at returns)
        if n is None or not ins:
            return ins, set()
        k = n[0]
        if k == 'block':
            return seq(n[2], ins)
        if k in ('if', 'ifc'):
            ins, d0 = seq([n[2], n[3]], ins)
            a, d1 = go(n[4], ins)
            b, d2 = go(n[5], ins) if n[5] is not None else (ins, set())
            return a | b, d0 | d1 | d2
        if k == 'ret':
            a, d = go(n[2], ins)
            return set(), d | a
        if k == 'throw':
            return set(), set()
        if k in ('for', 'rfor', 'while', 'do'):
            c = strip(n[3]) if k == 'do' else None
            if c is not None and c[0] == 'int' and int(c[2]) == 0:
                return go(n[2], ins)
            cur, done = set(ins), set()
            for _ in range(cap + 1):
                a, d = seq(kids(n), cur)
                done |= d
                cur = cur | a
            return cur, done
        if k == 'cond':
            ins, d0 = go(n[2], ins)
            a, d1 = go(n[3], ins)
            b, d2 = go(n[4], ins)
            return a | b, d0 | d1 | d2
        if k == 'try':
            a, d = go(n[2], ins)
            for h in n[3]:
                b, e = go(h[2], ins | a)
                a, d = a | b, d | e
            return a, d
        if k == 'switch':
            ins, d = go(n[2], ins)
            a, d2 = go(n[3], ins)
            return a | ins, d | d2
        if k == 'lam':
            return ins, set()
        cur, d = seq(kids(n), ins)
        if is_event(n):
            cur = {min(cap, x + 1) for x in cur}
        return cur, d
    a, d = go(body, {0})
    return a | d


def defs_of(fn, v):
    """defining expressions of a local variable: initialisers and assignments"""
    out = []
    for x in walk(fn.body):
        if x[0] == 'decl':
            out += [y[1] for y in x[2] if y[0] == v and y[1] is not None]
        elif x[0] == 'asg':
            l = strip(x[3])
            if l is not None and l[0] == 'var' and l[2] == v:
                out.append(x[4])
        elif x[0] == 'op' and x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>=') and x[4]:
            l = strip(x[4][0])
            if l is not None and l[0] == 'var' and l[2] == v:
                out.append(x[4][1])
    return out
