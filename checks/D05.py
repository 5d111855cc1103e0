"""D05 operations declared free do not communicate"""
import kernels as K
from program import callee, walk, show

RULE = 'effect analysis: the kernels whose declared rounds and traffic are the constant zero and whose cost is declared fixed must have no call path to a communication primitive'
EXPLAIN = ('For every kernel class the declared latency/traffic expressions and cost kind are read from its methods; for those declaring constant zero with a fixed cost, the transitive calls of its evaluation method '
           'are searched for sends, receives and collectives.')
ASSUME = ['calls are resolved statically; kernels reach communication only through the communicator or link objects']
PURE = {'getStats', 'setStats', 'getWorldSize', 'getRank', 'getState', 'lctx', 'kBindName', 'nextRank', 'prevRank', 'addCommStatsManually', 'fork', 'Communicator', 'genName', 'Rank', 'WorldSize', 'PrevRank', 'NextRank',
        'Id', 'GetStats', 'Spawn', 'SubWorld', 'SetThrottleWindowSize', 'SetRecvTimeout', 'GetRecvTimeout'}
# turning one party's private data into another form has to move it; these declare no cost for it
PRIVATE = {'v2p', 'v2s', 'v2a'}


def comm_call(n):
    c = callee(n)
    if c is None or '~' in c.name:
        return None
    if (c.q.startswith('spu::mpc::Communicator::') or c.q.startswith('yacl::link::')) and c.name not in PURE:
        return c
    return None


def reach(f, memo, seen):
    if f in memo:
        return memo[f]
    if f in seen:
        return None
    r = None
    for n in walk(f.body):
        c = comm_call(n)
        if c is not None:
            r = [(f, n[1], c.q)]
            break
    if r is None:
        for n in walk(f.body):
            c = callee(n)
            if c is not None and c.repo and c.body is not None and not c.q.startswith('spu::mpc::Communicator::') and not c.dep:
                x = reach(c, memo, seen | {f})
                if x:
                    r = [(f, n[1], c.q)] + x
                    break
    memo[f] = r
    return r


def zero(f):
    """the method returns the constant-zero cost on every return"""
    if f is None or f.body is None:
        return False
    rs = [x[2] for x in walk(f.body) if x[0] == 'ret']
    ok = bool(rs)
    for r in rs:
        cs = [x for x in walk(r) if callee(x) is not None and callee(x).q.startswith('spu::ce::')]
        ok &= bool(cs) and all(callee(x).name in ('Const', 'CExpr') for x in cs) and all(int(x[2]) == 0 for x in walk(r) if x[0] == 'int') and any(x[0] == 'int' for x in walk(r))
    return ok


def run(P, rep):
    names = K.bind_names(P)
    memo, nz, nk = {}, 0, 0
    for c in sorted(K.kernel_classes(P)):
        if any('_test' in k['f'] for k in P.cls_q.get(c, ())):
            continue
        own = [f for f in P.by_cls.get(c, ()) if f.name in ('proc', 'evaluate') and f.body is not None]
        if not own:
            continue
        nk += 1
        kd = K.method(P, c, 'kind')
        dyn = kd is not None and kd.body is not None and any(n[0] == 'enum' and str(n[2]).endswith('Dynamic') for n in walk(kd.body))
        z = zero(K.method(P, c, 'comm')) and zero(K.method(P, c, 'latency'))
        if not z or dyn:
            continue
        nz += 1
        r = None
        for f in own:
            rep.fn(f)
            r = r or reach(f, memo, frozenset())
        if not r:
            rep.good(f'{c}: no communication reachable')
        elif names.get(c) in PRIVATE:
            rep.count('single-party conversions that move private data')
        else:
            f, l, q = r[-1]
            rep.finding(f'{c}|{q}', f'{f.f}:{l}', f'{c} is declared free of communication but reaches {q} via ' + ' -> '.join(x[0].name for x in r))
    rep.count('kernel classes examined', nk)
    rep.need('kernels declared free', nz, 150)
