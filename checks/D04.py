"""D04 all parties communicate in step"""
import party
from party import Session, simulate, Giveup

RULE = ('session-type style projection: the communication events of every party are extracted from the code by following its control flow once per party rank, '
        'and the resulting event sequences must fit together: every send meets the next receive on the same ordered pair, every collective is entered by all parties, nobody is left waiting')
EXPLAIN = ('For every protocol routine that communicates and is not called by another communicating routine, the event sequence (kind, peer, label, element type, root, reduction; '
           'oblivious transfers as two-sided rendezvous) of each party is derived per joint choice of the rank-independent conditions, then the parties\' sequences are played against each other.')
ASSUME = ['messages between two parties are delivered in order (the link layer\'s contract)', 'rank-independent conditions evaluate alike at all parties; loops are followed once unless their bounds are constants below 9',
          'the homomorphic-encryption and oblivious-transfer-extension internals, whose message counts depend on packing arithmetic, are not decided']
INNER = ('libspu/mpc/cheetah/arith/', 'libspu/mpc/cheetah/rlwe/', 'libspu/mpc/cheetah/ot/emp/', 'libspu/mpc/cheetah/ot/yacl/', 'libspu/mpc/spdz2k/ot/', 'libspu/mpc/common/communicator')


def sizes(f, deep):
    if any(x in f.f for x in ('/aby3/', '/securenn/', '/swift/')):
        return [3]
    if '/cheetah/' in f.f:
        return [2]
    if '/spdz2k/' in f.f:
        return [2]
    return [2, 3, 4] if deep else [2, 3]


def run(P, rep):
    S = Session(P)
    deep = rep.tier == 'thorough'
    cap = 4000 if deep else 300

    def top(f):
        return not any(g in S.reach and g is not f and not g.dep for g in S.rev.get(f, ()))
    roots = [f for f in P.funcs if f in S.reach and f.f.startswith('libspu/mpc/') and not f.dep and top(f) and '_test' not in f.f and not f.f.startswith(INNER)
             and '~' not in f.name and not f.f.endswith('simulate.h')]
    nroot = 0
    for f in sorted(roots, key=lambda f: (f.f, f.l)):
        for n in sizes(f, deep):
            k = thrown = und = ev = bad = 0
            fns = set()
            S.thrown = {}
            try:
                for out, val, amb in S.runs(f, n, cap):
                    k += 1
                    if out is None:
                        thrown += 1
                        continue
                    ev = max(ev, sum(map(len, out)))
                    fns |= {e[5] for o in out for e in o}
                    m = simulate(out)
                    if not m:
                        continue
                    if amb or any(e[5] is not None and e[5].f.startswith(INNER) for o in out for e in o):
                        und += 1
                        continue
                    g = m[1][5] or f
                    bad += 1
                    rep.finding(f'{f.q}|{g.q}|{m[0]}', f'{g.f}:{m[1][4]}', f'{f.q} with {n} parties: {m[0]}')
            except Giveup as e:
                rep.count('roots explored only in part')
                rep.sample('explored in part', f'{f} n={n}: {e}')
            except RecursionError:
                rep.count('roots undecided')
                rep.sample('undecided', f'{f}: recursion')
                continue
            rep.count('joint runs', k)
            rep.count('joint runs not decided', und)
            rep.count('joint runs that end in an exception at some party', thrown)
            rep.fn(f)
            for g in fns:
                if g is not None:
                    rep.fn(g)
            if k - thrown - und > 0 and ev:
                nroot += 1
                rep.count('events', ev)
                if not bad:
                    rep.good(f'{f.q} n={n}: {k} joint runs, up to {ev} events')
            else:
                rep.count('roots undecided')
                rep.sample('undecided', f'{f} n={n} runs={k} thrown={thrown} undecided={und} events={ev}', 12)
    rep.need('protocol routines decided', nroot, 60)
