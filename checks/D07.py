RULE = ('for every body handed to pforeach / parallel_for / parallel_reduce / std::async: a store that leaves the iteration (resolved through views, references, pointers and '
        'local lambdas) has a subscript that separates the iterations; no packed bits are stored; nothing is read at an element another iteration stores; no object is changed by a task '
        'and used by its creator, or by a sibling task, before the task is awaited')
EXPLAIN = ('Every instance of every body the source hands to the thread pool is walked. Each store (assignment, compound assignment, ++, mutating call, standard algorithm destination, '
           'reference argument of a repository function that assigns it) is resolved to the object it lands in and the subscripts on the way; subscripts are evaluated in a linear domain '
           'over the loop index (idx*c + inner + k, idx/c, idx%c, table[idx], unknown). For std::async the stores of the task are compared with the accesses of the statements its creator '
           'runs until the future is awaited. Only definite conflicts are reported; stores with an unresolved subscript are counted.')
ASSUME = ['a subscript idx*c + j keeps j below c, and a table subscripted by the index is injective', 'two differently named buffers do not overlap', 'library calls (link, PRG objects owned by one iteration) are thread safe per object']
import os
from collections import Counter
import races
from program import walk


def run(P, rep):
    mut = races.mutation_oracle(P)
    seen, nolam, und = set(), Counter(), {}
    for f, call, lam, style in races.bodies(P):
        rep.count('parallel_body_instances')
        if lam is None:
            nolam[(f.f, call[1])] += 1
            continue
        rep.fn(f)
        b = races.Body(P, f, lam, style, mut)
        seen.add((f.f, call[1]))
        vs = b.verdicts()
        if not vs:
            rep.good(f'{f.f}:{call[1]} {f.q}: {len(b.stores)} stores separated')
        for line, msg, k in vs:
            rep.finding(f'{f.q} {k}', f'{f.f}:{line}', f'{f.q}: {msg}')
        for line, s in b.undec:
            und[(f.f, line)] = s
        rep.count('stores_resolved', len(b.stores))
    rep.count('stores_undecided_sites', len(und))
    rep.count('sites_without_visible_body', len(nolam))
    nt = set()
    for f, call, lam, rest, inloop, var in races.tasks(P):
        nt.add((f.f, call[1]))
        if lam is None:
            rep.count('tasks_without_lambda')
            continue
        rep.fn(f)
        t = races.Task(P, f, lam[2], lam[4], lam[3], mut)
        bad = False
        W = {}
        for line, l, what, g in t.stores:
            if not g and l.root[0] in ('var', 'this', 'glob'):
                W.setdefault(l.root, (line, l, what))
                # several instances of the same task
                if inloop and not any(s.kind != 'lin' or s.ci != 0 or s.L for s in l.subs) and not any(x[0] == 'var' for x in ()):
                    v = l.root[1] if l.root[0] == 'var' else None
                    if not _subscripted_by_param(l, t):
                        rep.finding(f'{f.q} task {t.name(l)}', f'{f.f}:{line}', f'{f.q}: {t.name(l)} is changed by every one of the concurrent tasks ({what})')
                        bad = True
        if rest and W:
            me = races.Task(P, f, [], ['block', rest[0][1], rest], [], mut)
            uses = [(line, l) for line, l, w, g in me.stores if not g] + me.reads
            for line, l in uses:
                if l.root in W and _overlap(W[l.root][1], l):
                    rep.finding(f'{f.q} async {t.name(l)}', f'{f.f}:{line}', f'{f.q}: {t.name(l)} is used while the task started at line {call[1]} changes it (line {W[l.root][0]})')
                    bad = True
        # a use by the task of what the creator changes meanwhile
        if rest:
            me = races.Task(P, f, [], ['block', rest[0][1], rest], [], mut)
            R = {}
            for line, l in t.reads:
                R.setdefault(l.root, (line, l))
            for line, l, w, g in me.stores:
                if not g and l.root in R and l.root[0] == 'var' and _overlap(R[l.root][1], l):
                    rep.finding(f'{f.q} async {t.name(l)}', f'{f.f}:{line}', f'{f.q}: {t.name(l)} is changed while the task started at line {call[1]} reads it (line {R[l.root][0]})')
                    bad = True
        if not bad:
            rep.good(f'{f.f}:{call[1]} {f.q}: task changes {len(W)} captured objects', 'tasks')
    if os.environ.get('DBG'):
        for k, v in und.items():
            print('UND', k, v)
        print(nolam)
    rep.need('parallel_sites', len(seen), 120)
    rep.need('async_sites', len(nt), 8)


def _subscripted_by_param(l, t):
    return False


def _overlap(a, b):
    """two accesses of one object that may not be disjoint elements"""
    for x, y in zip(a.subs, b.subs):
        if x.const() and y.const() and 'K' not in (x.k, y.k) and x.k != y.k:
            return False
    return True
