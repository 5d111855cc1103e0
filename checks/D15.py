"""State that several threads of one party may touch is only touched under its lock."""
import locks
from program import walk, kids, callee, cargs, strip, show

RULE = ('lock-set dataflow over every function: for each class that owns a mutex or once_flag, each field written after construction has one lock of the class held at every access (exclusively for writes); the same for '
        'every mutable global, static member and static local (or it is atomic / thread-local / never written); no function takes a lock its caller holds on the same object, the lock-order graph is acyclic; every condition '
        'wait has a predicate and holds its mutex, every notify follows a critical section on that mutex with nothing in between, and notify_one is not used on a condition variable that is reached through a pointer; kernel objects, which all forks '
        'of a context share, never write their own members')
EXPLAIN = ('Guards are followed from their declaration through scope ends and lock()/unlock(); call_once bodies are exclusive regions and code after the call reads what it published. Lambdas handed to std::async / std::thread start '
           'with no lock, other lambdas inherit. Helper methods inherit what all of their call sites hold. Constructors, destructors and code before the first thread of an object is started are exempt.')
ASSUME = ['a member written once inside call_once may be read under any lock of its class: the data that leads a reader there was stored under that lock after the call_once',
          'the callbacks of one brpc stream (ProgressiveReader::OnReadOnePart / OnEndOfMessage) run one after another; only what Wait and PopBuffer share with them needs the lock',
          'command-line tools (device/utils, mpc/tools, ttp_server_main) start no threads of their own before they have parsed their flags']
TOOLS = ('libspu/device/utils/', 'libspu/mpc/tools/', 'libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server_main', 'libspu/compiler/', 'libspu/dialect/')
SERIAL = {'spu::mpc::semi2k::(anon)::ProgressiveReader'}
# objects that several threads of a process are known to reach: (class, why)
SHARED = {'spu::ProfState': 'every fork of a tracer records into it', 'spu::TypeContext': 'one per process', 'spu::device::SymbolScope': 'worker threads of a block', 'spu::device::BlockParallelRunner': 'worker threads of a block',
          'spu::mpc::cheetah::CheetahMulState': 'kernels of concurrent forks', 'spu::mpc::cheetah::CheetahOTState': 'kernels of concurrent forks', 'spu::mpc::cheetah::EnableCPRNG': 'tiled workers',
          'spu::mpc::semi2k::BeaverCache': 'kernels of concurrent forks', 'spu::mpc::spdz2k::TrustedParty': 'party threads of one process'}
PTR = ('std::unique_ptr<', 'std::shared_ptr<', 'std::optional<std::unique_ptr')


def fieldinfo(P):
    out = {}
    for q, c in P.classes.items():
        for fd in c.get('fields', []):
            out[c['q'] + '::' + fd[0]] = (c['q'], str(fd[1]))
            out[q.split('<')[0] + '::' + fd[0]] = (c['q'], str(fd[1]))
    return out


def isptr(t):
    t = t.replace('const ', '')
    return t.rstrip().endswith('*') or t.startswith(PTR)


def parts(p, types):
    """every field named along the path: (prefix, field, is the whole rest stored inside it?)"""
    out = []
    for i, x in enumerate(p):
        if isinstance(x, str) and '::' in x:
            inside = True
            if i < len(p) - 1 and p[i + 1] != '[]' and isptr(types.get(x, ('', ''))[1]):
                inside = False
            out.append((p[:i], x, inside))
    # a pointer anywhere later does not make an earlier field written
    res = []
    for j, (pre, x, ins) in enumerate(out):
        ok = all(b[2] for b in out[j:]) or not out[j + 1:] and ins
        res.append((pre, x, ok))
    return res


def run(P, rep):
    L = locks.Locks(P)
    types = fieldinfo(P)
    mclass = {}
    for c in set(x['q'] for x in P.classes.values()):
        for cc in P.cls_q.get(c, []):
            ms = [fd[0] for fd in cc.get('fields', []) if str(fd[1]).replace('mutable ', '').startswith(locks.MUTEX + ('std::once_flag',))]
            if ms:
                mclass[c] = ms
    fields, glob = {}, {}
    nacc = 0
    for f in L.fs:
        if f.f.startswith(TOOLS):
            continue
        for a in L.w[f].acc:
            nacc += 1
            g = a.p[0]
            if isinstance(g, tuple) and (g[0] == 'g' or (g[0] == 'v' and L.w[f].static(g[1]))):
                w = a.w and not any(isinstance(x, str) and '::' in x and isptr(types.get(x, ('', ''))[1]) for x in a.p[1:-1])
                glob.setdefault(g[1] + ('@' + f.f if '(anon)' in g[1] else '') if g[0] == 'g' else (f.q, f.l, g[1]), []).append((a, w))
            for pre, x, ins in parts(a.p, types):
                c = types.get(x, (None,))[0]
                if c is None:
                    c = x.rsplit('::', 1)[0]
                if c in mclass or c in SHARED:
                    fields.setdefault((c, x), []).append((a, pre, a.w and ins))
    # ---- R1 fields
    for (c, x), accs in sorted(fields.items()):
        t = types.get(x, ('', ''))[1]
        if locks.sync(t) or t.startswith('const '):
            continue
        live = []
        for a, pre, w in accs:
            f = a.f
            if L.ctor(f) and f.cls == c and pre == ('this',):
                continue
            if L.entry.get(f, frozenset()) is locks.TOP and pre == ('this',):
                continue
            if isinstance(pre[0], tuple) and pre[0][0] == 'v':
                vt = str((f.vars.get(pre[0][1]) or ('', '', ''))[1])
                if len(pre) == 1 and not vt.rstrip().endswith(('&', '*')) and not isptr(vt):
                    continue
            if a.pre == 0 and L.w[f].spawns and f.cls == c:
                continue
            live.append((a, pre, w))
        if not any(w for a, p, w in live):
            rep.good(f'{x} is never written after construction', 'immutable fields')
            continue
        if c in SERIAL and not any(L.held(a) for a, p, w in live if w):
            rep.good(f'{x} belongs to the stream callbacks', 'serialised fields')
            continue
        ms = [c + '::' + m for m in mclass.get(c, [])]
        best, bestbad = None, None
        onceflags = {c + '::' + fd[0] for cc in P.cls_q.get(c, []) for fd in cc.get('fields', []) if 'once_flag' in str(fd[1])}
        for m in ms:
            bad = []
            for a, pre, w in live:
                h = {md for p, md in L.held(a) if p is not None and p == pre + (m,)}
                if not ('x' in h or 'o' in h or (not w and ('s' in h or 'd' in h))):
                    if not w and ('r' in h or called_after(L, a, m)) and published(L, live, m):
                        continue
                    if not w and m in onceflags and any(p is not None and len(p) == len(pre) + 1 and p[:-1] == pre and p[-1].rsplit('::', 1)[0] == c and md in 'xs' for p, md in L.held(a)):
                        continue
                    bad.append((a, w))
            if bestbad is None or len(bad) < len(bestbad):
                best, bestbad = m, bad
        rep.count('guarded_fields')
        if best is None:
            a = [a for a, p, w in live if w][0]
            rep.finding(f'{x} shared without a lock', f'{a.f.f}:{a.l}', f'{x} ({SHARED.get(c, "")}) is written in {a.f.q} and its class has no lock')
            continue
        if c in SERIAL:
            bestbad = [(a, w) for a, w in bestbad if waited(L, a, w)]
        for a, pre, w in live:
            rep.fn(a.f)
            if not any(b[0] is a for b in bestbad):
                rep.good(f'{x} in {a.f.q} under {best.rsplit("::", 1)[-1]}', 'guarded accesses')
        for a, w in bestbad:
            rep.finding(f'{x} {"written" if w else "read"} in {a.f.q} without {best.rsplit("::", 1)[-1]}', f'{a.f.f}:{a.l}', f'{a.f.q} {"writes" if w else "reads"} {x.rsplit("::", 1)[-1]} ({a.how}) without holding {best} as the other accesses do')
    for c in SHARED:
        if c not in mclass and c in P.cls_q:
            rep.notes.append(f'{c} has no mutex')
        if c not in P.cls_q:
            rep.count('shared_classes_not_found')
    # ---- R2 globals and statics
    gl = {k[0] + ('@' + g['f'] if '(anon)' in k[0] else ''): g for k, g in P.globals.items()}
    statics = {}
    for c in P.classes.values():
        for s in c.get('statics', []):
            statics[c['q'] + '::' + s[0]] = str(s[2])
    for k, accs in sorted(glob.items(), key=str):
        if isinstance(k, str):
            g = gl.get(k)
            if g is None and k.split('@')[0] not in statics:
                continue
            if locks.sync(statics.get(k.split('@')[0])):
                continue
            if g is not None and (g['const'] or g['tls'] or locks.sync(g['t'])):
                continue
            if g is not None and g['f'].startswith(TOOLS):
                continue
            name = k.split('@')[0]
        else:
            f = accs[0][0].f
            t = str(f.vars[k[2]][1])
            if t.startswith('const ') or locks.sync(t):
                continue
            name = f'{f.q}::{f.vars[k[2]][0]}'
        rep.count('mutable_globals_and_statics')
        if not any(w for a, w in accs):
            rep.good(f'{name} is never written', 'immutable globals')
            continue
        common = None
        for a, w in accs:
            hs = set()
            for p, md in L.held(a):
                if md in 'xo' or (not w and md in 'sd'):
                    hs.add((p if not (p and isinstance(p[0], tuple) and p[0][0] == 'v') else (a.f.q, p)))
            common = hs if common is None else common & hs
        if common:
            rep.good(f'{name} under {sorted(map(str, common))[0]}', 'guarded globals')
            for a, w in accs:
                rep.fn(a.f)
            continue
        from collections import Counter
        cnt = Counter(p for a, w in accs for p, md in L.held(a) if md in 'xsod')
        top = cnt.most_common(1)[0][0] if cnt else None
        for a, w in accs:
            if top is None and not w:
                continue
            if not any(p == top and (md in 'xo' or (not w and md in 'sd')) for p, md in L.held(a)):
                rep.finding(f'{name} {"written" if w else "read"} in {a.f.q} without a lock', f'{a.f.f}:{a.l}', f'{a.f.q} {"writes" if w else "reads"} the process-wide {name} without the lock every other access would need')
    # ---- R3 order
    edges = {}
    for f in L.fs:
        W = L.w[f]
        for l, p, m, held in W.acq:
            for hp, hm in held:
                if hm not in 'xs' or p is None or m == 'o':
                    continue
                if hp == p:
                    rep.finding(f'{f.q} takes {L.ident(f, p)} twice', f'{f.f}:{l}', f'{f.q} locks {L.ident(f, p)} while it already holds it')
                else:
                    edges.setdefault((L.ident(f, hp), L.ident(f, p)), (f, l))
        for l, fn, base, held, n in W.calls:
            hs = [(p, m) for p, m in held if m in 'xs']
            if not hs:
                continue
            for i, p, m in L.acquires(fn):
                for hp, hm in hs:
                    p2 = translate1(p, base)
                    if p2 is not None and p2 == hp:
                        rep.finding(f'{f.q} calls {fn.q} holding {i}', f'{f.f}:{l}', f'{f.q} calls {fn.q}, which locks {i}, while it already holds that lock')
                    elif i != L.ident(f, hp):
                        edges.setdefault((L.ident(f, hp), i), (f, l))
            rep.good()
    g = {}
    for (a, b), w in edges.items():
        g.setdefault(a, set()).add(b)
    for (a, b), (f, l) in sorted(edges.items(), key=lambda e: e[0]):
        rep.count('lock_order_edges')
        seen, st = set(), [b]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            st += g.get(y, ())
        if a in seen:
            rep.finding(f'lock order {a} -> {b}', f'{f.f}:{l}', f'{f.q} takes {b} while holding {a}; elsewhere the order is the other way round')
        else:
            rep.good(f'{a} before {b}', 'lock order')
    # ---- R4 condition variables
    cvm = {}
    for f in L.fs:
        for l, cv, gp, lam, args, held in L.w[f].waits:
            rep.count('condition_waits')
            ok = True
            if gp is None or not any((p, 'x') in held for p, m in gp):
                rep.finding(f'{f.q} waits without its lock', f'{f.f}:{l}', f'{f.q} waits on {L.ident(f, cv)} with a lock it does not hold')
                ok = False
            if lam is None and not inloop(f, l):
                rep.finding(f'{f.q} waits without a predicate', f'{f.f}:{l}', f'{f.q}: a condition wait without a predicate and outside a loop can miss its wakeup or wake early')
                ok = False
            if ok:
                rep.good(f'{f.q} waits on {L.ident(f, cv)}', 'waits')
            if gp:
                cvm.setdefault(L.ident(f, cv), set()).update(L.ident(f, p) for p, m in gp)
    for f in L.fs:
        W = L.w[f]
        for l, cv, name, held, pos in W.notifies:
            rep.count('notifies')
            ms = cvm.get(L.ident(f, cv), set())
            hold = any(L.ident(f, p) in ms and m == 'x' for p, m in held)
            if not hold:
                # the critical section may just have ended
                i = pos - 1
                state = None
                while i >= 0:
                    k, ln, d = W.seq[i]
                    if k == 'rel' and L.ident(f, d) in ms:
                        state = True
                        break
                    if k in ('call', 'asg') and not (k == 'call' and (d.q.startswith(('std::', 'spdlog::', 'fmt::')))):
                        break
                    i -= 1
                hold = bool(state)
            if not hold and ms:
                rep.finding(f'{f.q} notifies {L.ident(f, cv)} outside its lock', f'{f.f}:{l}', f'{f.q} changes what a waiter tests and notifies {L.ident(f, cv)} without taking {sorted(ms)[0]} in between: a waiter that has just tested its predicate misses the wakeup')
            elif name == 'notify_one' and len(cv) > 2:
                rep.finding(f'{f.q} notify_one {L.ident(f, cv)}', f'{f.f}:{l}', f'{f.q} wakes one waiter of {L.ident(f, cv)}, which tasks waiting for different values share')
            else:
                rep.good(f'{f.q} {name} {L.ident(f, cv)}', 'notifies')
    for cv in cvm:
        if not any(L.ident(f, n[1]) == cv for f in L.fs for n in L.w[f].notifies):
            rep.finding(f'{cv} is never notified', '', f'threads wait on {cv} and nothing notifies it')
    # ---- R5 kernels are shared by every fork of a context
    kern = set()
    st = ['spu::mpc::Kernel', 'spu::Kernel']
    while st:
        b = st.pop()
        for d in P.derived.get(b, ()):
            if d not in kern:
                kern.add(d)
                st.append(d)
    nk = 0
    for f in L.fs:
        if f.cls in kern and not L.ctor(f):
            nk += 1
            rep.fn(f)
            bad = None
            for a in L.w[f].acc:
                if a.w and a.p[0] == 'this' and len(a.p) > 1:
                    t = types.get(a.p[1], ('', ''))[1]
                    if not locks.sync(t) and not any(m in 'xo' for p, m in L.held(a)):
                        bad = a
            if bad is not None:
                rep.finding(f'{f.q} writes {bad.p[1]}', f'{f.f}:{bad.l}', f'{f.q} changes {bad.p[1]}: kernel objects are shared by all forks of a context and run concurrently')
            else:
                rep.good()
    rep.counts['kernel_methods'] = nk
    # ---- R6 threads are joined
    for f in L.fs:
        W = L.w[f]
        thr = [n for n in walk(f.body) if n[0] == 'mcall' and n[2] is not None and n[2].name in ('emplace_back', 'push_back') and 'std::thread' in str(W.otype(n[3]))]
        thr += [n for n in walk(f.body) if n[0] == 'new' and str(n[2]).startswith('std::thread') and n[4]]
        if not thr or f.f.startswith(TOOLS):
            continue
        rep.count('functions_starting_threads')
        joined = any(joins(g) for g in [f] + [c[1] for c in W.calls] + [m for m in P.by_cls.get(f.cls or '', ())])
        if joined:
            rep.good(f'{f.q} joins its threads', 'threads')
        else:
            rep.finding(f'{f.q} never joins', f'{f.f}:{thr[0][1]}', f'{f.q} starts threads and neither it nor its class joins them')
    rep.counts['state_accesses'] = nacc
    rep.need('functions_with_lock_regions', sum(1 for f in L.fs if any(m in 'xs' for _, _, m, _ in L.w[f].acq)), 15)


def joins(g):
    return g.body is not None and any(n[0] == 'mcall' and n[2] is not None and n[2].name == 'join' and 'thread' in (n[2].cls or '') for n in walk(g.body))


def translate1(p, base):
    if p is None:
        return None
    if p[0] == 'this':
        return None if base is None else base + p[1:]
    if isinstance(p[0], tuple) and p[0][0] == 'g':
        return p
    return p if base == ('this',) else None


def published(L, live, m):
    """every write happens under m in a function that first tests the same field under m (write-once slots)"""
    for a, pre, w in live:
        if not w:
            continue
        if a.how != '=':
            return False
        if not any(b.f is a.f and not b.w and b.l <= a.l for b, p, ww in live):
            return False
        if not any(p == pre + (m,) and md == 'x' for p, md in L.held(a)):
            return False
    return True


def called_after(L, a, m):
    """every caller of a.f has called something that takes m before"""
    sites = L.sites.get(a.f, [])
    if not sites:
        return False
    for g, ln, base, held in sites:
        if not any(l <= ln and any(i == m for i, p, md in L.acquires(fn)) for l, fn, b, h, n in L.w[g].calls if fn is not a.f):
            return False
    return True


def waited(L, a, w):
    """ProgressiveReader: a read behind a wait on the end-of-message flag is ordered by that wait"""
    W = L.w[a.f]
    if not w and (W.waits or any(c[1].name == 'Wait' and c[0] <= a.l for c in W.calls)):
        return False
    return True


def inloop(f, l):
    for n in walk(f.body):
        if n[0] in ('while', 'do', 'for') and any(x[1] == l for x in walk(n) if len(x) > 1 and isinstance(x[1], int)):
            return True
    return False
