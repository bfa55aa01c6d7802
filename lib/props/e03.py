"""E03: work spread over threads does not race.

Every body of a parallel loop and every task is found (lib/loops.py) and each access it makes to memory it shares with the other
threads is classed by what its index depends on."""
from ir import *
import asyncq
import loops

# calls on a shared object that only read it (or are serialised inside: see the rule 'generator')
READS = ('Clone', 'Copy', 'SampleClone', 'Rand', 'size', 'begin', 'end', 'cbegin', 'cend', 'empty', 'count', 'front', 'back', 'at', 'get', 'find',
         'data', 'read', 'read2', 'c', 'load', 'fetch_add', 'fetch_or', 'notify_all', 'notify_one', 'Finish', 'finish')
GETTERS = ('Get', 'get', 'Is', 'is')
STATELESS = ('discrete_distribution', 'uniform_real_distribution', 'uniform_int_distribution', 'bernoulli_distribution')


def run(rep, ctx):
    p = ctx.program()
    rep.rule('own elements', 'a thread writes only elements selected by its loop variable or thread number, unless atomic or under a lock')
    rep.rule('lock', 'memory written under a lock is only accessed under the same lock, and all threads share the mutex')
    rep.rule('in place', 'an array that is written by the loop is read only where the same iteration writes')
    rep.rule('buffers', 'arrays indexed by the thread number have room for every thread')
    rep.rule('shared calls', 'objects all threads share are only asked, not changed')
    rep.rule('captures', 'a task does not refer to variables that its launcher changes or that end before it')
    rep.rule('threads', 'threads are started only through tasks that are waited for')
    rep.rule('generator', 'the random generator that clones share is used under a lock')
    nb = na = 0
    for f, n, l in loops.loops(p):
        if l is None:
            # forwarding inside the par_for family
            rep.check('own elements', f.cls == 'Qrack::ParallelFor' or forwards(n), '%s: body of %s' % (sig(f), n.name), f.loc(n),
                      '%s runs a parallel loop whose body is not known' % f.short())
            continue
        lv = {}
        if l.params:
            lv[l.params[0]['d']] = 'L'
        if len(l.params) > 1:
            lv[l.params[1]['d']] = 'CPU'
        b = loops.Body(p, f, l, lv)
        b.run()
        nb += 1
        na += len(b.acc)
        judge(rep, p, f, n, b, n.name, sig(f))
    nt = 0
    for f, n, ls in loops.tasks(p):
        if f.cls == 'Qrack::DispatchQueue':
            continue    # its one thread is the subject of D01
        nt += 1
        if n.k == 'ctor':
            rep.check('threads', False, '%s: thread' % sig(f), f.loc(n), '%s starts a thread that nothing is known to wait for' % f.short())
            continue
        held(rep, p, f, n)
        around, ctr = turn(f, n)
        for l in ls:
            lam = node(p, f, l)
            b = loops.Body(p, f, l, {ctr: 'L'} if ctr is not None else {}, around)
            b.run()
            na += len(b.acc)
            captures(rep, p, f, n, lam, l, around, b)
            judge(rep, p, f, n, b, 'task' if around is not None else 'one', sig(f))
    generator(rep, p)
    rep.note('%d loop bodies, %d tasks, %d shared accesses' % (nb, nt, na))
    rep.floor('loop bodies', nb, 40)
    rep.floor('tasks', nt, 10)
    rep.floor('shared accesses', na, 150)


def sig(f):
    return f.short().split('::lambda')[0]


def forwards(n):
    a = skip(n.c[-1])
    while a is not None and a.k == 'ctor' and len(a.c) == 1:
        a = skip(a.c[0])
    return a is not None and a.k == 'ref' and a.get('dk') == 'parm'


def node(p, f, l):
    for g in asyncq.family(p, f):
        for n in g.all_nodes():
            if n.k == 'lambda' and n.get('fid') == l.id:
                return n
    return None


def turn(f, n):
    """the innermost loop whose turns each start a task, and its counter"""
    for a in n.ancestors():
        if a.k in ('for', 'forrange', 'while', 'do'):
            ctr = None
            if a.k == 'for' and a.c[0] is not None:
                for v in a.c[0].walk():
                    if v.k == 'var':
                        ctr = v.decl
            return a, ctr
    return None, None


def atomic(p, b, a):
    t = None
    n = a.node
    x = skip(n.c[0]) if n.k in ('asg', 'un') else skip(n.o) if n.o is not None else None
    if x is not None and isinstance(x.get('t'), int):
        t = p.types[x.get('t')]
    return t is not None and 'atomic' in t


def judge(rep, p, f, call, b, kind, s):
    acc = b.acc
    groups = {}
    for a in acc:
        groups.setdefault(a.root, []).append(a)
    for root, xs in groups.items():
        ws = [a for a in xs if a.kind in ('w', 'rw')]
        locked = [a for a in ws if a.locked]
        for a in ws:
            if a.kind == 'rw' and atomic(p, b, a):
                continue
            if a.locked:
                continue
            varying = [i for i in a.idx if i != 'C']
            what = 'writes' if a.kind == 'w' else 'updates'
            if kind == 'one':
                ok = True
            elif not varying:
                ok = False
            elif a.kind == 'rw':
                ok = any(i in ('CPU', 'L') for i in a.idx) or kind == 'task'
            else:
                ok = True
            rep.check('own elements', ok, '%s %s %s' % (s, what, a.name), a.fn.loc(a.node),
                      '%s: threads of the %s %s %s%s, which they share' % (s, 'loop' if kind != 'task' else 'tasks', what, a.name, sub(a)))
        if locked:
            ms = set(locked[0].locked)
            for a in xs:
                ms2 = ms & set(a.locked)
                if a.kind in ('w', 'rw', 'r', 'call'):
                    rep.check('lock', bool(ms2), '%s %s %s' % (s, a.kind, a.name), a.fn.loc(a.node),
                              '%s: %s is written under a lock and accessed here without it' % (s, a.name))
        if ws and not locked and kind not in ('task', 'one'):
            inplace(rep, p, f, b, kind, s, root, xs, ws)
    for a in acc:
        if a.kind == 'call':
            if a.locked or any(i in ('CPU', 'L', 'D') for i in a.idx) or kind == 'one':
                continue
            nm = a.node.name or ''
            ok = nm in READS or reads_only(p, a.node)
            rep.check('shared calls', ok, '%s %s.%s()' % (s, a.name, nm), a.fn.loc(a.node),
                      '%s: all threads call %s() on %s, which may change it' % (s, nm, a.name))
        elif a.kind == 'op()':
            t = b.otype(a.node)
            if 'distribution' in t:
                gen = a.node.c[0] if a.node.c else None
                r = b.root(gen) if gen is not None else None
                ok = any(x in t for x in STATELESS) and r is not None and any(i in ('CPU',) for i in r[2])
                rep.check('shared calls', bool(ok or a.locked), '%s draws' % s, a.fn.loc(a.node),
                          '%s: threads draw random numbers from a generator they share' % s)
    # arguments handed on by address
    for g in b.nest(b.lam):
        for n in g.all_nodes():
            if n.k != 'call' or kind == 'one':
                continue
            pm = n.get('pm') or ''
            for i, a in enumerate(n.c):
                if a is None:
                    continue
                x = skip(a)
                mode = pm[i] if i < len(pm) else 'v'
                amp = x.k == 'un' and x.op == '&'
                ptr = mode == 'v' and isinstance(x.get('t'), int) and p.types[x.get('t')].strip().endswith('*') and not p.types[x.get('t')].strip().startswith('const')
                if not (amp or ptr or mode in ('r', 'm')) or n.name in ('operator=', 'swap_'):
                    continue
                if n.op or (n.name or '').startswith('bi_') and i > 0:
                    continue
                r = b.root(x.c[0] if amp else x)
                if r is None or any(j != 'C' for j in r[2]):
                    continue
                if mode == 'v' and amp and constp(p, n, i):
                    continue
                if b.locked(g, n):
                    continue
                if ptr and not amp and constp(p, n, i):
                    continue
                rep.check('own elements', False, '%s passes %s' % (s, r[1]), g.loc(n), '%s: threads pass %s, which they share, to %s() to be written' % (s, r[1], n.name))
    # per-thread buffers
    seen = set()
    for a in acc:
        if 'CPU' in a.idx and a.idx[0] == 'CPU' and a.root not in seen and kind != 'task':
            seen.add(a.root)
            ok = sized(p, f, b, a.root)
            rep.check('buffers', ok, '%s: %s' % (s, a.name), a.fn.loc(a.node), '%s: %s is indexed by the thread number but not made with room for '
                      'GetConcurrencyLevel() threads' % (s, a.name))


def sub(a):
    return '[...]' if a.idx else ''


def constp(p, n, i):
    """is the i-th parameter of the callee a pointer or reference to const"""
    for t in p.targets(n):
        g = p.fns.get(t)
        if g is not None and i < len(g.params):
            ty = g.params[i].get('t')
            ty = p.types[ty] if isinstance(ty, int) else str(ty)
            return ty.strip().startswith('const')
    ty = n.c[i]
    return False


def inplace(rep, p, f, b, kind, s, root, xs, ws):
    """elements of an array the loop writes"""
    el = [a for a in xs if a.idxn is not None and any(i in ('L', 'D') for i in a.idx[-1:]) and 'CPU' not in a.idx]
    we = [a for a in el if a.kind in ('w', 'rw')]
    if not we:
        return
    reads = [a for a in el if a.kind == 'r'] + [a for a in xs if a.kind == 'r' and a.idx and a.idx[-1] == 'C' and a.idxn is not None and 'CPU' not in a.idx]
    if not reads:
        return
    wt = {text(a.idxn) for a in we}
    lcv = [d for d, c in b.ctr.items() if c == 'L']

    def exact(a):
        x = skip(a.idxn)
        return x.k == 'ref' and x.decl in lcv

    for a in reads + we:
        if kind in ('par_for_skip', 'par_for_mask') and a.idx[-1] == 'L':
            ok = True       # the loop leaves out the bits that the offsets fill in
        elif all(exact(w) for w in we):
            ok = exact(a)
        elif len(wt) == 1 and text(a.idxn) in wt:
            ok = a.kind != 'rw'
        else:
            ok = text(a.idxn) in wt and owned(b, a, we)
        rep.check('in place', ok, '%s: %s' % (s, a.name), a.fn.loc(a.node),
                  '%s: an iteration %s an element of %s that another iteration writes' % (s, 'reads' if a.kind == 'r' else 'writes', a.name))


def text(n):
    return show(skip(n))


def owned(b, a, we):
    """a pair of elements belongs to one of its two iterations: the other returns early on a comparison of the two"""
    for g in b.nest(b.lam):
        for n in g.all_nodes():
            if n.k == 'if' and any(x.k == 'return' for x in (n.c[3].walk() if n.c[3] is not None else ())):
                c = skip(n.c[2])
                if c.k == 'bin' and c.op in ('<', '>', '<=', '>=') and b.of(c.c[0]) != 'C' and b.of(c.c[1]) != 'C':
                    if (n.a.get('l') or 0) <= min((w.node.a.get('l') or 0) for w in we):
                        return True
    return False


def isnc(n, decls, depth=0):
    """an expression that is the number of threads"""
    n = skip(n)
    while n is not None and n.k in ('ctor', 'cast') and len([x for x in n.c if x is not None]) == 1:
        n = skip(n.c[-1])
    if n is None or depth > 4:
        return False
    if n.k == 'call' and n.name == 'GetConcurrencyLevel':
        return True
    if n.k == 'mem' and n.name == 'numCores':
        return True
    if n.k == 'ref' and n.decl in decls:
        v = decls[n.decl]
        return v is not None and v.c and v.c[0] is not None and isnc(v.c[0], decls, depth + 1)
    return False


def sized(p, f, b, root):
    decls = {}
    nodes = []
    for g in asyncq.family(p, f):
        for n in g.all_nodes():
            if n.k == 'var' and n.decl is not None:
                decls[n.decl] = n
            nodes.append(n)
    v = decls.get(root)
    if v is None:
        return False
    if v.c and v.c[0] is not None:
        for x in v.c[0].walk():
            if x.k == 'new' or x.k == 'ctor' and 'vector' in (x.get('cls') or v.type):
                for y in x.walk():
                    if y is not x and isnc(y, decls):
                        par = y.p
                        while par is not None and par.k in ('cast',):
                            par = par.p
                        if par is not None and par.k == 'bin' and par.op in ('-', '/', '>>', '%'):
                            continue
                        return True
    for n in nodes:
        if n.k == 'call' and n.o is not None and skip(n.o).k == 'ref' and skip(n.o).decl == root:
            if n.name in ('resize', 'assign') and n.c and isnc(n.c[0], decls):
                return True
            if n.name in ('push_back', 'emplace_back'):
                for a in n.ancestors():
                    if a.k == 'for' and a.c[1] is not None:
                        c = skip(a.c[1])
                        if c.k == 'bin' and c.op in ('<', '!=') and isnc(c.c[1], decls) and fromzero(a):
                            return True
    return False


def fromzero(a):
    for v in a.c[0].walk() if a.c[0] is not None else ():
        if v.k == 'var':
            return bool(v.c) and const_int(skip(v.c[0])) == 0
    return False


_ro = {}


def reads_only(p, n):
    """no target of this call writes a field of its object (directly or in calls on itself)"""
    ts = [p.fns[t] for t in p.targets(n) if t in p.fns]
    return bool(ts) and all(ro(p, g) for g in ts)


def ro(p, g, depth=0):
    if g.id in _ro:
        return _ro[g.id]
    _ro[g.id] = True
    ok = g.body is not None
    for n in g.all_nodes() if ok else ():
        t = None
        if n.k == 'asg' or n.k == 'un' and n.op in ('++', '--'):
            t = path(n.c[0])
        elif n.k == 'call' and n.op in ('=', '+=', '-=', '++', '--', '*=', '|=', '&=', '^=') and n.o is not None:
            t = path(n.o)
        elif n.k == 'call' and n.o is not None and not n.get('cm') and n.name in ('push_back', 'clear', 'erase', 'insert', 'resize', 'emplace_back', 'reset', 'swap', 'pop_back', 'emplace', 'write', 'write2'):
            t = path(n.o)
        if t and t[0] == 'this':
            ok = False
        if n.k == 'call' and n.get('cls') and (n.o is None or skip(n.o).k == 'this') and not n.get('cm') and depth < 6:
            for x in p.targets(n):
                if x in p.fns and not ro(p, p.fns[x], depth + 1):
                    ok = False
    _ro[g.id] = ok
    return ok


def held(rep, p, f, n):
    """the future is kept in a local (whose destruction waits) or waited for where it is made"""
    x = n
    ok = False
    why = 'the task is not waited for'
    while x.p is not None:
        q = x.p
        if q.k == 'var':
            ok = not q.get('static')
            break
        if q.k == 'call' and q.op == '=' and q.o is not x and q.o is not None or q.k == 'call' and q.o is not None and q.o is not x and q.name in ('push_back', 'emplace_back', 'push'):
            r = skip(q.o)
            while r is not None and (r.k == 'idx' or r.k == 'call' and r.op == '[]'):
                r = skip(r.o if r.k == 'call' else r.c[0])
            ok = r is not None and r.k == 'ref' and r.get('dk') == 'local'
            why = 'the future of the task outlives the call'
            break
        if q.k == 'call' and q.o is x and q.name in ('get', 'wait'):
            ok = True
            break
        if q.k in ('block', 'if', 'for', 'while'):
            ok = True       # a discarded future waits at once
            break
        x = q
    rep.check('threads', ok, '%s: future' % sig(f), f.loc(n), '%s: %s' % (f.short(), why))


def captures(rep, p, f, n, lam, l, around, b):
    changed = set()
    if around is not None:
        for x in around.walk():
            t = None
            if x.k == 'asg' or x.k == 'un' and x.op in ('++', '--'):
                t = skip(x.c[0])
            elif x.k == 'call' and x.op in ('=', '+=', '-=', '++', '--', '|=', '&=') and x.o is not None:
                t = skip(x.o)
            elif x.k == 'call' and x.o is None and (x.name or '').startswith('bi_') and x.c and skip(x.c[0]).k == 'un':
                t = skip(skip(x.c[0]).c[0])
            elif x.k == 'var':
                changed.add(x.decl)
            if t is not None and t.k == 'ref':
                changed.add(t.decl)
    for c in (lam.get('cap') if lam is not None else None) or ():
        if c.get('by') == 'this':
            continue
        t = p.types[c['t']] if c.get('t') is not None else ''
        ok = True
        if c.get('by') == 'ref':
            ok = c.get('d') not in changed or 'atomic' in t
        rep.check('captures', ok, '%s: %s' % (sig(f), c.get('n')), f.loc(lam), '%s: the task refers to %s, which its launcher goes on to change' % (f.short(), c.get('n')))


def generator(rep, p):
    """the software generator is shared by an object, its clones and its parts"""
    gens = [(c, x['n']) for c, d in p.classes.items() for x in d.get('fields', ()) if c == 'Qrack::QInterface' and 'generator' in x['n'] and
            'hardware' not in x['n']]
    k = 0
    for c, fld in gens:
        for f in p.fns.values():
            if f.body is None:
                continue
            for n in f.all_nodes():
                if n.k != 'mem' or n.name != fld or n.q != c + '::' + fld:
                    continue
                d = n
                used = False
                while d.p is not None and d.p.k in ('cast', 'un', 'call', 'mem', 'ctor') and not used:
                    q = d.p
                    if q.k == 'call' and q.op in ('->', '*') and q.o is d:
                        used = True
                    elif q.k == 'call' and q.op is None and q.o is not d:
                        break
                    d = q
                if not used or f.get('ctor'):
                    continue
                k += 1
                b = loops.Body(p, f, f, {})
                rep.check('generator', bool(b.locked(f, n)), '%s uses %s' % (sig(f), fld), f.loc(n),
                          '%s uses the random generator that clones on other threads share, without a lock' % f.short())
    rep.floor('generator uses', k, 1)
