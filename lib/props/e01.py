"""E01: work that is queued for an engine's own thread owns everything it uses.

For every call that hands a callable to a DispatchQueue (directly or through Dispatch()), each lambda that may reach it is
looked at: it captures the engine and values only - no reference and no raw pointer, also not inside another captured callable -
and the engine captured is the one whose queue is used.  What the queued work reads through the engine is owned by the engine,
is not torn down before the queue is, and no method changes it while work is pending."""
from ir import *
import asyncq
from props import e02

# written by the queued work itself and only meaningful in queue order; the storage and the size are the subject of E02
ORDERED = ('runningNorm', 'doNormalize')
E02 = ('maxQPowerOcl', 'maxQPower', 'qubitCount')
NONOWN = ('reference_wrapper', 'string_view', '__normal_iterator', 'weak_ptr', 'span<', 'initializer_list')


def run(rep, ctx):
    p = ctx.program()
    A = e02.Async(p)
    A.solve()
    rep.rule('capture', 'queued work captures values and its engine only, no reference or raw pointer to data of the caller')
    rep.rule('own queue', 'queued work uses the engine whose queue it is in')
    rep.rule('settings', 'engine fields that queued work reads are not written by a method while work may be queued')
    rep.rule('lifetime', 'the queue is emptied and waited for before anything queued work uses is destroyed')
    nc = 0
    for f, n, ls in asyncq.queue_calls(p):
        fwd = skip(n.c[-1])
        while fwd is not None and fwd.k == 'ctor' and len(fwd.c) == 1:
            fwd = skip(fwd.c[0])
        if not ls and fwd is not None and fwd.k == 'ref' and fwd.get('dk') == 'parm':
            continue    # forwarded: decided where the callable is made
        rep.check('capture', bool(ls), '%s queues a known closure' % A.sig(f), f.loc(n), '%s queues a callable whose contents are not known: %s' %
                  (f.short(), show(n.c[-1])[:60])) if not ls else None
        for l in ls:
            lam = node_of(p, f, l)
            nc += 1
            captures(rep, A, p, f, lam, l, set())
            o = A.obj(f, n.o) if n.o is not None else 'this'
            isq = n.o is not None and 'DispatchQueue' in p.types[skip(n.o).get('t')] if n.o is not None and skip(n.o).get('t') is not None else False
            rep.check('own queue', isq or o == 'this' or not uses_this(lam), '%s: engine of the queue' % A.sig(f), f.loc(n),
                      '%s queues work that uses one engine on the queue of another' % f.short())
    # ---- fields read by the queued work
    R = {}
    seen = set()

    def go(g, why):
        if g.id in seen:
            return
        seen.add(g.id)
        for n in g.all_nodes():
            if n.k == 'mem' and 'fid' not in n.a and (not n.c or n.c[0] is None or A.obj(g, n.c[0]) == 'this'):
                R.setdefault(n.q, why or g.short())
            if n.k == 'call' and (n.o is None or A.obj(g, n.o) == 'this'):
                for t in A.resolve(n):
                    go(t, why or g.short())
            if n.k == 'lambda' and n.get('fid') in p.fns:
                go(p.fns[n.get('fid')], why or g.short())
    for l in sorted(A.queued):
        go(p.fns[l], '')
    for c in A.classes:
        own = [x for x in p.classes[c]['fields']]
        qs = [i for i, x in enumerate(own) if 'DispatchQueue' in p.types[x['t']]]
        used = [i for i, x in enumerate(own) if c + '::' + x['n'] in R and i not in qs]
        dt = [f for f in A.fns if f.cls == c and f.name.startswith('~')]
        ok = bool(qs) and all(u < min(qs) for u in used)
        if not ok and dt:
            al, before, after = A.analyse(dt[0])
            ok = settles_exit(A, dt[0])
        rep.check('lifetime', ok, '%s: queue and destruction' % c.split('::')[-1], '%s:%s' % (p.classes[c].get('f', ''), p.classes[c].get('l', '')),
                  'queued work of %s may outlive what it uses: the queue is declared before %s and the destructor does not wait' %
                  (c, [own[u]['n'] for u in used]))
        fields = {q for q in R if q.split('::')[-1] not in ORDERED + E02 and q.split('::')[-1] not in A.storage and
                  'DispatchQueue' not in ftype(p, q)}
        rep.note('fields read by queued work of %s: %s' % (c, ', '.join(sorted(x.split('::')[-1] for x in R))))
        bases = [c] + list(p.bases_of.get(c, ()))
        done = set()
        for b in bases:
            for m in p.classes[b]['methods']:
                if m.get('ctor') or not m.get('virt') or m.get('acc') != 'public' or m['n'].startswith('~'):
                    continue
                g = A.M.final(c, m['id'])
                g = p.fns.get(g) if isinstance(g, str) else g
                if g is None or g.body is None or g.id in done:
                    continue
                done.add(g.id)
                for n, q, ok in writes(A, g, fields):
                    rep.check('settings', ok, '%s writes %s' % (A.sig(g), q.split('::')[-1]), g.loc(n),
                              '%s changes %s of %s, which queued work may be using (%s)' % (g.short(), q.split('::')[-1], c, R[q]))
    rep.floor('queued closures', nc, 8)
    rep.floor('obligations', len(rep.obl), 30)


def ftype(p, q):
    c, n = q.rsplit('::', 1)
    for x in p.classes.get(c, {}).get('fields', ()):
        if x['n'] == n:
            return p.types[x['t']]
    return ''


def settles_exit(A, f):
    al, before, after = A.analyse_from(f, frozenset())
    for b in f.cfg.blocks.values():
        if f.cfg.exit in b.s and not b.nr:
            st = after(b.id)
            if st is not None and 'this' not in st:
                return False
    return True


def node_of(p, f, l):
    for g in asyncq.family(p, f):
        for n in g.all_nodes():
            if n.k == 'lambda' and n.get('fid') == l.id:
                return n
    return None


def uses_this(lam):
    return any(c.get('by') == 'this' for c in lam.get('cap') or ())


def captures(rep, A, p, f, lam, l, seen):
    if lam is None or l.id in seen:
        return
    seen.add(l.id)
    for c in lam.get('cap') or ():
        if c.get('by') == 'this':
            continue
        t = p.types[c['t']] if c.get('t') is not None else ''
        why = None
        if c.get('by') == 'ref':
            why = 'by reference'
        else:
            s = t.replace('&', '').strip()
            s = s[:-5].strip() if s.endswith('const') else s
            if s.endswith('*') and '(*)' not in s:
                why = 'as a raw pointer'
            elif any(x in t for x in NONOWN):
                why = 'as %s, which does not own its data' % t
            elif 'function<' in t or 'lambda' in t:
                v = A.var(f, c.get('d'))
                if v is not None and v.c and v.c[0] is not None:
                    for l2 in asyncq.lambda_args(p, f, v.c[0]):
                        captures(rep, A, p, f, node_of(p, f, l2), l2, seen)
        rep.check('capture', why is None, '%s queues work that captures %s' % (A.sig(f), c.get('n')), l.loc(l.body) if l.body is not None else f.loc(lam),
                  'work queued by %s captures %s %s' % (f.short(), c.get('n'), why))


_w = {}


def wfields(A, g, fields, seen=None):
    """fields that g, run on this object, may write: {qualified name}"""
    if g.id in _w:
        return _w[g.id]
    _w[g.id] = set()
    out = set()
    for h in asyncq.family(A.p, g) if not g.lam else [g]:
        if h.id in A.queued:
            continue
        for n in h.all_nodes():
            out |= {q for q in direct(A, h, n, fields)}
            if n.k == 'call' and (n.o is None or A.obj(h, n.o) == 'this'):
                for t in A.resolve(n):
                    out |= wfields(A, t, fields)
    _w[g.id] = out
    return out


def direct(A, h, n, fields):
    t = None
    if n.k == 'asg' or n.k == 'un' and n.op in ('++', '--'):
        t = skip(n.c[0])
    elif n.k == 'call' and n.op in ('=', '+=', '-=', '++', '--') and n.o is not None:
        t = skip(n.o)
    if t is not None and t.k == 'mem' and t.q in fields and (not t.c or t.c[0] is None or A.obj(h, t.c[0]) == 'this'):
        return [t.q]
    return []


def writes(A, g, fields):
    if not wfields(A, g, fields):
        return []
    al, before, after = A.analyse(g)
    out = []
    for n in g.all_nodes():
        st = before(n)
        if st is None:
            continue
        for q in direct(A, g, n, fields):
            out.append((n, q, 'this' in st))
        if n.k == 'call' and (n.o is None or A.obj(g, n.o) == 'this'):
            for t in A.resolve(n):
                mc = A.p.method_cls.get(t.id)
                if mc and mc[1].get('virt') and mc[1].get('acc') == 'public' and not n.get('qualcall'):
                    continue    # judged by itself
                for q in sorted(wfields(A, t, fields)):
                    if t.cls in A.classes and all(ok for x, q2, ok in writes(A, t, {q})):
                        continue
                    out.append((n, q, 'this' in st))
    return out
