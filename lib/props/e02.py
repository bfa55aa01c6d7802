"""E02: amplitudes are used by the caller's thread only when no queued gate is pending.

Engines that own a DispatchQueue run gates later on their own thread.  For every method of such an engine, must-dataflow
over the CFG decides at every use of the amplitude storage (and of the pointer to it, and of the register size) that the
engine it belongs to is settled: Finish() or Dump() was passed since the last operation that may queue work, or the storage is
known to be absent (nothing is queued for an absent register).  Helpers pass their requirement on to their call sites."""
from ir import *
import asyncq
import mutate

CASTS = ('dynamic_pointer_cast', 'static_pointer_cast')
FRESH = ('make_shared', 'CloneEmpty', 'MakeEngine')
PAR = ('par_for', 'par_for_skip', 'par_for_mask', 'par_for_inc', 'par_for_set', 'par_for_sparse_compose', 'async')


def run(rep, ctx):
    A = Async(ctx.program())
    rep.rule('settled', 'amplitude storage of an engine is used, replaced or resized on the caller\'s thread only after Finish() or '
                        'Dump() of that engine (or when it is known to be absent)')
    rep.rule('closure', 'queued work only touches the storage of its own engine')
    rep.rule('waited', 'queued work that may replace the storage is waited for before the method that queued it returns')
    A.solve()
    for f in A.fns:
        for n, o, what, ok, inherited in A.uses(f):
            pub = A.public(f)
            if ok is None:
                continue
            if not ok and not pub and isinstance(o, (str, tuple)) and o in A.req.get(f.id, ()):
                continue    # decided at the call sites
            rep.check('settled', ok, '%s %s of %s' % (A.sig(f), what, A.oname(f, o)), f.loc(n),
                      '%s %s while work may still be queued on %s' % (f.short(), what, A.oname(f, o)))
    for l, (f, n) in sorted(A.queued.items()):
        g = A.p.fns[l]
        for x, o in A.closure_uses(g):
            rep.check('closure', o == 'this', '%s queues work on %s' % (A.sig(f), A.oname(f, o)), g.loc(x),
                      'queued work of %s touches the storage of another engine' % f.short())
        e = A.replaces(g)
        if e is not None:
            rep.check('waited', A.waited(f, n, g, e), '%s queues work that replaces the storage' % A.sig(f), g.loc(e),
                      'queued work of %s may replace the amplitude storage (%s) after the method returned' % (f.short(), show(e)[:60]))
    rep.floor('engine classes with a work queue', len(A.classes), 1)
    rep.floor('methods analysed', len(A.fns), 60)
    rep.floor('queued closures', len(A.queued), 8)
    rep.floor('uses of amplitude storage', len(rep.obl), 70)


class Async(object):
    def __init__(self, p):
        self.p = p
        self.classes = []
        self.storage = set()
        for c, j in sorted(p.classes.items()):
            ts = [(x['n'], p.types[x['t']]) for x in j.get('fields', ())]
            if any('DispatchQueue' in t for _, t in ts):
                self.classes.append(c)
                self.storage |= {n for n, t in ts if 'StateVector' in t}
        self.M = mutate.Mutate(p, set(self.classes), lambda *a: None)
        self.queued = {}
        for f, n, ls in asyncq.queue_calls(p):
            for l in ls:
                self.queued[l.id] = (f, n)
        self.req, self.ens = {}, {}
        self.mq = {}
        self._called = None
        self.fns = [f for f in p.fns.values() if f.body is not None and not f.lam and f.cls in self.classes and f.cfg is not None]
        self.acc = {}
        for c in self.classes:
            for m in p.classes[c]['methods']:
                self.acc[m['id']] = m.get('acc')

    def public(self, f):
        return (self.acc.get(f.id, 'public') == 'public' or f.id not in self.called()) and not f.name.startswith('~') and f.name != f.cls.split('::')[-1]

    def called(self):
        """methods with a call site inside the engine: their requirement is decided there"""
        if self._called is None:
            self._called = {t.id for f in self.p.fns.values() if f.body is not None and (f.cls in self.classes or f.lam) and not f.name.startswith('~')
                            for n in f.all_nodes() if n.k == 'call' for t in self.resolve(n) if t is not f and t.name != f.name}
        return self._called

    def sig(self, f):
        return '%s(%s)' % (f.short(), ','.join(x['n'] for x in f.params))

    def oname(self, f, o):
        if o == 'this':
            return 'this engine'
        if isinstance(o, tuple):
            return f.params[o[1]]['n'] if o[0] == 'p' else o[2]
        return str(o)

    # ---- engines named by an expression
    def obj(self, f, n, depth=0):
        """'this', ('p', i), ('v', decl, name) or None for the engine an expression denotes"""
        n = deref(n)
        if n is None or depth > 6:
            return None
        if n.k == 'call' and n.name in CASTS and n.c:
            return self.obj(f, n.c[0], depth + 1)
        if n.k == 'call' and n.name in ('shared_from_this',):
            return 'this'
        if n.k == 'ctor' and len(n.c) == 1:
            return self.obj(f, n.c[0], depth + 1)
        if n.k == 'this':
            return 'this'
        if n.k == 'ref':
            r = self.p.root_of(f) if f.lam else f
            for i, x in enumerate(r.params):
                if x['d'] == n.decl:
                    return ('p', i)
            if n.get('dk') == 'local':
                v = self.var(f, n.decl)
                if v is not None and v.c and v.c[0] is not None:
                    o = self.obj(f, v.c[0], depth + 1)
                    if o is not None and (o == 'this' or o[0] in ('p', 'v')) and not self.reassigned(f, n.decl):
                        return o
                return ('v', n.decl, n.name)
        return None

    def var(self, f, d):
        for g in asyncq.family(self.p, f):
            for x in g.all_nodes():
                if x.k == 'var' and x.decl == d:
                    return x
        return None

    def reassigned(self, f, d):
        for g in asyncq.family(self.p, f):
            for x in g.all_nodes():
                if x.k == 'call' and x.op == '=' and x.o is not None and asyncq.is_ref(x.o, d):
                    return True
                if x.k == 'asg' and asyncq.is_ref(x.c[0], d):
                    return True
        return False

    def svaliases(self, f):
        """locals that are copies of a storage pointer"""
        out = {}
        for g in asyncq.family(self.p, f):
            for x in g.all_nodes():
                if x.k == 'var' and x.c and x.c[0] is not None:
                    m = deref(x.c[0])
                    while m is not None and m.k in ('call', 'ctor') and m.c and (m.k == 'ctor' or m.name in CASTS):
                        m = deref(m.c[0])
                    if m is not None and m.k == 'mem' and m.name in self.storage and 'fid' not in m.a:
                        out[x.decl] = self.base(g, m)
        return out

    def base(self, f, m):
        return self.obj(f, m.c[0]) if m.c and m.c[0] is not None else 'this'

    # ---- classification of storage uses
    def use(self, f, m, al):
        """('test'|'alias'|'write'|'use', object) of a mention of the storage"""
        if m.k == 'ref':
            o = al.get(m.decl)
        else:
            o = self.base(f, m)
        x, child = m.p, m
        while x is not None and (x.k in ('cast', 'defarg', 'definit') or x.k == 'ctor' and len(x.c) == 1 and (x.get('cp') or x.get('mv'))):
            child, x = x, x.p
        if x is None:
            return 'use', o
        if x.k == 'call' and (x.name or '').startswith('operator bool') or x.k == 'un' and x.op == '!' or \
                x.k == 'bin' and x.op in ('==', '!=', '&&', '||') or x.k == 'call' and x.op in ('==', '!=', '!'):
            return 'test', o
        if x.k == 'var':
            return 'alias', o
        if x.k == 'call' and x.op == '=' and x.o is child:
            return 'write', o
        if x.k == 'call' and x.name in ('reset', 'swap') and x.o is child:
            return 'write', o
        return 'use', o

    def mentions(self, f, al):
        for n in f.all_nodes():
            if n.k == 'mem' and n.name in self.storage and 'fid' not in n.a:
                yield n
            elif n.k == 'ref' and n.decl in al and n.get('dk') == 'local':
                yield n

    def lam_uses(self, g, f, al, seen=None):
        """engines whose storage a lambda (run now) uses"""
        seen = seen or set()
        if g.id in seen:
            return set()
        seen.add(g.id)
        out = set()
        for m in self.mentions(g, al):
            k, o = self.use(g, m, al)
            if k in ('use', 'write') and o is not None:
                out.add(o)
        for n in g.all_nodes():
            if n.k == 'lambda' and n.get('fid') in self.p.fns:
                out |= self.lam_uses(self.p.fns[n.get('fid')], f, al, seen)
        return out

    # ---- summaries
    def mayqueue(self, f, seen=None):
        if f.id in self.mq:
            return self.mq[f.id]
        self.mq[f.id] = False
        r = False
        for g in [f] + (asyncq.family(self.p, f)[1:] if not f.lam else []):
            if g.id in self.queued:
                continue
            for n in g.all_nodes():
                if n.k == 'call' and n.name in asyncq.QUEUE:
                    r = True
                elif n.k == 'call' and not r:
                    for t in self.resolve(n):
                        if self.mayqueue(t):
                            r = True
                            break
                if r:
                    break
            if r:
                break
        self.mq[f.id] = r
        if not r:
            return r
        return r

    def resolve(self, n):
        fid = n.get('fid')
        if fid is None:
            return []
        if n.get('virt') and not n.get('qualcall'):
            mc = self.p.method_cls.get(fid)
            out = []
            for c in self.classes:
                if mc and (mc[0] == c or mc[0] in self.p.bases_of.get(c, ())):
                    g = self.M.final(c, fid)
                    g = self.p.fns.get(g) if isinstance(g, str) else g
                    if g is not None and g.body is not None:
                        out.append(g)
            if out:
                return out
            return []
        g = self.p.fns.get(fid)
        return [g] if g is not None and g.body is not None else []

    def analyse(self, f):
        ctor = f.cls is not None and (f.name == f.cls.split('::')[-1] or f.name.startswith('~'))
        return self.analyse_from(f, frozenset(['this']) if ctor else frozenset())

    def analyse_from(self, f, init):
        p = self.p
        al = self.svaliases(f)

        def settle(st, o):
            return st | {o}

        def transfer(st, n):
            if n.k in ('var', 'decl'):
                for v in ([n] if n.k == 'var' else [x for x in n.c if x is not None and x.k == 'var']):
                    d = ('v', v.decl, v.name)
                    st = st | {d} if self.isfresh(v) else st - {d}
                return st
            if n.k != 'call':
                return st
            nm = n.name
            if n.op in ('->', '*', '[]'):
                return st
            if n.op == '()':
                ls = [g for g in asyncq.lambda_args(p, f, n.o) if g.id not in self.queued and g.cfg is not None] if n.o is not None else []
                if ls:
                    return frozenset.intersection(*[self.through(g, frozenset(st)) for g in ls])
                return st
            if n.o is not None and nm not in asyncq.QUEUE:
                o = self.obj(f, n.o)
            else:
                o = self.obj(f, n.o) if n.o is not None else None
            if o is None:
                return st
            if nm in asyncq.SETTLE:
                return settle(st, o)
            if nm in asyncq.QUEUE:
                return st - {o} - self.elements(f, o)
            ts = self.resolve(n)
            en = None
            mayq = False
            for t in ts:
                e = self.ens.get(t.id, frozenset())
                e = {self.actual(f, n, t, x) for x in e}
                en = e if en is None else en & e
                mayq = mayq or self.mayqueue(t)
            if not ts and n.get('fid') in p.method_cls and not n.get('cm') and not self.simple(n):
                mayq = True
            if mayq:
                st = st - {o} - self.elements(f, o)
            if en:
                st = st | {x for x in en if x is not None}
            return st

        def edge(st, b, i):
            if b.tc is None or len(b.s) != 2:
                return st
            if i == 1:
                st = st | self.swept(f, self.f_node(f, b.tc))
            for a, v in cond_atoms(self.f_node(f, b.tc), i == 0):
                m = a
                while m is not None and (m.k == 'cast' or m.k == 'call' and (m.name or '').startswith('operator bool')):
                    m = m.o if m.k == 'call' else m.c[0]
                m = skip(m)
                if v is False and m is not None and (m.k == 'mem' and m.name in self.storage or m.k == 'ref' and m.decl in al):
                    o = al.get(m.decl) if m.k == 'ref' else self.base(f, m)
                    if o is not None:
                        st = st | {o}
                if v is True and a is not None and a.k == 'call' and a.name == 'IsZeroAmplitude':
                    o = self.obj(f, a.o) if a.o is not None else 'this'
                    if o is not None:
                        st = st | {o}
            return st
        ins, before, after = forward(f, init, lambda s, n: frozenset(transfer(s, n)), lambda a, b: a & b,
                                     edge=lambda s, b, i: frozenset(edge(s, b, i)))
        return al, before, after

    def through(self, g, st):
        """state after a local lambda ran"""
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            if self.depth > 4:
                return frozenset()
            al, before, after = self.analyse_from(g, st)
            ex = None
            for b in g.cfg.blocks.values():
                if g.cfg.exit in b.s and not b.nr:
                    x = after(b.id)
                    if x is not None:
                        ex = x if ex is None else ex & x
            return ex if ex is not None else st
        finally:
            self.depth -= 1

    def isfresh(self, v):
        """an engine object that was just made (nothing is queued for it)"""
        i = v.c[0] if v.c else None
        for _ in range(8):
            i = deref(i)
            if i is None:
                return False
            if i.k == 'new' or i.k == 'call' and i.name in FRESH:
                return True
            if i.k == 'ctor' and len(i.c) == 1 or i.k == 'call' and i.name in CASTS and i.c:
                i = i.c[0]
                continue
            return False
        return False

    def element(self, n):
        """the container an engine expression takes its element from"""
        for _ in range(8):
            n = deref(n)
            if n is None:
                return None
            if n.k == 'ctor' and len(n.c) == 1 or n.k == 'call' and n.name in CASTS and n.c:
                n = n.c[0]
                continue
            break
        b = n.o if n.k == 'call' and n.op == '[]' else n.c[0] if n.k == 'idx' else None
        b = skip(b)
        return b.decl if b is not None and b.k == 'ref' else None

    def swept(self, f, cond):
        """containers whose elements are all settled when the loop with this condition ends"""
        lp = cond.p if cond is not None else None
        while lp is not None and lp.k not in ('for', 'while', 'do', 'if', 'block'):
            lp = lp.p
        out = set()
        if lp is None or lp.k != 'for' or len(lp.c) < 4 or lp.c[3] is None:
            return out
        body = lp.c[3].c if lp.c[3].k == 'block' else [lp.c[3]]
        if any(x.k in ('break', 'continue') for b in body if b is not None for x in b.walk()):
            return out
        for x in body:
            x = skip(x)
            if x is not None and x.k == 'call' and x.name in asyncq.SETTLE and x.o is not None:
                r = deref(x.o)
                if r is not None and r.k == 'ref':
                    v = self.var(f, r.decl)
                    c = self.element(v.c[0]) if v is not None and v.c else None
                    if c is not None:
                        out.add(('e', c))
        return out

    def f_node(self, f, i):
        return f.nodes.get(i) if isinstance(i, int) else i

    def simple(self, n):
        """library calls that cannot queue work: accessors of the interface"""
        return (n.name or '').startswith(('Get', 'Is', 'is', 'Set', 'Free', 'Reset', 'Alloc')) or n.name in ('Rand', 'randGlobalPhase')

    def actual(self, f, call, t, o):
        if o == 'this':
            return self.obj(f, call.o) if call.o is not None else 'this'
        if isinstance(o, tuple) and o[0] == 'p' and o[1] < len(call.c):
            return self.obj(f, call.c[o[1]])
        return None

    def queued_too(self, f, n):
        r = skip(n.o)
        return r is not None and r.k == 'ref' and any(x.k == 'call' and x.name in asyncq.QUEUE and x.c and asyncq.is_ref(x.c[-1], r.decl)
                                                      for x in f.all_nodes())

    def elements(self, f, o):
        if isinstance(o, tuple) and o[0] == 'v':
            v = self.var(f, o[1])
            c = self.element(v.c[0]) if v is not None and v.c else None
            if c is not None:
                return {('e', c)}
        return set()

    def holds(self, f, o, st):
        return o in st or any(e in st for e in self.elements(f, o))

    def uses(self, f):
        """(node, object, description, settled?, inherited)"""
        al, before, after = self.analyse(f)
        out = []
        for m in self.mentions(f, al):
            k, o = self.use(f, m, al)
            if k in ('test', 'alias') or o is None:
                continue
            st = before(m)
            if st is None:
                continue
            out.append((m, o, 'uses amplitudes' if k == 'use' else 'replaces the storage', self.holds(f, o, st), False))
        for n in f.all_nodes():
            if n.k != 'call':
                continue
            if n.name not in asyncq.QUEUE and n.name not in ('=',) and not n.op:
                for a in n.c:
                    for g in asyncq.lambda_args(self.p, f, a):
                        if g.id in self.queued:
                            continue
                        st = before(n)
                        if st is None:
                            continue
                        for o in sorted(self.lam_uses(g, f, al), key=str):
                            out.append((n, o, 'uses amplitudes', self.holds(f, o, st), False))
            if n.op == '()' and n.o is not None and self.queued_too(f, n):
                st = before(n)
                if st is not None:
                    out.append((n, 'this', 'runs work itself that it may also queue', 'this' in st, False))
            if n.name == 'SetQubitCount':
                o = self.obj(f, n.o) if n.o is not None else 'this'
                st = before(n)
                if o is not None and st is not None:
                    out.append((n, o, 'changes the register size', self.holds(f, o, st), False))
                continue
            for t in self.resolve(n):
                for r in sorted(self.req.get(t.id, ()), key=str):
                    if self.public(t):
                        continue
                    o = self.actual(f, n, t, r)
                    st = before(n)
                    if o is None or st is None:
                        continue
                    out.append((n, o, 'uses amplitudes (%s)' % t.name, self.holds(f, o, st), True))
        # only the first, if several parts of one expression
        seen = {}
        for u in out:
            key = (u[0].i, u[1], u[2])
            if key not in seen:
                seen[key] = u
        return list(seen.values())

    def solve(self):
        for f in self.fns:
            self.mayqueue(f)
        self.mq = {k: v for k, v in self.mq.items() if v}   # recursion may have cached a premature 'no'
        for f in self.fns:
            self.mayqueue(f)
        for rnd in range(4):
            ch = False
            for f in self.fns:
                al, before, after = self.analyse(f)
                ex = None
                for b in f.cfg.blocks.values():
                    if f.cfg.exit in b.s and not b.nr and not any(isinstance(x, int) and f.nodes[x].k == 'throw' for x in b.e):
                        st = after(b.id)
                        if st is not None:
                            ex = st if ex is None else ex & st
                e = frozenset(x for x in (ex or ()) if x == 'this' or x[0] == 'p')
                if e != self.ens.get(f.id, frozenset()):
                    self.ens[f.id] = e
                    ch = True
            if not ch:
                break
        for rnd in range(4):
            ch = False
            for f in self.fns:
                if self.public(f):
                    continue
                r = {u[1] for u in self.uses(f) if not u[3] and (u[1] == 'this' or u[1][0] == 'p')}
                if r != self.req.get(f.id, set()):
                    self.req[f.id] = r
                    ch = True
            if not ch:
                break

    # ---- closures
    def closure_uses(self, g):
        al = self.svaliases(g)
        st = [g]
        seen = set()
        while st:
            h = st.pop()
            if h.id in seen:
                continue
            seen.add(h.id)
            for m in self.mentions(h, al):
                k, o = self.use(h, m, al)
                yield m, o
            for n in h.all_nodes():
                if n.k == 'lambda' and n.get('fid') in self.p.fns:
                    st.append(self.p.fns[n.get('fid')])

    def replaces(self, g, seen=None):
        """a node of the closure that may replace the storage pointer or resize the register"""
        seen = seen if seen is not None else set()
        if g.id in seen:
            return None
        seen.add(g.id)
        al = {}
        for m in self.mentions(g, al):
            if self.use(g, m, al)[0] == 'write':
                return m
        for n in g.all_nodes():
            if n.k == 'call' and n.o is None or n.k == 'call' and n.o is not None and self.obj(g, n.o) == 'this':
                if n.name == 'SetQubitCount':
                    return n
                for t in self.resolve(n):
                    if t.cls in self.classes and self.replaces(t, seen) is not None:
                        return n
        return None

    def waited(self, f, call, g, e):
        """after queueing g (whose node e replaces the storage), the host reaches Finish() whenever e can run"""
        flags = self.implied(g, e)

        def transfer(st, n):
            if n is call:
                return frozenset(['pending'])
            if n.k == 'call' and n.name in asyncq.SETTLE and (n.o is None or self.obj(f, n.o) == 'this'):
                return frozenset()
            return st

        def edge(st, b, i):
            if b.tc is not None and len(b.s) == 2:
                for a, v in cond_atoms(self.f_node(f, b.tc), i == 0):
                    r = skip(a)
                    if r is not None and r.k == 'ref' and (r.decl, not v) in flags:
                        return frozenset()   # on this branch the queued work does not get as far
            return st
        ins, before, after = forward(f, frozenset(), transfer, lambda a, b: a | b, edge=edge)
        return 'pending' not in ins.get(f.cfg.exit, frozenset())

    def implied(self, g, e):
        """captured flags known where e runs: set of (decl, value)"""
        caps = set()

        def edge(st, b, i):
            if b.tc is not None and len(b.s) == 2:
                for a, v in cond_atoms(self.f_node(g, b.tc), i == 0):
                    r = skip(a)
                    if r is not None and r.k == 'ref':
                        st = st | {(r.decl, v)}
            return st
        ins, before, after = forward(g, frozenset(), lambda s, n: s, lambda a, b: a & b, edge=edge)
        return before(e) or frozenset()
