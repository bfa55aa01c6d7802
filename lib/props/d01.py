"""D01: the work queue never reports 'finished' while an operation waits or runs, loses none, runs them in order.

The queue class is a monitor: one mutex, condition variables, boolean fields and a container of callables.  Its methods are
interpreted abstractly over all valuations of the boolean fields plus four ghosts (queue empty, an operation taken but not
completed, the caller is the queue's own thread, that thread's id is recorded).  While the mutex is not held every valuation
allowed by the monitor invariant is possible; the invariant (clauses of two literals) is the strongest one that the constructor
establishes and every release of the mutex preserves."""
from itertools import combinations
from ir import *
import asyncq

BUSY, EMPTY, SELF, WID, HELD, JOINED = '#busy', '#empty', '#self', '#wid', '#held', '#joined'
INS = ('push', 'push_back', 'emplace', 'emplace_back')
BAD = ('push_front', 'emplace_front', 'pop_back', 'back', 'insert', 'erase', 'resize')
DEL = ('pop', 'pop_front')


def run(rep, ctx):
    p = ctx.program()
    rep.rule('lockset', 'every field of the queue is accessed with its mutex held (or before it is shared, or after its thread ended)')
    rep.rule('idle on return', 'finish() and dump() return only when nothing waits and nothing runs, or the queue is being destroyed')
    rep.rule('finished means idle', 'the state isFinished() reports as finished implies that nothing waits and nothing runs')
    rep.rule('run unlocked', 'operations run without the queue\'s mutex held, one at a time, each exactly once')
    rep.rule('order', 'operations are inserted at one end and taken from the other')
    rep.rule('notify', 'a change that lets a waiting thread continue is followed by a notification of its condition variable')
    rep.rule('self', 'an operation that dumps its own queue does not wait for itself')
    rep.rule('accept', 'dispatch() stores the operation it is given unless the queue is being destroyed')
    rep.rule('worker', 'the queue\'s thread ends only when the queue is being destroyed')
    cs = [c for c, j in sorted(p.classes.items()) if any('std::function' in p.types[x['t']] and 'queue<' in p.types[x['t']] for x in j.get('fields', ())) and
          any(p.types[x['t']] == 'std::condition_variable' for x in j['fields'])]
    for c in cs:
        m = Monitor(p, c, rep)
        m.solve()
        m.report()
    rep.floor('queue classes', len(cs), 1)
    rep.floor('obligations', len(rep.obl), 25)


class Monitor(object):
    def __init__(self, p, cls, rep):
        self.p, self.cls, self.rep = p, cls, rep
        self.sn = cls.split('::')[-1]
        fs = [(x['n'], p.types[x['t']]) for x in p.classes[cls]['fields']]
        self.mutex = {n for n, t in fs if 'mutex' in t}
        self.cv = {n for n, t in fs if 'condition_variable' in t}
        self.q = {n for n, t in fs if 'queue<' in t}
        self.thr = {n for n, t in fs if 'std::future' in t or t == 'std::thread'}
        self.bools = {n for n, t in fs if t == 'bool'}
        self.ids = {n for n, t in fs if 'thread::id' in t}
        self.other = {n for n, t in fs} - self.mutex - self.cv - self.q - self.thr - self.bools - self.ids
        self.fns = [f for f in p.fns.values() if f.cls == cls and f.body is not None and not f.lam]
        self.acc = {m['id']: m.get('acc') for m in p.classes[cls]['methods']}
        self.workers = set()
        for f in self.fns:
            for n in f.all_nodes():
                if n.k == 'call' and n.q in ('std::async',) or n.k == 'ctor' and (n.get('cls') or '') == 'std::thread':
                    for l in (x for a in n.c for x in asyncq.lambda_args(p, f, a)):
                        self.workers.add(l.id)
        self.inworker = set()
        st = [p.fns[w] for w in self.workers]
        while st:
            g = st.pop()
            if g.id in self.inworker:
                continue
            self.inworker.add(g.id)
            for n in g.all_nodes():
                if n.k == 'call' and n.get('fid') in p.fns and p.fns[n.get('fid')].cls == cls:
                    st.append(p.fns[n.get('fid')])
        self.atoms = sorted(self.bools) + [BUSY, EMPTY, WID]
        self.waits = {}      # cv -> [(predicate lambda, is worker)]
        self.dtoronly = self.bools - {t.name for f in self.fns if not f.name.startswith('~') for n in f.all_nodes()
                                      if n.k == 'asg' for t in [skip(n.c[0])] if t is not None and t.k == 'mem' and t.name in self.bools}
        for f in self.fns:
            for n in f.all_nodes():
                if n.k == 'call' and n.name in ('wait', 'wait_for', 'wait_until') and n.o is not None and self.field(n.o) in self.cv:
                    pr = asyncq.lambda_args(p, f, n.c[-1]) if len(n.c) > 1 else []
                    self.waits.setdefault(self.field(n.o), []).append((pr[0] if pr else None, f.id in self.inworker, f, n))
        self.clauses = None
        self.rec = None

    def field(self, n):
        n = skip(n)
        if n is not None and n.k == 'mem' and 'fid' not in n.a and (not n.c or n.c[0] is None or skip(n.c[0]).k == 'this'):
            return n.name
        return None

    # ---- invariant
    def ok(self, v):
        return all((a in v) == x or (b in v) == y for (a, x), (b, y) in self.clauses)

    def solve(self):
        lits = [(a, x) for a in self.atoms for x in (True, False)]
        self.clauses = [(l, m) for l, m in combinations(lits, 2) if l[0] != m[0]] + [(l, l) for l in lits]
        init = self.initial()
        self.clauses = [c for c in self.clauses if all(self.sat(c, v) for v in init)]
        while True:
            self.rec = None
            self.rel = set()
            self.release(init)
            self.all()
            bad = [c for c in self.clauses if any(not self.sat(c, v) for v in self.rel)]
            if not bad:
                break
            self.clauses = [c for c in self.clauses if c not in bad]

    def sat(self, c, v):
        return any((a in v) == x for a, x in c)

    def initial(self):
        v = {EMPTY}
        for f in self.fns:
            if f.name == self.sn:
                for fld, x, e in f.inits:
                    if fld in self.bools and e is not None and skip(e).get('v') not in (None, '0'):
                        v.add(fld)
        return [frozenset(v)]

    def havoc(self, v, worker):
        """the fields of a state in which the mutex was just acquired"""
        keep = {a for a in v if a in (SELF, HELD, JOINED) or a[0] in 'LO'}
        fixed = {BUSY: BUSY in v} if worker or SELF in v else {BUSY: False} if JOINED in v else {}
        if WID in v:
            fixed[WID] = True
        out = []
        free = [a for a in self.atoms]
        for i in range(1 << len(free)):
            w = {a for j, a in enumerate(free) if i >> j & 1}
            if any((a in w) != x for a, x in fixed.items()):
                continue
            if self.ok(w):
                out.append(frozenset(w | keep))
        return out

    def release(self, vs):
        for v in vs:
            self.rel.add(frozenset(a for a in v if a in self.atoms))

    # ---- abstract interpretation
    def all(self):
        for f in sorted(self.fns, key=lambda f: f.id):
            if self.acc.get(f.id) != 'public' and f.name != '~' + self.sn or f.name == self.sn:
                continue
            roles = [frozenset()] if f.name.startswith('~') else [frozenset(), frozenset([SELF, BUSY, WID])]
            for r in roles:
                self.role = r
                if r and f.name not in ('dump', 'dispatch', 'isFinished'):
                    continue    # an operation that waits for its own queue never ends: not supported
                self.call(f, {r}, 0, True)
        for w in sorted(self.workers):
            self.role = frozenset([SELF])
            ex = self.call(self.p.fns[w], {frozenset([SELF])}, 0, True)
            if self.rec is not None:
                g = self.p.fns[w]
                bad = [v for v in ex if not any(b in v for b in self.dtoronly)]
                self.say('worker', not bad, '%s thread ends' % self.sn, g.loc(g.body), 'the thread of %s can end while operations may still be queued' % self.sn)

    def call(self, f, states, depth, top=False):
        worker = f.id in self.inworker
        if depth > 5:
            return states
        cfg = f.cfg
        ins = {cfg.entry: frozenset(states)}
        work = [cfg.entry]
        outs = set()
        while work:
            bid = work.pop()
            b = cfg.blocks[bid]
            st = self.block(f, b, ins[bid], depth, worker)
            if bid == cfg.exit:
                outs = st
                continue
            if b.nr:
                continue
            for i, s in enumerate(b.s):
                if s < 0:
                    continue
                o = st
                if b.tc is not None and len(b.s) == 2:
                    t = f.nodes.get(b.tc) if isinstance(b.tc, int) else b.tc
                    o = frozenset(v for v in st if self.ev(t, v) in (None, i == 0))
                    if not o:
                        continue
                n = ins.get(s, frozenset()) | o
                if s not in ins or n != ins[s]:
                    ins[s] = n
                    work.append(s)
        outs = ins.get(cfg.exit, frozenset())
        if top:
            self.exit(f, outs)
        return outs

    def exit(self, f, outs):
        if self.rec is None:
            return
        for cv in sorted(self.cv):
            for op in sorted(self.owers.get(cv, ())):
                pass
        for v in outs:
            for a in v:
                if a.startswith('O:'):
                    cv, line = a[2:].split('@')
                    self.say('notify', False, '%s::%s enables %s' % (self.sn, f.name, cv), '%s:%s' % (f.file, line),
                             '%s changes what threads wait for on %s, but can return without notifying it' % (f.short(), cv))
        if f.name in ('finish', 'dump') and not self.role:
            bad = [v for v in outs if '#idle' not in v and not any(b in v for b in self.dtoronly)]
            self.say('idle on return', not bad, '%s::%s returns' % (self.sn, f.name), f.loc(f.body),
                     '%s can return while an operation of the queue is %s' % (f.short(), 'waiting or running'))
        if f.name == 'dispatch' and not self.role:
            bad = [v for v in outs if '#stored' not in v and not any(b in v for b in self.dtoronly)]
            self.say('accept', not bad, '%s::dispatch stores' % self.sn, f.loc(f.body), '%s can return without storing the operation' % f.short())

    def rel1(self, f, vs, worker):
        """release the mutex"""
        self.release(vs)
        out = set()
        for v in vs:
            w = set(a for a in v if a != HELD)
            if EMPTY in v and BUSY not in v:
                w.add('#idle')
            else:
                w.discard('#idle')
            # what was seen last about the destructor-only fields stays true: they are never reset
            for a in list(w):
                if a in self.atoms and a not in (BUSY, WID) and a not in self.dtoronly:
                    w.discard(a)
            if not worker and SELF not in v and JOINED not in v:
                w.discard(BUSY)
            out.add(frozenset(w))
        return frozenset(out)

    def acq(self, vs, worker):
        out = set()
        for v in vs:
            for w in self.havoc(frozenset(v | {HELD}), worker):
                if all(b in w for b in self.dtoronly if b in v):
                    out.add(w)
        return frozenset(out)

    def block(self, f, b, st, depth, worker):
        for e in b.e:
            if isinstance(e, int):
                st = self.node(f, f.nodes[e], st, depth, worker)
            elif e[0] == 'dtor':
                v = self.lockvars(f).get(e[1])
                if v and any(HELD in x for x in st):
                    keep = frozenset(x for x in st if HELD not in x)
                    st = self.rel1(f, frozenset(x for x in st if HELD in x), worker) | keep
        return st

    def lockvars(self, f):
        out = {}
        for n in f.all_nodes():
            if n.k == 'var':
                i = skip(n.c[0]) if n.c and n.c[0] is not None else None
                if i is not None and i.k == 'ctor' and (i.get('cls') or '').startswith(('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')) and \
                        i.c and self.field(i.c[0]) in self.mutex:
                    out[n.decl] = n
        return out

    def say(self, rule, ok, key, where, text):
        if self.rec is not None:
            k = (rule, key, where)
            if k in self.rec:
                ok = ok and self.rec[k][0]
            self.rec[k] = (ok, text)

    def access(self, f, n, st):
        ok = all(HELD in v or JOINED in v for v in st)
        self.say('lockset', ok, '%s::%s accesses %s' % (self.sn, f.name, n.name), f.loc(n), '%s accesses %s without holding the mutex' % (f.short(), n.name))

    def enabled(self, before, after, f, n):
        """add what the step owes to condition variables"""
        out = set(after)
        for cv, ws in self.waits.items():
            for pr, wk, g, c in ws:
                if pr is None:
                    continue
                if not self.pred(pr, before) and self.pred(pr, after):
                    out.add('O:%s@%s' % (cv, n.a.get('l', 0)))
        return frozenset(out)

    def pred(self, g, v):
        """can the predicate be true?"""
        for x in g.body.walk():
            if x.k == 'return' and x.c and x.c[0] is not None:
                return self.ev(x.c[0], v) is not False
        return True

    def node(self, f, n, st, depth, worker):
        p = self.p
        if n.k == 'mem' and 'fid' not in n.a and n.name in (self.bools | self.q | self.ids | self.other | self.thr) and self.field(n):
            if n.name not in self.thr:
                self.access(f, n, st)
            return st
        if n.k == 'decl' or n.k == 'var':
            for v in ([n] if n.k == 'var' else [x for x in n.c if x is not None and x.k == 'var']):
                i = skip(v.c[0]) if v.c and v.c[0] is not None else None
                if i is None:
                    continue
                if v.decl in self.lockvars(f):
                    return self.acq(st, worker) if not any('defer' in show(x) for x in i.c[1:] if x is not None) else st
                if p.types[v.get('t')].replace('const ', '') == 'bool' if v.get('t') is not None else False:
                    out = set()
                    for s in st:
                        e = self.ev(i, s)
                        s = s - {'L%s' % v.decl}
                        if e in (None, True):
                            out.add(s | {'L%s' % v.decl})
                        if e in (None, False):
                            out.add(s)
                    st = frozenset(out)
            return st
        if n.k == 'asg' and n.op == '=':
            t = skip(n.c[0])
            fld = self.field(t)
            a = fld if fld in self.bools else 'L%s' % t.decl if t is not None and t.k == 'ref' and t.get('dk') == 'local' and t.type == 'bool' else None
            if a:
                out = set()
                for s in st:
                    e = self.ev(n.c[1], s)
                    for x in ((True, False) if e is None else (e,)):
                        w = (s | {a}) if x else (s - {a})
                        out.add(self.enabled(s, frozenset(w), f, n) if fld else frozenset(w))
                return frozenset(out)
            return st
        if n.k != 'call':
            return st
        o = self.field(n.o) if n.o is not None else None
        r = skip(n.o) if n.o is not None else None
        if r is not None and r.k == 'ref' and r.decl in self.lockvars(f):
            if n.name == 'unlock':
                return self.rel1(f, st, worker)
            if n.name == 'lock':
                return self.acq(st, worker)
            return st
        if o in self.mutex:
            if n.name == 'unlock':
                return self.rel1(f, st, worker)
            if n.name == 'lock':
                return self.acq(st, worker)
            return st
        if o in self.cv:
            if n.name in ('notify_one', 'notify_all'):
                enough = n.name == 'notify_all' or all(wk for pr, wk, g, c in self.waits.get(o, ()))
                return frozenset(frozenset(a for a in s if not (enough and a.startswith('O:%s@' % o))) for s in st)
            if n.name in ('wait', 'wait_for', 'wait_until'):
                if not all(HELD in v for v in st):
                    self.say('lockset', False, '%s::%s waits' % (self.sn, f.name), f.loc(n), '%s waits without holding the mutex' % f.short())
                if self.role == frozenset([SELF, BUSY, WID]):
                    self.say('self', not st, '%s::%s waits for itself' % (self.sn, f.name), f.loc(n), '%s, called by an operation of the queue, waits for that operation' % f.short())
                pr = asyncq.lambda_args(p, f, n.c[-1]) if len(n.c) > 1 else []
                for s in st:
                    for a in s:
                        if a.startswith('O:'):
                            self.say('notify', False, '%s::%s enables %s' % (self.sn, f.name, a[2:].split('@')[0]), '%s:%s' % (f.file, a.split('@')[1]),
                                     '%s goes to sleep before notifying %s' % (f.short(), a[2:].split('@')[0]))
                sure = frozenset()
                if pr and n.name == 'wait':
                    # the predicate is tried first
                    sure = frozenset(s for s in st if self.evp(pr[0], s) is True)
                    slow = frozenset(s for s in st if self.evp(pr[0], s) is not True)
                    w = self.acq(self.rel1(f, slow, worker), worker) | sure
                    return frozenset(s for s in w if self.evp(pr[0], s) is not False)
                return self.acq(self.rel1(f, st, worker), worker)
            return st
        if o in self.thr and n.name in ('get', 'join', 'wait'):
            # the other thread runs until it ends
            bad = any(HELD in v for v in st)
            self.say('run unlocked', not bad, '%s::%s joins' % (self.sn, f.name), f.loc(n), '%s waits for the thread with the mutex held' % f.short())
            return frozenset(frozenset((v | {JOINED}) - {BUSY}) for v in st)
        if n.name == 'swap':
            fs = [x for x in ([self.field(n.o)] if n.o is not None else []) + [self.field(a) for a in n.c] if x in self.q]
            if fs:
                rs = [skip(a) for a in ([n.o] if n.o is not None else []) + list(n.c)]
                loc = [x for x in rs if x is not None and x.k == 'ref' and x.get('dk') == 'local']
                fresh = bool(loc) and all(self.fresh(f, x.decl) for x in loc)
                return frozenset(w for s in st for w in ([s | {EMPTY}] if fresh else [s | {EMPTY}, s - {EMPTY}]))
            return st
        if o in self.q or n.op == '=' and n.o is not None and self.field(n.o) in self.q:
            nm = n.name
            if n.op == '=' or nm == 'clear':
                return frozenset(s | {EMPTY} for s in st)
            if nm in BAD:
                self.say('order', False, '%s::%s uses %s' % (self.sn, f.name, nm), f.loc(n), '%s does not keep the order of the operations (%s)' % (f.short(), nm))
                return frozenset(w for s in st for w in (s | {EMPTY}, s - {EMPTY}))
            if nm in INS:
                arg = skip(n.c[0]) if n.c else None
                self.say('order', True, '%s::%s uses %s' % (self.sn, f.name, nm), f.loc(n), '')
                return frozenset(self.enabled(s, frozenset((s - {EMPTY}) | {'#stored'}), f, n) for s in st)
            if nm == 'front':
                self.say('run unlocked', all(EMPTY not in s for s in st), '%s::%s takes from the queue' % (self.sn, f.name), f.loc(n), '%s takes an operation from the queue when it may be empty' % f.short())
                return frozenset(s | {'L#front'} for s in st)
            if nm in DEL:
                self.say('order', True, '%s::%s uses %s' % (self.sn, f.name, nm), f.loc(n), '')
                if worker:
                    self.say('run unlocked', all('L#front' in s for s in st), '%s::%s pops' % (self.sn, f.name), f.loc(n), '%s drops an operation that was not taken' % f.short())
                out = set()
                for s in st:
                    s = set(s)
                    if worker and 'L#front' in s:
                        s.add(BUSY)
                    s.discard('L#front')
                    out.add(frozenset(s | {EMPTY}))
                    out.add(frozenset(s - {EMPTY}))
                return frozenset(out)
            return st
        if n.op == '=' and n.o is not None and self.field(n.o) in self.ids:
            if worker and 'get_id' in show(n.c[0]):
                return frozenset(s | {WID} for s in st)
            return frozenset(s - {WID} for s in st)
        if n.op == '()' and n.o is not None and 'function<' in (skip(n.o).type or ''):
            held = any(HELD in s for s in st)
            self.say('run unlocked', not held, '%s::%s runs an operation' % (self.sn, f.name), f.loc(n), '%s runs an operation with the mutex held' % f.short())
            self.say('run unlocked', all(BUSY in s for s in st), '%s::%s runs an operation that was taken' % (self.sn, f.name), f.loc(n),
                     '%s runs an operation that was not removed from the queue before' % f.short())
            self.say('self', all(WID in s for s in st) or not self.ids, '%s::%s thread known' % (self.sn, f.name), f.loc(n), '%s runs an operation before the thread is recorded' % f.short())
            if not worker:
                self.say('run unlocked', False, '%s::%s runs on the caller' % (self.sn, f.name), f.loc(n), '%s runs an operation on a thread that is not the queue\'s' % f.short())
            return frozenset(s - {BUSY} for s in st)
        fid = n.get('fid')
        if fid in p.fns and p.fns[fid].cls == self.cls and p.fns[fid].body is not None:
            return self.call(p.fns[fid], st, depth + 1)
        return st

    def fresh(self, f, d):
        for n in f.all_nodes():
            if n.k == 'var' and n.decl == d:
                i = skip(n.c[0]) if n.c and n.c[0] is not None else None
                return i is None or i.k in ('ctor', 'initlist') and not [x for x in i.c if x is not None]
        return False

    def evp(self, g, v):
        for x in g.body.walk():
            if x.k == 'return' and x.c and x.c[0] is not None:
                return self.ev(x.c[0], v)
        return None

    def ev(self, n, v):
        n = skip(n)
        if n is None:
            return None
        if n.get('v') is not None and n.k in ('lit', 'cast', 'bin', 'un') and n.get('v') in ('0', '1'):
            return n.get('v') == '1'
        if n.k == 'mem' and self.field(n) in self.bools:
            return n.name in v if HELD in v or JOINED in v else None
        if n.k == 'ref' and n.get('dk') == 'local' and n.type.replace('const ', '') == 'bool':
            return 'L%s' % n.decl in v
        if n.k == 'un' and n.op == '!':
            e = self.ev(n.c[0], v)
            return None if e is None else not e
        if n.k == 'bin' and n.op in ('&&', '||'):
            a, b = self.ev(n.c[0], v), self.ev(n.c[1], v)
            if n.op == '&&':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if n.k == 'bin' and n.op in ('==', '!=', '>', '<', '>=', '<='):
            for x, y, op in ((n.c[0], n.c[1], n.op), (n.c[1], n.c[0], {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(n.op, n.op))):
                s, l = skip(x), skip(y)
                if s is not None and s.k == 'call' and s.name == 'size' and s.o is not None and self.field(s.o) in self.q and l is not None and l.get('v') in ('0', '1'):
                    e = EMPTY in v
                    if l.get('v') == '0':
                        return {'==': e, '!=': not e, '>': not e, '<=': e, '<': False, '>=': True}[op]
                    return {'<': e, '>=': not e}.get(op)
            a, b = self.ev(n.c[0], v), self.ev(n.c[1], v)
            if a is not None and b is not None and n.op in ('==', '!='):
                return (a == b) == (n.op == '==')
            return None
        if n.k == 'call' and n.o is not None and self.field(n.o) in self.q:
            if n.name == 'empty':
                return EMPTY in v
            if n.name == 'size':
                return EMPTY not in v
        if n.k == 'call' and n.op in ('==', '!=') and any('get_id' in show(x) for x in n.c if x is not None) or \
                n.k == 'call' and n.op in ('==', '!=') and n.o is not None and 'get_id' in show(n):
            eq = SELF in v and WID in v
            return eq == (n.op == '==')
        return None

    # ---- report
    def report(self):
        self.rec = {}
        self.owers = {}
        self.rel = set()
        for v in (True,):
            self.all()
        # what isFinished() reports
        g = [f for f in self.fns if f.name == 'isFinished']
        for f in g:
            for x in f.body.walk():
                if x.k == 'return' and x.c and x.c[0] is not None:
                    bad = [v for v in self.havoc(frozenset([HELD]), False) if self.ev(x.c[0], v) is not False and (BUSY in v or EMPTY not in v)]
                    bad = [v for v in bad if not any(b in v for b in self.dtoronly)]
                    self.say('finished means idle', not bad, '%s::isFinished returns' % self.sn, f.loc(x),
                             '%s can report finished while an operation waits or runs' % f.short())
        for cv, ws in sorted(self.waits.items()):
            for pr, wk, f, n in ws:
                lp = n.p
                while lp is not None and lp.k not in ('while', 'do', 'for'):
                    lp = lp.p
                self.say('notify', pr is not None or lp is not None, '%s::%s waits on %s' % (self.sn, f.name, cv), f.loc(n),
                         '%s waits on %s without checking a condition afterwards' % (f.short(), cv))
        if self.other:
            self.rep.note('fields not modelled: %s' % sorted(self.other))
        self.rep.note('monitor invariant of %s: %s' % (self.sn, '; '.join('%s%s or %s%s' % ('' if x else 'not ', a, '' if y else 'not ', b)
                                                                     for (a, x), (b, y) in self.clauses)))
        for (rule, key, where), (ok, text) in sorted(self.rec.items()):
            self.rep.check(rule, ok, key, where, text)
