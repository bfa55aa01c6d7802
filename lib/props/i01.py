"""I01: nothing is read before it is written.

Definite-assignment analysis over the type-checked program: data members through every constructor (with the methods it calls
on the object), scalar local variables on every path, arrays allocated without initial values, and freshly allocated amplitude
vectors."""
from ir import *
import re

BUILTIN = re.compile(r'^(const )?(volatile )?(bool|int|unsigned|signed|long|float|double|char|short|__int128|size_t|_Float16|__fp16|_Bool)\b')
ALL = None    # the state of code that is never reached


def meet(a, b):
    return b if a is ALL else a if b is ALL else a & b


class Init(object):
    def __init__(self, p):
        self.p = p
        self.summary = {}
        self.busy = set()
        self.raw = {}          # classes whose objects start with unset members -> their names
        self.tracked = {}
        for q, c in p.classes.items():
            fl = [x['n'] for x in c['fields'] if self.scalar(x['t'])]
            user = [m for m in c['methods'] if m.get('ctor') and not m.get('implicit')]
            if fl and q.startswith('Qrack') and not user:
                self.raw[q] = fl
            elif fl and any(not m.get('params') and self.empty(m['id']) for m in user) and not self.dflt(q, fl):
                self.raw[q] = []
        for q, c in p.classes.items():
            if q in self.raw:
                continue
            self.tracked[q] = [x for x in c['fields'] if self.scalar(x['t']) and not x.get('static')]

    def empty(self, fid):
        f = self.p.fns.get(fid)
        return f is not None and f.body is not None and not [x for x in f.inits if x[0]] and not any(
            n.k in ('asg', 'call') for n in f.body.walk())

    def dflt(self, q, fl):
        return False

    def scalar(self, t):
        t = self.p.types[t] if isinstance(t, int) else t
        if t.endswith('&'):
            return False
        if t.endswith('*') or t.endswith('*const') or BUILTIN.match(t):
            return True
        b = t.replace('const ', '').split('[')[0].strip()
        return b in self.raw or ('::' in b and '<' not in b and b.startswith('Qrack::') and b not in self.p.classes)   # enum

    # ---- what an occurrence of a variable does

    def use(self, n):
        """'w' overwritten or handed out to be overwritten, 'r' read, None neither"""
        x = n
        while True:
            q = x.p
            if q is None:
                return 'r'
            if q.k == 'idx' and q.c and q.c[0] is x and ('[' in x.type) and '(*)' not in x.type:
                x = q
                continue
            break
        if q.k == 'asg' and q.c[0] is x and q.op == '=':
            return 'w'
        if q.k == 'un' and q.op == '&':
            return 'w'
        if q.k == 'sizeof':
            return None
        if q.k == 'call':
            if q.o is x:
                return 'w' if q.op in ('=',) else 'r'
            for j, a in enumerate(q.c):
                if a is x:
                    m = (q.get('pm') or '')
                    if m[j:j + 1] in ('r', 'p') and not (m[j:j + 1] == 'p' and '[' not in x.type):
                        return 'w'
                    if q.op == '>>' and 'stream' in (self.p.types[q.get('ot')] if isinstance(q.get('ot'), int) else (q.q or '')):
                        return 'w'
            return 'r'
        if q.k == 'ctor':
            for j, a in enumerate(q.c):
                if a is x and (q.get('pm') or '')[j:j + 1] == 'r':
                    return 'w'
            return 'r'
        if q.k == 'var' and q.type.endswith('&') and not q.type.startswith('const '):
            return 'w'
        if q.k in ('block', 'for', 'other') and q.k != 'other':
            if q.k == 'block':
                return None
        return 'r'

    def live_members(self):
        """members that are read somewhere other than to copy them into the same member of another object"""
        out = set()
        for f in self.p.fns.values():
            if f.body is None:
                continue
            for n in f.all_nodes():
                if n.k == 'mem' and 'fid' not in n.a and n.q and n.q not in out and self.use(n) == 'r':
                    t = n.p
                    if t is not None and t.k == 'asg' and t.op == '=' and t.c[1] is n and skip(t.c[0]).k == 'mem' and skip(t.c[0]).q == n.q:
                        continue
                    if f.get('ctor') and n.q.rsplit('::', 1)[0] == f.cls:
                        continue    # the constructor's own reads: rule 'order'
                    out.add(n.q)
        return out

    # ---- one function

    def run(self, f, cls, fields, start=frozenset()):
        """(keys set on every normal way out or ALL, [(key, node)] read before being set); `fields`: track members of this"""
        p = self.p
        reads = []
        state0 = start
        initids = set()
        if fields and f.get('ctor'):
            for name, j, e in f.inits:
                if e is not None:
                    for n in self.post(e):
                        initids.add(n.i)
                        state0 = self.step(f, cls, fields, state0, n, reads)
                if name:
                    state0 = state0 | {f.cls + '::' + name}
        cfg = f.cfg
        if cfg is None:
            return state0, reads
        flags = self.flags(f)
        sure = self.sure_loops(f)
        entry = (frozenset(), state0)
        ins = {cfg.entry: {frozenset(): state0}}
        work = [cfg.entry]

        def block(b, v, st, rd):
            for e in b.e:
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n.i in initids:
                        continue
                    st = self.step(f, cls, fields, st, n, rd)
                    v = self.flag_step(flags, v, n)
            return v, st

        def give(s, v, st):
            d = ins.setdefault(s, {})
            if len(d) > 32 and v not in d:
                v = frozenset()
            j = meet(d.get(v, ALL), st)
            if v not in d or j != d[v]:
                d[v] = j
                if s not in work:
                    work.append(s)
        it = 0
        while work:
            it += 1
            if it > 100000:
                raise RuntimeError('no fixed point in ' + f.q)
            bid = work.pop(0)
            b = cfg.blocks[bid]
            for v, st in list(ins[bid].items()):
                v2, st2 = block(b, v, st, None)
                if not b.nr:
                    for i, s in enumerate(b.s):
                        if s < 0:
                            continue
                        v3 = self.assume(f, flags, v2, b, i)
                        if v3 is None:
                            continue
                        x = sure.get(b.term) if i == 1 and isinstance(b.term, int) else None
                        if x is not None:
                            # the loop body runs at least once: leave with what its last part leaves
                            if x not in ins:
                                continue
                            for v4, st4 in list(ins[x].items()):
                                give(s, *block(cfg.blocks[x], v4, st4, None))
                            continue
                        give(s, v3, st2)
                for s in b.eh:
                    give(s, v, st)
                    give(s, v2, st2)
        out = ALL
        for bid in ins:
            b = cfg.blocks[bid]
            last = [f.nodes[e] for e in b.e if isinstance(e, int)][-1:]
            for v, st in ins[bid].items():
                v2, st2 = block(b, v, st, reads)
                if not b.nr and cfg.exit in b.s and not (last and last[0].k == 'throw'):
                    out = meet(out, st2)
        return out, reads

    def flags(self, f):
        """boolean locals that only ever get constants: decl ids"""
        out = {}
        for n in f.body.walk():
            if n.k == 'var' and n.type == 'bool' and n.c and n.c[0] is not None and n.c[0].k == 'lit' and not n.get('static'):
                out[n.decl] = True
        for n in f.body.walk():
            if n.k == 'ref' and n.decl in out and self.use(n) == 'w' and not (
                    n.p.k == 'asg' and n.p.op == '=' and n.p.c[1] is not None and n.p.c[1].k == 'lit'):
                out.pop(n.decl)
            elif n.k == 'ref' and n.decl in out and n.p is not None and n.p.k == 'asg' and n.p.op != '=' and n.p.c[0] is n:
                out.pop(n.decl)
            elif n.k == 'lambda':
                for c in n.get('cap', ()):
                    if c.get('by') != 'copy' and c.get('d') in out:
                        g = self.p.fns.get(n.get('fid'))
                        if g is not None and any(x.k == 'ref' and x.decl == c.get('d') and self.use(x) == 'w' for h in self.nest(g) for x in h.body.walk()):
                            out.pop(c.get('d'), None)
        return set(out)

    def flag_step(self, flags, v, n):
        d = x = None
        if n.k == 'decl':
            for y in n.c:
                if y is not None and y.k == 'var' and y.decl in flags:
                    v = frozenset(z for z in v if z[0] != y.decl) | {(y.decl, y.c[0].val)}
        elif n.k == 'asg' and n.c[0].k == 'ref' and n.c[0].decl in flags:
            d, x = n.c[0].decl, n.c[1].val
            v = frozenset(z for z in v if z[0] != d) | {(d, x)}
        return v

    def assume(self, f, flags, v, b, i):
        if not flags:
            return v
        for a, truth in edge_atoms(f, b, i):
            if a.k == 'ref' and a.decl in flags:
                for z in v:
                    if z[0] == a.decl and (str(z[1]) not in ('0', 'False', 'false')) != truth:
                        return None
        return v

    def sure_loops(self, f):
        """for statements over constant bounds whose body runs at least once: statement id -> block of its last part"""
        out = {}
        cfg = f.cfg
        for n in f.body.walk():
            if n.k != 'for' or n.i is None or len(n.c) != 4 or n.c[1] is None or n.c[2] is None:
                if n.k != 'for' or len(n.c) != 5:
                    continue
            init, cond, inc = n.c[0], n.c[-3], n.c[-2]
            if cond is None or inc is None or cond.k != 'bin' or cond.op not in ('<', '<=', '!=') or cond.c[0].k != 'ref':
                continue
            hi = self.constant(f, cond.c[1])
            lo = None
            if init is not None:
                for x in init.walk():
                    if x.k == 'var' and x.decl == cond.c[0].decl and x.c and x.c[0] is not None:
                        lo = self.constant(f, x.c[0])
                    elif x.k == 'asg' and x.op == '=' and x.c[0].k == 'ref' and x.c[0].decl == cond.c[0].decl:
                        lo = self.constant(f, x.c[1])
            if lo is None or hi is None or not lo < hi:
                continue
            w = cfg.where(inc)
            heads = [b for b in cfg.blocks.values() if b.term == n.i]
            if w is not None and len(heads) == 1 and len(heads[0].s) == 2:
                out[n.i] = w[0]
        return out

    def constant(self, f, n):
        n = skip(n)
        if n.ival() is not None:
            return n.ival()
        if n.k == 'ref':
            for x in f.body.walk():
                if x.k == 'var' and x.decl == n.decl and x.c and x.c[0] is not None and 'const' in x.type:
                    return skip(x.c[0]).ival()
        return None

    def post(self, n):
        for k in n.kids():
            for x in self.post(k):
                yield x
        yield n

    def step(self, f, cls, fields, st, n, reads):
        """effect of evaluating one node; appends (key, node) to reads"""
        k = n.k
        if k == 'mem' and fields and n.c and n.c[0] is not None and n.c[0].k == 'this' and 'fid' not in n.a:
            key = n.q
            u = self.use(n)
            if u == 'r' and key not in st and self.is_tracked(key) and reads is not None:
                reads.append((key, n))
            elif u == 'w' and not self.assigned_by(n):
                return st | {key}
        elif k == 'ref' and n.get('dk') == 'local':
            key = ('L', n.decl)
            if n.p is not None and n.p.k == 'mem' and n.p.c and n.p.c[0] is n and not n.p.get('arrow'):
                if ('L', n.decl) in st or 'fid' in n.p.a:
                    return st
                u = self.use(n.p)
                key = ('L', n.decl, n.p.name)
                if u == 'r' and ('U', n.decl) in st and key not in st and reads is not None:
                    reads.append((key, n))
                elif u == 'w' and not self.assigned_by(n.p):
                    return st | {key}
                return st
            if ('U', n.decl) in st:
                u = self.use(n)
                if u == 'r' and key not in st:
                    if self.obj.get(n.decl):
                        miss = [m for m in self.obj[n.decl] if ('L', n.decl, m) not in st]
                        if miss and reads is not None:
                            reads.append((key, n))
                        return st
                    if n.decl in self.obj:
                        return st
                    if reads is not None:
                        reads.append((key, n))
                elif u == 'w' and not self.assigned_by(n):
                    return st | {key}
        elif k == 'decl' or k == 'var':
            for v in ([n] if k == 'var' else n.c):
                if v is None or v.k != 'var' or v.get('static'):
                    continue
                st = frozenset(x for x in st if not (isinstance(x, tuple) and x[1] == v.decl))
                if self.unset(v):
                    st = st | {('U', v.decl)}
        elif k == 'asg' and n.op == '=':
            t = n.c[0]
            while t is not None and t.k == 'idx':
                t = t.c[0]
            if t is not None and t.k == 'mem' and t.c and t.c[0] is not None and 'fid' not in t.a:
                if t.c[0].k == 'this':
                    return st | {t.q}
                if t.c[0].k == 'ref':
                    return st | {('L', t.c[0].decl, t.name)}
            elif t is not None and t.k == 'ref':
                return st | {('L', t.decl)}
        elif k == 'call' and n.op == '=' and n.o is not None:
            if n.o.k == 'ref':
                return st | {('L', n.o.decl)}
        elif k == 'call' and fields and self.on_this(n):
            g = self.target(n, cls)
            if g is not None:
                w, rd = self.method(g, cls)
                if reads is not None:
                    for key, x in rd:
                        if key not in st:
                            reads.append((key, n))
                return st | w if w is not ALL else st
        elif k == 'ctor' and fields and f.get('ctor') and n.p is None and n.get('fid') in self.p.fns:
            g = self.p.fns[n.get('fid')]
            if any(e is n for nm, j, e in f.inits if not nm):
                w, rd = self.method(g, cls if any(j.get('deleg') for nm, j, e in f.inits) else g.cls)
                return st | w if w is not ALL else st
        elif k == 'lambda':
            g = self.p.fns.get(n.get('fid'))
            wr = set()
            if g is not None:
                for h in self.nest(g):
                    for x in h.body.walk():
                        if x.k == 'ref' and ('U', x.decl) in st and x.get('dk') == 'local':
                            key = ('L', x.decl)
                            if self.use(x) == 'w':
                                wr.add(key)
                        elif fields and x.k == 'mem' and x.c and x.c[0] is not None and x.c[0].k == 'this' and 'fid' not in x.a:
                            if self.use(x) == 'r' and x.q not in st and self.is_tracked(x.q) and reads is not None:
                                reads.append((x.q, n))
                        elif fields and x.k == 'call' and self.on_this(x):
                            t = self.target(x, cls)
                            if t is not None and reads is not None:
                                for key, y in self.method(t, cls)[1]:
                                    if key not in st:
                                        reads.append((key, n))
                for h in self.nest(g):
                    for x in h.body.walk():
                        key = ('L', x.decl) if x.k == 'ref' else None
                        if key and ('U', x.decl) in st and key not in st and key not in wr and self.use(x) == 'r' and x.decl not in self.obj and \
                                reads is not None:
                            reads.append((key, x))
            return st | wr
        return st

    def nest(self, g):
        yield g
        for h in self.p.lambdas.get(g.id, ()):
            for x in self.nest(h):
                yield x

    def assigned_by(self, n):
        """the occurrence is the target of an assignment: it counts when that is evaluated"""
        x = n
        while x.p is not None and x.p.k == 'idx':
            x = x.p
        return x.p is not None and (x.p.k == 'asg' and x.p.c[0] is x or x.p.k == 'call' and x.p.op == '=' and x.p.o is x)

    def is_tracked(self, key):
        if not hasattr(self, '_tk'):
            self._tk = set(q + '::' + x['n'] for q, fl in self.tracked.items() for x in fl)
        return key in self._tk

    obj = {}

    def unset(self, v):
        """a declaration that leaves (part of) its object without a value"""
        init = v.c[0] if v.c else None
        t = v.type
        if t.endswith('&'):
            return False
        if init is None:
            return BUILTIN.match(t) is not None or t.endswith('*') or self.scalar(v.t) or '[' in t and BUILTIN.match(t) is not None
        if init.k == 'ctor' and not init.c and init.get('cls') in self.raw:
            self.obj[v.decl] = self.raw[init.get('cls')]
            return True
        return False

    # ---- methods of the object under construction

    def on_this(self, n):
        if n.get('sm') or not n.get('fid') or not n.get('cls'):
            return False
        return n.o is not None and n.o.k == 'this'

    def target(self, n, cls):
        fid = n.get('fid')
        if n.get('virt') and not n.get('qualcall'):
            cand = {fid} | self.p.overriders.get(fid, set())
            todo = [cls]
            while todo:
                c = todo.pop(0)
                J = self.p.classes.get(c)
                if not J:
                    continue
                for m in J['methods']:
                    if m['id'] in cand:
                        return self.p.fns.get(m['id'])
                todo.extend(J.get('bases', ()))
            return None
        return self.p.fns.get(fid)

    def method(self, g, cls):
        key = (g.id, cls)
        if key in self.summary:
            return self.summary[key]
        if g.body is None:
            return frozenset(), []
        if key in self.busy:
            return ALL, []
        self.busy.add(key)
        w, rd = self.run(g, cls, True)
        self.busy.discard(key)
        if w is not ALL:
            w = frozenset(x for x in w if not isinstance(x, tuple))
        seen = {}
        for k, n in rd:
            if not isinstance(k, tuple):
                seen.setdefault(k, n)
        self.summary[key] = (w, sorted(seen.items()))
        return self.summary[key]


# ---------------------------------------------------------------- arrays allocated without values

FULL = 'full'


def lam_of(n):
    n = skip(n)
    while n is not None and n.k == 'ctor' and 'function' in (n.get('cls') or '') and n.c:
        n = skip(n.c[0])
    if n is not None and n.k == 'ref' and n.get('dk') == 'local':
        for x in n.fn.body.walk():
            if x.k == 'var' and x.decl == n.decl and x.c:
                m = skip(x.c[0])
                while m is not None and m.k == 'ctor' and 'function' in (m.get('cls') or '') and m.c:
                    m = skip(m.c[0])
                return m if m is not None and m.k == 'lambda' else None
    return n if n is not None and n.k == 'lambda' else None


class Arrays(object):
    """`new T[n]` of scalars without initial values: every element is written before the array is read.  State: facts
    (array, first, one past last) with linear expressions over canonical terms; joined by intersection."""

    def __init__(self, p, f, init):
        self.p, self.f, self.I = p, f, init
        self.arr = {}            # decl -> (size linear, second dimension or 0, node)
        self.consts = {}
        self.lists = {}
        for n in f.body.walk():
            if n.k == 'var' and n.c and n.c[0] is not None:
                if 'const' in n.type and not n.type.endswith('*'):
                    self.consts[n.decl] = n.c[0]
                m = self.alloc(n.c[0])
                if m is not None:
                    self.add(n.decl, m, n)
            elif n.k == 'call' and n.op == '=' and n.o is not None and n.o.k == 'ref' and n.c:
                m = self.alloc(n.c[0])
                if m is not None:
                    self.add(n.o.decl, m, n)

    def add(self, d, m, n):
        t = m.type
        r = re.match(r'.*\(\*\)\[(\d+)\]', t)
        self.arr[d] = (self.lin(m.c[0]), int(r.group(1)) if r else 0, n)

    def alloc(self, e):
        while e is not None and e.k in ('cast', 'ctor') and len([x for x in e.c if x is not None]) >= 1:
            if e.k == 'ctor' and 'unique_ptr' not in (e.get('cls') or '') and 'shared_ptr' not in (e.get('cls') or ''):
                return None
            e = e.c[0]
        if e is None or e.k != 'new' or not e.get('arr') or len(e.c) > 1:
            return None
        at = self.p.types[e.get('at')] if isinstance(e.get('at'), int) else ''
        return e if BUILTIN.match(at) and '*' not in at or re.match(r'^(unsigned|int|float|double|long)', at) else None

    def lin(self, n, depth=0):
        """(sorted tuple of terms, constant)"""
        n = skip(n)
        if n is None:
            return None
        v = n.ival()
        if v is not None:
            return ((), v)
        if n.k == 'bin' and n.op in ('+', '-') and depth < 8:
            a, b = self.lin(n.c[0], depth + 1), self.lin(n.c[1], depth + 1)
            if a and b:
                if n.op == '+':
                    return (tuple(sorted(a[0] + b[0])), a[1] + b[1])
                if not b[0]:
                    return (a[0], a[1] - b[1])
        if n.k == 'ref' and n.decl in self.consts and depth < 8:
            return self.lin(self.consts[n.decl], depth + 1)
        return ((self.text(n),), 0)

    def text(self, n):
        n = skip(n)
        if n.k == 'call' and n.name in ('size', 'length') and n.o is not None and not n.c:
            return self.text(n.o) + '.size()'
        return show(n)

    def access(self, n):
        """(array decl, [index nodes]) when the node denotes an element"""
        ix = []
        x = n
        while x is not None:
            if x.k == 'idx':
                ix.insert(0, x.c[1])
                x = x.c[0]
            elif x.k == 'call' and x.op == '[]' and x.o is not None and x.c:
                ix.insert(0, x.c[0])
                x = x.o
            elif x.k == 'call' and x.name == 'get' and x.o is not None:
                x = x.o
            else:
                break
        if x is not None and x.k == 'ref' and x.decl in self.arr and ix:
            return x.decl, ix
        return None

    def fills(self):
        """for statements that write a whole range of an array: statement id -> [(decl, lo, hi)]"""
        out = {}
        for n in self.f.body.walk():
            if n.k != 'for':
                continue
            init, cond, inc, body = n.c[0], n.c[-3], n.c[-2], n.c[-1]
            if cond is None or inc is None or body is None or cond.k != 'bin' or cond.op not in ('<', '!='):
                continue
            v = skip(cond.c[0])
            if v.k != 'ref' or inc.k != 'un' or inc.op not in ('++', '++pre') or skip(inc.c[0]).k != 'ref' or skip(inc.c[0]).decl != v.decl:
                continue
            lo = None
            if init is not None:
                for x in init.walk():
                    if x.k == 'var' and x.decl == v.decl and x.c:
                        lo = self.lin(x.c[0])
            hi = self.lin(cond.c[1])
            if lo is None or hi is None or any(x.k in ('break', 'return', 'goto') and not self.inner(x, n) for x in body.walk()):
                continue
            if any(x.k == 'continue' for x in body.walk()):
                continue
            if any(x.k in ('asg', 'un') and (x.k == 'asg' or x.op.startswith(('++', '--'))) and skip(x.c[0]).k == 'ref' and skip(x.c[0]).decl == v.decl
                   for x in body.walk()):
                continue
            second = {}
            for x in body.walk():
                if x.k != 'asg' or x.op != '=':
                    continue
                a = self.access(x.c[0])
                if a is None:
                    continue
                y, ok = x, True
                while y is not body:
                    y = y.p
                    if y.k in ('if', 'for', 'while', 'do', 'switch', 'cond', 'try', 'lambda', 'forrange') or y.k == 'bin' and y.op in ('&&', '||'):
                        ok = False
                        break
                if not ok:
                    continue
                l = self.lin(a[1][0])
                nm = v.name
                if l is None or l[0].count(nm) != 1:
                    continue
                rest = list(l[0])
                rest.remove(nm)
                rng = (a[0], (tuple(sorted(lo[0] + tuple(rest))), lo[1] + l[1]), (tuple(sorted(hi[0] + tuple(rest))), hi[1] + l[1]))
                if self.arr[a[0]][1]:
                    second.setdefault(rng, set()).add(const_int(a[1][1]) if len(a[1]) > 1 else None)
                    if second[rng] < set(range(self.arr[a[0]][1])):
                        continue
                out.setdefault(n.i, []).append(rng)
        return out

    def other_loop(self, n):
        """written in a loop whose range is not a counted one"""
        v = set(x.decl for y in n.c[0].walk() if y.k in ('idx', 'call') for x in y.walk() if x.k == 'ref')
        y = n.p
        while y is not None:
            if y.k in ('while', 'do', 'forrange'):
                return True
            if y.k == 'for':
                init, cond = y.c[0], y.c[-3]
                if init is None or cond is None or cond.k != 'bin' or cond.op not in ('<', '!=') or skip(cond.c[0]).k != 'ref':
                    return True
                if skip(cond.c[0]).decl not in v:
                    return True
            y = y.p
        return False

    def inner(self, x, loop):
        y = x.p
        while y is not None and y is not loop:
            if y.k in ('for', 'while', 'do', 'switch', 'forrange') and x.k == 'break':
                return True
            y = y.p
        return False

    def covered(self, d, facts, lo, hi):
        cur = lo
        mine = [x for x in facts if x[0] == d]
        if any(x[1] == FULL for x in mine):
            return True
        for _ in range(len(mine) + 1):
            if cur == hi:
                return True
            nxt = [x for x in mine if x[1] == cur]
            if not nxt:
                return False
            full = [x for x in nxt if x[2] == hi]
            cur = (full or nxt)[0][2]
        return cur == hi

    def run(self):
        """[(decl, node of the read or None, ok)]"""
        f = self.f
        fills = self.fills()
        res = []

        def transfer(st, n, rd=None):
            if n.k == 'asg' and n.op == '=':
                a = self.access(n.c[0])
                if a is not None and self.other_loop(n):
                    return st | {(a[0], FULL, FULL)}
                if a is not None and self.arr[a[0]][1]:
                    if len(a[1]) > 1 and self.lin(a[1][0]):
                        st = st | {(a[0], (self.lin(a[1][0]), const_int(a[1][1])), ((), 'row'))}
                elif a is not None:
                    l = self.lin(a[1][0])
                    if l:
                        st = st | {(a[0], l, (l[0], l[1] + 1))}
                return st
            if n.k in ('decl', 'var'):
                for v in ([n] if n.k == 'var' else n.c):
                    if v is not None and v.k == 'var':
                        st = frozenset(x for x in st if x[0] != v.decl)
                return st
            if n.k == 'call' and n.op == '=' and n.o is not None and n.o.k == 'ref' and n.o.decl in self.arr:
                return frozenset(x for x in st if x[0] != n.o.decl)
            if n.k == 'un' and n.op.startswith(('++', '--')):
                nm = show(skip(n.c[0]))
                return frozenset(x for x in st if x[1] == FULL or not (nm in str(x[1]) or nm in x[2][0]))
            if n.k in ('call', 'idx'):
                a = self.access(n)
                if a is not None:
                    q = n.p
                    if q is not None and q.k == 'asg' and q.op == '=' and q.c[0] is n:
                        return st
                    if self.arr[a[0]][1]:
                        if len(a[1]) == 1:
                            return st      # a row
                        if rd is not None:
                            l = (self.lin(a[1][0]), const_int(a[1][1]))
                            rd.append((a[0], n, self.covered(a[0], st, ((), 0), self.arr[a[0]][0]) or any(x[0] == a[0] and x[1] == l for x in st)))
                        return st
                    if q is not None and q.k == 'un' and q.op == '&':
                        return st
                    if rd is not None:
                        l = self.lin(a[1][0])
                        ok = self.covered(a[0], st, ((), 0), self.arr[a[0]][0]) or any(x[0] == a[0] and x[1] == l for x in st)
                        rd.append((a[0], n, ok))
                    return st
            if n.k in ('call', 'ctor'):
                pm = n.get('pm') or ''
                dst = None
                for j, x in enumerate(n.c):
                    if x is None:
                        continue
                    d = self.whole(x)
                    if d is None:
                        continue
                    std = (n.q or '').startswith('std::')
                    if std and n.name in ('copy', 'transform', 'fill', 'copy_n', 'fill_n'):
                        if n.name in ('copy', 'transform') and j == 2 or n.name in ('fill', 'fill_n') and j == 0:
                            dst = d
                            lo = self.offset(x)
                            size = self.extent(n)
                            if lo is not None and size is not None:
                                st = st | {(d, lo, (tuple(sorted(lo[0] + size[0])), lo[1] + size[1]))}
                            continue
                        if d == dst:
                            continue
                    if not std and pm[j:j + 1] == 'p':
                        st = st | {(d, FULL, FULL)}      # an output parameter
                        continue
                    if std and n.name in ('move', 'swap', 'unique_ptr'):
                        continue
                    if n.k == 'ctor' and 'unique_ptr' in (n.get('cls') or ''):
                        continue
                    if rd is not None:
                        rd.append((d, n, self.covered(d, st, ((), 0), self.arr[d][0])))
                return st
            if n.k == 'lambda':
                g = self.p.fns.get(n.get('fid'))
                if g is not None and rd is not None:
                    for h in self.I.nest(g):
                        for x in h.body.walk():
                            if x.k == 'ref' and x.decl in self.arr:
                                rd.append((x.decl, n, self.covered(x.decl, st, ((), 0), self.arr[x.decl][0])))
                                break
                return st
            return st

        def edge(st, b, i):
            if i == 1 and isinstance(b.term, int) and b.term in fills:
                return st | frozenset(fills[b.term])
            return st
        ins, before, after = forward(f, frozenset(), transfer, lambda a, b: a & b, edge=edge, eh=True)
        for bid in ins:
            st = ins[bid]
            for e in f.cfg.blocks[bid].e:
                if isinstance(e, int):
                    st = transfer(st, f.nodes[e], res)
        return res

    def whole(self, x):
        """array decl when the argument is (a pointer into) the array"""
        x = skip(x)
        if x is None:
            return None
        if x.k == 'bin' and x.op == '+':
            for y in x.c:
                d = self.whole(y)
                if d is not None:
                    return d
            return None
        if x.k == 'call' and x.name == 'get' and x.o is not None and x.o.k == 'ref' and x.o.decl in self.arr:
            return x.o.decl
        if x.k == 'ref' and x.decl in self.arr:
            return x.decl
        return None

    def offset(self, x):
        l = self.lin(x)
        if l is None:
            return None
        t = [y for y in l[0] if not y.endswith('.get()') and y not in [self.arr[d][2].name for d in self.arr]]
        return (tuple(t), l[1])

    def extent(self, n):
        """number of elements an algorithm writes"""
        if n.name in ('fill_n', 'copy_n'):
            return self.lin(n.c[1])
        a, b = skip(n.c[0]), skip(n.c[1])
        if a.k == 'call' and a.name == 'begin' and b.k == 'call' and b.name == 'end' and show(a.o) == show(b.o):
            return ((self.text(a.o) + '.size()',), 0)
        la, lb = self.lin(a), self.lin(b)
        if la and lb:
            rest = list(lb[0])
            for t in la[0]:
                if t not in rest:
                    return None
                rest.remove(t)
            return (tuple(rest), lb[1] - la[1])
        return None


# ---------------------------------------------------------------- amplitude vectors

class Amps(object):
    """a freshly allocated amplitude vector holds no values until clear(), copy(), a whole copy_in(), a state read into it, or a
    par_for over all of it whose body writes on every path"""

    def __init__(self, p, f, init):
        self.p, self.f, self.I = p, f, init
        self.consts = {}
        for n in f.body.walk():
            if n.k == 'var' and n.c and n.c[0] is not None:
                self.consts[n.decl] = n.c[0]

    def key(self, n):
        return path(n)

    def alloc(self, e):
        e = skip(e)
        return e if e is not None and e.k == 'call' and e.name == 'AllocStateVec' else None

    def size(self, n, st):
        n = skip(n)
        if n.k == 'ref' and n.decl in self.consts:
            m = skip(self.consts[n.decl])
            if m.k in ('call', 'mem'):
                n = m
        t = show(n)
        if n.k == 'mem' and n.name == 'maxQPowerOcl' and n.c and n.c[0] is not None and n.c[0].k == 'this':
            for x in st:
                if x[0] == 'size':
                    return 'pow2Ocl(%s)' % x[1]
        if n.k == 'ref':
            return n.name
        return t

    def run(self):
        f = self.f
        out = []

        def transfer(st, n, rd=None):
            if n.k in ('decl', 'var'):
                for v in ([n] if n.k == 'var' else n.c):
                    if v is not None and v.k == 'var' and v.c and self.alloc(v.c[0]) is not None:
                        a = self.alloc(v.c[0])
                        if a.c:
                            st = frozenset(x for x in st if x[1] != ('v', v.decl)) | {('raw', ('v', v.decl), self.size(a.c[0], st), a.i)}
                            if rd is not None:
                                rd.append(('alloc', a))
                return st
            if n.k == 'call' and n.op == '=' and n.o is not None and self.alloc(n.c[0]) is not None:
                a = self.alloc(n.c[0])
                k = self.key(n.o)
                if rd is not None:
                    rd.append(('alloc', a))
                return frozenset(x for x in st if x[1] != k) | {('raw', k, self.size(a.c[0], st), a.i)}
            if n.k == 'call' and n.name == 'ResetStateVec' and n.c:
                a = self.alloc(n.c[0])
                base = path(n.o) if n.o is not None else ('this',)
                k = (base or ('?',)) + ('stateVec',)
                if a is not None:
                    if rd is not None:
                        rd.append(('alloc', a))
                    return frozenset(x for x in st if x[1] != k) | {('raw', k, self.size(a.c[0], st), a.i)}
                src = path(n.c[0])
                for x in st:
                    if x[0] == 'raw' and x[1] == src and rd is not None:
                        rd.append(('use', x[3], n, 'becomes the state of the engine'))
                return frozenset(x for x in st if x[1] != k)
            if n.k == 'call' and n.name == 'SetQubitCount' and n.c and (n.o is None or n.o.k == 'this'):
                return frozenset(x for x in st if x[0] != 'size') | {('size', show(skip(n.c[0])))}
            raws = [x for x in st if x[0] == 'raw']
            if not raws:
                return st
            if n.k == 'call':
                k = path(n.o) if n.o is not None else None
                for x in raws:
                    if k == x[1]:
                        if n.name in ('clear', 'copy') or n.name == 'copy_in' and len([a for a in n.c if a is not None and a.k != 'defarg']) == 1:
                            return st - {x}
                        if n.name in ('read', 'read2', 'copy_out', 'get_probs', 'shuffle', 'copy_in') and rd is not None:
                            rd.append(('use', x[3], n, 'is read'))
                    for j, a in enumerate(n.c):
                        if a is None:
                            continue
                        ap = path(a)
                        if ap and ap[:len(x[1])] == x[1] and len(ap) > len(x[1]) and (n.get('pm') or '')[j:j + 1] == 'p':
                            return st - {x}
                        y = skip(a)
                        b = deref(a)
                        # dynamic_pointer_cast<StateVectorArray>(stateVec)->amplitudes.get()
                        if (n.get('pm') or '')[j:j + 1] == 'p' and b is not None and b.k == 'mem' and b.name == 'amplitudes':
                            c = deref(b.c[0])
                            if c is not None and c.k == 'call' and c.name == 'dynamic_pointer_cast' and path(c.c[0]) == x[1]:
                                return st - {x}
                    if n.name == 'par_for' and len(n.c) == 3:
                        lam = lam_of(n.c[2])
                        if lam is not None:
                            w = self.writes(lam, x[1])
                            if w and const_int(n.c[0]) == 0 and self.size(n.c[1], st) == x[2]:
                                return st - {x}
                for j, a in enumerate(n.c):
                    ap = path(a) if a is not None else None
                    for x in raws:
                        if ap == x[1] and n.name not in ('dynamic_pointer_cast', 'operator bool', 'operator->'):
                            g = self.p.fns.get(n.get('fid'))
                            if g is not None and g.body is not None and j < len(g.params) and any(
                                    y.k == 'call' and y.name in ('write', 'write2', 'clear', 'copy', 'copy_in') for h in self.I.nest(g) for y in h.body.walk()):
                                return st - {x}
                            if rd is not None:
                                rd.append(('use', x[3], n, 'is handed to %s()' % n.name))
                if n.name in ('write', 'write2') and k is not None:
                    y = n.p
                    while y is not None and y.k == 'block':
                        y = y.p
                    for x in raws:
                        if k == x[1] and y is not None and y.k in ('for', 'while', 'forrange', 'do'):
                            return st - {x}
            if n.k == 'lambda':
                q = n.p
                while q is not None and q.k in ('cast', 'ctor'):
                    q = q.p
                for x in raws:
                    if q is not None and q.k == 'call' and q.name.startswith('par_for'):
                        if self.reads(n, x[1]) and rd is not None:
                            rd.append(('use', x[3], n, 'is read in a parallel loop'))
            return st

        def edge(st, b, i):
            # a null vector is not an unset one
            for a, truth in edge_atoms(f, b, i):
                a = skip(a)
                if a.k == 'call' and a.name == 'operator bool' and a.o is not None:
                    k = path(a.o)
                    if not truth:
                        st = frozenset(x for x in st if x[1] != k)
            return st
        ins, before, after = forward(f, frozenset(), transfer, lambda a, b: a | b, edge=edge)
        for bid in ins:
            st = ins[bid]
            b = f.cfg.blocks[bid]
            for e in b.e:
                if isinstance(e, int):
                    st = transfer(st, f.nodes[e], out)
            if f.cfg.exit in b.s and not b.nr:
                for x in st:
                    if x[0] == 'raw' and x[1] and x[1][-1] == 'stateVec':
                        out.append(('use', x[3], None, 'is left behind as the state of the engine'))
        return out

    def refs(self, n, k):
        """does the expression denote the vector"""
        return path(n) == k

    def writes(self, lam, k):
        """every path through the loop body writes the vector"""
        g = self.p.fns.get(lam.get('fid'))
        if g is None or g.cfg is None:
            return False

        def tr(st, n):
            if n.k == 'call' and n.name in ('write', 'write2') and n.o is not None and self.refs(n.o, k):
                return True
            return st
        ins, before, after = forward(g, False, tr, lambda a, b: a and b)
        res = True
        for bid in ins:
            b = g.cfg.blocks[bid]
            if g.cfg.exit in b.s and not b.nr:
                res = res and bool(after(bid))
        return res

    def reads(self, lam, k):
        """an element is read on a path on which the loop body has not written it"""
        g = self.p.fns.get(lam.get('fid'))
        if g is None or g.cfg is None:
            return False
        bad = []

        def tr(st, n):
            if n.k == 'call' and n.o is not None and self.refs(n.o, k):
                if n.name == 'write' and n.c:
                    return st | {show(skip(n.c[0]))}
            return st
        ins, before, after = forward(g, frozenset(), tr, lambda a, b: a & b)
        for n in g.body.walk():
            if n.k == 'call' and n.name in ('read', 'read2') and n.o is not None and self.refs(n.o, k):
                st = before(n)
                if st is not None and not all(show(skip(a)) in st for a in n.c):
                    bad.append(n)
        return bool(bad)


def fill_routines(rep, p):
    """clear(), copy() and the whole copy_in() of a vector write every element on every path"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.lam or f.cls != 'Qrack::StateVectorArray' or f.body is None or f.cfg is None:
            continue
        if not (f.name == 'clear' or f.name == 'copy' or f.name == 'copy_in' and len(f.params) == 1):
            continue

        def tr(st, x):
            if x.k == 'call' and x.name == f.name and x.o is not None and x.o.k == 'this':
                return True
            if x.k == 'call' and x.name == 'par_for' and len(x.c) == 3 and const_int(x.c[0]) == 0 and is_this_field(x.c[1], 'capacity'):
                lam = lam_of(x.c[2])
                if lam is not None:
                    g = p.fns.get(lam.get('fid'))
                    if g is not None:
                        ix = g.params[0]['d']
                        for y in g.body.walk():
                            t = y.c[0] if y.k == 'asg' and y.op == '=' else y.o if y.k == 'call' and y.op == '=' else None
                            if t is None or not (y.p is None or y.p is g.body):
                                continue
                            a = t.c[0] if t.k == 'call' and t.op == '[]' else t.c[1] if t.k == 'idx' else None
                            b = t.o if t.k == 'call' else t.c[0]
                            if a is not None and is_this_field(b, 'amplitudes') and skip(a).k == 'ref' and skip(a).decl == ix:
                                return True
            return st
        ins, before, after = forward(f, False, tr, lambda a, b: a and b)
        ok = True
        for bid in ins:
            b = f.cfg.blocks[bid]
            if f.cfg.exit in b.s and not b.nr:
                ok = ok and bool(after(bid))
        n += 1
        rep.check('fill', ok, '%s(%s)' % (f.short(), f.params[0]['n'] + ' ' + p.types[f.params[0]['t']] if f.params else ''), f.loc(), 'does not write every element on every path')
    return n


def run(rep, ctx):
    p = ctx.program()
    A = Init(p)
    rep.rule('members', 'every constructor gives every scalar data member of its class a value on every path')
    rep.rule('order', 'no constructor, nor a method it calls on the object, reads a member that has no value yet')
    rep.rule('locals', 'every scalar local variable has a value on every path to each of its reads')
    live = A.live_members()
    nm = 0
    for f in sorted((f for f in p.fns.values() if f.get('ctor') and f.cls in A.tracked), key=lambda f: (f.q, f.line, f.id)):
        if f.body is None:
            continue
        c, m = p.method_cls.get(f.id, (None, None))
        if m is not None and m.get('implicit'):
            continue
        if any(j.get('deleg') for _, j, _ in f.inits):
            continue
        fl = A.tracked[f.cls]
        w, rd = A.method(f, f.cls)
        sig = '%s(%s)' % (f.short(), ','.join(x['n'] or '' for x in f.params))
        for x in fl:
            if f.cls + '::' + x['n'] not in live:
                continue
            nm += 1
            rep.check('members', w is ALL or f.cls + '::' + x['n'] in w, '%s: %s' % (sig, x['n']), f.loc(),
                      'a path through the constructor leaves member %s without a value' % x['n'])
        bad = {}
        for key, n in rd:
            if key.rsplit('::', 1)[0] == f.cls or key.rsplit('::', 1)[0] in p.bases_of.get(f.cls, ()):
                bad.setdefault(key, n)
        rep.check('order', not bad, sig, f.loc(), 'reads %s before any value was given to it' % ', '.join(
            '%s (%s)' % (k.split('::')[-1], n.fn.loc(n)) for k, n in sorted(bad.items())))
    nl = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.body is None or f.cfg is None:
            continue
        un = [n for n in f.body.walk() if n.k == 'var' and not n.get('static') and A.unset(n) and not (n.p is not None and n.p.k in ('forrange', 'catch'))]
        if not un:
            continue
        w, rd = A.run(f, f.cls, False)
        bad = {}
        for key, n in rd:
            if isinstance(key, tuple):
                bad.setdefault(key[1], n)
        for v in un:
            nl += 1
            b = bad.get(v.decl)
            rep.check('locals', b is None, '%s: %s@%d' % (p.root_of(f).short(), v.name, [x for x in un if x.name == v.name].index(v)) + ' ' + f.id[-12:], f.loc(b or v),
                      '%s is read on a path on which it has no value' % v.name)
    rep.rule('arrays', 'every element of an array allocated without initial values is written before the array is read')
    rep.rule('amplitudes', 'a freshly allocated amplitude vector is filled before it is read or becomes the state of an engine')
    rep.rule('fill', 'the routines that fill an amplitude vector write every element')
    na = nv = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.body is None or f.cfg is None:
            continue
        if any(n.k == 'new' and n.get('arr') for n in f.body.walk()):
            B = Arrays(p, f, A)
            if B.arr:
                bad = {}
                for d, n, ok in B.run():
                    if not ok:
                        bad.setdefault(d, n)
                for j, d in enumerate(sorted(B.arr)):
                    na += 1
                    rep.check('arrays', d not in bad, '%s: %s %s' % (p.root_of(f).short(), B.arr[d][2].name or show(B.arr[d][2].o), f.id[-16:] + '#%d' % j),
                              f.loc(bad.get(d, B.arr[d][2])), 'elements of this array may be read before they are written (%s)' % (show(bad[d])[:80] if d in bad else ''))
        if any(n.k == 'call' and n.name == 'AllocStateVec' for n in f.body.walk()) and not f.lam:
            bad, sites = {}, {}
            for r in Amps(p, f, A).run():
                if r[0] == 'alloc':
                    sites[r[1].i] = r[1]
                else:
                    bad.setdefault(r[1], r)
            for j, i in enumerate(sorted(sites)):
                nv += 1
                b = bad.get(i)
                rep.check('amplitudes', b is None, '%s %s#%d' % (f.short(), f.id[-16:], j), f.loc(sites[i] if b is None or b[2] is None else b[2]),
                          'the amplitude vector allocated at line %s %s before it is filled' % (sites[i].l, b[3] if b else ''))
    nf = fill_routines(rep, p)
    rep.floor('arrays without initial values', na, 15)
    rep.floor('amplitude vectors', nv, 20)
    rep.floor('filling routines', nf, 3)
    rep.floor('members in constructors', nm, 100)
    rep.floor('local variables without an initial value', nl, 40)
    rep.note('raw classes: %s' % sorted(A.raw))
