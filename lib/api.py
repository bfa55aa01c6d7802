"""Foreign-function boundary analysis (src/pinvoke_api.cpp).

One forward must-dataflow per function tracks, per program point:
  LT(v,V)/LE(v,V)/EQ(v,V)  integer variable v is < / <= / == V.size() for registry vector V
  NN(k)                    handle k (a local, or element `V[v]`) is not null
  AL(a,b)                  handles a and b are the same object
  HELD(m,d)                mutex m is held by the guard object living in local d
  FR(k)                    handle k designates an object created in this function (not yet shared)
  NE(it,V)                 iterator local `it` is not V.end()
Helper functions are summarised: what they require of their parameters, and what a normal/true/false return implies.
"""
from ir import *

FILE = 'src/pinvoke_api.cpp'
HANDLE = ('Qrack::QInterface>', 'Qrack::QNeuron>', 'Qrack::QCircuit>')


def is_handle_type(t):
    t = t.replace('const ', '').strip().rstrip('&').strip()
    return t.startswith('std::shared_ptr<') and any(t.endswith(h) for h in HANDLE)


def is_obj_ptr(t):
    """a shared pointer to any library object"""
    t = t.replace('const ', '').strip().rstrip('&').strip()
    return t.startswith('std::shared_ptr<Qrack::Q')


def handle_kind(t):
    for h in HANDLE:
        if h[:-1] in t:
            return h.split('::')[1][:-1]
    return None


class Api(object):
    def __init__(self, prog):
        self.p = prog
        self.fns = [f for f in prog.fns.values() if f.file == FILE and f.cfg is not None]
        self.byid = {f.id: f for f in self.fns}
        self.api = [f for f in self.fns if f.get('extc') and f.get('hdr')]
        self.regs = {}    # registry vectors of handles and vectors grown with them
        self.maps = {}
        for q, v in prog.vars.items():
            if v['file'] != FILE:
                continue
            t = prog.types[v['t']]
            if t.startswith('std::vector<'):
                self.regs[q] = t
            elif t.startswith('std::map<'):
                self.maps[q] = t
        self.groups = self._groups()
        self.req = {f.id: set() for f in self.fns}
        self.ens = {f.id: (None, None, None) for f in self.fns}
        self.held_by = {}
        self.results = {}
        self.writes = {}
        direct = {}
        for f in self.fns:
            w = set()
            for n in f.all_nodes():
                tgt = n.o if n.k == 'call' and n.op == '=' else n.c[0] if n.k == 'asg' and n.c else None
                k = self.key(tgt) if tgt is not None else None
                if k and k[0] == 'reg':
                    w.add(k[1])
            direct[f.id] = w
        for f in self.fns:
            seen, todo, w = set(), [f.id], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                w |= direct[x]
                todo += [n.get('fid') for n in self.byid[x].calls() if n.get('fid') in self.byid]
            self.writes[f.id] = w

    def _groups(self):
        """registry vectors grown together in one function form a group of equal size"""
        par = {v: v for v in self.regs}

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        direct, calls = {}, {}
        for f in self.fns:
            g = set()
            for n in f.calls():
                if n.k == 'call' and n.name in ('push_back', 'emplace_back') and n.o is not None:
                    o = path(n.o)
                    if o and o[0] == 'g' and o[1] in self.regs and len(o) == 2:
                        g.add(o[1])
            direct[f.id] = g
            calls[f.id] = [n.get('fid') for n in f.calls() if n.get('fid') in self.byid]
        self.reg_grow = {}
        self.grow = {}   # exported function -> registries it grows, helpers included
        for f in self.fns:
            seen, todo, g = set(), [f.id], set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    g |= direct[x]
                    todo += calls[x]
            if g:
                self.reg_grow[f.id] = g
            if not f.get('extc'):
                continue
            if g:
                self.grow[f.id] = g
            g = sorted(g)
            for x in g[1:]:
                par[find(x)] = find(g[0])
        out = {}
        for v in self.regs:
            out.setdefault(find(v), set()).add(v)
        return {v: out[find(v)] for v in self.regs}

    # ------------------------------------------------ canonical names
    def var(self, n):
        n = skip(n)
        if n is not None and n.k == 'ref' and n.get('dk') in ('local', 'parm'):
            return ('v', n.decl)
        return None

    def key(self, n):
        """canonical handle/element name"""
        n = deref(n)
        if n is None:
            return None
        v = self.var(n)
        if v:
            return v
        if n.k == 'call' and n.op == '[]' and n.o is not None or n.k == 'call' and n.name == 'at' and n.o is not None:
            g = skip(n.o)
            if g is not None and g.k == 'ref' and g.get('dk') == 'global' and (g.q in self.regs or g.q in self.maps):
                i = self.var(n.c[0]) or self.key(n.c[0])
                if i is None:
                    ci = const_int(n.c[0])
                    i = ('c', ci) if ci is not None else None
                if i is not None:
                    return ('reg', g.q, i)
        return None

    def same(self, st, a, b):
        if a is None or b is None:
            return False
        if a == b:
            return True
        return self.cls(st, a) & self.cls(st, b) != set()

    def cls(self, st, a):
        out = {a}
        ch = True
        while ch:
            ch = False
            for f in st:
                if f[0] == 'AL':
                    if f[1] in out and f[2] not in out:
                        out.add(f[2])
                        ch = True
                    if f[2] in out and f[1] not in out:
                        out.add(f[1])
                        ch = True
        # element names built over an aliased index variable
        for k in list(out):
            if k[0] == 'reg':
                for f in st:
                    if f[0] == 'AL' and f[1] == k[2]:
                        out.add(('reg', k[1], f[2]))
                    if f[0] == 'AL' and f[2] == k[2]:
                        out.add(('reg', k[1], f[1]))
        return out

    def has(self, st, kind, a):
        return any((kind, k) in st for k in self.cls(st, a))

    def kill(self, st, k):
        """variable or element k is overwritten"""
        def has(x):
            return x == k or isinstance(x, tuple) and any(has(y) for y in x)

        def mentions(f):
            return any(has(x) for x in f[1:])
        # keep what other aliases of k already know
        add = set()
        for kind in ('NN', 'FR'):
            if self.has(st, kind, k):
                for a in self.cls(st, k):
                    if a != k:
                        add.add((kind, a))
        return frozenset(f for f in (st | add) if not mentions(f))

    def nn_value(self, st, e):
        """is the handle-valued expression known not null"""
        e0 = e
        e = skip(e)
        if e is None:
            return False
        k = self.key(e)
        if k is not None:
            return self.has(st, 'NN', k)
        if e.k == 'cond':
            a, b = set(st), set(st)
            for at, tr in cond_atoms(e.c[0], True):
                a |= self.atom(st, at, tr)
            for at, tr in cond_atoms(e.c[0], False):
                b |= self.atom(st, at, tr)
            return self.nn_value(frozenset(a), e.c[1]) and self.nn_value(frozenset(b), e.c[2])
        if e.k == 'call':
            if e.get('fid') in self.byid:
                return self.ens[e.get('fid')][2] == 'nn'
            if e.name and 'pointer_cast' in e.name:
                return False
            return e.op is None  # a library call that returns a fresh object or throws
        if e.k == 'ctor':
            if not e.c:
                return False
            a = skip(e.c[0])
            if a is not None and a.k == 'nullptr':
                return False
            if a is not None and a.k == 'new':
                return True
            return self.nn_value(st, e.c[0]) if len(e.c) >= 1 and e.cls_is_handle else False
        if e.k == 'new':
            return True
        return False

    def fresh_value(self, e):
        """null, or an object no other thread can know yet"""
        e = skip(e)
        if e is not None and (e.k == 'nullptr' or e.k == 'ctor' and is_handle_type(e.type) and (not e.c or skip(e.c[0]).k in ('nullptr', 'new'))):
            return True
        if e is not None and e.k == 'initlist' and is_handle_type(e.type):
            return all(skip(x).k == 'nullptr' for x in e.c if x is not None)
        return e is not None and (e.k == 'new' or e.k == 'call' and e.op is None and e.get('fid') not in self.byid and
                                  not (e.name and 'pointer_cast' in e.name) and is_handle_type(e.type))

    # ------------------------------------------------ facts
    def size_of(self, n):
        n = skip(n)
        if n is not None and n.k == 'call' and n.name == 'size' and n.o is not None:
            g = skip(n.o)
            if g is not None and g.k == 'ref' and g.get('dk') == 'global' and g.q in self.regs:
                return g.q
        return None

    def cmp(self, v, op, V, st=frozenset()):
        out = set()
        for W in self.groups[V]:
            if op == '<':
                out |= {('LT', v, W), ('LE', v, W)}
            elif op == '<=':
                out.add(('LE', v, W))
            elif op == '==':
                out |= {('EQ', v, W), ('LE', v, W)}
            elif op == '!=':
                if ('LE', v, W) in st:
                    out.add(('LT', v, W))
            elif op in ('>=', '>'):
                out.add(('GE', v, W))
        return out

    NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
    FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}

    def atom(self, st, n, truth):
        out = set()
        if n.k == 'call' and n.o is not None and (n.name == 'operator bool'):
            k = self.key(n.o)
            if k and truth:
                out.add(('NN', k))
            return out
        if n.k == 'call' and n.op in ('==', '!='):
            a, b = (n.o, n.c[0]) if n.o is not None else (n.c[0], n.c[1])
            a, b = skip(a), skip(b)
            neq = (n.op == '!=') == truth
            for x, y in ((a, b), (b, a)):
                if y is not None and (y.k == 'nullptr' or y.k == 'ctor' and (not y.c or skip(y.c[0]).k == 'nullptr')):
                    k = self.key(x)
                    if k and neq:
                        out.add(('NN', k))
                if y is not None and y.k == 'call' and y.name in ('end', 'cend') and y.o is not None and neq:
                    g = skip(y.o)
                    v = self.var(x)
                    if v and g.k == 'ref' and g.get('dk') == 'global':
                        out.add(('NE', v, g.q))
            return out
        if n.k == 'bin' and n.op in self.NEG:
            op = n.op if truth else self.NEG[n.op]
            for x, y, o in ((n.c[0], n.c[1], op), (n.c[1], n.c[0], self.FLIP[op])):
                v, V = self.var(x), self.size_of(y)
                if v and V:
                    out |= self.cmp(v, o, V, st)
                if v and V is None and o in ('<', '<=', '=='):
                    w = self.var(y)   # v <= w and w < size
                    if w:
                        for f in st:
                            if f[0] == 'LT' and f[1] == w:
                                out |= {('LT', v, f[2]), ('LE', v, f[2])}
                yy = skip(y)
                if yy is not None and yy.k == 'nullptr' and o == '!=':
                    k = self.key(x)
                    if k:
                        out.add(('NN', k))
            return out
        if n.k == 'call' and n.get('fid') in self.byid:
            e = self.ens[n.get('fid')]
            facts = e[0] if truth else e[1]
            if facts:
                out |= self.subst(n, facts)
            return out
        k = self.key(n)
        if k and truth and n.type.endswith('*'):
            out.add(('NN', k))
        if n.k == 'ref' and n.get('dk') == 'local':
            for f in st:   # bool flag = condition
                if f[0] == ('IFT' if truth else 'IFF') and f[1] == ('v', n.decl):
                    out.add(f[2])
        return out

    def subst(self, call, facts):
        """parameter facts of the callee in terms of the call's arguments"""
        f = self.byid[call.get('fid')]
        m = {}
        for prm, a in zip(f.params, call.c):
            k = self.var(a) or self.key(a)
            if k:
                m[('v', prm['d'])] = k

        def conv(x):
            if x in m:
                return m[x]
            if isinstance(x, tuple) and x and x[0] == 'reg':
                y = conv(x[2])
                return ('reg', x[1], y) if y is not None else None
            if isinstance(x, tuple) and x and x[0] == 'mx':
                y = conv(x[2])
                return ('mx', x[1], y) if y is not None else None
            if isinstance(x, tuple) and x and x[0] == 'v':
                return None
            return x
        out = set()
        for fa in facts:
            g = tuple([fa[0]] + [conv(x) for x in fa[1:]])
            if None not in g:
                out.add(g)
        return out

    # ------------------------------------------------ mutex names
    def mutex_key(self, n, st=frozenset()):
        """`simulatorMutexes[x]` -> ('mx', map, key of x)"""
        n = deref(n)
        if n is None:
            return None
        v = self.var(n)
        if v is not None:
            for x in st:
                if x[0] == 'MXA' and x[1] == v:
                    return x[2]
            return None
        if n.k == 'ref' and n.get('dk') == 'global' and 'mutex' in n.type:
            return ('mx', n.q, ('none',))
        if n.k == 'call' and n.op == '[]' and n.o is not None:
            g = skip(n.o)
            if g.k == 'ref' and g.get('dk') == 'global' and g.q in self.maps and 'std::mutex' in self.maps[g.q]:
                k = self.key(n.c[0])
                if k is not None:
                    return ('mx', g.q, k)
        return None

    def holds(self, st, mp, k):
        ks = self.cls(st, k)
        for f in st:
            if f[0] == 'HELD' and f[1][0] == 'mx' and f[1][1] == mp and f[1][2] in ks:
                return True
        return False

    def guards(self, st, e):
        """mutexes a guard object initialised by `e` holds: yields (mutex key, node, 'new'|'adopt'|'defer')"""
        for n in e.walk():
            mode, args = None, None
            if n.k == 'ctor' and (n.get('cls') or '').startswith(('std::lock_guard', 'std::unique_lock')) and n.c:
                if n.get('cp') or n.get('mv'):
                    continue
                args = n.c
            elif n.k == 'call' and n.name in ('make_unique', 'make_shared') and ('lock_guard' in n.type or 'unique_lock' in n.type) and n.c:
                args = n.c
            if args:
                mode = 'new'
                for a in args[1:]:
                    if a is not None and 'adopt_lock' in a.type:
                        mode = 'adopt'
                    if a is not None and ('defer_lock' in a.type or 'try_to_lock' in a.type):
                        mode = 'defer'
                mk = self.mutex_key(args[0], st)
                if mk:
                    yield mk, n, mode

    def is_guard_type(self, t):
        return 'lock_guard' in t or 'unique_lock' in t or 'scoped_lock' in t

    def guard_facts(self, st, e, d):
        """facts after a guard stored in variable d is initialised (or assigned) from e"""
        add = set()
        if e is None:
            return add
        for mk, n, mode in self.guards(st, e):
            if mode == 'new':
                add.add(('HELD', mk, d))
            elif mode == 'adopt' and self.locked(st, mk):
                add.add(('HELD', mk, d))
        x = skip(e)
        if x is not None and x.k == 'call' and x.get('fid') in self.byid:
            hs = self.held_by.get(x.get('fid'), ())
            for f in self.subst(x, [('HELD', mk, ('ret',)) for mk in hs]):
                add.add(('HELD', f[1], d))
        v = self.var(e)
        if v:
            for f in st:
                if f[0] == 'HELD' and f[2] == v:
                    add.add(('HELD', f[1], d))
        return add

    def locked(self, st, mk):
        ks = self.cls(st, mk[2]) if mk[2] != ('none',) else {mk[2]}
        return any(f[0] == 'LK' and f[1][1] == mk[1] and f[1][2] in ks for f in st)

    # ------------------------------------------------ transfer
    def transfer(self, f):
        p = self

        def t(st, n):
            if n.k == 'decl':
                for v in n.c:
                    if v.k == 'var':
                        add = p.bind(st, ('v', v.decl), v.c[0], v.type, v.decl) if v.c and v.c[0] is not None else set()
                        st = p.kill(st, ('v', v.decl)) | add
                return st
            if n.k == 'asg' and n.op == '=':
                return p.assign(st, n.c[0], n.c[1])
            if n.k == 'asg' or n.k == 'un' and n.op in ('++', '--'):
                k = p.var(n.c[0])
                if k:
                    st = p.kill(st, k)
                return st
            if n.k == 'call':
                if n.op == '=' and n.o is not None:
                    return p.assign(st, n.o, n.c[0])
                if n.name == 'reset' and n.o is not None:
                    v = p.var(n.o)
                    if v:
                        add = p.guard_facts(st, n.c[0], v) if n.c and p.is_guard_type(n.o.type) else set()
                        st = frozenset(x for x in st if not (x[0] == 'HELD' and x[2] == v))
                        st = p.kill(st, v) | add
                    return st
                if n.q == 'std::lock' or n.name == 'lock' and n.o is not None and not n.c:
                    for a in (n.c if n.q == 'std::lock' else [n.o]):
                        mk = p.mutex_key(a, st)
                        if mk:
                            st = st | {('LK', mk)}
                    return st
                if n.name == 'unlock' and n.o is not None and not n.c:
                    mk = p.mutex_key(n.o, st)
                    v = p.var(n.o)
                    return frozenset(x for x in st if not (x[0] in ('LK', 'HELD') and mk and x[1] == mk or x[0] == 'HELD' and v and x[2] == v))
                if n.name in ('push_back', 'emplace_back') and n.o is not None:
                    g = skip(n.o)
                    if g.k == 'ref' and g.get('dk') == 'global' and g.q in p.regs:
                        add = set()
                        rem = set()
                        for x in st:
                            if x[0] == 'EQ' and x[2] == g.q:
                                rem.add(x)
                                add |= {('LT', x[1], g.q), ('LE', x[1], g.q)}
                                if is_handle_type(n.c[0].type):
                                    k = p.key(n.c[0])
                                    e = ('reg', g.q, x[1])
                                    if k:
                                        add.add(('AL', k, e))
                                    if p.nn_value(st, n.c[0]):
                                        add.add(('NN', e))
                        return frozenset((st - rem) | add)
                if n.name in ('erase', 'clear', 'pop_back', 'resize', 'swap') and n.o is not None:
                    g = skip(n.o)
                    if g.k == 'ref' and g.get('dk') == 'global' and g.q in p.regs:
                        return frozenset(x for x in st if g.q not in x)
                # by-reference arguments are overwritten
                for a, m in zip(n.c, n.get('pm', '')):
                    if m == 'r' and a is not None:
                        v = p.var(a)
                        if v and not (n.q or '').startswith('std::make_') and not p.is_guard_type(n.type):
                            st = frozenset(x for x in p.kill(st, v) if not (x[0] == 'HELD' and x[2] == v))
                if n.get('fid') in p.byid:
                    wr = p.writes.get(n.get('fid'), ())
                    if wr:
                        def hit(x):
                            return isinstance(x, tuple) and (len(x) == 3 and x[0] == 'reg' and x[1] in wr or any(hit(y) for y in x))
                        st = frozenset(x for x in st if not (x[0] in ('NN', 'AL', 'FR') and hit(x[1:])))
                    e = p.ens[n.get('fid')]
                    if e[2] and e[2] != 'nn':
                        st = st | p.subst(n, e[2])
                return st
            return st
        return t

    def bind(self, st, k, e, typ, d):
        add = set()
        if self.is_guard_type(typ):
            return self.guard_facts(st, e, k)
        if 'std::mutex' in typ:
            mk = self.mutex_key(e, st)
            return {('MXA', k, mk)} if mk else add
        if is_handle_type(typ):
            k2 = self.key(e)
            if k2 is not None and k2 != k:
                add.add(('AL', k, k2))
                if self.has(st, 'NN', k2):
                    add.add(('NN', k))
                if self.has(st, 'FR', k2):
                    add.add(('FR', k))
            else:
                if self.nn_value(st, e):
                    add.add(('NN', k))
                if self.fresh_value(e):
                    add.add(('FR', k))
            return add
        # integers, flags and iterators
        V = self.size_of(e)
        if V:
            for W in self.groups[V]:
                add |= {('EQ', k, W), ('LE', k, W)}
        w = self.var(e)
        if w:
            for x in st:
                if x[0] in ('LT', 'LE', 'EQ') and x[1] == w:
                    add.add((x[0], k, x[2]))
            if not V:
                add.add(('AL', k, w))
        x = skip(e)
        if x is not None and x.k == 'call' and x.get('fid') in self.reg_grow:
            # an id allocated by this call has not been returned to any caller yet: nobody else can use the object
            for V in self.reg_grow[x.get('fid')]:
                if is_handle_type(self.regs[V][len('std::vector<'):-1]):
                    add.add(('FR', ('reg', V, k)))
        if typ == 'bool':
            for a, tr in cond_atoms(e, True):
                for x in self.atom(st, a, tr):
                    add.add(('IFT', k, x))
            for a, tr in cond_atoms(e, False):
                for x in self.atom(st, a, tr):
                    add.add(('IFF', k, x))
        if typ.endswith('*') or typ.endswith('* const'):
            k2 = self.key(e)
            if k2 is not None:
                add.add(('AL', k, k2))
        return add

    def assign(self, st, lhs, rhs):
        l = skip(lhs)
        if l is not None and l.k == 'ref' and l.get('dk') == 'global' and l.q == 'metaError':
            st = frozenset(x for x in st if x != ('ERR',))
            return st | {('ERR',)} if const_int(rhs) not in (None, 0) else st
        k = self.key(l)
        if k is None:
            return st
        typ = l.type
        if self.is_guard_type(typ):
            add = self.guard_facts(st, rhs, k)
            st = frozenset(x for x in st if not (x[0] == 'HELD' and x[2] == k))
            return st | add
        new = self.bind(st, k, rhs, typ, k[1] if k[0] == 'v' else None)
        st = self.kill(st, k)
        # self-referential facts (x = f(x)) are dropped
        if k[0] == 'v' and any(y.k == 'ref' and ('v', y.decl) == k for y in rhs.walk()):
            return st
        return st | new

    def edge(self, f):
        cfg = f.cfg

        def e(st, b, i):
            if b.tc is None or len(b.s) != 2 or b.tk in ('SwitchStmt', 'CXXTryStmt', 'CXXForRangeStmt'):
                return st
            c = f.nodes.get(b.tc)
            if c is None:
                return st
            add = set()
            for a, tr in cond_atoms(c, i == 0):
                if a.ival() is not None and a.k in ('lit', 'ref', 'bin', 'cond', 'un'):
                    if bool(a.ival()) != tr:
                        return None
                add |= self.atom(st | frozenset(add), a, tr)
            return st | add
        return e

    def dtor(self, f):
        def d(st, decl):
            rel = set(x[1] for x in st if x[0] == 'HELD' and x[2] == ('v', decl))
            return frozenset(x for x in st if not (x[0] == 'HELD' and x[2] == ('v', decl) or x[0] == 'LK' and x[1] in rel))
        return d

    def run(self, f):
        init = frozenset(self.req[f.id])
        def join(a, b):
            # a null alias does not survive; keep LT|LE as LE
            return a & b
        return forward(f, init, self.transfer(f), join, self.edge(f), eh=True, dtor=self.dtor(f))

    # ------------------------------------------------ obligations
    def obligations(self, f):
        """yield (kind, node, need, text): need is a fact or tuple the analysis must find before node"""
        for n in f.all_nodes():
            if n.k == 'call' and n.op == '[]' and n.o is not None:
                g = skip(n.o)
                if g.k == 'ref' and g.get('dk') == 'global' and g.q in self.regs:
                    yield ('bound', n, g.q, n.c[0])
            if n.k == 'call' and n.op in ('->', '*') and n.o is not None and not n.c and is_handle_type(n.o.type):
                yield ('null', n, None, n.o)
            if n.k == 'call' and n.op in ('->', '*') and n.o is not None and not n.c and not is_handle_type(n.o.type) \
                    and n.o.type.replace('const ', '').startswith('std::shared_ptr<Qrack::Q'):
                yield ('cast', n, None, n.o)

    def iter_ok(self, st, V, idx):
        n = skip(idx)
        if n.k == 'call' and n.name == 'distance' and len(n.c) == 2:
            b, it = skip(n.c[0]), self.var(n.c[1])
            if b.k == 'call' and b.name in ('begin', 'cbegin') and b.o is not None and it:
                g = skip(b.o)
                if g.k == 'ref' and g.get('dk') == 'global' and g.q in self.groups.get(V, ()):
                    return ('NE', it, g.q) in st
        return None

    def analyse(self):
        p = self.p
        for rounds in range(12):
            changed = False
            self.results = {}
            for f in self.fns:
                _, before, after = self.run(f)
                res = []
                for kind, n, V, e in self.obligations(f):
                    st = before(n)
                    if st is None:
                        continue  # unreachable
                    ok, need = True, None
                    if kind == 'bound':
                        v = self.var(e)
                        it = self.iter_ok(st, V, e)
                        if v:
                            ok = any(('LT', k, V) in st for k in self.cls(st, v))
                            need = ('LT', v, V)
                        elif it is not None:
                            ok = it
                        else:
                            ok = False
                    else:
                        ok = self.nn_value(st, e)
                        k = self.key(e)
                        need = ('NN', k) if k else None
                        if k and not ok:
                            # name the object by a parameter, so that a helper's need can move to its callers
                            prm = set(('v', x['d']) for x in f.params)
                            for k2 in sorted(self.cls(st, k), key=str):
                                if k2 in prm or k2[0] == 'reg' and k2[2] in prm:
                                    need = ('NN', k2)
                    res.append((kind, n, V, e, ok, need))
                for n in f.calls():
                    if n.get('fid') in self.byid:
                        st = before(n)
                        if st is None:
                            continue
                        rq = self.req[n.get('fid')]
                        for fact in rq:
                            if fact[0] == 'HELD':
                                continue
                            sub = self.subst(n, [fact])
                            g = self.byid[n.get('fid')]
                            ix = [i for i, prm in enumerate(g.params) if ('v', prm['d']) == (fact[1] if fact[1][0] == 'v' else fact[1][2])]
                            arg = n.c[ix[0]] if ix and ix[0] < len(n.c) else None
                            if sub:
                                fa = list(sub)[0]
                                if fa[0] == 'LT':
                                    ok = any(('LT', k, fa[2]) in st for k in self.cls(st, fa[1]))
                                else:
                                    ok = self.has(st, 'NN', fa[1])
                                res.append(('pre' + fact[0], n, None, arg, ok, fa))
                            else:
                                ok = fact[0] == 'NN' and arg is not None and self.nn_value(st, arg)
                                res.append(('pre' + fact[0], n, None, arg, ok, None))
                self.results[f.id] = res
                # requirements of helpers
                if not (f.get('extc') and f.get('hdr')):
                    prm = set(('v', x['d']) for x in f.params)
                    for r in res:
                        if not r[4] and r[5] is not None:
                            fa = r[5]
                            base = fa[1] if fa[1][0] == 'v' else fa[1][2] if fa[1][0] == 'reg' else None
                            if base in prm and not self.reassigned(f, base[1]) and fa not in self.req[f.id]:
                                self.req[f.id].add(fa)
                                changed = True
                # what returns imply
                ens = self.ensures(f, before, after)
                if ens != self.ens[f.id]:
                    self.ens[f.id] = ens
                    changed = True
            if not changed:
                return
        raise RuntimeError('summaries did not converge')

    def reassigned(self, f, d, mode='v'):
        for n in f.all_nodes():
            if mode == 'v' and n.k == 'call' and n.op == '=' and n.o is not None and self.var(n.o) == ('v', d):
                return True
            if n.k == 'asg' and self.var(n.c[0]) == ('v', d) or n.k == 'un' and n.op in ('++', '--') and self.var(n.c[0]) == ('v', d):
                return True
        return False

    def ensures(self, f, before, after):
        ret = self.p.types[f.get('ret')] if f.get('ret', -1) >= 0 else ''
        prm = set(('v', x['d']) for x in f.params if not self.reassigned(f, x['d'], x['m']))
        self.held_by[f.id] = set()

        def only(st):
            out = set()
            for x in st:
                if x[0] in ('LT', 'LE', 'NN', 'AL', 'GE', 'ERR', 'HELD'):
                    ok = True
                    for y in x[1:]:
                        if isinstance(y, tuple):
                            b = y if y[0] == 'v' else (y[2] if y[0] in ('reg', 'mx') else None)
                            b = b[2] if b and b[0] == 'reg' else b
                            ok = ok and b in prm
                    if ok:
                        out.add(x)
            return frozenset(out)
        rets = [n for n in f.all_nodes() if n.k == 'return']
        tr = fa = None
        nn = True
        al = None
        any_ret = False
        for r in rets:
            st = before(r)
            if st is None:
                continue
            any_ret = True
            e = r.c[0] if r.c else None
            al = only(st) if al is None else al & only(st)
            if e is None:
                continue
            if self.is_guard_type(ret):
                def base(mk):
                    return mk[2][2] if mk[2][0] == 'reg' else mk[2]
                hs = set(x[1] for x in self.guard_facts(st, e, ('ret',)) if base(x[1]) in prm)
                self.held_by[f.id] = hs if self.held_by[f.id] == set() and r is rets[0] else self.held_by[f.id] & hs
                continue
            if ret == 'bool':
                cv = skip(e).ival()
                if cv != 0:
                    s = set(st)
                    for a, t in cond_atoms(e, True):
                        s |= self.atom(frozenset(s), a, t)
                    s = only(s)
                    tr = s if tr is None else tr & s
                if cv is None or cv == 0:
                    s = set(st)
                    for a, t in cond_atoms(e, False):
                        s |= self.atom(frozenset(s), a, t)
                    s = only(s)
                    fa = s if fa is None else fa & s
            elif is_obj_ptr(ret):
                if not self.nn_value(st, e):
                    nn = False
        if is_obj_ptr(ret):
            return (None, None, 'nn' if nn and any_ret else None)
        if ret == 'void':
            st = after(f.cfg.exit)
            al = only(st) if st is not None else None
            # the exit also has exceptional predecessors: use only the normal ones
            al2 = None
            for bid, i in f.cfg.blocks[f.cfg.exit].preds:
                if i == 'eh':
                    continue
                b = f.cfg.blocks[bid]
                if b.nr:
                    continue
                s = after(bid)
                if s is None:
                    continue
                s = only(self.edge(f)(s, b, i) or s) if isinstance(i, int) else only(s)
                al2 = s if al2 is None else al2 & s
            al = al2
        if ret == 'bool':
            al = None
        return (tr, fa, al or None)


def node_cls_is_handle(self):
    return is_handle_type(self.type)


Node.cls_is_handle = property(node_cls_is_handle)
