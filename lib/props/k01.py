"""K01: a clone is the original again.

Every function that makes a copy of a simulator, circuit or neuron is run symbolically, path by path, with the constructor and
the setters it uses folded in; each data member of the result must come from the same member of the original."""
from ir import *
from sx import Exec, Stop, TooMany, walk
from apieval import C

NAMES = ('Clone', 'CloneEmpty', 'Copy', 'CloneBody', 'ShallowClone')

# members that do not decide results: (class or None, member) -> reason
EXEMPT = {
    'rand_distribution': 'has no state of its own',
    'hardware_rand_generator': 'a handle without state; useRDRAND decides whether there is one',
    'randomSeed': 'only remembered for display; the generator is the one that is carried over',
    'rawRandBools': 'unused bits of one random draw',
    'rawRandBoolsRemaining': 'unused bits of one random draw',
    'stateMapCache': 'cache, rebuilt on demand',
    'prng': 'only shuffles the order of a list of samples',
    'dispatchQueue': 'work in flight, finished before copying',
    'found': 'scratch mark of one traversal',
    'numCores': 'number of threads', 'pStride': 'number of threads', 'dispatchThreshold': 'number of threads',
    'cloneEngineTypes': 'which engine type a copy uses is its own choice', 'engineTypes': 'which engine type a copy uses is its own choice',
    'freezeBasis2Qb': 'set only while a call is in progress',
    'devicesHostPointer': 'where memory is allocated',
}
EXEMPT_AT = {
    ('Qrack::QStabilizer', 'doNormalize'): 'a tableau is never normalised: nothing there reads it',
}
# members holding the quantum state: not carried over by CloneEmpty()
STATE = ('stateVec', 'qPages', 'engine', 'runningNorm', 'root', 'qbdt', 'stabilizer', 'shards', 'x', 'z', 'r', 'phaseOffset',
         'circuit', 'measurements', 'layerStack', 'rdmClone')
# the phase buffers of a QUnit shard refer to other shards: flushed, not copied
BUFFERS = ('controlsShards', 'antiControlsShards', 'targetOfShards', 'antiTargetOfShards')


def leaves(v):
    return walk(v)


class Run(Exec):
    def __init__(self, p, entry):
        Exec.__init__(self, p, max_paths=400, max_depth=10, pure=lambda n: (n.name or '').startswith(('pow2', 'log2', 'bi_')))
        self.entry = entry
        self.objs = {}
        self.fed = set()

    def paths(self, *a, **k):
        self.objs = {}
        return Exec.paths(self, *a, **k)

    # ---- new objects

    def construct(self, f, obj, args, depth=0):
        """run the member initialisers of one constructor on obj, base and delegated ones first, and the plain assignments of its body"""
        old, self.this = self.this, obj
        for i, x in enumerate(f.params):
            self.env[x['d']] = args[i] if i < len(args) else ('op', 'default')
        for field, j, e in f.inits:
            if field is None:
                e2 = e
                while e2 is not None and e2.k in ('cast', 'definit') and e2.c:
                    e2 = e2.c[0]
                g = self.p.fns.get(e2.get('fid')) if e2 is not None and e2.k == 'ctor' else None
                if g is not None and depth < 6:
                    self.construct(g, obj, [self.argval(x) for x in e2.c], depth + 1)
                    self.this = obj
                elif e2 is not None and e2.k == 'ctor' and e2.c and (e2.get('cp') or e2.get('mv')):
                    src = self.val(e2.c[0])
                    for fl in self.p_fields(e2.get('cls')):
                        self.heap[('fld', obj, fl)] = self.read(('fld', src, fl))
                continue
            if 'w' in j or e is not None and e.k != 'definit':
                self.heap[('fld', obj, field)] = self.argval(e) if e is not None else ('op', 'default')
            else:
                self.heap[('fld', obj, field)] = ('op', 'default')
        self.this = obj
        if f.body is not None:
            for s in f.body.c:
                self.body_stmt(s, obj)
        self.this = old

    def argval(self, e):
        if any(y.k == 'cond' for y in e.walk()):
            return ('op', 'ctorcond') + tuple(
                self.env.get(y.decl) or ('op', 'default') for y in e.walk() if y.k == 'ref' and y.get('dk') == 'parm')
        return self.val(e)

    def body_stmt(self, s, obj):
        """a constructor body's statements: assignments of a member, taken at their value; members written deeper are 'set by the body'"""
        if s is None:
            return
        x = skip(s)
        if x is not None and (x.k == 'asg' and x.op == '=' or x.k == 'call' and x.op == '='):
            l = skip(x.c[0] if x.k == 'asg' else x.o)
            if l is not None and l.k == 'mem' and l.c and l.c[0] is not None and l.c[0].k == 'this':
                self.heap[('fld', obj, l.name)] = self.val(x.c[1] if x.k == 'asg' else x.c[-1])
                return
        n = 0
        if x is not None and x.k == 'call' and x.op is None and x.q == 'std::copy':
            for y in x.walk():
                if y.k == 'mem' and y.c and y.c[0] is not None and y.c[0].k == 'this' and 'fid' not in y.a:
                    self.heap[('fld', obj, y.name)] = ('op', 'copied') + tuple(self.val(z) for z in x.c)
            return
        if x is not None and x.k in ('for', 'forrange'):
            # a loop that fills a member from a parameter, element by element
            src = []
            for y in x.walk():
                if y.k == 'ref' and y.get('dk') == 'parm':
                    src.append(self.env.get(y.decl) or ('op', 'default'))
            clones = any(y.k == 'call' and y.name in NAMES for y in x.walk())
            for y in x.walk():
                if y.k == 'mem' and y.c and y.c[0] is not None and y.c[0].k == 'this' and 'fid' not in y.a:
                    if self.writes_of(y):
                        self.heap[('fld', obj, y.name)] = ('op', 'filled', C(1 if clones else 0)) + tuple(src)
            return
        given = self.given(x) if x is not None and x.k == 'call' else {}
        for fl in self.p_writes(s):
            if fl in given:
                self.heap[('fld', obj, fl)] = ('op', 'ctorcond') + tuple(given[fl])
                continue
            # a member set from an argument and adjusted afterwards still depends on the argument
            t = self.heap.get(('fld', obj, fl))
            if t is None or fl not in self.fed and not any(x[0] in ('fld', 'A') for x in walk(t)):
                self.heap[('fld', obj, fl)] = ('op', 'ctorbody')

    def given(self, x):
        """members a called method sets from its parameters -> the arguments"""
        g = self.p.fns.get(x.get('fid'))
        out = {}
        if g is None or g.body is None or not (x.o is None or skip(x.o).k == 'this'):
            return out
        at = {y['d']: i for i, y in enumerate(g.params)}
        for y in g.body.walk():
            if y.k == 'asg' and y.op == '=' or y.k == 'call' and y.op == '=':
                l = skip(y.c[0] if y.k == 'asg' else y.o)
                if l is not None and l.k == 'mem' and l.c and l.c[0] is not None and l.c[0].k == 'this' and 'fid' not in l.a:
                    for z in (y.c[1] if y.k == 'asg' else y.c[-1]).walk():
                        if z.k == 'ref' and z.get('dk') == 'parm' and z.decl in at and at[z.decl] < len(x.c):
                            a = x.c[at[z.decl]]
                            if a is not None:
                                out.setdefault(l.name, []).append(self.argval(a))
        return out

    def writes_of(self, m):
        q = m.p
        while q is not None and q.k in ('cast', 'idx'):
            m, q = q, q.p
        return q is not None and (q.k == 'asg' and q.c[0] is m or q.k == 'call' and q.o is m and not q.get('cm'))

    def p_fields(self, cls):
        return self.entry.fields(cls)

    def p_writes(self, s):
        return self.entry.written_in(s)

    # ---- calls

    def lval(self, n):
        x = skip(n)
        if x is not None and x.k == 'mem' and not x.get('arrow') and 'fid' not in x.a and x.c and x.c[0] is not None:
            # a member of an element of a container: the element itself, not the one it was copied from
            b = skip(x.c[0])
            if b is not None and (b.k == 'idx' or b.k == 'call' and b.op == '[]'):
                lv = self.lval(b)
                if lv is not None and lv[0] == 'elt':
                    return ('fld', lv, x.name)
            if b is not None and b.k == 'ref' and b.get('rt'):
                lv = Exec.lval(self, b)
                if lv is not None and lv[0] == 'elt' and lv[1][0] == 'fld' and lv[1][1][0] in ('new', 'this', 'p'):
                    return ('fld', lv, x.name)
        if x is not None and (x.k == 'idx' or x.k == 'call' and x.op == '[]'):
            b = skip(x.c[0] if x.k == 'idx' else x.o if x.o is not None else x.c[0])
            if b is not None and b.k == 'mem' and 'fid' not in b.a:
                lv = Exec.lval(self, b)
                if lv is not None and lv[0] == 'fld' and (lv[1][0] in ('new', 'this', 'p')):
                    return ('elt', lv, self.val(x.c[-1]))
        return Exec.lval(self, n)

    def call(self, n):
        q = n.q or ''
        if n.name in ('CopyStateVec', 'copy') and n.o is not None and len(n.c) == 1:
            x = skip(n.o)
            if x.k == 'call' and x.op in ('->', '*'):
                x = skip(x.o if x.o is not None else x.c[0])
            lv = self.lval(x) if x.k == 'mem' else None
            if lv is not None and lv[0] == 'fld' and lv[1][0] == 'new':
                self.heap[lv] = ('op', 'copied', self.val(n.c[0]))
                return C(0)
        if q == 'std::copy' and len(n.c) == 3:
            a = tuple(self.val(x) for x in n.c)
            self.rec('stdcopy', a, n)
            return a[2]
        if q in ('std::make_shared', 'std::make_unique'):
            t = n.type
            cls = t[t.index('<') + 1:t.rindex('>')].split(',')[0].strip()
            args = [self.val(x) for x in n.c]
            self.nres += 1
            o = ('new', self.nres)
            self.objs[o] = cls
            f = self.entry.ctor(cls, n)
            if f is not None:
                self.construct(f, o, args)
            else:
                for fl in self.p_fields(cls):
                    self.heap[('fld', o, fl)] = ('op', 'unseen') + tuple(args)
            self.rec('make', (cls, tuple(args), o), n)
            return o
        if n.ind is None and not n.op and n.get('fid') in self.p.fns and q not in ('std::move',):
            f = self.p.fns[n.get('fid')]
            if f.body is not None and f not in self.stack and len(self.stack) < self.max_depth and f.name not in NAMES and \
                    any(self.newarg(x) for x in n.c) and (n.o is None or self.objval(n.o) == ('this',)):
                return self.inline_call(f, n)
            if n.o is not None or n.get('cls'):
                o = self.objval(n.o) if n.o is not None else self.this
                mine = o == ('this',)
                fresh = o[0] == 'new'
                body = f.body
                if body is not None and f not in self.stack and len(self.stack) < self.max_depth:
                    size = sum(1 for _ in body.walk())
                    if mine and not n.get('qualcall') and f.get('virt') and f.name in NAMES:
                        g = self.entry.resolve(f)
                        if g is not None and g.body is not None:
                            return self.inline_call(g, n)
                    if (f.name in NAMES and (mine or fresh)) or self.entry.makes(f) and mine or fresh and self.entry.setter(f, size):
                        return self.inline_call(f, n)
                    if mine and self.entry.getter(f):
                        return self.inline_call(f, n)
                if fresh:
                    # whatever else it does to the new object
                    args = tuple(self.val(x) for x in n.c)
                    for fl in self.entry.fn_writes(f):
                        if ('fld', o, fl) in self.heap:
                            self.heap[('fld', o, fl)] = ('op', 'ctorbody')
                    self.nres += 1
                    r = ('res', self.nres, n.name)
                    self.rec('call', (n.name, o, args, r), n)
                    return r
        return Exec.call(self, n)

    def newarg(self, x):
        """is this argument the new object, by pointer or by reference"""
        for _ in range(6):
            x = skip(x) if x is not None else None
            if x is None:
                return False
            if x.k == 'ref':
                return (self.env.get(x.decl) or ('',))[0] == 'new'
            if x.k == 'un' and x.op in ('*', '&') or x.k == 'ctor' and len(x.c) == 1 or x.k == 'call' and x.q in (
                    'std::move', 'std::dynamic_pointer_cast', 'std::static_pointer_cast') and x.c:
                x = x.c[0]
            elif x.k == 'call' and (x.op in ('*', '->') or x.name == 'get') and x.o is not None:
                x = x.o
            else:
                return False
        return False

    def write(self, lv, v, node, init=False):
        if lv is not None and lv[0] == 'elt' and self.local_base(node) is not None:
            self.rec('lw', (self.local_base(node), lv[2], v), node)
        return Exec.write(self, lv, v, node, init)


class World(object):
    def __init__(self, p):
        self.p = p
        self._fl = {}
        self._fw = {}
        self.cur = None

    def fields(self, cls):
        """names of the data members of a class, bases included"""
        if cls not in self._fl:
            self._fl[cls] = []
            out = []
            for c in [cls] + list(self.p.bases_of.get(cls, ())):
                d = self.p.classes.get(c)
                for x in (d or {}).get('fields', ()):
                    if not x.get('static') and x['n'] not in out:
                        out.append(x['n'])
            self._fl[cls] = out
        return self._fl[cls]

    def norm(self, t):
        return t.replace('const ', '').replace('&', '').strip()

    def ctor(self, cls, n):
        c = self.p.classes.get(cls)
        best = None
        for m in (c or {}).get('methods', ()):
            if not m.get('ctor') or m['id'] not in self.p.fns:
                continue
            f = self.p.fns[m['id']]
            if len(f.params) < len(n.c):
                continue
            s = 0
            bad = False
            for x, a in zip(f.params, n.c):
                pt, at = self.norm(self.p.types[x['t']]), self.norm(a.type)
                if pt == at:
                    s += 2
                elif ('vector' in pt) != ('vector' in at) and a.k != 'initlist' or ('shared_ptr' in pt) != ('shared_ptr' in at) and 'null' not in at:
                    bad = True
            if not bad and (best is None or s - len(f.params) * 0.01 > best[0]):
                best = (s - len(f.params) * 0.01, f)
        return best[1] if best else None

    def resolve(self, f):
        """the overrider of a virtual function in the class of the original"""
        for c in [self.cur] + list(self.p.bases_of.get(self.cur, ())):
            d = self.p.classes.get(c)
            for m in (d or {}).get('methods', ()):
                g = self.p.fns.get(m['id'])
                if g is not None and (g is f or m['n'] == f.name and len(g.params) == len(f.params) and (
                        g.id in self.p.overriders.get(f.id, ()) or f.id == g.id)):
                    return g
        return None

    def getter(self, f):
        b = f.body
        return b is not None and not f.params and len([s for s in b.c if s is not None]) == 1 and b.c[0].k == 'return' and \
            not any(x.k in ('asg', 'call', 'ctor') and x.k != 'ctor' for x in b.walk())

    def setter(self, f, size):
        """small enough to fold into the copy: no calls but those on members or on other setters"""
        return size <= 200

    def makes(self, f):
        """does this helper build the copy"""
        if f.body is None or f.cls is None:
            return False
        t = self.p.types[f.d['t']] if False else None
        return any(n.k == 'call' and n.q in ('std::make_shared',) and self.cur and self.cur.split('::')[-1] in n.type for n in f.body.walk())

    def root_mem(self, n):
        """member of *this that an lvalue is part of"""
        n = skip(n)
        while n is not None:
            if n.k == 'mem':
                b = n.c[0] if n.c else None
                if b is not None and b.k == 'this':
                    return n.name if 'fid' not in n.a else None
                n = skip(b) if b is not None else None
                continue
            if n.k == 'idx':
                n = skip(n.c[0])
                continue
            if n.k == 'call' and n.op in ('[]', '->', '*'):
                n = skip(n.o) if n.o is not None else skip(n.c[0])
                continue
            if n.k == 'un' and n.op == '*':
                n = skip(n.c[0])
                continue
            return None
        return None

    def own(self, n):
        """direct writes of members of this object in a subtree"""
        out = set()
        for x in n.walk():
            t = None
            if x.k == 'asg':
                t = x.c[0]
            elif x.k == 'un' and x.op in ('++', '--'):
                t = x.c[0]
            elif x.k == 'call' and x.o is not None and (x.op == '=' or x.op in ('++', '--', '+=', '-=', '*=') or not x.get('cm') and not x.op and not (x.get('fid') or '').startswith('_ZN5Qrack')):
                t = x.o
            if t is not None:
                y = skip(t)
                if y is not None and y.k == 'mem' and y.c and y.c[0] is not None and y.c[0].k == 'this' and 'fid' not in y.a:
                    out.add(y.name)
        return out

    def written_in(self, n, seen=None):
        out = set(self.own(n))
        for x in n.walk():
            if x.k == 'call' and (x.o is None or skip(x.o).k == 'this') and x.get('cls') and not x.get('sm'):
                g = self.p.fns.get(x.get('fid'))
                if g is not None:
                    out |= self.fn_writes(g, seen)
        return out

    def fn_writes(self, f, seen=None):
        if f.id in self._fw:
            return self._fw[f.id]
        seen = seen or set()
        if f.id in seen or f.body is None or len(seen) > 40:
            return set()
        out = self.written_in(f.body, seen | {f.id})
        if not seen:
            self._fw[f.id] = out
        return out

    def mutable(self):
        """members written by something other than constructors, functions reached only from those, and whole-object copies"""
        out = {}
        p = self.p
        init_only = set()
        callers = {}
        for f in p.fns.values():
            for n in f.all_nodes():
                if n.k == 'call' and n.get('fid') in p.fns:
                    callers.setdefault(n.get('fid'), set()).add(p.root_of(f).id)
        ctors = {f.id for f in p.fns.values() if f.get('ctor')}
        change = True
        while change:
            change = False
            for f in p.fns.values():
                if f.id in init_only or f.id in ctors or not callers.get(f.id):
                    continue
                if all(c in ctors or c in init_only or c == f.id for c in callers[f.id]) and not f.get('virt'):
                    init_only.add(f.id)
                    change = True
        for f in p.fns.values():
            r = p.root_of(f)
            if r.id in ctors or r.id in init_only or r.name in NAMES or r.name == 'operator=' or f.body is None or not r.cls:
                continue
            for n in f.all_nodes():
                t = None
                if n.k == 'asg':
                    t = n.c[0]
                elif n.k == 'un' and n.op in ('++', '--', '&'):
                    t = n.c[0]
                elif n.k == 'call' and n.o is not None and (n.op not in ('->', '*', '[]', None) or not n.get('cm') and not n.op):
                    t = n.o
                if n.k == 'call' and not (n.q or '').startswith('std::') and 'CreateQuantumInterface' not in (n.name or '') and \
                        'CreateArrangedLayers' not in (n.name or ''):
                    for m, a in zip(n.get('pm') or '', n.c):
                        if m in 'rp' and a is not None:
                            y = skip(a)
                            if y is not None and y.k == 'mem' and 'fid' not in y.a:
                                out.setdefault(y.q, set()).add(r.cls)
                if t is not None:
                    y = skip(t)
                    if y is not None and y.k == 'idx':
                        y = skip(y.c[0])
                    if y is not None and y.k == 'call' and y.op == '[]':
                        y = skip(y.o)
                    if y is not None and y.k == 'mem' and 'fid' not in y.a:
                        own = y.c and y.c[0] is not None and y.c[0].k == 'this'
                        out.setdefault(y.q, set()).add(r.cls if own else None)
        return out

    def changes(self, mut, cls, q):
        c = mut.get(q, set())
        fam = {cls} | set(self.p.bases_of.get(cls, ()))
        return bool(c & fam)


POWERS = ('maxQPower', 'maxQPowerOcl', 'bdtMaxQPower', 'basePageMaxQPower', 'basePageCount')
MODES = {'engine': ('stabilizer', 'qbdt'), 'stabilizer': ('engine',), 'qbdt': ('engine',)}
NOT_IN_ENGINE_MODE = ('shards', 'ancillaCount', 'deadAncillaCount', 'rdmClone')


def isnull(pc, v):
    for c, x in pc.items():
        if c == v and x is False:
            return True
        if c[0] == 'cmp' and len(c) == 4 and c[2] == v and c[3] in (('nullptr',), C(0)):
            if c[1] == '==' and x or c[1] == '!=' and not x:
                return True
    return False


def nonnull(pc, v):
    for c, x in pc.items():
        if c == v and x is True:
            return True
    return False


class Judge(object):
    def __init__(self, w, cls, f, path, run, S, T, kind):
        self.w, self.cls, self.f, self.path, self.run, self.S, self.T, self.kind = w, cls, f, path, run, S, T, kind
        self.res = {e.a[-1]: e for e in path.ev if e.k == 'call'}
        self.loops = {e.a[0]: e for e in path.ev if e.k == 'loop'}
        self.lw = [e for e in path.ev if e.k == 'lw']
        self.pc = dict(path.pc)
        for e in path.ev:
            if e.k == 'endloop' and e.pc:
                for c, x in e.pc.items():
                    self.pc.setdefault(c, x)

    def src(self, f):
        return ('fld', self.S, f)

    def cloned(self, v, what):
        """is v the deep copy of `what`"""
        if v[0] == 'res' and v in self.res:
            e = self.res[v]
            return e.a[0] in ('Clone', 'Copy', 'ShallowClone', 'CloneEmpty') and (what is None or e.a[1] == what)
        if v[0] == 'new':
            # an object made on the spot: from the original's
            if what is None:
                return True
            for e in self.path.ev:
                if e.k == 'make' and e.a[2] == v and any(x == what for a in e.a[1] for x in walk(a)):
                    return True
                if e.k == 'call' and e.a[1] == v and any(x == what for a in e.a[2] for x in walk(a)):
                    return True
            return any(lv[0] == 'fld' and lv[1] == v and any(x == what for x in walk(y)) for lv, y in self.path.heap.items())
        # looked up in a local table that maps each key to its copy
        if what is not None and v[0] != 'fld' and any(x == what for x in walk(v)) and self.lw:
            return all(e.a[1] == what and self.cloned(e.a[2], what) for e in self.lw) and True
        if what is not None and v[0] != 'fld' and any(x == what for x in walk(v)) and v[0] in ('op', 'idx', 'elt', 'at') and v != what:
            return v[0] in ('op', 'elt', 'idx') and (v[0] == 'op' and v[1] in ('at', '[]', 'find', 'second') or v[0] in ('elt', 'idx'))
        return False

    def full(self, sym, f):
        """does this loop symbol run over all elements of the container f of the original"""
        e = self.loops.get(sym[1])
        if e is None:
            return True
        info = e.a[2]
        if info is None:
            return True
        if info[0] == 'range':
            return info[1] in (self.src(f), ('fld', self.T, f)) or info[1][0] not in ('fld',)
        lo, hi = info[1], info[2]
        if lo != C(0):
            return False
        if hi[0] == 'c' or hi[0] == 'lin' and not any(x == self.src('qubitCount') or x[0] == 'op' and x[1] == 'size' for x in walk(hi)):
            return False
        if hi == self.src('qubitCount') and 'ancillaCount' in self.w.fields(self.cls):
            return False        # its elements cover the ancillae too
        if hi[0] in ('lin', 'add') or hi[0] == 'op' and hi[1] in ('-', '/', '>>'):
            return False
        return True

    # ---- one member

    def member(self, f, shared_ok):
        """None when fine, else the complaint"""
        w, S, T = self.w, self.S, self.T
        t = self.path.heap.get(('fld', T, f), ('fld', T, f))
        src = self.src(f)
        if f in NOT_IN_ENGINE_MODE and 'engine' in self.w.fields(self.cls) and nonnull(self.pc, self.src('engine')):
            return None
        if f == 'runningNorm' and isnull(self.pc, self.src('stateVec')):
            return None     # an engine without amplitudes: its norm is that of a newly made empty one
        if f in POWERS + ('baseQubitsPerPage',) and t == ('op', 'ctorbody'):
            return None     # worked out from the qubit count and the thresholds by the constructor
        if f == 'inputPower' and t[0] == 'op' and t[1].startswith('pow2') and any(x == self.src('inputIndices') for x in walk(t)):
            return None
        if t == src:
            if not shared_ok and self.w.shared_state(self.cls, f):
                return 'is shared with the original'
            return None
        if t == ('fld', T, f):
            t = ('op', 'untouched')
        ptr = self.w.shared_state(self.cls, f)
        if ptr == 'ptr':
            if self.cloned(t, src):
                return None
            if t == ('op', 'copied', src):
                return None
            if isnull(self.pc, src):
                return None
            for o in MODES.get(f, ()):
                if o in self.w.fields(self.cls) and (nonnull(self.pc, self.src(o)) and not isnull(self.pc, self.src(o)) or False):
                    return None
            if f in MODES and isnull(self.pc, src):
                return None
        if ptr == 'cont':
            return self.container(f, t, shared_ok)
        if f in POWERS or f.startswith('maxQPower'):
            fl = [x for x in walk(t) if x[0] == 'fld']
            if fl and all(x in (self.src('qubitCount'), src, self.src('thresholdQubitsPerPage'), self.src('baseQubitsPerPage')) for x in fl):
                return None
        if t[0] == 'op' and t[1] in ('copied', 'filled', 'ctorcond', 'unseen') and any(x == src for x in walk(t)):
            return None
        if f == 'useRDRAND' and (t == self.src('hardware_rand_generator') or any(x == self.src('hardware_rand_generator') for x in walk(t)) or
                                 t[0] == 'c' and any(c == self.src('hardware_rand_generator') for c in self.pc)):
            k = t[1] if t[0] == 'c' else None
            if k is None or self.pc.get(self.src('hardware_rand_generator')) == bool(k):
                return None
        if t[0] == 'c' and self.pc.get(src) is not None and bool(t[1]) == self.pc.get(src) and t[1] in (0, 1):
            return None
        if t[0] == 'cat' and len(t) > 1 and all(x[0] == 'one' and x[1] == ('elt', src, C(i)) for i, x in enumerate(t[1:])):
            return None
        for e in self.path.ev:
            if e.k == 'stdcopy' and any(x == src for x in walk(e.a[0])) and any(x == src for x in walk(e.a[1])) and (
                    e.a[2] == t or any(x == ('fld', T, f) for x in walk(e.a[2])) or any(x == e.a[2] for x in walk(t))):
                return None
        if t[0] in ('lv', 'out', 'mut', 'upd', 'app', 'res') and any(x == src for x in walk(t)):
            return None
        if t[0] == 'res' and t in self.res and self.res[t].a[1] == S and not self.res[t].a[2]:
            g = self.res[t].node
            return None if g is not None and f.lower() in (g.name or '').lower() else 'comes from %s()' % self.res[t].a[0]
        return 'is %s' % self.text(t)

    def container(self, f, t, shared_ok):
        S, T = self.S, self.T
        src, dst = self.src(f), ('fld', T, f)
        if t[0] == 'op' and t[1] == 'filled' and any(x == src for x in walk(t)):
            return None if shared_ok or t[2] == C(1) else 'holds the original\'s own elements'
        got = {}
        for e in self.path.ev:
            if e.k != 'write':
                continue
            lv, v = e.a
            b = lv
            mem = None
            if b[0] == 'fld' and b[1][0] == 'elt' and b[1][1] == dst:
                mem, b = b[2], b[1]
            if b[0] == 'elt' and b[1] == dst:
                if mem is None:
                    got.setdefault(b[2], {}).clear()
                got.setdefault(b[2], {})[mem] = v
        el = self.w.elem(self.cls, f)
        for e in self.path.ev:
            if e.k == 'mut' and e.a[0] in ('push_back', 'emplace_back') and e.a[1] == dst and e.a[2]:
                got.setdefault(('push', self.order(e)), {})[None] = e.a[2][0]
        if not got and self.byalgorithm(f, shared_ok):
            return None
        if not got:
            # nothing was copied on this path: only right when every element seen was null, or the loop ran over them without need
            for c, x in self.pc.items():
                if c[0] == 'elt' and c[1] == src and x is False:
                    return None
                if any(y == src for y in walk(c)) and c[0] != 'cmp' and x is False:
                    return None
            return 'has none of the original\'s elements'
        for k, d in got.items():
            idx = k
            if k[0] == 'push':
                syms = [x for x in walk(d[None]) if x[0] == 'i'] or [x for v in (self.res.get(y) for y in walk(d[None])) if v is not None for x in walk(v.a[1]) if x[0] == 'i']
                for s_ in syms:
                    if not self.full(s_, f):
                        return 'is filled by a loop that does not visit every element'
            else:
                for s_ in [x for x in walk(idx) if x[0] == 'i']:
                    if not self.full(s_, f):
                        return 'is filled by a loop that does not visit every element'
            want = None
            if k[0] != 'push':
                want = ('elt', src, idx)
            whole = d.get(None)
            if el is None:
                if want is None:
                    v = self.res.get(whole)
                    if shared_ok and any(x == src for x in walk(whole)):
                        continue
                    if whole == ('nullptr',) and any(isnull(self.pc, c) for c in list(self.pc) if any(x == src for x in walk(c))):
                        continue
                    if whole == ('nullptr',) and any(x is False and any(y == src for y in walk(c)) for c, x in self.pc.items()):
                        continue
                    if v is None or v.a[0] not in NAMES or not any(x == src for x in walk(v.a[1])):
                        return 'gets elements that are not copies of the original\'s (%s)' % self.text(whole)
                    continue
                if whole is not None and (self.cloned(whole, self.alt(want)) or shared_ok and whole == self.alt(want)):
                    continue
                if whole is not None and isnull(self.pc, self.alt(want)):
                    continue
                if self.counted(idx) and whole in self.res and self.res[whole].a[0] in NAMES and any(
                        x == src for x in walk(self.res[whole].a[1])):
                    continue
                return 'gets elements that are not copies of the original\'s (%s)' % self.text(whole or ('op', 'untouched'))
            for m in el:
                if m in EXEMPT:
                    continue
                v = d.get(m)
                if v is None and whole is not None:
                    if whole[0] == 'make' or whole[0] == 'new':
                        v = ('fld', whole[2], m) if len(whole) > 2 else whole
                    else:
                        v = ('fld', whole, m)
                if m in BUFFERS:
                    continue
                if v is None:
                    return 'lacks the member %s of its elements' % m
                if want is not None:
                    a = self.alt(want)
                    sv = ('fld', a, m)
                    if m in ('unit',):
                        if v in self.res and self.res[v].a[0] in NAMES and not shared_ok and not any(
                                any(x == v for x in walk(e.a)) for e in self.path.ev
                                if (e.k in ('lw', 'mut', 'call') or e.k == 'write' and e.a[0][0] == 'elt' and e.a[0][1][0] != 'fld') and
                                not (e.k == 'call' and e.a[-1] == v)):
                            return 'gets a copy of its own for each element, though elements of the original share a unit'
                        if self.cloned(v, sv) or isnull(self.pc, sv) or shared_ok and v == sv:
                            continue
                        if v == sv:
                            return 'shares the unit of an element with the original'
                        if self.unclear(v) and (shared_ok or self.copies_somewhere()):
                            continue
                        return 'gets as unit of an element %s' % self.text(v)
                    if v != sv and not (whole is not None and d.get(m) is None):
                        return 'gets as %s of an element %s' % (m, self.text(v))
                    if whole is not None and d.get(m) is None and whole != a and not any(x == a for x in walk(whole)):
                        return 'gets elements that are not the original\'s (%s)' % self.text(whole)
        return None

    def copies_somewhere(self):
        return any(n.k == 'call' and n.name in NAMES for g in [self.f] + self.w.p.lambdas.get(self.f.id, []) for n in g.all_nodes())

    def byalgorithm(self, f, shared_ok):
        """handed with both containers to an algorithm of the standard library"""
        for n in self.f.body.walk():
            if n.k == 'call' and (n.q or '').startswith('std::') and n.name in ('transform', 'for_each', 'copy', 'generate', 'assign', 'insert'):
                if any(y.k == 'mem' and y.name == f for y in n.walk()):
                    return shared_ok or self.copies_somewhere()
        return False

    def unclear(self, v):
        """found in a local table by a means this analysis does not follow"""
        return any(x[0] == 'op' and len(x) > 1 and x[1] in ('find', 'emplace', 'insert', 'at', 'try_emplace', '[]') or
                   x[0] == 'res' and len(x) > 2 and x[2] in ('find', 'emplace', 'insert', 'at', 'try_emplace') for x in walk(v))

    def counted(self, idx):
        """an index counted by hand, not the variable of a recognised loop"""
        return any(x[0] == 'lv' for x in walk(idx)) and not any(x[0] == 'i' for x in walk(idx))

    def alt(self, want):
        return want

    def order(self, e):
        return self.path.ev.index(e)

    def text(self, t):
        if t[0] == 'c':
            return 'always %s' % (t[1],)
        if t == ('op', 'untouched'):
            return 'not carried over'
        if t[0] == 'op' and t[1] in ('ctorbody', 'default'):
            return 'left as construction made it'
        if t[0] == 'fld' and t[1] == self.S:
            return 'set from %s' % t[2]
        if t[0] == 'g':
            return 'always %s' % t[1].split('::')[-1]
        if t[0] == 'not':
            return 'the opposite of: %s' % self.text(t[1])
        return 'not carried over (%s)' % str(t)[:120]


# ---------------------------------------------------------------- World, part two

def shared_state(self, cls, f):
    """'ptr': the member points to quantum state, 'cont': a container of it, None: a plain value"""
    t = self.ftype(cls, f)
    if t is None:
        return None
    if 'mersenne' in t or 'rand' in t.lower() or 'Random' in t:
        return None
    el = self.elem_type(t)
    if el is not None:
        if self.is_state_ptr(el) or el in self.p.classes and any(self.is_state_ptr(self.norm(self.p.types[x['t']])) for x in self.p.classes[el]['fields']):
            return 'cont'
        return None
    if self.is_state_ptr(t):
        return 'ptr'
    return None


def is_state_ptr(self, t):
    t = self.norm(t)
    return ('_ptr<' in t and 'Qrack::' in t or t.endswith('Ptr')) and 'rand' not in t.lower()


def elem_type(self, t):
    for c in ('std::vector<', 'std::list<', 'std::deque<'):
        if t.startswith(c):
            x = t[len(c):t.rindex('>')]
            d = 0
            for i, ch in enumerate(x):
                d += (ch == '<') - (ch == '>')
                if ch == ',' and d == 0:
                    x = x[:i]
                    break
            return self.norm(x)
    if t in self.p.classes:
        for b in [t] + list(self.p.bases_of.get(t, ())):
            pass
        # a container class of the library: one member that is a vector of a class of the library
        for x in self.p.classes[t]['fields']:
            y = self.norm(self.p.types[x['t']])
            if y.startswith('std::vector<'):
                return self.elem_type(y)
    return None


def ftype(self, cls, f):
    for c in [cls] + list(self.p.bases_of.get(cls, ())):
        for x in (self.p.classes.get(c) or {}).get('fields', ()):
            if x['n'] == f:
                return self.norm(self.p.types[x['t']])
    return None


def elem(self, cls, f):
    el = self.elem_type(self.ftype(cls, f))
    if el is None or self.is_state_ptr(el):
        return None
    return self.fields(el)


for _g in (shared_state, is_state_ptr, elem_type, ftype, elem):
    setattr(World, _g.__name__, _g)


def qual(w, cls, f):
    for c in [cls] + list(w.p.bases_of.get(cls, ())):
        for x in (w.p.classes.get(c) or {}).get('fields', ()):
            if x['n'] == f:
                return c + '::' + f
    return f


def param_fed(w, cls, run):
    """members whose initial value depends on what the caller passes"""
    out = set()
    for m in w.p.classes[cls]['methods']:
        f = w.p.fns.get(m['id'])
        if f is None or not m.get('ctor') or m.get('implicit'):
            continue
        run.env, run.heap, run.ev, run.loops, run.stack, run.this, run.nres, run.seq = {}, {}, [], [], [f], ('this',), 0, 0
        run.pc, run.dec, run.pos, run.alts = {}, [], 0, []
        try:
            run.construct(f, ('new', 0), [('A', i) for i in range(len(f.params))])
        except (Stop, TooMany):
            continue
        for lv, v in run.heap.items():
            if lv[0] == 'fld' and lv[1] == ('new', 0) and any(x[0] == 'A' for x in walk(v)):
                out.add(lv[2])
    run.fed = out
    return out


def entries(p, w):
    """(class of the copy, function, kind)"""
    out = []
    for q in sorted(p.classes):
        c = p.classes[q]
        if not q.startswith('Qrack::'):
            continue
        for m in c['methods']:
            f = p.fns.get(m['id'])
            if f is None or f.body is None or m.get('implicit'):
                continue
            pt = [w.norm(p.types[x['t']]) for x in f.params]
            if f.name in ('Clone', 'CloneEmpty', 'ShallowClone') and not pt:
                out.append((q, f, f.name))
            elif f.name == 'Copy' and not pt:
                out.append((q, f, 'Copy()'))
            elif f.name == 'Copy' and len(pt) == 1:
                out.append((q, f, 'assign'))
            elif f.name == 'operator=' and len(pt) == 1 and pt[0] == q:
                out.append((q, f, 'assign'))
            elif m.get('ctor') and len(pt) == 1 and pt[0].replace('*', '').strip() == q:
                out.append((q, f, 'ctor'))
    return out


def run(rep, ctx):
    p = ctx.program()
    w = World(p)
    rep.rule('members', 'every member of a copy that later results depend on comes from the same member of the original, on every path')
    rep.rule('own', 'a clone does not share quantum state with the original')
    rep.rule('buffers', 'gates buffered between qubits are applied before the qubits are copied')
    rep.rule('original', 'copying assigns nothing in the original')
    import props.i01 as i01
    live = i01.Init(p).live_members()
    mut = w.mutable()
    nf = no = npath = 0
    for cls, f, kind in entries(p, w):
        w.cur = cls
        R = Run(p, w)
        fed = param_fed(w, cls, R)
        S, T = ('this',), None
        args = None
        if kind == 'assign':
            S, T = ('p', 0, f.params[0]['n']), ('this',)
        if kind == 'ctor':
            S, T = ('p', 0, f.params[0]['n']), ('this',)
        R.entry = w
        if kind == 'ctor':
            R.env, R.heap, R.ev, R.loops, R.stack, R.this, R.nres, R.seq = {}, {}, [], [], [f], T, 0, 0
            R.pc, R.dec, R.pos, R.alts = {}, [], 0, []
            R.construct(f, T, [S])

            class Pth(object):
                pass
            x = Pth()
            x.ev, x.pc, x.end, x.val, x.heap = R.ev, {}, 'end', None, R.heap
            paths = [x]
        else:
            paths = R.paths(f)
        done = [x for x in paths if x.end in ('end', 'return')]
        if not done:
            continue
        if kind in ('Clone', 'Copy()', 'CloneEmpty', 'ShallowClone') and all(
                x.val is not None and x.val[0] == 'res' and x.val in [e.a[-1] for e in x.ev if e.k == 'call'] for x in done):
            continue        # QInterface::Copy(): another copy function of the same object
        nf += 1
        npath += len(done)
        bad = {}
        for x in done:
            t = T
            if t is None:
                t = x.val
                if t is None or t[0] != 'new':
                    bad.setdefault(('own', '*'), ('returns something that is not a new object (%s)' % str(x.val)[:80], x))
                    continue
            J = Judge(w, cls, f, x, R, S, t, kind)
            shared_ok = kind in ('Copy()', 'assign') or kind == 'ctor' and not p.types[f.params[0]['t']].endswith('*')
            for fl in w.fields(cls):
                if fl in EXEMPT or (cls, fl) in EXEMPT_AT or qual(w, cls, fl) not in live and not w.shared_state(cls, fl):
                    continue
                if kind == 'CloneEmpty' and (fl in STATE or cls == 'Qrack::QUnitClifford' and fl in ('qubitCount', 'maxQPower')):
                    continue        # QUnitClifford::CloneEmpty() makes one without qubits
                q = qual(w, cls, fl)
                if not w.changes(mut, cls, q) and fl not in fed and not w.shared_state(cls, fl):
                    continue
                no += 1
                why = J.member(fl, shared_ok)
                if why:
                    bad.setdefault(('own' if 'shared' in why or 'shares' in why or 'own elements' in why else 'members', fl), (why, x))
            for e in x.ev:
                if e.k == 'write' and e.a[0][0] in ('fld', 'elt'):
                    b = e.a[0]
                    while b[0] in ('elt', 'fld') and b[1][0] in ('elt', 'fld'):
                        b = b[1]
                    if b[0] == 'fld' and b[1] == S and b[2] not in EXEMPT:
                        bad.setdefault(('original', b[2]), ('assigns %s of the original' % b[2], x))
            # buffers
            for fl in w.fields(cls):
                el = w.elem(cls, fl) if w.shared_state(cls, fl) == 'cont' else None
                if el and BUFFERS[0] in el and kind not in ('assign', 'CloneEmpty'):
                    if not flushed(J, x, fl):
                        bad.setdefault(('buffers', fl), ('copies %s without applying the gates buffered between its qubits first' % fl, x))
        for fl in w.fields(cls):
            for rule in ('members', 'own', 'buffers', 'original'):
                b = bad.get((rule, fl))
                if rule in ('buffers', 'original') and b is None:
                    continue
                if rule == 'own' and not w.shared_state(cls, fl) and b is None:
                    continue
                rep.check(rule, b is None, '%s: %s %s' % (f.short(), fl, f.id[-10:]), f.loc(f.body) if hasattr(f, 'loc') else f.q,
                          '%s %s' % ('member ' + fl, b[0]) if b else '')
        b = bad.get(('own', '*'))
        rep.check('own', b is None, '%s: result %s' % (f.short(), f.id[-10:]), f.loc(f.body), b[0] if b else '')
    rep.floor('copying functions', nf, 20)
    rep.floor('member obligations', no, 300)
    rep.note('%d paths of %d copying functions' % (npath, nf))


def flushed(J, x, fl):
    """before the first element is copied a loop over all qubits reverts the two-qubit buffers of each"""
    first = None
    for i, e in enumerate(x.ev):
        if e.k == 'write' and any(y == ('fld', J.T, fl) for y in walk(e.a[0])):
            first = i
            break
    for i, e in enumerate(x.ev):
        if first is not None and i > first:
            break
        if e.k == 'call' and e.a[0] == 'RevertBasis2Qb' and e.a[1] == J.S:
            a = e.a[2]
            if a and a[0][0] == 'i' and J.full(a[0], fl) and all(v in (C(0), ('cat',)) for v in a[1:6]):
                return True
    return not any(e.k == 'write' and any(y == ('fld', J.T, fl) for y in walk(e.a[0])) for e in x.ev) and first is None and \
        ('fld', J.T, fl) in x.heap and False
