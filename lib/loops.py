"""Bodies that several threads run at once: lambdas handed to the par_for family, and to std::async / std::thread.

A body is analysed with its loop variable and thread number symbolic.  Every value in it is classed by what it depends on:
  C   the same in every iteration (it may be a counter of a loop inside the body)
  CPU exactly the thread number
  L   exactly the loop variable, up to a constant offset or constant bits put in
  D   anything else that depends on the loop variable
Memory reached from outside the body is shared; memory made by the body (its locals, fresh objects) is not."""
from ir import *
import asyncq

PAR = ('par_for', 'par_for_skip', 'par_for_mask', 'par_for_set', 'par_for_sparse_compose', 'par_for_inc')
GUARDS = ('lock_guard', 'unique_lock', 'scoped_lock')
RANK = {'C': 0, 'CPU': 1, 'L': 2, 'D': 3}


def join(a, b):
    if a == b:
        return a
    if 'C' == a or 'C' == b:
        # constant in one case, varying in another: no longer exact
        return 'D'
    return 'D'


class Access(object):
    __slots__ = ('root', 'name', 'idx', 'kind', 'node', 'fn', 'locked', 'idxn', 'guard')

    def __init__(self, root, name, idx, kind, node, fn, locked, idxn=None):
        self.root, self.name, self.idx, self.kind, self.node, self.fn, self.locked = root, name, idx, kind, node, fn, locked
        self.idxn = idxn

    def __repr__(self):
        return '%s %s%s%s' % (self.kind, self.name, ''.join('[%s]' % i for i in self.idx), ' locked' if self.locked else '')


class Body(object):
    """one lambda run by several threads; loopvars: {decl: class}"""

    def __init__(self, p, f, lam, loopvars, around=None):
        """around: the statement of the launching function that makes one task per turn (its locals belong to the turn)"""
        self.p, self.f, self.lam, self.around = p, f, lam, around
        self.cls = dict(loopvars)
        self.ctr = dict(loopvars)
        self.local = {}
        self.outer = {}
        self.aliases()
        self.acc = []
        self.inner = {}
        for g in self.nest(lam):
            for n in g.all_nodes():
                if n.k in ('var', 'decl') and n.decl is not None and not n.get('static'):
                    self.local[n.decl] = n
                if n.k == 'forrange':
                    for v in n.walk():
                        if v.k == 'var':
                            self.local[v.decl] = v
            if g is not lam:
                for a in g.params:
                    self.local[a['d']] = None
        if around is not None:
            for n in around.walk():
                if n.k == 'var' and n.decl not in self.ctr:
                    self.local[n.decl] = n
                    if n.p is not None and n.p.k == 'forrange':
                        self.cls[n.decl] = 'D'
            for n in around.walk():
                t = None
                if n.k == 'asg' or n.k == 'un' and n.op in ('++', '--'):
                    t = skip(n.c[0])
                elif n.k == 'call' and n.op in ('=', '+=', '-=', '++', '|=') and n.o is not None:
                    t = skip(n.o)
                elif n.k == 'call' and n.o is None and (n.name or '').startswith('bi_') and n.c and skip(n.c[0]).k == 'un':
                    t = skip(skip(n.c[0]).c[0])
                if t is not None and t.k == 'ref' and t.decl not in self.local and t.decl not in self.ctr:
                    self.cls.setdefault(t.decl, 'D')
                    self.ctr.setdefault(t.decl, 'D')
        self.fix()

    def aliases(self):
        """pointer variables of the surrounding functions and what they are initialised with"""
        asg = {}
        for g in asyncq.family(self.p, self.f):
            for n in g.all_nodes():
                if n.k == 'var' and n.decl is not None:
                    self.outer[n.decl] = n
                elif n.k == 'asg' and skip(n.c[0]).k == 'ref':
                    asg.setdefault(skip(n.c[0]).decl, []).append(n)
                elif n.k == 'call' and n.op == '=' and n.o is not None and skip(n.o).k == 'ref':
                    asg.setdefault(skip(n.o).decl, []).append(n)
        self.reasg = asg

    def nest(self, g, seen=None):
        seen = seen if seen is not None else set()
        if g.id in seen:
            return []
        seen.add(g.id)
        out = [g]
        for n in g.all_nodes():
            if n.k == 'lambda' and n.get('fid') in self.p.fns:
                out += self.nest(self.p.fns[n.get('fid')], seen)
        return out

    # ------------------------------------------------------------ classes
    def fix(self):
        for _ in range(6):
            old = dict(self.cls)
            for g in self.nest(self.lam) + ([self.around] if self.around is not None else []):
                for n in (g.all_nodes() if isinstance(g, Fn) else g.walk()):
                    if n.k == 'var' and n.decl in self.ctr:
                        continue
                    if n.k == 'var' and n.c and n.c[0] is not None:
                        self.bind(n.decl, n.c[0], n, init=True)
                    elif n.k == 'asg' and skip(n.c[0]).k == 'ref':
                        d = skip(n.c[0]).decl
                        if d in self.local:
                            if n.op == '=':
                                self.bind(d, n.c[1], n)
                            elif self.of(n.c[1]) != 'C':
                                self.raise_(d, 'D')
                            else:
                                self.control(d, n)
                    elif n.k == 'call' and n.op in ('=', '+=', '-=', '*=', '|=', '&=', '^=', '<<=', '>>=') and n.o is not None and skip(n.o).k == 'ref':
                        d = skip(n.o).decl
                        if d in self.local and n.c:
                            self.bind(d, n.c[0], n)
                    elif n.k == 'un' and n.op in ('++', '--') and skip(n.c[0]).k == 'ref' and skip(n.c[0]).decl in self.local:
                        self.control(skip(n.c[0]).decl, n)
                    elif n.k == 'call' and n.c:
                        # out parameters: bi_or_ip(&x, y)
                        for a in n.c:
                            s = skip(a) if a is not None else None
                            if s is not None and s.k == 'un' and s.op == '&' and skip(s.c[0]).k == 'ref' and skip(s.c[0]).decl in self.local:
                                if any(self.of(b) != 'C' for b in n.c if b is not a and b is not None):
                                    self.raise_(skip(s.c[0]).decl, 'D')
                                self.control(skip(s.c[0]).decl, n)
            if self.cls == old:
                break

    def raise_(self, d, c):
        if d in self.cls and self.cls[d] != c:
            c = join(self.cls[d], c)
        self.cls[d] = c

    def bind(self, d, e, n, init=False):
        c = self.of(e)
        self.raise_(d, c) if not (d not in self.cls) else self.cls.__setitem__(d, c)
        self.control(d, n)

    def control(self, d, n):
        """assigned under a condition that differs between iterations"""
        for a in self.conds(n):
            if d in self.local and self.declared_inside(d, a):
                break
            if self.of(a.c[2] if a.k == 'if' else a.c[0]) not in ('C',):
                self.raise_(d, 'D')
                return

    def declared_inside(self, d, a):
        v = self.local.get(d)
        return v is not None and any(x is a for x in v.ancestors())

    def conds(self, n):
        for a in n.ancestors():
            if a.k == 'if' or a.k in ('while',):
                yield a

    def of(self, n, depth=0):
        n = skip(n)
        if n is None or depth > 40:
            return 'C'
        if n.get('v') is not None and n.k != 'ref':
            return 'C'
        if n.k == 'ref':
            return self.cls.get(n.decl, 'C')
        if n.k in ('lit', 'str', 'this', 'nullptr', 'sizeof'):
            return 'C'
        if n.k == 'lambda':
            return 'C'
        if n.k == 'mem':
            return self.of(n.c[0], depth + 1) if n.c and n.c[0] is not None else 'C'
        if n.k == 'cast':
            return self.of(n.c[-1], depth + 1)
        if n.k == 'ctor' and len([x for x in n.c if x is not None]) == 1:
            return self.of(n.c[0], depth + 1)
        if n.k == 'bin' and n.op in ('+', '-', '^', '|'):
            a, b = self.of(n.c[0], depth + 1), self.of(n.c[1], depth + 1)
            if b == 'C' and a in ('L', 'C') or n.op in ('+', '^', '|') and a == 'C' and b in ('L', 'C'):
                return a if a != 'C' else b
            return 'D'
        ks = [x for x in n.kids() if x is not None]
        r = 'C'
        for k in ks:
            if self.of(k, depth + 1) != 'C':
                r = 'D'
        return r

    # ----------------------------------------------------------- accesses
    def run(self):
        for g in self.nest(self.lam):
            self.scan(g)
        return self.acc

    def scan(self, g):
        for n in g.all_nodes():
            if n.k == 'asg':
                self.add(g, n, n.c[0], 'w' if n.op == '=' else 'rw')
            elif n.k == 'un' and n.op in ('++', '--'):
                self.add(g, n, n.c[0], 'rw')
            elif n.k == 'call' and n.op in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '++', '--', '<<=', '>>=') and n.o is not None:
                self.add(g, n, n.o, 'w' if n.op == '=' else 'rw')
            elif n.k == 'call' and n.o is not None and n.name in ('write', 'write2', 'read', 'read2') and 'StateVector' in (n.get('cls') or self.otype(n)):
                idx = [n.c[0]] if n.name in ('write', 'read') else [n.c[0], n.c[2 if n.name == 'write2' else 1]]
                r = self.root(n.o)
                for i in idx:
                    if r is not None:
                        self.put(g, n, r[0], r[1], r[2] + [self.of(i)], 'w' if n.name.startswith('write') else 'r', i)
            elif n.k == 'call' and n.o is None and n.c and (n.name or '').startswith('bi_') and (n.name or '').endswith(('_ip', 'increment', 'decrement')):
                s = skip(n.c[0])
                if s.k == 'un' and s.op == '&':
                    self.add(g, n, s.c[0], 'rw')
            elif n.k == 'call' and n.o is not None and n.op is None and not n.get('cm') and n.name not in ('read', 'read2', 'write', 'write2'):
                r = self.root(n.o)
                if r is not None:
                    self.put(g, n, r[0], r[1], r[2], 'call', None)
                elif skip(n.o).k == 'this':
                    self.put(g, n, 'this', 'this', [], 'call', None)
            elif n.k == 'call' and n.o is None and n.get('cls') and n.op is None and self.isthis(n):
                self.put(g, n, 'this', 'this', [], 'call', None)
            elif n.k == 'call' and n.op == '()':
                r = self.root(n.o) if n.o is not None else None
                if r is not None:
                    self.put(g, n, r[0], r[1], r[2], 'op()', None)
            elif n.k == 'idx' or n.k == 'call' and n.op == '[]':
                if not self.written(n):
                    r = self.root(n)
                    if r is not None:
                        self.put(g, n, r[0], r[1], r[2], 'r', n.c[-1])

    def isthis(self, n):
        return not n.get('sm') and bool(n.get('cls'))

    def otype(self, n):
        o = skip(n.o)
        return self.p.types[o.get('t')] if o is not None and isinstance(o.get('t'), int) else ''

    def written(self, n):
        """is this subscript (part of) the target of an assignment"""
        x = n
        while x.p is not None:
            q = x.p
            if q.k == 'asg' and q.c[0] is x and q.op == '=':
                return True
            if q.k == 'call' and q.op == '=' and q.o is x:
                return True
            if q.k in ('idx', 'mem', 'cast', 'paren') and q.c and q.c[0] is x:
                x = q
                continue
            return False
        return False

    def add(self, g, n, t, kind):
        r = self.root(t)
        if r is None:
            return
        last = skip(t)
        i = None
        if last.k == 'idx':
            i = last.c[1]
        elif last.k == 'call' and last.op == '[]' and last.c:
            i = last.c[-1]
        self.put(g, n, r[0], r[1], r[2], kind, i)

    def put(self, g, n, root, name, idx, kind, i):
        a = Access(root, name, idx, kind, n, g, self.locked(g, n), i)
        a.guard = self.guards(n)
        self.acc.append(a)

    def guards(self, n):
        return [a for a in n.ancestors() if a.k in ('if',)]

    def root(self, n, depth=0):
        """(key, text, [index classes]) of the shared memory an lvalue lies in, None when it belongs to the body"""
        n = skip(n)
        if n is None or depth > 30:
            return None
        if n.k == 'ref':
            d = n.decl
            if d in self.ctr and d not in self.local and self.ctr[d] != 'D':
                return None     # the loop variables themselves
            if d in self.local:
                v = self.local[d]
                if v is not None and self.around is not None and v.k == 'var' and v.p is not None and v.p.k == 'forrange' and any(x is self.around for x in v.ancestors()):
                    r = self.root(v.p.c[0], depth + 1)
                    return (r[0], r[1], r[2] + ['D']) if r else None
                if v is None or not v.c or v.c[0] is None:
                    if v is not None and self.pointer(v.type) and v.p is not None and v.p.k == 'forrange':
                        r = self.root(v.p.c[0], depth + 1)
                        return (r[0], r[1], r[2] + ['C']) if r else None
                    return None
                t = v.type
                if not self.pointer(t):
                    return None
                e = skip(v.c[0])
                if self.fresh(e):
                    return None
                return self.root(e, depth + 1)
            if n.get('dk') in ('func', 'enum'):
                return None
            v = self.outer.get(d)
            if v is not None and v.c and v.c[0] is not None and self.pointer(v.type) and d not in self.reasg and not self.fresh(skip(v.c[0])):
                r = self.root(v.c[0], depth + 1)
                if r is not None:
                    return r
            return (d if d is not None else n.q, n.name or '?', [])
        if n.k == 'this':
            return ('this', 'this', [])
        if n.k == 'mem':
            if 'fid' in n.a:
                return None
            if not n.c or n.c[0] is None or skip(n.c[0]).k == 'this':
                return ('this.' + n.name, n.name, [])
            r = self.root(n.c[0], depth + 1)
            return (str(r[0]) + '.' + n.name, r[1] + '.' + n.name, r[2]) if r else None
        if n.k == 'idx':
            r = self.root(n.c[0], depth + 1)
            return (r[0], r[1], r[2] + [self.of(n.c[1])]) if r else None
        if n.k == 'un' and n.op == '*':
            return self.root(n.c[0], depth + 1)
        if n.k == 'un' and n.op == '&':
            return self.root(n.c[0], depth + 1)
        if n.k == 'bin' and n.op in ('+', '-'):
            for i in (0, 1):
                if self.pointer(self.p.types[skip(n.c[i]).get('t')] if isinstance(skip(n.c[i]).get('t'), int) else ''):
                    r = self.root(n.c[i], depth + 1)
                    return (r[0], r[1], r[2] + [self.of(n.c[1 - i])]) if r else None
            return None
        if n.k == 'cast':
            return self.root(n.c[-1], depth + 1)
        if n.k == 'ctor' and len([x for x in n.c if x is not None]) == 1:
            return self.root(n.c[0], depth + 1)
        if n.k == 'cond':
            return self.root(n.c[1], depth + 1) or self.root(n.c[2], depth + 1)
        if n.k == 'call':
            if n.op in ('->', '*') and n.o is not None:
                return self.root(n.o, depth + 1)
            if n.op == '[]':
                r = self.root(n.o, depth + 1)
                return (r[0], r[1], r[2] + [self.of(n.c[-1])]) if r else None
            if n.name in ('get', 'data', 'begin', 'front', 'back') and n.o is not None:
                return self.root(n.o, depth + 1)
            if (n.name or '') in ('dynamic_pointer_cast', 'static_pointer_cast', 'forward', 'move', 'ref') and n.c:
                return self.root(n.c[0], depth + 1)
            if n.name in ('at', 'find') and n.o is not None and n.c:
                r = self.root(n.o, depth + 1)
                return (r[0], r[1], r[2] + [self.of(n.c[0])]) if r else None
        return None

    def fresh(self, e):
        while e is not None and e.k in ('ctor', 'cast') and len([x for x in e.c if x is not None]) == 1:
            e = skip(e.c[0])
        if e is None:
            return True
        if e.k in ('new', 'lit', 'nullptr', 'str'):
            return True
        if e.k == 'call' and e.name in ('Clone', 'CloneEmpty', 'Copy', 'make_shared', 'make_unique', 'CreateQuantumInterface', 'AllocStateVec', 'MakeStateVec', 'SampleClone'):
            return True
        if e.k == 'call' and e.name in ('dynamic_pointer_cast', 'static_pointer_cast') and e.c:
            return self.fresh(skip(e.c[0]))
        return False

    def pointer(self, t):
        t = (t or '').strip()
        return t.endswith(('*', '&')) or 'Ptr' in t or 'shared_ptr' in t or 'iterator' in t or 'unique_ptr' in t

    def locked(self, g, n):
        """name of a mutex a guard of which is alive at the node"""
        x = n
        out = []
        while x.p is not None:
            q = x.p
            if q.k == 'block':
                for s in q.c:
                    if s is x:
                        break
                    for v in ([s] if s.k == 'var' else s.c if s.k == 'decl' else []):
                        if v is not None and v.k == 'var' and any(y in v.type for y in GUARDS) and v.c:
                            m = v.c[0]
                            m = skip(m)
                            while m is not None and m.k == 'ctor' and m.c:
                                m = skip(m.c[0])
                            r = self.root(m)
                            if m is not None and m.k == 'call' and m.op is None and not m.c:
                                out.append('call:' + str(m.get('fid') or m.name))
                            else:
                                out.append(r[0] if r else None)
            x = q
        return [o for o in out if o is not None]


def loops(p):
    """(function, call, lambda function, kind) for every parallel loop body of the library"""
    out = []
    seen = set()
    for f in list(p.fns.values()):
        if f.body is None:
            continue
        for n in f.all_nodes():
            if n.k == 'call' and n.name in PAR and n.c:
                ls = asyncq.lambda_args(p, f, n.c[-1])
                for l in ls:
                    if (l.id, f.id, n.get('l')) in seen:
                        continue
                    seen.add((l.id, f.id, n.get('l')))
                    out.append((f, n, l))
                if not ls:
                    out.append((f, n, None))
    return out


def tasks(p):
    """(function, call, lambda) for every std::async / std::thread"""
    out = []
    for f in list(p.fns.values()):
        if f.body is None:
            continue
        for n in f.all_nodes():
            if n.k == 'call' and n.name == 'async' or n.k == 'ctor' and (n.get('cls') or '') == 'std::thread':
                ls = []
                for a in n.c:
                    ls += asyncq.lambda_args(p, f, a)
                out.append((f, n, ls))
    return out
