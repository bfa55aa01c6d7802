"""Path enumeration over the syntax tree of one function, with helper functions inlined and values kept symbolic.

Each run follows one sequence of branch decisions; every undecided condition forks the enumeration.  A loop body is
passed once per path, over a loop symbol.  Conditions are decided only by constant folding and by repetition of a
condition already decided on the same path; no solver is involved.

The outcome is a list of Path objects: events in order (calls with symbolic receiver and arguments, field writes, loop
brackets), the conditions taken, the way the path ends (return value, throw).
"""
from ir import *
from apieval import C, lin_of, mk_lin, add, scale, mul, ite, truth, neg, cmp_, subst, contains, walk, isnum, index


class TooMany(Exception):
    pass


class Stop(Exception):
    """internal: control transfer"""

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


class Ev(object):
    __slots__ = ('k', 'a', 'node', 'depth', 'pc', 'fn')

    def __init__(self, k, a, node, depth, pc, fn):
        self.k, self.a, self.node, self.depth, self.pc, self.fn = k, a, node, depth, pc, fn

    def __repr__(self):
        return '%s%s' % (self.k, self.a)


class Path(object):
    def __init__(self, ev, pc, end, val, heap, env):
        self.ev, self.pc, self.end, self.val, self.heap, self.env = ev, pc, end, val, heap, env

    def calls(self, *names):
        return [e for e in self.ev if e.k == 'call' and (not names or e.a[0] in names)]

    def writes(self):
        return [e for e in self.ev if e.k == 'write']


TRANSPARENT = ('std::move', 'std::forward', 'std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::cref', 'std::ref',
               'std::const_pointer_cast', 'std::addressof')
SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')
PURE_STD = ('size', 'empty', 'length', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'data', 'count', 'find', 'at', 'real',
            'imag', 'load', 'get', 'capacity', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'use_count', 'c_str', 'str')


class Exec(object):
    """prog: Program; inline(fn, call) -> bool; pure(call) -> bool (result is a function of its operands, no event)"""

    def __init__(self, prog, inline=None, pure=None, max_paths=2000, max_depth=8, consts=None, keep_locals=False):
        self.p = prog
        self.inline = inline or (lambda f, n: False)
        self.pure = pure or (lambda n: False)
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.consts = consts or {}

    # ------------------------------------------------------------ driver
    def paths(self, fn, args=None, this=('this',), facts=None):
        """args: {param index or name: value}; facts: {cond: bool} assumed at entry"""
        out = []
        pend = [[]]
        while pend:
            self.dec = pend.pop()
            self.pos = 0
            self.alts = []
            self.ev = []
            self.pc = {}
            for k, v in (facts or {}).items():
                self.note(k, v)
            self.env = {}
            self.heap = {}
            self.this = this
            self.stack = [fn]
            self.seq = 0
            self.loops = []
            self.nres = 0
            for i, x in enumerate(fn.params):
                v = ('p', i, x['n'])
                if args:
                    v = args.get(i, args.get(x['n'], v))
                self.env[x['d']] = v
            end, val = 'end', None
            try:
                for field, x, e in fn.inits:
                    if field is None:
                        self.rec('base', (x.get('base') or x.get('q') or '',) + self.ctor_args(e), e)
                        continue
                    v = self.val(e) if e is not None else ('op', 'default')
                    self.write(('fld', self.this, field), v, e, init=True)
                if fn.body is not None:
                    self.exec(fn.body)
            except Stop as s:
                end, val = s.kind, s.v
            out.append(Path(self.ev, dict(self.pc), end, val, self.heap, self.env))
            for a in self.alts:
                pend.append(a)
            if len(out) + len(pend) > self.max_paths:
                raise TooMany(fn.short())
        return out

    def ctor_args(self, e):
        e2 = e
        while e2 is not None and e2.k in ('cast', 'definit') and e2.c:
            e2 = e2.c[0]
        if e2 is None:
            return ()
        if e2.k == 'ctor':
            return tuple(self.val(x) for x in e2.c)
        return (self.val(e2),)

    def note(self, c, v):
        while c[0] == 'not':
            c, v = c[1], not v
        self.pc[c] = v
        if c[0] == 'and' and v:
            self.note(c[1], True)
            self.note(c[2], True)
        if c[0] == 'or2' and not v:
            self.note(c[1], False)
            self.note(c[2], False)

    def known(self, c):
        t = truth(c)
        if t is not None:
            return t
        s = True
        while c[0] == 'not':
            c, s = c[1], not s
        t = truth(c)
        if t is not None:
            return t if s else not t
        if c in self.pc:
            return self.pc[c] if s else not self.pc[c]
        if c[0] == 'and':
            a, b = self.known(c[1]), self.known(c[2])
            if a is False or b is False:
                return not s
            if a and b:
                return s
        if c[0] == 'or2':
            a, b = self.known(c[1]), self.known(c[2])
            if a or b:
                return s
            if a is False and b is False:
                return not s
        if c[0] == 'lt' and c[1][0] != 'c':     # strict order is asymmetric
            if self.pc.get(('lt', c[2], c[1])):
                return not s
        if c[0] == 'lt' and c[1] == c[2]:
            return not s
        if c[0] == 'eq':
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if x[0] == 'c':
                    for k, v in self.pc.items():
                        if k[0] == 'eq' and v and y in (k[1], k[2]):
                            z = k[1] if k[2] == y else k[2]
                            if z[0] == 'c' and z != x:
                                return not s
                    if x == C(0) and self.pc.get(y) is True:
                        return not s
                    if x == C(0) and self.pc.get(y) is False:
                        return s
        else:
            z = self.pc.get(('eq', C(0), c))
            if z is None:
                z = self.pc.get(('eq', c, C(0)))
            if z is not None:
                return (not z) if s else z
        return None

    def decide(self, c):
        if c[0] == 'ite':
            return self.decide(c[2] if self.decide(c[1]) else c[3])
        t = self.known(c)
        if t is not None:
            return t
        if c[0] == 'not':
            return not self.decide(c[1])
        if c[0] == 'and':
            return self.decide(c[1]) and self.decide(c[2])
        if c[0] == 'or2':
            return self.decide(c[1]) or self.decide(c[2])
        if self.pos < len(self.dec):
            t = self.dec[self.pos]
        else:
            t = True
            self.alts.append(list(self.dec) + [False])
            self.dec = list(self.dec) + [True]
        self.pos += 1
        self.note(c, t)
        return t

    def choose(self, tag):
        """fork that depends on nothing"""
        self.seq += 1
        return self.decide(('choice', tag, self.seq))

    def rec(self, k, a, node):
        e = Ev(k, a, node, len(self.loops), None, self.stack[-1])
        self.ev.append(e)
        return e

    # ------------------------------------------------------------ statements
    def exec(self, n):
        if n is None:
            return
        k = n.k
        if k == 'block':
            for s in n.c:
                self.exec(s)
        elif k == 'if':
            c = n.c
            init, cv, cond = c[0], c[1], c[2]
            if init is not None:
                self.exec(init)
            if cv is not None:
                self.exec(cv)
            cond = self.val(cond) if cond is not None else self.env.get(cv.decl if cv is not None else None, C(1))
            if self.decide(self.tobool(cond)):
                self.exec(c[3])
            elif len(c) > 4:
                self.exec(c[4])
        elif k == 'decl':
            for v in n.c:
                if v is not None and v.k == 'var':
                    self.declare(v)
        elif k == 'var':
            self.declare(n)
        elif k == 'return':
            v = self.val(n.c[0]) if n.c and n.c[0] is not None else None
            raise Stop('return', v)
        elif k == 'throw':
            raise Stop('throw', self.throw_type(n))
        elif k == 'break':
            raise Stop('break')
        elif k == 'continue':
            raise Stop('continue')
        elif k in ('for', 'while', 'do', 'forrange'):
            self.loop(n)
        elif k == 'switch':
            self.switch(n)
        elif k in ('case', 'default'):
            for x in n.c[(1 if k == 'case' else 0):]:
                self.exec(x)
        elif k == 'try':
            mark = len(self.ev)
            try:
                self.exec(n.c[0])
            except Stop as s:
                if s.kind != 'throw':
                    raise
                self.rec('caught', (s.v,), n)
                hs = [h for h in n.c[1:] if h is not None]
                for h in hs:
                    if self.catches(h, s.v):
                        for x in h.c:
                            self.exec(x)
                        return
                raise
        elif k in ('lambda',):
            self.val(n)
        else:
            self.val(n)

    def throw_type(self, n):
        if not n.c or n.c[0] is None:
            return None
        x = skip(n.c[0])
        return (x.get('cls') if x.k == 'ctor' else None) or x.type

    def catches(self, h, t):
        et = h.get('et')
        s = self.p.types[et] if isinstance(et, int) and et >= 0 else ''
        s = s.replace('const ', '').replace('&', '').strip()
        return s in ('', '...', 'std::exception') or t is None or s == t or (s, t) in (
            ('std::logic_error', 'std::invalid_argument'), ('std::logic_error', 'std::domain_error'),
            ('std::runtime_error', 'std::range_error'))

    def declare(self, v):
        t = v.type
        if v.c and v.c[0] is not None:
            e = v.c[0]
            if t.endswith('&') or t.endswith('&&'):
                lv = self.lval(e)
                if lv is not None:
                    self.env[v.decl] = ('alias', lv)
                    return
            x = self.val(e)
            if t.startswith('const ') and False:
                pass
            self.env[v.decl] = x
        else:
            self.env[v.decl] = ('uninit', v.name)

    def switch(self, n):
        sel = self.val(n.c[0])
        items = []

        def flat(s):
            if s is None:
                return
            if s.k == 'block':
                for x in s.c:
                    flat(x)
            elif s.k == 'case':
                items.append(('case', s.c[0]))
                for x in s.c[1:]:
                    flat(x)
            elif s.k == 'default':
                items.append(('default', None))
                for x in s.c:
                    flat(x)
            else:
                items.append(('s', s))
        flat(n.c[1])
        start = None
        for i, (k, x) in enumerate(items):
            if k == 'case' and self.decide(cmp_('==', sel, self.val(x))):
                start = i
                break
        if start is None:
            for i, (k, x) in enumerate(items):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, x in items[start:]:
                if k == 's':
                    self.exec(x)
        except Stop as s:
            if s.kind != 'break':
                raise

    # ------------------------------------------------------------ loops
    def assigned(self, nodes):
        """locals and fields a piece of code may assign: ({decl}, {field name})"""
        ds, fs = set(), set()

        def tgt(x):
            x = skip(x)
            while x is not None:
                if x.k == 'ref':
                    if x.get('dk') in ('local', 'parm'):
                        ds.add(x.decl)
                    return
                if x.k == 'mem':
                    b = skip(x.c[0]) if x.c else None
                    if b is None or b.k == 'this':
                        fs.add(x.name)
                        return
                    fs.add(x.name)
                    x = deref(b)
                    return
                if x.k == 'idx':
                    x = skip(x.c[0])
                elif x.k == 'call' and x.op == '[]':
                    x = skip(x.o)
                elif x.k == 'un' and x.op == '*':
                    return
                elif x.k == 'call' and x.op in ('*', '->'):
                    return
                else:
                    return
        for s in nodes:
            if s is None:
                continue
            for x in s.walk():
                if x.k == 'asg':
                    tgt(x.c[0])
                elif x.k == 'un' and ('++' in x.op or '--' in x.op):
                    tgt(x.c[0])
                elif x.k == 'call' and x.op and x.o is not None and (x.op.endswith('=') and x.op not in ('==', '!=', '<=', '>=') or x.op in ('++', '--')):
                    tgt(x.o)
                elif x.k == 'call' and x.op and x.o is None and x.c and (x.op.endswith('=') and x.op not in ('==', '!=', '<=', '>=') or x.op in ('++', '--')):
                    tgt(x.c[0])
                elif x.k == 'call' and x.o is not None and x.name in ('push_back', 'insert', 'erase', 'clear', 'resize', 'pop_back', 'emplace_back', 'emplace', 'swap', 'reset'):
                    tgt(x.o)
                if x.k == 'call' and x.get('pm'):
                    for m, a in zip(x.get('pm'), x.c):
                        if m == 'r' and a is not None:
                            tgt(a)
        return ds, fs

    def havoc(self, nodes, uid, tag):
        ds, fs = self.assigned(nodes)
        for d in ds:
            if d in self.env and self.env[d][0] != 'alias':
                self.env[d] = ('lv', uid, tag, d)
        for k in list(self.heap):
            if k[0] == 'fld' and k[2] in fs:
                self.heap[k] = ('lv', uid, tag, k[2])

    def loop(self, n):
        self.seq += 1
        uid = self.seq
        k = n.k
        sym = ('i', uid)
        info = None
        restore = None
        if k == 'forrange':
            rng = self.val(n.c[0])
            if rng[0] == 'cat' and len(rng) <= 9 and all(x[0] == 'one' for x in rng[1:]):
                v = n.c[1]
                while v is not None and v.k == 'decl':
                    v = v.c[0]
                return self.unroll([(v.decl if v is not None else None, x[1]) for x in rng[1:]], n.c[2])
            v = n.c[1]
            while v is not None and v.k == 'decl':
                v = v.c[0]
            body = n.c[2]
            nodes = [body]
            info = ('range', rng)
            self.havoc(nodes, uid, 'in')
            if v is not None:
                if v.type.endswith('&'):
                    self.env[v.decl] = ('alias', ('elt', rng, sym))
                else:
                    self.env[v.decl] = index(rng, sym)
        elif k == 'for':
            init, cond, inc, body = n.c[0], n.c[1], n.c[2], n.c[3]
            self.exec(init) if init is not None else None
            iv = self.induction(init, cond, inc, body)
            nodes = [cond, inc, body]
            if iv is not None and iv[1][0] == 'c' and iv[2][0] == 'c' and isinstance(iv[3], int) and iv[3] > 0 and \
                    isinstance(iv[1][1], int) and isinstance(iv[2][1], int) and 0 <= (iv[2][1] - iv[1][1]) / iv[3] <= 8:
                return self.unroll([(iv[0], C(x)) for x in range(iv[1][1], iv[2][1], iv[3])], body)
            if iv is not None:
                d, lo, hi, step = iv
                self.havoc(nodes, uid, 'in')
                if isinstance(step, int) and step < 0:
                    # descending over hi, hi - 1, .., lo + 1: the elements of the range lo..hi, taken from the end
                    self.env[d] = add(add(lo, sym), C(1))
                    info = ('count', lo, hi, 'rev')
                else:
                    self.env[d] = add(lo, scale(sym, step)) if not isinstance(step, tuple) else ('op', 'step', lo, sym)
                    info = ('count', lo, hi)
            else:
                self.havoc(nodes, uid, 'in')
        else:
            body = n.c[1] if k == 'while' else n.c[0]
            cond = n.c[0] if k == 'while' else n.c[1]
            nodes = [cond, body]
            iv = self.while_induction(cond, body) if k == 'while' else None
            self.havoc(nodes, uid, 'in')
            if iv is not None:
                d, lo, hi = iv
                self.env[d] = add(lo, sym)
                info = ('count', lo, hi)
        self.loops.append(uid)
        self.rec('loop', (uid, k, info), n)
        exited = None
        if k in ('for', 'while') and info is None:
            c = n.c[1] if k == 'for' else n.c[0]
            if c is not None:
                cv = self.tobool(self.val(c))
                if truth(cv) is None:
                    self.note(cv, True)
        try:
            self.exec(body)
        except Stop as s:
            if s.kind not in ('break', 'continue'):
                self.rec('unwind', (uid, s.kind), n)
                self.loops.pop()
                raise
            exited = s.kind
        if k == 'for' and info is None and n.c[2] is not None and exited != 'break':
            self.val(n.c[2])
        if k == 'do' and n.c[1] is not None and exited != 'break':
            self.val(n.c[1])
        self.loops.pop()
        self.rec('endloop', (uid, exited), n).pc = dict(self.pc)
        self.havoc(nodes, uid, 'out')
        # facts about loop-variant values do not survive the loop
        for c in list(self.pc):
            if contains(c, sym) or any(x[0] == 'lv' and x[1] == uid and x[2] == 'in' for x in walk(c)):
                del self.pc[c]

    def unroll(self, items, body):
        for d, v in items:
            if d is not None:
                self.env[d] = v
            try:
                self.exec(body)
            except Stop as s:
                if s.kind == 'break':
                    return
                if s.kind != 'continue':
                    raise

    def induction(self, init, cond, inc, body):
        if init is None or cond is None or inc is None:
            return None
        vs = [v for v in (init.c if init.k == 'decl' else [init]) if v is not None and v.k == 'var']
        if len(vs) != 1:
            return None
        d = vs[0].decl
        i = skip(inc)
        step = None
        if i.k == 'un' and ('++' in i.op):
            if self.is_ref(i.c[0], d):
                step = 1
        elif i.k == 'call' and i.op == '++' and self.is_ref(i.o or (i.c[0] if i.c else None), d):
            step = 1
        elif i.k == 'asg' and i.op == '+=' and self.is_ref(i.c[0], d):
            step = const_int(i.c[1])
        elif i.k == 'un' and ('--' in i.op) and self.is_ref(i.c[0], d):
            step = -1
        elif i.k == 'call' and i.op == '--' and self.is_ref(i.o or (i.c[0] if i.c else None), d):
            step = -1
        if not step:
            return None
        ds, _ = self.assigned([body])
        if d in ds:
            return None
        c = skip(cond)
        if step < 0:
            if c.k == 'bin' and c.op in ('>', '!=', '>=') and self.is_ref(c.c[0], d):
                lo = self.val(c.c[1])
                if c.op == '>=':
                    lo = add(lo, C(-1))
                return d, lo, self.env.get(d, C(0)), step
            return None
        if c.k == 'bin' and c.op in ('<', '!=', '<=') and self.is_ref(c.c[0], d):
            hi = self.val(c.c[1])
            if c.op == '<=':
                hi = add(hi, C(1))
            return d, self.env.get(d, C(0)), hi, step
        return None

    def while_induction(self, cond, body):
        """while (i < hi) { ...; ++i; } with i not otherwise assigned"""
        c = skip(cond)
        if c is None or c.k != 'bin' or c.op not in ('<', '!=') or body is None or body.k != 'block' or not body.c:
            return None
        r = skip(c.c[0])
        if r.k != 'ref' or r.get('dk') != 'local':
            return None
        d = r.decl
        i = skip(body.c[-1])
        if not ((i.k == 'un' and '++' in i.op and self.is_ref(i.c[0], d)) or
                (i.k == 'call' and i.op == '++' and self.is_ref(i.o or (i.c[0] if i.c else None), d))):
            return None
        ds, _ = self.assigned(body.c[:-1])
        if d in ds or any(x.k in ('continue', 'goto') for s in body.c for x in s.walk()):
            return None
        lo = self.env.get(d)
        if lo is None:
            return None
        return d, lo, self.val(c.c[1])

    def is_ref(self, n, d):
        n = skip(n)
        return n is not None and n.k == 'ref' and n.decl == d

    # ------------------------------------------------------------ places
    def lval(self, n):
        n0 = n
        while n is not None and n.k in ('cast', 'defarg', 'definit') and n.c:
            n = n.c[0]
        if n is None:
            return None
        if n.k == 'ref':
            if n.get('dk') in ('local', 'parm'):
                v = self.env.get(n.decl)
                if v is not None and v[0] == 'alias':
                    return v[1]
                return ('v', n.decl)
            if n.get('dk') == 'global':
                return ('g', n.q)
            return None
        if n.k == 'mem':
            if 'fid' in n.a:
                return None
            if not n.c or n.c[0] is None:
                return ('g', n.q)
            b = n.c[0]
            if b.k == 'this':
                o = self.this
            else:
                o = self.objval(b)
            return ('fld', o, n.name)
        if n.k == 'idx':
            b = self.val(n.c[0])
            return ('elt', b, self.val(n.c[1]))
        if n.k == 'call' and n.op == '[]':
            b = self.val(n.o) if n.o is not None else self.val(n.c[0])
            i = self.val(n.c[-1])
            return ('elt', b, i)
        if n.k == 'un' and n.op == '*':
            v = self.val(n.c[0])
            return v[1] if v[0] == 'addr' else ('deref', v)
        if n.k == 'call' and n.op == '*' and n.o is not None and not n.c:
            v = self.val(n.o)
            return v[1] if v[0] == 'addr' else ('deref', v)
        if n.k == 'call' and n.q in ('std::move', 'std::forward'):
            return self.lval(n.c[0])
        return None

    def objval(self, n):
        v = self.val(n)
        while v[0] in ('addr', 'deref') and len(v) == 2:
            w = v[1]
            if v[0] == 'addr' and w[0] in ('v', 'g'):
                if w[0] == 'v':
                    return self.read(w)
                return v
            v = w
        return v

    def read(self, lv):
        if lv[0] == 'v':
            v = self.env.get(lv[1])
            if v is None:
                return ('loc', lv[1])
            if v[0] == 'alias':
                return self.read(v[1])
            return v
        if lv[0] == 'g':
            return ('g', lv[1])
        if lv in self.heap:
            return self.heap[lv]
        if lv[0] == 'fld':
            b = lv[1]
            if b[0] == 'rec':
                for f, v in b[1]:
                    if f == lv[2]:
                        return v
            return lv
        if lv[0] == 'elt':
            return index(lv[1], lv[2])
        return lv

    def write(self, lv, v, node, init=False):
        if lv is None:
            self.rec('write', (('unknown',), v), node)
            return
        if lv[0] == 'v':
            self.env[lv[1]] = v
            return
        if lv[0] == 'elt' and self.local_base(node) is not None:
            d = self.local_base(node)
            old = self.env.get(d)
            if old is not None:
                self.env[d] = ('upd', old, lv[2], v)
                return
        self.heap[lv] = v
        self.rec('init' if init else 'write', (lv, v), node)

    def foreign(self, v):
        """does a local's value denote storage owned elsewhere (so element writes are visible outside)"""
        return v[0] in ('p', 'fld', 'elt', 'addr', 'deref', 'res', 'g', 'this')

    def local_base(self, node):
        """declaration of the local container an element assignment writes into"""
        if node is None or node.k not in ('asg', 'un', 'call'):
            return None
        x = node.c[0] if node.k in ('asg', 'un') else (node.o if node.o is not None else (node.c[0] if node.c else None))
        x = skip(x)
        if x is None:
            return None
        b = None
        if x.k == 'idx':
            b = skip(x.c[0])
        elif x.k == 'call' and x.op == '[]':
            b = skip(x.o)
        if b is not None and b.k == 'ref' and b.get('dk') == 'local':
            v = self.env.get(b.decl)
            if v is not None and v[0] == 'alias' or (b.type.endswith('*') or self.smart_type(b.type)) and v is not None and self.foreign(v):
                return None
            return b.decl
        return None

    # ------------------------------------------------------------ expressions
    def val(self, n):
        if n is None:
            return C(0)
        k = n.k
        if n.get('v') is not None and k not in ('var',):
            x = n.get('v')
            try:
                return C(int(x))
            except (ValueError, TypeError):
                try:
                    f = float(x)
                    return C(int(f) if f == int(f) else round(f, 9))
                except (ValueError, TypeError, OverflowError):
                    return C(str(x))
        if k == 'ref':
            lv = self.lval(n)
            if lv is None:
                return ('fn', n.q or n.name)
            return self.read(lv)
        if k == 'cast':
            v = self.val(n.c[0])
            if n.type == 'bool' and n.c[0].type != 'bool':
                return self.tobool(v)
            return v
        if k in ('defarg', 'definit'):
            return self.val(n.c[0]) if n.c else ('op', 'default')
        if k == 'lit':
            return C(n.get('v'))
        if k == 'str':
            return C('"%s"' % n.get('s'))
        if k == 'nullptr':
            return ('nullptr',)
        if k == 'this':
            return self.this
        if k == 'bin':
            return self.binop(n)
        if k == 'un':
            return self.unop(n)
        if k == 'asg':
            return self.assign(n)
        if k == 'cond':
            return self.val(n.c[1] if self.decide(self.tobool(self.val(n.c[0]))) else n.c[2])
        if k == 'mem':
            lv = self.lval(n)
            return self.read(lv) if lv is not None else ('fn', n.q)
        if k == 'idx':
            return self.read(self.lval(n))
        if k == 'lambda':
            return ('lambda', n.get('fid'), n.i, self.this)
        if k == 'initlist':
            return ('cat',) + tuple(('one', self.val(x)) for x in n.c)
        if k == 'new':
            self.nres += 1
            return ('new', self.nres, n.type) + tuple(self.val(x) for x in n.c)
        if k == 'delete':
            self.rec('delete', (self.val(n.c[0]),), n)
            return C(0)
        if k == 'ctor':
            return self.ctor(n)
        if k == 'call':
            return self.call(n)
        if k == 'throw':
            raise Stop('throw', self.throw_type(n))
        if k == 'sizeof':
            return ('op', 'sizeof', C(n.get('v')))
        return ('op', k) + tuple(self.val(x) for x in n.c)

    def tobool(self, v):
        if v[0] in ('new', 'lambda', 'addr', 'make'):
            return C(1)
        if v[0] == 'nullptr':
            return C(0)
        return v

    def binop(self, n):
        op = n.op
        if op == '&&':
            if not self.has_effect(n.c[1]):
                a = self.tobool(self.val(n.c[0]))
                t = self.known(a)
                if t is False:
                    return C(0)
                b = self.tobool(self.val(n.c[1]))
                return b if t else self.conj('and', a, b)
            return self.tobool(self.val(n.c[1])) if self.decide(self.tobool(self.val(n.c[0]))) else C(0)
        if op == '||':
            if not self.has_effect(n.c[1]):
                a = self.tobool(self.val(n.c[0]))
                t = self.known(a)
                if t is True:
                    return C(1)
                b = self.tobool(self.val(n.c[1]))
                return b if t is False else self.conj('or2', a, b)
            return C(1) if self.decide(self.tobool(self.val(n.c[0]))) else self.tobool(self.val(n.c[1]))
        if op == ',':
            self.val(n.c[0])
            return self.val(n.c[1])
        return self.arith(op, self.val(n.c[0]), self.val(n.c[1]))

    def conj(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            t = truth(x)
            if t is not None:
                if op == 'and':
                    return y if t else C(0)
                return C(1) if t else y
        return (op, a, b)

    def has_effect(self, n):
        return any(x.k in ('asg', 'call') and not (x.k == 'call' and (self.pure(x) or x.op in ('[]', '==', '!=', '->', '*', '<', '>') or x.name in PURE_STD))
                   or x.k == 'un' and ('++' in x.op or '--' in x.op) for x in n.walk())

    def arith(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return add(a, b, -1)
        if op == '*':
            return mul(a, b)
        if op == '<<' and b[0] == 'c' and isinstance(b[1], int):
            return scale(a, 1 << b[1])
        if op == '<<' and a == C(1):
            return ('pow2', b)
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            try:
                return C({'&': a[1] & b[1], '|': a[1] | b[1], '>>': a[1] >> b[1], '%': a[1] % b[1] if b[1] else 0,
                          '^': a[1] ^ b[1], '/': a[1] // b[1] if b[1] else 0}[op])
            except (KeyError, ValueError):
                pass
        if op in ('&', '|', '^') and repr(b) < repr(a):
            a, b = b, a
        return ('op', op, a, b)

    def compare(self, op, a, b):
        if a[0] == 'nullptr' or b[0] == 'nullptr':
            o = b if a[0] == 'nullptr' else a
            v = self.tobool(o)
            return neg(v) if op == '==' else v
        if a[0] in ('p', 'fld', 'res', 'op') and a == b and op in ('==', '!='):
            return C(int(op == '=='))
        if b == C(0) and op in ('!=', '==') and a[0] in ('and', 'or2'):
            return a if op == '!=' else neg(a)
        return cmp_(op, a, b)

    def unop(self, n):
        op = n.op
        if op == '!':
            return neg(self.tobool(self.val(n.c[0])))
        if '++' in op or '--' in op:
            lv = self.lval(n.c[0])
            v = self.val(n.c[0])
            nv = add(v, C(1), 1 if '++' in op else -1)
            self.write(lv, nv, n)
            return v if n.get('post') else nv
        if op == '-':
            return scale(self.val(n.c[0]), -1)
        if op == '+':
            return self.val(n.c[0])
        if op == '&':
            lv = self.lval(n.c[0])
            return ('addr', lv) if lv is not None else ('op', '&', self.val(n.c[0]))
        if op == '*':
            v = self.val(n.c[0])
            if v[0] == 'addr':
                return self.read(v[1])
            if v[0] == 'this' or self.smart_type(n.c[0].type):
                return v
            return ('deref', v)
        return ('op', op, self.val(n.c[0]))

    def smart_type(self, t):
        return any(s in t for s in ('shared_ptr', 'unique_ptr'))

    def assign(self, n):
        lv = self.lval(n.c[0])
        r = self.val(n.c[1])
        if n.op != '=':
            old = self.read(lv) if lv is not None else self.val(n.c[0])
            r = self.arith(n.op[:-1], old, r)
        self.write(lv, r, n)
        return r

    def ctor(self, n):
        cls = n.get('cls') or ''
        a = [x for x in n.c if x is not None]
        if len(a) == 1 and (n.get('cp') or n.get('mv')):
            return self.val(a[0])
        if any(cls.startswith(s) for s in SMART):
            if not a:
                return ('nullptr',)
            return self.val(a[0])
        real = [x for x in a if x.k != 'defarg']
        if cls in ('std::vector', 'std::set', 'std::map'):
            if not real:
                return ('cat',)
            if len(real) == 1:
                v = self.val(real[0])
                if v[0] == 'cat' or v[0] == 'upd' or 'vector' in real[0].type:
                    return v
                return ('vec', v)
            return ('vec',) + tuple(self.val(x) for x in real)
        if cls == 'std::complex':
            v = [self.val(x) for x in n.c]
            if len(v) == 1 and ('complex' in n.c[0].type):
                return v[0]
            while len(v) < 2:
                v.append(C(0))
            return ('cx', v[0], v[1])
        if cls == 'std::function' and a:
            return self.val(a[0])
        f = self.p.fns.get(n.get('fid'))
        args = tuple(self.val(x) for x in a)
        return ('make', cls) + args

    # ------------------------------------------------------------ calls
    def call(self, n):
        q, name, op = n.q or '', n.name or '', n.op
        if n.ind is not None:
            fnv = self.val(n.ind)
            if fnv[0] == 'lambda':
                return self.apply_lambda(fnv, n.c, n)
            args = tuple(self.val(x) for x in n.c)
            self.nres += 1
            r = ('res', self.nres, '()')
            self.rec('call', ('()', fnv, args, r), n)
            return r
        if op:
            r = self.opcall(n)
            if r is not None:
                return r
        if q in TRANSPARENT and n.c:
            return self.val(n.c[0])
        if q in ('std::make_shared', 'std::make_unique'):
            t = n.type
            self.nres += 1
            args = tuple(self.val(x) for x in n.c)
            v = ('new', self.nres, t) + args
            self.rec('make', (t, args, v), n)
            return v
        if n.o is not None and not n.get('fid', '').startswith(('_ZN5Qrack', '_ZNK5Qrack')):
            return self.stdmethod(n)
        f = self.callee(n)
        if f is not None and len(self.stack) < self.max_depth and f not in self.stack and self.inline(f, n):
            return self.inline_call(f, n)
        obj = None
        if n.o is not None:
            obj = self.objval(n.o)
        elif n.get('cls') and n.get('cls').startswith('Qrack::') and not n.get('sm'):
            obj = self.this
        args = tuple(self.val(x) for x in n.c)
        if self.pure(n):
            return ('op', name) + ((obj,) if obj is not None else ()) + args
        self.nres += 1
        r = ('res', self.nres, name)
        if not n.get('fid', '').startswith(('_ZN5Qrack', '_ZNK5Qrack')) and n.get('fid') not in self.p.fns:
            # library function: a value of its operands
            self.clobber_refs(n)
            return ('op', q or name) + args
        e = self.rec('call', (name, obj, args, r), n)
        self.clobber_refs(n)
        return r

    def clobber_refs(self, n):
        pm = n.get('pm')
        if not pm:
            return
        for m, a in zip(pm, n.c):
            if m == 'r' and a is not None:
                lv = self.lval(a)
                if lv is not None and lv[0] == 'v':
                    self.nres += 1
                    self.env[lv[1]] = ('out', self.nres)
                elif lv is not None and lv in self.heap:
                    self.nres += 1
                    self.heap[lv] = ('out', self.nres)

    def opcall(self, n):
        op = n.op
        a = ([n.o] if n.o is not None else []) + list(n.c)
        if op in ('->', '*') and len(a) == 1:
            v = self.val(a[0])
            if v[0] == 'addr':
                return self.read(v[1])
            return v
        if op == 'bool':
            return self.tobool(self.val(a[0]))
        if op == '[]':
            return self.read(self.lval(n))
        if op == '()':
            v = self.val(a[0])
            if v[0] == 'lambda':
                return self.apply_lambda(v, a[1:], n)
            args = tuple(self.val(x) for x in a[1:])
            self.nres += 1
            r = ('res', self.nres, '()')
            self.rec('call', ('()', v, args, r), n)
            return r
        if op == '=':
            lv = self.lval(a[0])
            v = self.val(a[1])
            self.write(lv, v, n)
            return v
        if op in ('++', '--'):
            lv = self.lval(a[0])
            v = self.val(a[0])
            nv = add(v, C(1), 1 if op == '++' else -1)
            self.write(lv, nv, n)
            return nv
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            lv = self.lval(a[0])
            r = self.arith(op[:-1], self.read(lv) if lv is not None else self.val(a[0]), self.val(a[1]))
            self.write(lv, r, n)
            return r
        if len(a) == 2:
            return self.arith(op, self.val(a[0]), self.val(a[1]))
        if len(a) == 1:
            v = self.val(a[0])
            if op == '!':
                return neg(self.tobool(v))
            if op == '-':
                return scale(v, -1)
            return ('op', op, v)
        return None

    def stdmethod(self, n):
        name = n.name
        if name in ('get', 'lock') and self.smart_type(n.o.type) or (n.o.type.endswith('*') and False):
            return self.val(n.o)
        if name == 'operator bool' or (name or '').startswith('operator '):
            return self.tobool(self.val(n.o))
        o = self.val(n.o)
        args = tuple(self.val(x) for x in n.c)
        lv = self.lval(n.o)
        if name == 'reset' and self.smart_type(n.o.type):
            v = args[0] if args else ('nullptr',)
            self.write(lv, v, n)
            return v
        if name == 'size':
            from apieval import size_of
            return size_of(o) if o[0] in ('cat', 'upd') else ('op', 'size', o)
        if name == 'empty':
            return cmp_('==', ('op', 'size', o), C(0))
        if name in ('push_back', 'emplace_back') and lv is not None and lv[0] == 'v':
            old = self.env.get(lv[1], ('cat',))
            new = (old + (('one', args[0]),)) if old[0] == 'cat' and args and not self.loops else ('app', old, args, tuple(self.loops))
            self.env[lv[1]] = new
            return C(0)
        if name in PURE_STD and name != 'get':
            return ('op', name, o) + args
        if name in ('lock', 'unlock', 'try_lock', 'wait', 'notify_one', 'notify_all', 'join', 'wait_for'):
            self.nres += 1
            r = ('res', self.nres, name)
            self.rec('call', (name, o, args, r), n)
            return r
        # container mutators and everything else
        if lv is not None and lv[0] == 'v':
            self.env[lv[1]] = ('mut', name, o) + args
            return ('op', name, o) + args
        if n.get('cm'):
            return ('op', name, o) + args
        self.nres += 1
        r = ('res', self.nres, name)
        self.rec('mut', (name, lv if lv is not None else o, args, r), n)
        if lv is not None and lv[0] in ('fld', 'elt'):
            self.heap[lv] = ('mut', name, o) + args
        return r

    def callee(self, n):
        fid = n.get('fid')
        return self.p.fns.get(fid) if fid else None

    def bind(self, f, argn):
        vals = []
        for i, x in enumerate(f.params):
            a = argn[i] if i < len(argn) else None
            if a is None:
                vals.append((x['d'], ('op', 'default')))
                continue
            t = self.p.types[x['t']] if isinstance(x.get('t'), int) else ''
            if t.endswith('&') and not t.startswith('const ') or t.endswith('&') and False:
                lv = self.lval(a)
                if lv is not None:
                    vals.append((x['d'], ('alias', lv)))
                    continue
            vals.append((x['d'], self.val(a)))
        return vals

    def inline_call(self, f, n):
        this = self.objval(n.o) if n.o is not None else self.this
        vals = self.bind(f, n.c)
        old = self.this
        self.this = this
        for d, v in vals:
            self.env[d] = v
        self.stack.append(f)
        try:
            self.exec(f.body)
            return C(0)
        except Stop as s:
            if s.kind == 'return':
                return s.v if s.v is not None else C(0)
            raise
        finally:
            self.stack.pop()
            self.this = old

    def apply_lambda(self, lam, argn, n):
        f = self.p.fns.get(lam[1])
        if f is None or f in self.stack or len(self.stack) > self.max_depth + 4:
            self.nres += 1
            return ('res', self.nres, 'lambda')
        vals = self.bind(f, argn)
        return self.run_lambda(lam, vals, n)

    def run_lambda(self, lam, vals, n):
        f = self.p.fns.get(lam[1])
        for d, v in vals:
            self.env[d] = v
        old = self.this
        self.this = lam[3]
        self.stack.append(f)
        try:
            self.exec(f.body)
            return C(0)
        except Stop as s:
            if s.kind == 'return':
                return s.v if s.v is not None else C(0)
            raise
        finally:
            self.stack.pop()
            self.this = old
