"""Abstract execution of the C API (src/pinvoke_api.cpp).

Every exported function is executed over symbolic values with the file's own helpers inlined: parameters are symbols,
loops become families over a loop symbol, branches on unknown conditions are executed on both sides and joined.  The
result is a trace of events (library calls with the symbolic value of every argument, mutations of the qubit id map,
registry writes, returned values) that rules compare against specifications.  No solver is involved: values are
normalised syntactically (linear arithmetic over symbols, families, id lookups).

Values are tuples:
  ('c', k)                     number                      ('p', i, name)            i-th parameter of the API function
  ('elt', base, idx)           element                     ('lin', const, terms)     linear combination
  ('i', uid)                   loop symbol                 ('sim', sid)              simulators[sid]
  ('res', sim, id, epoch)      position of a qubit id      ('map', sim)              id map of a simulator
  ('cat', part...)             sequence; part = ('one', v) | ('rep', N, uid, parts) | ('when', cond, parts)
  ('or', base, parts)          bit mask being or-ed        ('min', init, N, uid, v)  running minimum
  ('pow2', v)  ('cx', re, im)  ('op', name, args...)  ('ite', c, a, b)  ('find', map, v)  ('mit', map, uid)
  ('libres', name, obj, args)  result of a library call    ('fresh', n)              unknown
"""
from ir import *

FILE = 'src/pinvoke_api.cpp'
LIBCLS = ('Qrack::QInterface', 'Qrack::QAlu', 'Qrack::QParity', 'Qrack::QNeuron', 'Qrack::QCircuit')
REGISTRY = 'g'
COMMUTING = ('*',)


def C(k):
    return ('c', k)


def isnum(v):
    return v[0] == 'c' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool)


def lin_of(v):
    """(const, {term: coef})"""
    if v[0] == 'c' and isinstance(v[1], (int, float)):
        return v[1] + 0, {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    if v[0] == 'trunc' and v[2][0] in ('lin',):
        return lin_of(v[2])
    return 0, {v: 1}


def mk_lin(c, t):
    t = {k: x for k, x in t.items() if x != 0}
    if not t:
        return ('c', c)
    if c == 0 and len(t) == 1:
        (k, x), = t.items()
        if x == 1:
            return k
    return ('lin', c, tuple(sorted(t.items(), key=repr)))


def add(a, b, s=1):
    ca, ta = lin_of(a)
    cb, tb = lin_of(b)
    t = dict(ta)
    for k, x in tb.items():
        t[k] = t.get(k, 0) + s * x
    return mk_lin(ca + s * cb, t)


def scale(a, k):
    c, t = lin_of(a)
    return mk_lin(c * k, {x: y * k for x, y in t.items()})


def mul(a, b):
    if isnum(a):
        return scale(b, a[1])
    if isnum(b):
        return scale(a, b[1])
    if a[0] == 'lin' and b[0] != 'lin':
        a, b = b, a
    if b[0] == 'lin':
        out = scale(a, b[1]) if b[1] else C(0)
        for k, x in b[2]:
            out = add(out, scale(mul(a, k), x))
        return out
    x, y = sorted((a, b), key=repr)
    return ('op', '*', x, y)


def ite(c, a, b):
    if a == b:
        return a
    if c[0] == 'c':
        return a if c[1] else b
    return ('ite', c, a, b)


def truth(v):
    if v[0] == 'c' and not isinstance(v[1], str):
        return bool(v[1])
    if v[0] == 'nullptr':
        return False
    if v[0] in ('new0', 'addr'):
        return True
    return None


def neg(c):
    if c[0] == 'c':
        return C(0 if c[1] else 1)
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def cmp_(op, a, b):
    if a[0] == 'c' and b[0] == 'c' and not isinstance(a[1], str) and not isinstance(b[1], str):
        x, y = a[1], b[1]
        return C(int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]))
    if op == '>':
        return ('lt', b, a)
    if op == '<':
        return ('lt', a, b)
    if op == '>=':
        return neg(('lt', a, b))
    if op == '<=':
        return neg(('lt', b, a))
    if a == b and a[0] in ('p', 'sim', 'i', 'lin', 'elt'):
        return C(int(op == '=='))
    if a[0] == 'c' or (b[0] != 'c' and repr(b) < repr(a)):
        a, b = b, a
    # comparison of a flag with a constant
    if b == C(0) and a[0] in ('lt', 'eq', 'not', 'and', 'or2', 'null'):
        return neg(a) if op == '==' else a
    e = ('eq', a, b)
    return e if op == '==' else neg(e)


def subst(v, old, new):
    if v == old:
        return new
    if not isinstance(v, tuple) or not contains(v, old):
        return v
    if v[0] == 'lin':
        out = C(v[1])
        for k, x in v[2]:
            out = add(out, scale(subst(k, old, new), x))
        return out
    if v[0] == 'op' and v[1] == '*':
        return mul(subst(v[2], old, new), subst(v[3], old, new))
    if v[0] == 'ite':
        return ite(subst(v[1], old, new), subst(v[2], old, new), subst(v[3], old, new))
    if v[0] == 'elt':
        return index(subst(v[1], old, new), subst(v[2], old, new))
    return tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in v)


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def walk(v):
    if isinstance(v, tuple):
        yield v
        for y in v:
            if isinstance(y, tuple):
                yield from walk(y)


def assume(v, cond, val):
    """value under the assumption that cond has the truth value val"""
    if not isinstance(v, tuple) or not v:
        return v
    if v == cond:
        return C(int(val))
    if v[0] == 'not' and v[1] == cond:
        return C(int(not val))
    if v[0] == 'ite':
        c = assume(v[1], cond, val)
        if c[0] == 'c':
            return assume(v[2] if c[1] else v[3], cond, val)
        return ite(c, assume(v[2], cond, val), assume(v[3], cond, val))
    if v[0] == 'lin':
        out = C(v[1])
        for k, x in v[2]:
            out = add(out, scale(assume(k, cond, val), x))
        return out
    if v[0] == 'elt':
        return index(assume(v[1], cond, val), assume(v[2], cond, val))
    return tuple(assume(x, cond, val) if isinstance(x, tuple) else x for x in v)


def assume_branch(v, cond, val):
    """value where conditional values that test cond are decided; cond itself keeps its value elsewhere"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'ite':
        c = v[1]
        if c == cond:
            return assume_branch(v[2] if val else v[3], cond, val)
        if c[0] == 'not' and c[1] == cond:
            return assume_branch(v[3] if val else v[2], cond, val)
        return ite(c, assume_branch(v[2], cond, val), assume_branch(v[3], cond, val))
    return tuple(assume_branch(x, cond, val) if isinstance(x, tuple) else x for x in v)


RANK = {}   # loop -> (count, condition): its counter is the rank of the elements that satisfy the condition


def filter_of(v):
    if v[0] == 'op' and v[1] == 'size' and v[2][0] == 'cat' and len(v[2]) == 2 and v[2][1][0] == 'rep':
        _, N0, u0, parts = v[2][1]
        if len(parts) == 1 and parts[0][0] == 'when':
            return N0, u0, parts[0][1]
    return None


def index(base, i):
    if base[0] == 'cat':
        parts = base[1:]
        if i[0] == 'i' and i[1] in RANK and len(parts) == 1 and parts[0][0] == 'rep' and len(parts[0][3]) == 1:
            _, N0, u0, (w,) = parts[0]
            if w[0] == 'when' and len(w[2]) == 1 and w[2][0][0] == 'one' and \
                    (N0, subst(w[1], ('i', u0), i)) == RANK[i[1]]:
                return subst(w[2][0][1], ('i', u0), i)
        if i[0] == 'c' and all(p[0] == 'one' for p in parts):
            k = i[1]
            if isinstance(k, int) and 0 <= k < len(parts):
                return parts[k][1]
        if len(parts) == 1 and parts[0][0] == 'rep' and len(parts[0][3]) == 1 and parts[0][3][0][0] == 'one':
            return subst(parts[0][3][0][1], ('i', parts[0][2]), i)
    if base[0] == 'ite':
        return ite(base[1], index(base[2], i), index(base[3], i))
    if base[0] == 'upd' and base[2] == i:
        return base[3]
    if base[0] == 'ptroff':
        return index(base[1], add(base[2], i))
    if base[0] == 'app' and last_of(base, i):
        return base[2][-1][1]
    return ('elt', base, i)


def last_of(base, i):
    # the element appended in this iteration of a loop that appends exactly one element per iteration
    return base[1][0] == 'acc' and i == ('i', base[1][1]) and len(base[2]) == 1 and base[2][0][0] == 'one'


def size_of(v):
    if v[0] == 'cat':
        out = C(0)
        for p in v[1:]:
            if p[0] == 'one':
                out = add(out, C(1))
            elif p[0] == 'rep' and all(x[0] == 'one' for x in p[3]):
                out = add(out, scale(p[1], len(p[3])))
            else:
                return ('op', 'size', v)
        return out
    if v[0] == 'vec0':
        return v[1]
    if v[0] == 'upd':
        return size_of(v[1])
    return ('op', 'size', v)


class Event(object):
    __slots__ = ('k', 'a', 'node', 'epoch', 'info', 'sub', 'sub2')

    def __init__(self, k, a=(), node=None, epoch=0, info=None, sub=None, sub2=None):
        self.k, self.a, self.node, self.epoch, self.info, self.sub, self.sub2 = k, a, node, epoch, info, sub, sub2


class Unsupported(Exception):
    pass


NARROW = ('unsigned char', 'const unsigned char', 'bool', 'const bool', 'char', 'signed char')
WIDE = ('unsigned long long', 'unsigned long', 'unsigned int', 'int', 'long', 'long long')


def base_type(t):
    return t.replace('const ', '').replace('&', '').strip()


class Eval(object):
    def __init__(self, prog):
        self.p = prog
        self.file_fns = {f.id: f for f in prog.fns.values() if f.file == FILE and not f.lam}
        self.uid = 0
        self.inlined = set()

    # ------------------------------------------------------------------ driver
    def run(self, fn):
        self.env = {}
        self.alias = {}
        self.out = []
        self.epoch = 0
        self.cepoch = 0
        self.conds = []
        self.frames = []
        self.loops = []
        self.depth = 0
        self.syms = {}
        self.brk = []
        self.steps = 0
        self.fn = fn
        for i, x in enumerate(fn.params):
            self.env[x['d']] = ('p', i, x['n'])
        self.frames.append([])
        self.exec(fn.body)
        rets = self.frames.pop()
        return self.out

    def new(self):
        self.uid += 1
        return self.uid

    def fresh(self, why=''):
        return ('fresh', self.new(), why)

    def ev(self, k, *a, **kw):
        e = Event(k, a, kw.get('node'), self.epoch, kw.get('info'))
        self.out.append(e)
        return e

    # ------------------------------------------------------------------ statements
    def exec(self, n):
        """None if control falls through, else 'ret' | 'brk' | 'cont' | 'thr'"""
        if n is None:
            return None
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('too many steps')
        k = n.k
        if k == 'block':
            for s in n.c:
                st = self.exec(s)
                if st:
                    return st
            return None
        if k == 'decl':
            for v in n.c:
                if v is not None and v.k == 'var':
                    self.decl(v)
            return None
        if k == 'if':
            return self.exec_if(n)
        if k == 'for':
            return self.exec_for(n)
        if k == 'while' or k == 'do':
            return self.exec_while(n)
        if k == 'forrange':
            return self.exec_range(n)
        if k == 'switch':
            return self.exec_switch(n)
        if k == 'return':
            v = self.val(n.c[0]) if n.c and n.c[0] is not None else None
            self.frames[-1].append((tuple(self.conds), v))
            if len(self.frames) == 1 and v is not None:
                self.ev('ret', v, node=n)
            return 'ret'
        if k == 'break':
            if self.brk:
                self.brk[-1].append((dict(self.env), tuple(self.conds)))
            return 'brk'
        if k == 'continue':
            return 'cont'
        if k == 'throw':
            return 'thr'
        if k == 'try':
            env0 = dict(self.env)
            out0 = self.out
            len0 = len(out0)
            st = self.exec(n.c[0])
            env1, ep, cep = self.env, self.epoch, self.cepoch
            frames = [list(f) for f in self.frames]
            tried = self.out[len0:]
            for h in n.c[1:]:
                self.env = dict(env0)
                self.out = []
                hst = None
                for s in h.c:
                    hst = self.exec(s)
                    if hst:
                        break
                hout = self.out
                self.out = out0
                if hst is None and any(e.k == 'lib' and e.a[1] in STRUCTURAL for e, g in flatten(tried)):
                    self.out.append(Event('catchfall', (), n, self.epoch))
                if significant(hout):
                    self.out.append(Event('catch', (), n, self.epoch, None, hout))
            self.env, self.epoch, self.cepoch, self.frames = env1, ep, cep, frames
            return st
        if k in ('case', 'default'):
            return self.exec(n.c[-1])
        if k == 'lambda':
            return None
        self.val(n)
        return None

    def decl(self, v):
        d = v.decl
        t = v.type
        if not v.c or v.c[0] is None:
            self.env[d] = ('cat',) if 'std::vector' in t else ('arr0',) if '[' in t else ('cat',) if t.startswith('std::set') else self.fresh('uninit')
            return
        init = v.c[0]
        if 'lock_guard' in t or 'unique_lock' in t:
            return
        if v.get('ref') or v.get('rt'):
            lv = self.lval(init)
            if lv is not None:
                self.env.pop(d, None)
                self.alias[d] = lv
                return
        self.alias.pop(d, None)
        if t.endswith(']') and skip(init).k == 'ctor':
            self.env[d] = ('arr0',)
            return
        x = self.val(init)
        self.env[d] = self.narrow(x, base_type(t), base_type(self.strip_t(init)))

    def strip_t(self, n):
        m = n
        return m.type

    def narrow(self, x, to, frm):
        if to in ('unsigned char', 'bool') and frm in WIDE and x[0] not in ('c', 'res', 'find', 'trunc', 'i'):
            if to == 'bool':
                return x
            return ('trunc', 8, x)
        return x

    def cond(self, n):
        return self.val(n)

    def exec_if(self, n):
        init, cv, cnd, then, els = (list(n.c) + [None] * 5)[:5]
        if init is not None:
            self.exec(init)
        if cv is not None:
            self.exec(cv) if cv.k == 'decl' else None
        c = self.cond(cnd)
        t = truth(c)
        if t is True:
            return self.exec(then)
        if t is False:
            return self.exec(els)
        return self.branch(c, lambda: self.exec(then), lambda: self.exec(els), n)

    def branch(self, c, fa, fb, node):
        """execute both sides of an undecided condition and join"""
        env0, out0, ep0, cep0 = dict(self.env), self.out, self.epoch, self.cepoch
        self.out = []
        self.conds.append(c)
        sa = fa()
        self.conds.pop()
        envA, outA, epA, cepA = self.env, self.out, self.epoch, self.cepoch
        self.env, self.out, self.epoch, self.cepoch = dict(env0), [], ep0, cep0
        nc = neg(c)
        self.conds.append(nc)
        sb = fb()
        self.conds.pop()
        envB, outB, epB, cepB = self.env, self.out, self.epoch, self.cepoch
        self.out = out0
        sigA, sigB = significant(outA), significant(outB)
        if sa and sb:
            if sigA or sigB:
                self.out.append(Event('if', (c,), node, ep0, (sa, sb), outA, outB))
            self.env = envA
            self.epoch, self.cepoch = max(epA, epB), max(cepA, cepB)
            return sa if sa == sb else 'ret'
        if sa:
            if sigA or not registryish(c):
                self.out.append(Event('if', (c,), node, ep0, (sa, None), outA, []))
            self.out.extend(outB)
            self.env, self.epoch, self.cepoch = envB, epB, cepB
            return None
        if sb:
            if sigB or not registryish(c):
                self.out.append(Event('if', (nc,), node, ep0, (sb, None), outB, []))
            self.out.extend(outA)
            self.env, self.epoch, self.cepoch = envA, epA, cepA
            return None
        if sigA or sigB:
            self.out.append(Event('if', (c,), node, ep0, (None, None), outA, outB))
        self.epoch, self.cepoch = max(epA, epB), max(cepA, cepB)
        self.env = self.join(c, envA, envB)
        return None

    def join(self, c, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                out[k] = x if y is None else y
            elif x == y:
                out[k] = x
            else:
                out[k] = self.join_val(c, x, y)
        return out

    def join_val(self, c, x, y):
        if x[0] == 'or' and y[0] == 'or' and x[2][:len(y[2])] == y[2] and x[1] == y[1]:
            return ('or', y[1], y[2] + (('when', c, x[2][len(y[2]):]),))
        if x[0] == 'or' and x[1] == y:
            return ('or', y, (('when', c, x[2]),))
        if y[0] == 'or' and (y[1] == x or (x[0] == 'or' and x[1] == y[1] and y[2][:len(x[2])] == x[2])):
            return self.join_val(neg(c), y, x)
        if x[0] == 'app' and x[1] == y:
            return ('app', y, (('when', c, x[2]),))
        if y[0] == 'app' and y[1] == x:
            return self.join_val(neg(c), y, x)
        return ite(c, x, y)

    def exec_switch(self, n):
        sel = self.val(n.c[0] if n.c[0] is not None and len(n.c) == 2 else [x for x in n.c if x is not None][-2])
        body = n.c[-1]
        flat = []

        def fl(s):
            if s is None:
                return
            if s.k in ('case', 'default'):
                flat.append((s.k, s.c[0] if s.k == 'case' else None))
                fl(s.c[-1])
            else:
                flat.append(('s', s))
        for s in body.c:
            fl(s)
        # entries: list of (values or None for default, start index)
        labels = []
        for i, x in enumerate(flat):
            if x[0] != 's':
                labels.append((self.val(x[1]) if x[0] == 'case' else None, i))

        def seq(i):
            def go():
                self.brk.append([])
                st = None
                for x in flat[i:]:
                    if x[0] == 's':
                        st = self.exec(x[1])
                        if st:
                            break
                self.brk.pop()
                return None if st == 'brk' else st
            return go
        dflt = [i for v, i in labels if v is None]
        if sel[0] == 'c':
            for v, i in labels:
                if v == sel:
                    return seq(i)()
            return seq(dflt[0])() if dflt else None
        cases = [(v, i) for v, i in labels if v is not None]

        def chain(j):
            if j == len(cases):
                return seq(dflt[0])() if dflt else None
            v, i = cases[j]
            return self.branch(cmp_('==', sel, v), seq(i), lambda: chain(j + 1), n)
        return chain(0)

    # ------------------------------------------------------------------ loops
    def exec_for(self, n):
        init, cnd, inc, body = None, None, None, n.c[-1]
        rest = n.c[:-1]
        if rest:
            init = rest[0]
        if len(rest) >= 3:
            cnd, inc = rest[-2], rest[-1]
        elif len(rest) == 2:
            cnd = rest[1]
        # single induction variable counting up by one
        d = lo = None
        if init is not None and init.k == 'decl' and init.c:
            for v in init.c:
                self.decl(v)
            vs = [v for v in init.c if v.k == 'var']
            for v in vs:
                if inc is not None and self.inc_of(inc) == v.decl:
                    d = v.decl
        elif init is not None:
            self.exec(init)
        if d is None and inc is not None:
            d = self.inc_of(inc)
        if d is not None and d in self.env:
            lo = self.env[d]
            # iterator over the id map
            if lo[0] == 'mbegin':
                return self.map_loop(d, lo[1], body, n)
            N = self.bound(cnd, d)
            if N is not None:
                return self.counted(d, lo, N, body, n)
        return self.havoc_loop(cnd, body, inc, n)

    def exec_while(self, n):
        body = n.c[-1] if n.k == 'while' else n.c[0]
        cnd = [x for x in n.c if x is not None and x is not body][-1] if n.k == 'while' else n.c[-1]
        if n.k == 'while' and body is not None and body.k == 'block' and body.c:
            last = body.c[-1]
            d = self.inc_of(last)
            if d is not None and d in self.env:
                lo = self.env[d]
                if lo[0] == 'mbegin':
                    return self.map_loop(d, lo[1], body, n, skip_last=True)
                N = self.bound(cnd, d)
                if N is not None and not self.assigned_in(body.c[:-1], d):
                    return self.counted(d, lo, N, body, n, skip_last=True)
        return self.havoc_loop(cnd, body, None, n)

    def assigned_in(self, stmts, d):
        for s in stmts:
            for x in s.walk():
                if x.k == 'asg' and self.refd(x.c[0]) == d:
                    return True
                if x.k == 'un' and x.op in ('++', '--') and self.refd(x.c[0]) == d:
                    return True
                if x.k == 'continue':
                    return True
        return False

    def refd(self, n):
        n = skip(n)
        if n is not None and n.k == 'ref' and n.get('dk') in ('local', 'parm'):
            return n.decl
        return None

    def inc_of(self, n):
        n = skip(n)
        if n is None:
            return None
        if n.k == 'un' and n.op in ('++', 'p++', '++p') or n.k == 'un' and '++' in (n.op or ''):
            return self.refd(n.c[0])
        if n.k == 'call' and n.op == '++' and n.o is not None:
            return self.refd(n.o)
        if n.k == 'asg' and n.op == '+=' and const_int(n.c[1]) == 1:
            return self.refd(n.c[0])
        return None

    def bound(self, cnd, d):
        c = skip(cnd)
        if c is None:
            return None
        if c.k == 'bin' and c.op in ('<', '!=', '>', '<='):
            a, b = c.c
            if self.refd(a) == d and c.op in ('<', '!='):
                return self.val(b)
            if self.refd(b) == d and c.op in ('>', '!='):
                return self.val(a)
            if self.refd(a) == d and c.op == '<=':
                return add(self.val(b), C(1))
        return None

    def counted(self, d, lo, N, body, node, skip_last=False):
        if lo == C(0) and N[0] == 'c' and isinstance(N[1], int) and N[1] <= 16:
            # a constant trip count is unrolled
            for k in range(N[1]):
                self.env[d] = C(k)
                self.brk.append([])
                st = self.exec_body(body, skip_last)
                self.brk.pop()
                if st == 'brk':
                    break
                if st == 'ret' or st == 'thr':
                    return st
            self.env[d] = N
            return None
        if lo != C(0):
            # shift the counter to start at zero
            N = add(N, lo, -1)
        uid = self.new()
        flt = filter_of(N[2] if N[0] == 'trunc' else N)
        if flt is not None and lo == C(0):
            # the ranks of a filtered sequence: iterate over the underlying one under its condition
            N0, u0, cond = flt
            RANK[uid] = (N0, subst(cond, ('i', u0), ('i', uid)))
            self.syms[uid] = N0
            el = ('i', uid)
            return self.loop_fn(uid, N0, lambda: self.branch(RANK[uid][1], lambda: self.exec_body(body, skip_last), lambda: None, node), node, d, el)
        self.syms[uid] = N
        sym = ('i', uid)
        self.env[d] = sym if lo == C(0) else add(lo, sym)
        return self.loop_body(uid, N, body, node, d, skip_last)

    def exec_body(self, body, skip_last):
        if skip_last:
            for s in body.c[:-1]:
                st = self.exec(s)
                if st:
                    return st
            return None
        return self.exec(body)

    def loop_body(self, uid, N, body, node, d, skip_last, pre=None):
        env0 = dict(self.env)
        out0, ep0 = self.out, self.epoch
        # pass 1: which variables change
        self.out = []
        self.brk.append([])
        if pre:
            pre()
        self.exec_body(body, skip_last)
        self.brk.pop()
        env1 = self.env
        ep1 = self.epoch
        changed = [k for k in env1 if k in env0 and env1[k] != env0[k] and k != d]
        born = [k for k in env1 if k not in env0]
        # pass 2: accumulators are symbolic
        self.env = dict(env0)
        acc = {}
        for k in changed:
            acc[k] = ('acc', uid, k)
            self.env[k] = acc[k]
        self.out = []
        self.brk.append([])
        frame_len = len(self.frames[-1])
        if pre:
            pre()
        st = self.exec_body(body, skip_last)
        brks = self.brk.pop()
        lout = self.out
        self.out = out0
        env2 = self.env
        if significant(lout):
            self.out.append(Event('loop', (uid, N), node, ep0, None, lout))
        env = dict(env0)
        for k in changed:
            env[k] = self.fold(uid, N, acc[k], env0[k], env2.get(k, acc[k]))
        # values of accumulators seen by events inside the loop keep the placeholder, resolve the simple ones
        for benv, bc in brks:
            for k, v in benv.items():
                if k in env and v != env[k] and (k not in acc or v != acc[k]) and k != d:
                    if k in acc:
                        env[k] = ('op', 'brk', C(uid), v if not contains(v, acc[k]) else subst(v, acc[k], env0[k]), env[k])
                    elif k in env0 and v != env0[k]:
                        env[k] = ('op', 'brk', C(uid), v, env[k])
        env[d] = self.env0_end(env0.get(d), N, uid, brks)
        self.env = env
        if ep1 != ep0:
            self.epoch = max(self.epoch, ep1)
        return None

    def env0_end(self, v, N, uid, brks):
        return ('op', 'brkidx', C(uid)) if brks else N

    def fold(self, uid, N, acc, init, new):
        if new == acc:
            return init
        if not contains(new, acc):
            return ('op', 'last', N, C(uid), new)
        if new[0] == 'upd' and new[1] == acc and new[2] == ('i', uid) and init[0] in ('vec0', 'arr0', 'new0'):
            if init[0] == 'arr0' or init[1] == N:
                return ('cat', ('rep', N, uid, (('one', new[3]),)))
            return ('op', 'partial', N, C(uid), new[3], init)
        if new[0] == 'app' and new[1] == acc:
            if init[0] == 'cat':
                return ('cat',) + init[1:] + (('rep', N, uid, new[2]),)
            if init[0] == 'acc':
                return ('app', init, (('rep', N, uid, new[2]),))
            if init[0] == 'app':
                return ('app', init[1], init[2] + (('rep', N, uid, new[2]),))
        if new[0] == 'or' and new[1] == acc and not any(contains(x, acc) for x in new[2]):
            if init[0] == 'or':
                return ('or', init[1], init[2] + (('rep', N, uid, new[2]),))
            return ('or', init, (('rep', N, uid, new[2]),))
        if new[0] == 'ite' and new[3] == acc and new[1] == ('lt', new[2], acc) and not contains(new[2], acc):
            return ('min', init, N, uid, new[2])
        if new[0] == 'min2' and new[1] == acc:
            return ('min', init, N, uid, new[2])
        c, t = lin_of(new)
        if t.get(acc) == 1:
            rest = mk_lin(c, {k: x for k, x in t.items() if k != acc})
            if not contains(rest, acc):
                if not contains(rest, ('i', uid)) and rest[0] == 'c':
                    return add(init, mul(N, rest))
                return add(init, ('sum', N, uid, rest))
        return ('fold', N, uid, init, subst(new, acc, ('prev',)))

    def havoc_loop(self, cnd, body, inc, node):
        uid = self.new()
        env0 = dict(self.env)
        out0, ep0 = self.out, self.epoch
        self.out = []
        self.brk.append([])
        c1 = self.cond(cnd) if cnd is not None else None
        if c1 is not None and truth(c1) is False:
            self.brk.pop()
            self.out = out0
            return None
        self.exec(body)
        if inc is not None:
            self.exec(inc)
        self.brk.pop()
        env1, ep1 = self.env, self.epoch
        changed = [k for k in env1 if k in env0 and env1[k] != env0[k]]
        self.env = dict(env0)
        acc = {}
        for k in changed:
            acc[k] = ('acc', uid, k)
            self.env[k] = acc[k]
        self.out = []
        self.brk.append([])
        if cnd is not None:
            self.cond(cnd)
        self.exec(body)
        if inc is not None:
            self.exec(inc)
        brks = self.brk.pop()
        env2 = self.env
        lout = self.out
        self.out = out0
        if significant(lout):
            self.out.append(Event('loop', (uid, ('fresh', uid, 'loop')), node, ep0, None, lout))
        env = dict(env0)
        # coordinated filtering: every vector that is erased from at index i under one condition on i
        for k in changed:
            v = env2.get(k, acc[k])
            env[k] = self.filtered(uid, acc, env0, env2, k, v) or ('op', 'loopval', C(uid), C(k))
        self.env = env
        if ep1 != ep0:
            self.epoch = max(self.epoch, ep1)
        return None

    def filtered(self, uid, acc, env0, env2, k, v):
        # ite(cond, erased(acc, idx), acc)
        if v[0] == 'ite' and v[2][0] == 'erased' and v[2][1] == acc[k] and v[3] == acc[k]:
            cond, idx = v[1], v[2][2]
        elif v[0] == 'ite' and v[3][0] == 'erased' and v[3][1] == acc[k] and v[2] == acc[k]:
            cond, idx = neg(v[1]), v[3][2]
        else:
            return None
        init = env0[k]
        if idx[0] != 'acc' or init[0] != 'cat' or len(init) != 2 or init[1][0] != 'rep' or len(init[1][3]) != 1:
            return None
        if env0.get(idx[2]) != C(0):
            return None
        step = env2.get(idx[2], idx)
        if step not in (ite(cond, idx, add(idx, C(1))), ite(neg(cond), add(idx, C(1)), idx)):
            # the index does not follow the removals: elements are skipped
            return ('op', 'skips', C(uid)) if step == add(idx, C(1)) else None
        u = self.new()
        N = init[1][1]
        self.syms[u] = N
        cond = subst(cond, idx, ('i', u))
        for k2, a2 in acc.items():
            if k2 != idx[2]:
                cond = subst(cond, a2, env0[k2])
        el = index(init, ('i', u))
        return ('cat', ('rep', N, u, (('when', neg(cond), (('one', el),)),)))

    def exec_range(self, n):
        rng = n.c[0]
        var = None
        for x in n.c[1:]:
            if x is not None and x.k == 'decl':
                var = x.c[0]
            elif x is not None and x.k == 'var':
                var = x
        body = n.c[-1]
        r = self.val(rng)
        d = var.decl
        if r[0] == 'map':
            return self.map_loop(d, r[1], body, n)
        uid = self.new()
        N = size_of(r)
        if r[0] == 'cat' and len(r) == 2 and r[1][0] == 'rep' and len(r[1][3]) == 1 and r[1][3][0][0] == 'when':
            # a filtered sequence: iterate over the underlying one under its condition
            _, N0, u0, ((_, cond, parts),) = r[1]
            self.syms[uid] = N0
            sym = ('i', uid)
            cond = subst(cond, ('i', u0), sym)
            elv = subst(parts[0][1], ('i', u0), sym)
            self.env[d] = elv
            body_fn = lambda: self.exec(body)

            class B(object):
                k = 'fn'
            return self.loop_fn(uid, N0, lambda: self.branch(cond, body_fn, lambda: None, n), n, d, elv)
        self.syms[uid] = N
        el = index(r, ('i', uid))
        self.env[d] = el
        return self.loop_fn(uid, N, lambda: self.exec(body), n, d, el)

    def loop_fn(self, uid, N, fnc, node, d, el):
        saved = self.exec_body
        try:
            self.exec_body = lambda b, s: b()
            nested = saved

            def run():
                self.exec_body = nested
                try:
                    self.env[d] = el
                    return fnc()
                finally:
                    self.exec_body = lambda b, s: b()
            return self.loop_body(uid, N, run, node, d, False)
        finally:
            self.exec_body = saved

    def map_loop(self, d, sim, body, node, skip_last=False):
        """iterate over all entries of an id map"""
        uid = self.new()
        mit = ('mit', sim, uid)
        env0 = dict(self.env)
        out0 = self.out
        self.out = []
        self.env[d] = mit
        self.brk.append([])
        nret = len(self.frames[-1])
        ep0 = self.epoch
        st = self.exec_body(body, skip_last)
        brks = self.brk.pop()
        lout = self.out
        self.out = out0
        rets = self.frames[-1][nret:]
        del self.frames[-1][nret:]
        env = self.env
        # search: `return it`/`break` under it->second == v
        found = None
        for cs, v in rets:
            f = self.search_of(cs, mit)
            if f is not None and v is not None:
                self.frames[-1].append((('found',), subst(v, mit, f)))
                found = f
        for benv, cs in brks:
            f = self.search_of(cs, mit)
            if f is not None:
                found = f
                env = {k: subst(v, mit, f) for k, v in benv.items() if k in env0 or k == d}
        self.env = {k: v for k, v in env.items()}
        sec = ('second', mit)
        # single-pass exchange of two values / decrement above a position
        sets = [(e, g) for e, g in flatten(lout) if e.k == 'secset']
        other = [e for e, g in flatten(lout) if e.k != 'secset' and e.k != 'guard']
        if sets:
            kind = self.map_pass(sets, sec)
            if kind is not None:
                self.ev(*kind, node=node)
            else:
                self.ev('mapother', sim, node=node)
            self.epoch += 1
        if other:
            self.out.append(Event('loop', (uid, ('op', 'entries', sim)), node, ep0, None, lout))
        if not brks:
            self.env[d] = ('mend', sim)
        if rets and found is not None:
            return 'ret' if False else None
        return None

    def search_of(self, cs, mit):
        sec = ('second', mit)
        for c in reversed(cs):
            if c[0] == 'eq' and sec in c[1:]:
                other = c[2] if c[1] == sec else c[1]
                return ('find', mit[1], other)
        return None

    def map_pass(self, sets, sec):
        # (event secset(mit, value), guards)
        sim = sets[0][0].a[0][1]
        if len(sets) == 2:
            m = []
            for e, g in sets:
                pos = [c for c in g if c[0] == 'eq' and sec in c[1:]]
                if len(pos) != 1:
                    return None
                o = pos[0][2] if pos[0][1] == sec else pos[0][1]
                m.append((o, e.a[1]))
            if m[0] == (m[1][1], m[1][0]):
                return ('mapswap', sim, m[0][0], m[1][0])
            return None
        if len(sets) == 1:
            e, g = sets[0]
            if e.a[1] == add(sec, C(1), -1):
                for c in g:
                    if c[0] == 'lt' and c[2] == sec and not contains(c[1], sec):
                        return ('mapdec', sim, c[1])
                    if c[0] == 'not' and c[1][0] == 'lt' and c[1][1] == sec:
                        return ('mapdec', sim, add(c[1][2], C(1), -1))
        return None

    # ------------------------------------------------------------------ lvalues
    def lval(self, n):
        """('v', decl) | ('e', lv, idx) | ('sec', mit/find) | ('g', q, idx) | ('map', sim) | ('ment', sim, key)"""
        n = skip(n)
        if n is None:
            return None
        if n.k == 'ref':
            if n.get('dk') in ('local', 'parm'):
                if n.decl in self.alias:
                    return self.alias[n.decl]
                v = self.env.get(n.decl)
                return ('v', n.decl)
            if n.get('dk') == 'global':
                return ('g', n.q)
            return None
        if n.k == 'un' and n.op == '*':
            v = self.val(n.c[0])
            if v[0] == 'addr':
                return v[1]
            return ('d', v)
        if n.k == 'un' and n.op in ('++', '--'):
            return self.lval(n.c[0])
        if n.k == 'mem' and n.name == 'second' and n.c:
            v = self.val(n.c[0])
            if v[0] == 'shit':
                return ('map', v[1])
            if v[0] in ('mit', 'find', 'idit'):
                return ('sec', v)
            return None
        if n.k == 'mem' and 'fid' not in n.a and n.c and n.c[0] is not None:
            o = deref(n.c[0])
            lv = self.lval(n.c[0])
            return ('f', lv if lv is not None else ('d', self.val(n.c[0])), n.name)
        if n.k == 'idx' or (n.k == 'call' and n.op == '[]' and n.o is not None):
            b, i = (n.c[0], n.c[1]) if n.k == 'idx' else (n.o, n.c[0])
            bq = deref(b)
            iv = self.val(i)
            if bq is not None and bq.k == 'ref' and bq.get('dk') == 'global':
                if bq.q == 'shards':
                    return ('map', iv)
                return ('g', bq.q, iv)
            lv = self.lval(b)
            bv = self.val(b)
            if bv[0] == 'map':
                return ('ment', bv[1], iv)
            if lv is not None:
                return ('e', lv, iv)
            if bv[0] == 'addr':
                return ('e', bv[1], iv)
            return ('e', ('d', bv), iv)
        if n.k == 'call' and n.op in ('*', '->') and n.o is not None and not n.c:
            v = self.val(n.o)
            if v[0] in ('mit', 'find', 'idit'):
                return ('it', v)
            lv = self.lval(n.o)
            return lv
        if n.k == 'call' and n.name == 'get' and n.o is not None:
            return self.lval(n.o)
        return None

    def read(self, lv):
        if lv[0] == 'v':
            if lv[1] in self.alias:
                return self.read(self.alias[lv[1]])
            v = self.env.get(lv[1])
            return v if v is not None else ('op', 'var', C(lv[1]))
        if lv[0] == 'e':
            return index(self.read(lv[1]), lv[2])
        if lv[0] == 'd':
            return lv[1]
        if lv[0] == 'g':
            if len(lv) == 3:
                if lv[1] == 'simulators':
                    st = self.env.get(('simst', lv[2]))
                    return st if st == ('nullptr',) else ('sim', lv[2])
                return ('elt', ('g', lv[1]), lv[2])
            return ('g', lv[1])
        if lv[0] == 'map':
            return ('map', lv[1])
        if lv[0] == 'ment':
            return ('res', lv[1], lv[2], self.epoch)
        if lv[0] == 'sec':
            if lv[1][0] == 'idit':
                return ('res', lv[1][1], lv[1][2], self.epoch)
            if lv[1][0] == 'find':
                return ('second', lv[1])
            return ('second', lv[1])
        if lv[0] == 'it':
            return lv[1]
        if lv[0] == 'f':
            b = self.read(lv[1])
            if b[0] == 'rec':
                for k, v in b[1]:
                    if k == lv[2]:
                        return v
            return ('fld', b, lv[2])
        return self.fresh()

    def write(self, lv, v, node):
        if lv is None:
            return
        if lv[0] == 'v':
            if lv[1] in self.alias:
                return self.write(self.alias[lv[1]], v, node)
            self.env[lv[1]] = v
        elif lv[0] == 'e':
            b = self.read(lv[1])
            if b[0] == 'cat' and lv[2][0] == 'c' and all(p[0] == 'one' for p in b[1:]) and isinstance(lv[2][1], int) and lv[2][1] < len(b) - 1:
                parts = list(b[1:])
                parts[lv[2][1]] = ('one', v)
                nb = ('cat',) + tuple(parts)
            elif b[0] == 'upd' and b[2] == lv[2]:
                nb = ('upd', b[1], lv[2], v)
            elif b[0] in ('arr0', 'vec0', 'new0') and lv[2] == C(0) and b[0:2] != ('vec0', 0) and (b[0] == 'arr0' or b[1][0] == 'c'):
                nb = ('cat', ('one', v))
            elif b[0] == 'cat' and lv[2] == C(len(b) - 1) and all(p[0] == 'one' for p in b[1:]):
                nb = b + (('one', v),)
            elif b[0] == 'app' and last_of(b, lv[2]):
                nb = ('app', b[1], (('one', v),))
            else:
                nb = ('upd', b, lv[2], v)
            self.write(lv[1], nb, node)
        elif lv[0] == 'sec':
            self.ev('secset', lv[1], v, node=node)
            if lv[1][0] != 'mit':
                self.epoch += 1
        elif lv[0] == 'ment':
            self.ev('mapset', lv[1], lv[2], v, node=node)
            self.epoch += 1
        elif lv[0] == 'map':
            if v[0] == 'map':
                self.ev('mapcopy', lv[1], v[1], node=node)
            else:
                self.ev('mapclear', lv[1], v, node=node)
            self.epoch += 1
        elif lv[0] == 'g':
            if len(lv) == 3 and lv[1] == 'simulators':
                self.ev('simset', lv[2], v, node=node)
                self.env[('simst', lv[2])] = v
            elif len(lv) == 3 and lv[1] in ('neurons', 'circuits', 'neuronSimulators'):
                self.ev('regset', lv[1], lv[2], v, node=node)
        elif lv[0] == 'f':
            b = self.read(lv[1])
            self.ev('fldset', b, C(lv[2]), v, node=node)
        elif lv[0] == 'd':
            pass

    # ------------------------------------------------------------------ expressions
    def val(self, n):
        if n is None:
            return C(0)
        self.steps += 1
        k = n.k
        if n.get('v') is not None and k not in ('ref', 'var') or (k == 'ref' and n.get('v') is not None):
            x = n.get('v')
            try:
                return C(int(x))
            except (ValueError, TypeError):
                try:
                    f = float(x)
                    return C(int(f) if f == int(f) else round(f, 7))
                except (ValueError, TypeError, OverflowError):
                    return C(str(x))
        if k == 'ref':
            if n.get('dk') == 'global' and n.q and n.q.startswith('Qrack::'):
                return NAMED.get(n.q) or ('k', n.q)
            if n.get('dk') == 'global' and n.q == 'simulators':
                return ('g', 'simulators')
            lv = self.lval(n)
            return self.read(lv) if lv is not None else ('op', 'fn', C(n.q or n.name))
        if k == 'cast':
            x = self.val(n.c[0])
            return self.narrow(x, base_type(n.type), base_type(n.c[0].type))
        if k in ('defarg', 'definit'):
            return self.val(n.c[0]) if n.c else ('op', 'default')
        if k == 'lit':
            return C(n.get('v'))
        if k == 'str':
            return C('"%s"' % n.get('s'))
        if k == 'nullptr':
            return ('nullptr',)
        if k == 'this':
            return ('this',)
        if k == 'bin':
            return self.binop(n)
        if k == 'un':
            return self.unop(n)
        if k == 'asg':
            return self.assign(n)
        if k == 'cond':
            c = self.val(n.c[0])
            t = truth(c)
            if t is not None:
                return self.val(n.c[1] if t else n.c[2])
            box = {}

            def a():
                box['a'] = self.val(n.c[1])

            def b():
                box['b'] = self.val(n.c[2])
            self.branch(c, a, b, n)
            return ite(c, box['a'], box['b'])
        if k == 'mem':
            lv = self.lval(n)
            if lv is not None:
                return self.read(lv)
            return ('fld', self.val(n.c[0]) if n.c else ('this',), n.name)
        if k == 'idx':
            return self.read(self.lval(n))
        if k == 'lambda':
            return ('lambda', n.get('fid'), n.fn.id, n.i)
        if k == 'initlist':
            return ('cat',) + tuple(('one', self.val(x)) for x in n.c)
        if k == 'new':
            if 'lock_guard' in n.type:
                return ('op', 'lock')
            return ('new0', self.val(n.c[0]) if n.c else C(1), base_type(n.type))
        if k == 'ctor':
            return self.ctor(n)
        if k == 'call':
            return self.call(n)
        if k == 'throw':
            return self.fresh()
        if k == 'delete':
            return C(0)
        if k == 'sizeof':
            return C(n.get('v'))
        return ('op', k) + tuple(self.val(x) for x in n.c)

    def binop(self, n):
        op = n.op
        if op == '&&' or op == '||':
            a = self.val(n.c[0])
            t = truth(a)
            if op == '&&':
                if t is False:
                    return C(0)
                b = self.val(n.c[1])
                if t is True:
                    return b
                if truth(b) is True:
                    return a
                if truth(b) is False:
                    return C(0)
                return ('and', a, b)
            if t is True:
                return C(1)
            b = self.val(n.c[1])
            if t is False:
                return b
            if truth(b) is False:
                return a
            if truth(b) is True:
                return C(1)
            return ('or2', a, b)
        a, b = self.val(n.c[0]), self.val(n.c[1])
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        if a[0] == 'cx' or b[0] == 'cx' or a[0] == 'k' and a[1].endswith('CMPLX') or b[0] == 'k' and b[1].endswith('CMPLX'):
            return cx_arith(op, a, b)
        if op == '+':
            if a[0] in ('p',) and a[0] == 'p' and self.is_ptr(a):
                return ('ptroff', a, b)
            if a[0] == 'vbegin':
                return ('vit', a[1], b)
            return add(a, b)
        if op == '-':
            return add(a, b, -1)
        if op == '*':
            return mul(a, b)
        if op == '/' and isnum(b) and b[1]:
            return scale(a, 1.0 / b[1]) if not isnum(a) or isinstance(a[1], float) or a[1] % b[1] == 0 else C(a[1] // b[1] if isinstance(a[1], int) and isinstance(b[1], int) else a[1] / b[1])
        if op == '<<' and b[0] == 'c' and isinstance(b[1], int):
            return scale(a, 1 << b[1])
        if op == '|':
            return ('or', a, (('one', b),))
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            try:
                return C({'&': a[1] & b[1], '>>': a[1] >> b[1], '%': a[1] % b[1] if b[1] else 0, '^': a[1] ^ b[1], '/': a[1] // b[1] if b[1] else 0}[op])
            except KeyError:
                pass
        return ('op', op, a, b)

    def is_ptr(self, v):
        t = self.p.types[self.fn.params[v[1]]['t']]
        return t.endswith('*')

    def compare(self, op, a, b):
        # lookups are assumed to succeed (reporting unknown ids is property A02's subject)
        ends = ('mend', 'shend', 'idend', 'vend')
        for x, y in ((a, b), (b, a)):
            if y[0] in ends:
                if x[0] in ('shit', 'idit', 'find', 'found', 'simit'):
                    return C(int(op == '!='))
        return cmp_(op, a, b)

    def unop(self, n):
        op = n.op
        if op == '!':
            v = self.val(n.c[0])
            return neg(self.tobool(v))
        if op in ('++', '--') or '++' in op or '--' in op:
            lv = self.lval(n.c[0])
            v = self.val(n.c[0])
            nv = add(v, C(1), 1 if '++' in op else -1)
            self.write(lv, nv, n)
            return nv
        if op == '-':
            v = self.val(n.c[0])
            if v[0] == 'cx' or v[0] == 'k':
                return cx_arith('-', C(0), v)
            return scale(v, -1)
        if op == '+':
            return self.val(n.c[0])
        if op == '&':
            lv = self.lval(n.c[0])
            return ('addr', lv) if lv is not None else ('op', '&', self.val(n.c[0]))
        if op == '*':
            v = self.val(n.c[0])
            if v[0] == 'addr':
                return self.read(v[1])
            if v[0] in ('mit', 'find', 'idit'):
                return v
            return index(v, C(0)) if v[0] in ('p', 'cat') else v
        if op == '~':
            return ('op', '~', self.val(n.c[0]))
        return ('op', op, self.val(n.c[0]))

    def tobool(self, v):
        if v[0] == 'c':
            return v
        if v[0] in ('not', 'lt', 'eq', 'and', 'or2', 'nn', 'ite'):
            return v
        if v[0] == 'nullptr':
            return C(0)
        if v[0] in ('newsim', 'new0', 'addr', 'find', 'idit', 'libres'):
            return C(1) if v[0] != 'libres' else v
        return v

    def assign(self, n):
        op = n.op
        lv = self.lval(n.c[0])
        r = self.val(n.c[1])
        r = self.narrow(r, base_type(n.c[0].type), base_type(n.c[1].type))
        if op != '=':
            old = self.val(n.c[0])
            r = self.arith(op[:-1], old, r)
        self.write(lv, r, n)
        return r

    def ctor(self, n):
        cls = n.get('cls') or ''
        t = n.type
        a = [x for x in n.c if x is not None and not (x.k == 'defarg')]
        if len(a) == 1 and (n.get('cp') or n.get('mv')):
            return self.val(a[0])
        if cls == 'std::vector' or cls == 'std::set':
            if not a:
                return ('cat',)
            if len(a) == 1:
                v = self.val(a[0])
                if v[0] in ('cat', 'upd', 'vec0'):
                    return v
                if a[0].k == 'initlist' or v[0] == 'cat':
                    return v
                if cls == 'std::vector' and 'std::vector' not in a[0].type:
                    return ('vec0', v)
                return v
            if len(a) == 2:
                x, y = self.val(a[0]), self.val(a[1])
                if y[0] == 'ptroff' and y[1] == x:
                    u = self.new()
                    self.syms[u] = y[2]
                    return ('cat', ('rep', y[2], u, (('one', index(x, ('i', u))),)))
                if x[0] == 'vbegin' and y[0] == 'vend' and x[1] == y[1]:
                    return x[1]
                if a[0].type and base_type(a[0].type) in WIDE:
                    u = self.new()
                    return ('vec0', x)
            return ('op', 'vector') + tuple(self.val(x) for x in a)
        if cls == 'std::complex':
            v = [self.val(x) for x in n.c]
            if not v:
                return ('cx', C(0), C(0))
            if len(v) == 1:
                return ('cx', v[0], C(0)) if v[0][0] not in ('cx', 'k', 'op', 'elt') else v[0]
            return ('cx', v[0], v[1])
        if cls in ('std::shared_ptr', 'std::unique_ptr'):
            if not a:
                return ('nullptr',)
            return self.val(a[0])
        f = self.p.fns.get(n.get('fid'))
        if f is not None and f.file == FILE:
            # a plain record: fields from member initialisers
            rec = []
            envs = dict(self.env)
            for i, x in enumerate(f.params):
                self.env[x['d']] = self.val(n.c[i]) if i < len(n.c) else self.fresh()
            for field, x, e in f.inits:
                rec.append((field, self.val(e)))
            self.env = envs
            return ('rec', tuple(rec))
        if cls.startswith('Qrack::'):
            args = tuple(self.val(x) for x in a)
            if cls in ('Qrack::QNeuron', 'Qrack::QCircuitGate', 'Qrack::UniformHamiltonianOp', 'Qrack::QCircuit'):
                return ('make', cls, args)
            return ('make', cls, args)
        if len(a) == 1:
            return self.val(a[0])
        return ('op', 'ctor ' + cls) + tuple(self.val(x) for x in a)

    def param_info(self, n):
        m = self.p.method_cls.get(n.get('fid'))
        if not m:
            return None
        return [(self.p.types[x['t']] if isinstance(x.get('t'), int) else str(x.get('t')), x['n']) for x in m[1]['params']]

    def call(self, n):
        q = n.q or ''
        name = n.name or ''
        op = n.op
        p = self.p
        # ---- library calls
        m = p.method_cls.get(n.get('fid')) if n.get('fid') else None
        if m and m[0] in LIBCLS or (m and m[0].startswith('Qrack::') and n.o is not None and not op):
            obj = self.val(n.o)
            args = tuple(self.val(x) for x in n.c)
            e = self.ev('lib', m[0], name, obj, args, node=n, info=self.param_info(n))
            if name in ('GetQubitCount',):
                return ('count', obj, self.cepoch)
            if name in ('Compose', 'Decompose', 'Dispose', 'Allocate'):
                self.cepoch += 1
            return ('libres', name, obj, args)
        # ---- own helpers
        f = self.file_fns.get(n.get('fid')) or self.file_fns.get('%s@%s' % (n.get('fid'), FILE))
        if f is not None and n.o is None:
            return self.inline(f, n)
        if op == '()' and n.o is not None:
            lam = self.val(n.o)
            if lam[0] == 'lambda' and lam[1] in p.fns:
                return self.apply_lambda(lam, [self.val(x) for x in n.c], [self.lval(x) for x in n.c], [x.type for x in n.c])
        # ---- id map and registries
        if n.o is not None:
            oq = deref(n.o)
            glob = oq.q if oq is not None and oq.k == 'ref' and oq.get('dk') == 'global' else None
            if glob == 'shards':
                if name == 'find':
                    return ('shit', self.val(n.c[0]))
                if name == 'end':
                    return ('shend',)
                if name == 'erase':
                    self.ev('mapdrop', self.val(n.c[0]), node=n)
                    self.epoch += 1
                    return C(0)
                if name == 'at':
                    return ('map', self.val(n.c[0]))
                if name in ('emplace', 'insert'):
                    self.ev('mapother', ('shards',), node=n)
                    return C(0)
            if glob in ('neurons', 'circuits') and name in ('push_back', 'emplace_back'):
                self.ev('regpush', glob, self.val(n.c[0]), node=n)
                return C(0)
            if glob == 'simulators':
                if name == 'push_back':
                    self.ev('simpush', self.val(n.c[0]), node=n)
                    return C(0)
                if name == 'begin':
                    return ('vbegin', ('g', 'simulators'))
                if name == 'end':
                    return ('vend', ('g', 'simulators'))
            if op == '[]':
                return self.read(self.lval(n))
            if op == '=':
                lv = self.lval(n.o)
                r = self.val(n.c[0])
                self.write(lv, r, n)
                return r
            if op in ('->', '*') and not n.c:
                v = self.val(n.o)
                if v[0] == 'addr':
                    return self.read(v[1])
                return v
            if name == 'get' and not n.c:
                return self.val(n.o)
            if name.startswith('operator ') and not n.c and op is None:
                return self.tobool(self.val(n.o))
            if op in ('++', '--') and oq is not None:
                v = self.val(n.o)
                if v[0] in ('mit', 'mbegin'):
                    return v
                return v
            o = self.val(n.o)
            if op in ('==', '!='):
                return self.compare(op, o, self.val(n.c[0]))
            if o[0] == 'addr' and op is None and self.read(o[1])[0] == 'map':
                o = self.read(o[1])
            if o[0] == 'map':
                if name == 'find':
                    return ('idit', o[1], self.val(n.c[0]))
                if name in ('begin', 'cbegin'):
                    return ('mbegin', o[1])
                if name in ('end', 'cend'):
                    return ('mend', o[1])
                if name == 'erase':
                    v = self.val(n.c[0])
                    if v[0] == 'idit':
                        v = v[2]
                    self.ev('maperase', o[1], v, node=n)
                    self.epoch += 1
                    return C(0)
                if name == 'at':
                    return ('res', o[1], self.val(n.c[0]), self.epoch)
                if name == 'size':
                    return ('op', 'mapsize', o)
                if name in ('emplace', 'insert', 'clear', 'swap'):
                    if name == 'emplace' and len(n.c) == 2:
                        self.ev('mapset', o[1], self.val(n.c[0]), self.val(n.c[1]), node=n)
                    elif name == 'clear':
                        self.ev('mapclear', o[1], ('cat',), node=n)
                    else:
                        self.ev('mapother', o[1], node=n)
                    self.epoch += 1
                    return C(0)
            lv = self.lval(n.o)
            if o[0] == 'addr':
                lv = o[1]
                o = self.read(lv)
            if name in ('push_back', 'emplace_back', 'insert', 'emplace') and lv is not None and n.c and not op:
                el = self.val(n.c[0]) if name != 'insert' or len(n.c) == 1 else ('op', 'insert') + tuple(self.val(x) for x in n.c)
                ot = base_type(n.o.type)
                if 'vector<unsigned char>' in ot or 'set<unsigned char>' in ot:
                    el = self.narrow(el, 'unsigned char', base_type(n.c[0].type))
                if o[0] == 'cat':
                    nv = o + (('one', el),)
                elif o[0] == 'app':
                    nv = ('app', o[1], o[2] + (('one', el),))
                else:
                    nv = ('app', o, (('one', el),))
                self.write(lv, nv, n)
                return C(0)
            if name == 'reserve' or name == 'shrink_to_fit':
                return C(0)
            if name == 'resize' and lv is not None and n.c:
                self.write(lv, ('vec0', self.val(n.c[0])), n)
                return C(0)
            if name == 'erase' and lv is not None and len(n.c) == 1:
                i = self.val(n.c[0])
                if i[0] == 'vit' and i[1] == o:
                    i = i[2]
                elif i[0] == 'vbegin':
                    i = C(0)
                else:
                    i = ('op', '?')
                self.write(lv, ('erased', o, i), n)
                return C(0)
            if name in ('begin', 'cbegin'):
                return ('vbegin', o)
            if name in ('end', 'cend'):
                return ('vend', o)
            if name in ('size', 'length'):
                return size_of(o)
            if name == 'empty':
                return cmp_('==', size_of(o), C(0))
            if name in ('front',):
                return index(o, C(0)) if o[0] == 'cat' else ('elt', o, C(0))
            if name == 'data':
                return o
            if op == '+':
                return self.arith('+', o, self.val(n.c[0]))
            if op == '-' and n.c:
                return self.arith('-', o, self.val(n.c[0]))
            args = tuple(self.val(x) for x in n.c)
            return ('op', '.' + (op or name), o) + args
        # ---- known free functions
        args = n.c
        if q in ('std::lock', 'std::operator<<') or op in ('<<', '>>') and n.o is None:
            if op == '<<' or op == '>>':
                v = [self.val(x) for x in args]
                return ('op', op) + tuple(v)
            return C(0)
        if name in ('make_unique', 'make_shared') or q.endswith('::make_shared'):
            t = n.type
            if 'lock_guard' in t:
                return ('op', 'lock')
            mm = re.search(r'shared_ptr<(Qrack::\w+)>', t)
            v = tuple(self.val(x) for x in args)
            return ('make', mm.group(1) if mm else t, v)
        if name in ('dynamic_pointer_cast', 'static_pointer_cast', 'move', 'forward', 'ref', 'cref', 'addressof'):
            if name == 'addressof':
                lv = self.lval(args[0])
                return ('addr', lv)
            return self.val(args[0])
        if q == 'std::swap' or name == 'iter_swap':
            a, b = self.lval(args[0]), self.lval(args[1])
            if a is not None and b is not None:
                if a[0] == 'sec' and b[0] == 'sec' and a[1][0] == 'find' and b[1][0] == 'find':
                    self.ev('mapswap', a[1][1], a[1][2], b[1][2], node=n)
                    self.epoch += 1
                    return C(0)
                va, vb = self.read(a), self.read(b)
                if a[0] == 'sec' or b[0] == 'sec' or a[0] == 'ment' or b[0] == 'ment':
                    if a[0] == 'ment' and b[0] == 'ment':
                        self.ev('mapswapid', a[1], a[2], b[2], node=n)
                    elif a[0] == 'sec' and b[0] == 'sec' and a[1][0] == 'idit' and b[1][0] == 'idit':
                        self.ev('mapswapid', a[1][1], a[1][2], b[1][2], node=n)
                    else:
                        self.ev('mapother', a[1], node=n)
                    self.epoch += 1
                    return C(0)
                self.write(a, vb, n)
                self.write(b, va, n)
            return C(0)
        if name in ('bi_or_ip', 'bi_lshift_ip', 'bi_add_ip', 'bi_rshift_ip', 'bi_and_ip', 'bi_xor_ip'):
            tgt = self.val(args[0])
            lv = tgt[1] if tgt[0] == 'addr' else None
            old = self.read(lv) if lv is not None else tgt
            v = self.val(args[1])
            if name == 'bi_or_ip':
                nv = ('or', old[1], old[2] + (('one', v),)) if old[0] == 'or' else ('or', old, (('one', v),))
            else:
                nv = ('op', name, old, v)
            if lv is not None:
                self.write(lv, nv, n)
            return C(0)
        if q in ('Qrack::pow2', 'Qrack::pow2Ocl') or name in ('pow2', 'pow2Ocl'):
            return ('pow2', self.val(args[0]))
        if name in ('min', 'max') and len(args) == 2:
            a, b = self.val(args[0]), self.val(args[1])
            if name == 'min':
                if a[0] == 'acc':
                    return ('min2', a, b)
                if b[0] == 'acc':
                    return ('min2', b, a)
                return ite(('lt', b, a), b, a)
            return ite(('lt', a, b), b, a)
        if name == 'transform' and len(args) == 4:
            a, b, o, lam = [self.val(x) for x in args]
            if b[0] == 'ptroff' and b[1] == a and lam[0] == 'lambda' and o[0] in ('vbegin', 'op', 'new0', 'vec0'):
                u = self.new()
                self.syms[u] = b[2]
                el = self.apply_lambda(lam, [index(a, ('i', u))], [None], [self.elem_type(args[0])])
                vec = ('cat', ('rep', b[2], u, (('one', el),)))
                tgt = skip(args[2])
                if tgt.k == 'call' and tgt.name in ('begin', 'get') and tgt.o is not None:
                    lv = self.lval(tgt.o)
                    if lv is not None:
                        self.write(lv, vec, n)
                elif tgt.k == 'call' and tgt.name == 'back_inserter':
                    lv = self.lval(tgt.c[0])
                    old = self.read(lv)
                    if old[0] == 'cat':
                        self.write(lv, old + vec[1:], n)
                return C(0)
        if name == 'find_if' and len(args) == 3:
            a, lam = self.val(args[0]), self.val(args[2])
            if a[0] == 'mbegin' and lam[0] == 'lambda':
                mit = ('mit', a[1], self.new())
                c = self.apply_lambda(lam, [mit], [('it', mit)], [''])
                f = self.search_of((c,), mit)
                if f is not None:
                    return f
        if name == 'find' and len(args) == 3:
            a = self.val(args[0])
            if a == ('vbegin', ('g', 'simulators')):
                return ('simit', self.val(args[2]))
        if name == 'CreateQuantumInterface':
            v = tuple(self.val(x) for x in args)
            self.ev('create', v, node=n)
            return ('newsim', n.i, v)
        if name == 'norm' and False:
            return C(0)
        if op is not None and len(args) == 2:
            return self.arith(op, self.val(args[0]), self.val(args[1]))
        if op == '-' and len(args) == 1:
            v = self.val(args[0])
            return cx_arith('-', C(0), v)
        if n.ind is not None or q == '':
            return ('op', 'callback') + tuple(self.val(x) for x in args)
        if n.type == 'void' or True:
            # output parameters: anything passed by address to an unknown function becomes opaque
            v = []
            for x in args:
                y = self.val(x)
                v.append(y)
            if name in ('copy', 'transform', 'fill', 'sort', 'iota', 'reverse'):
                for x in args:
                    tgt = skip(x)
                    if tgt is not None and tgt.k == 'call' and tgt.name == 'begin' and tgt.o is not None:
                        lv = self.lval(tgt.o)
                        if lv is not None and lv[0] == 'v':
                            self.write(lv, ('op', name) + tuple(z for z in v if z[0] != 'vbegin' and z[0] != 'vend') + (self.read(lv),), n)
                            break
            return ('op', name) + tuple(v)

    def elem_type(self, n):
        return base_type(n.type).replace('*', '').strip()

    def bind(self, f, vals, lvs, types):
        for i, x in enumerate(f.params):
            d = x['d']
            self.alias.pop(d, None)
            t = self.p.types[x['t']] if isinstance(x['t'], int) else ''
            v = vals[i] if i < len(vals) else self.fresh()
            lv = lvs[i] if i < len(lvs) else None
            if t.endswith('*') and lv is not None and lv[0] == 'v' and v[0] in ('new0', 'arr0', 'vec0', 'cat', 'upd') and lv != ('v', d):
                self.env.pop(d, None)
                self.alias[d] = lv
            elif x.get('m') in ('r',) and lv is not None and lv[0] in ('v', 'e', 'map', 'sec', 'ment', 'f', 'it'):
                if lv == ('v', d):
                    continue
                self.env.pop(d, None)
                self.alias[d] = lv
            else:
                frm = base_type(types[i]) if i < len(types) else ''
                self.env[d] = self.narrow(v, base_type(t), frm)

    def apply_lambda(self, lam, vals, lvs, types):
        f = self.p.fns.get(lam[1])
        if f is None or f.body is None or self.depth > 12:
            return ('op', 'lambda') + tuple(vals)
        # init-captures are separate declarations; plain captures refer to the enclosing declarations directly
        self.bind(f, vals, lvs, types)
        return self.body_of(f)

    def inline(self, f, n):
        if self.depth > 12 or f.body is None:
            return ('op', f.name) + tuple(self.val(x) for x in n.c)
        vals = [self.val(x) for x in n.c]
        lvs = [self.lval(x) for x in n.c]
        self.inlined.add(f.id)
        if f.name == '_combineA' and False:
            pass
        self.bind(f, vals, lvs, [x.type for x in n.c])
        return self.body_of(f, n)

    def body_of(self, f, n=None):
        self.depth += 1
        self.frames.append([])
        conds0, self.conds = self.conds, list(self.conds)
        base = len(conds0)
        brk0, self.brk = self.brk, []
        eb = self.__dict__.pop('exec_body', None)
        out0, self.out = self.out, []
        try:
            self.exec(f.body)
        finally:
            sub, self.out = self.out, out0
            if any(e.k == 'if' and e.info and (e.info[0] or e.info[1]) for e in sub):
                # an early return leaves the helper, not the caller
                self.out.append(Event('scope', (), n, self.epoch, None, sub))
            else:
                self.out.extend(sub)
            self.depth -= 1
            self.conds = conds0
            self.brk = brk0
            if eb is not None:
                self.exec_body = eb
        rets = [r for r in self.frames.pop() if r[1] is not None]
        if not rets:
            return C(0)
        # a search that succeeds returns inside the loop; lookups are assumed to succeed
        for cs, v in rets:
            if cs == ('found',):
                return v
        out = rets[-1][1]
        for cs, v in reversed(rets[:-1]):
            c = [x for x in cs[base:]]
            g = None
            for x in c:
                g = x if g is None else ('and', g, x)
            if g is None:
                out = v
            else:
                out = ite(g, v, out)
        return out


NAMED = {
    'Qrack::ONE_CMPLX': ('cx', C(1), C(0)), 'Qrack::ZERO_CMPLX': ('cx', C(0), C(0)),
    'Qrack::I_CMPLX': ('cx', C(0), C(1)),
}


def cx_parts(v):
    if v[0] == 'cx':
        return v[1], v[2]
    if v[0] == 'c':
        return v, C(0)
    return None


def cx_arith(op, a, b):
    x, y = cx_parts(a), cx_parts(b)
    if x and y:
        if op == '+':
            return ('cx', add(x[0], y[0]), add(x[1], y[1]))
        if op == '-':
            return ('cx', add(x[0], y[0], -1), add(x[1], y[1], -1))
        if op == '*':
            return ('cx', add(mul(x[0], y[0]), mul(x[1], y[1]), -1), add(mul(x[0], y[1]), mul(x[1], y[0])))
    return ('op', op, a, b)


STRUCTURAL = ('Compose', 'Decompose', 'Dispose', 'Allocate', 'Swap')
QUIET = ('GetQubitCount', 'GetMaxQPower', 'GetInputPower')


def significant(out):
    for e in out:
        if e.k in ('if', 'loop', 'catch', 'scope'):
            if significant(e.sub or []) or significant(e.sub2 or []) or (e.k == 'if' and e.info and (e.info[0] or e.info[1]) and not e.sub and not e.sub2):
                return True
        elif e.k == 'lib' and e.a[1] in QUIET:
            continue
        elif e.k == 'fldset' and False:
            continue
        elif e.k == 'ret':
            return True if not trivial(e.a[0]) else False
        else:
            return True
    return False


def trivial(v):
    return v[0] in ('c', 'nullptr', 'k')


def registryish(c):
    """a condition about registries and handles only: error guards of an invalid handle"""
    for x in walk(c):
        if x[0] in ('g', 'sim', 'shit', 'idit', 'newsim'):
            return True
    return False


def flatten(out, guards=()):
    """(event, guards) pairs; the guards of an early exit are attached to everything after it"""
    g = tuple(guards)
    for e in out:
        if e.k == 'if':
            yield from flatten(e.sub, g + (e.a[0],))
            yield from flatten(e.sub2, g + (neg(e.a[0]),))
            if e.info and e.info[0] and not e.info[1]:
                g = g + (neg(e.a[0]),)
        elif e.k == 'loop':
            yield from flatten(e.sub, g + (('each', e.a[0], e.a[1]),))
        elif e.k == 'scope':
            yield from flatten(e.sub, g)
        elif e.k == 'catch':
            yield from flatten(e.sub, g + (('catch',),))
        else:
            yield e, g
