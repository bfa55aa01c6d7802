"""U02: layers that split a register address every sub-register with its own, current positions.

A layer such as QUnit keeps, per qubit, the sub-register ('unit') that holds it and its position there ('mapped').  An abstract
interpreter runs every method of such a class over kinds of index: R (position in the register), U (current position in a
sub-register), S (a sub-register position looked up before positions may have moved), each with the arguments it comes from.
Sub-register operations only get U, everything else only R."""
from ir import *
import collections

CLASSES = ('Qrack::QUnit', 'Qrack::QUnitClifford')
R, U, S = 'R', 'U', 'S'
MASKS = ('mask', 'qPowers', 'permutation', 'perm')
SYM = ('TrySeparate', 'Swap', 'ISwap', 'IISwap', 'SqrtSwap', 'ISqrtSwap', 'FSim', 'CZ', 'AntiCZ', 'CSwap', 'AntiCSwap', 'CSqrtSwap', 'AntiCSqrtSwap',
       'CISqrtSwap', 'AntiCISqrtSwap')
EMPTY = frozenset()


def clean(t):
    return t.replace('const ', '').replace('&', '').replace('std::allocator', '').strip()


def kind_of(t, name):
    b = clean(t)
    if name.strip('_') in MASKS and 'int128' in b and '*' not in b:
        return 'mask'
    if b in ('unsigned char', 'uint8_t', 'bitLenInt') and 'ength' not in name and 'ount' not in name and name not in ('n', 'pow', 'b'):
        return 'bit'
    if b.startswith(('std::vector<unsigned char', 'std::set<unsigned char', 'std::vector<uint8_t')) and '*' not in b:
        return 'bits'
    if b.startswith('std::vector<unsigned char *') or b.startswith('std::vector<uint8_t *'):
        return 'ptrs'
    if '__normal_iterator<unsigned char **' in b:
        return 'ptrs'
    return None


def unit_type(t):
    return clean(t).startswith(('std::shared_ptr<', 'shared_ptr<')) or clean(t).endswith(('QInterfacePtr', 'QStabilizerPtr'))


def is_shard_type(t):
    return 'QEngineShard' in t or 'CliffordShard' in t


class Val(object):
    """kinds (R/U/S) and origins: pairs (decl, element?) of the index variables a value comes from; deps: loop counters"""
    __slots__ = ('k', 'o')

    def __init__(self, k=EMPTY, o=EMPTY):
        self.k, self.o = k, o

    def join(self, b):
        return Val(self.k | b.k, self.o | b.o)

    def __eq__(self, b):
        return self.k == b.k and self.o == b.o

    def __ne__(self, b):
        return not self == b


NONE = Val()


class State(object):
    __slots__ = ('v', 'same', 'pt', 'nul')

    def __init__(self, v=None, same=(), pt=None, nul=()):
        self.nul = set(nul)             # variables known to hold no unit
        self.v = dict(v or {})          # decl -> Val (of the variable, or of the elements of the container)
        self.same = list(same)          # sets of origins known to be in one unit; a unit variable is ('u', decl)
        self.pt = dict(pt or {})        # decl of a pointer or list of pointers -> set of container decls

    def copy(self):
        return State(self.v, self.same, self.pt, self.nul)

    def __eq__(self, o):
        return self.v == o.v and set(self.same) == set(o.same) and self.pt == o.pt and self.nul == o.nul

    def __ne__(self, o):
        return not self == o


def vacuous(st, y):
    if y[0] == 'u':
        return y[1] in st.nul
    return y[0] == 'o' and y[2] is True and not isinstance(y[1], tuple) and not st.v.get(y[1], NONE).k


def merged(sets):
    out = []
    for x in sets:
        x = frozenset(x)
        rest = []
        for y in out:
            if x & y:
                x |= y
            else:
                rest.append(y)
        out = rest + [x]
    return out


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = State()
    for d in set(a.v) | set(b.v):
        r.v[d] = a.v.get(d, NONE).join(b.v.get(d, NONE))
    s = set()
    ca, cb = merged(a.same), merged(b.same)
    for p, q in ((ca, (b, cb)), (cb, (a, ca))):
        for x in p:
            va = frozenset(y for y in x if vacuous(q[0], y))
            for z in q[1] + [EMPTY]:
                kp = (x & z) | va
                if len(kp) > 1:
                    s.add(kp)
    r.same = [x for x in s if not any(x < y for y in s)]
    r.nul = a.nul & b.nul
    for d in set(a.pt) | set(b.pt):
        r.pt[d] = a.pt.get(d, EMPTY) | b.pt.get(d, EMPTY)
    return r


class Ctx(object):
    def __init__(self):
        self.brk, self.cont, self.ret, self.thr = [], [], [], []


class Units(object):
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.family = set(CLASSES)
        self.fns = [f for f in p.fns.values() if not f.lam and f.cls in CLASSES]
        self.remaps = self.closure(self.direct_remap)
        self.out = {}
        self.lamargs = collections.defaultdict(list)
        self.quiet = 0
        self.rw = {}
        self.written = {}
        self.entry = {}
        self.depth = 0
        self.done = set()
        self.sinks = {}
        self.units = {}

    # ---- which own methods may move qubits between positions
    def direct_remap(self, f):
        for g in [f] + list(self.p.lambdas.get(f.id, ())):
            for n in g.all_nodes():
                t = None
                if n.k == 'asg' or (n.k == 'un' and n.op in ('++', '--')):
                    t = skip(n.c[0])
                elif n.k == 'call' and n.op == '=' and n.o is not None:
                    t = skip(n.o)
                if t is not None and t.k == 'mem' and t.name == 'mapped' and is_shard_type(t.q or ''):
                    return True
                if n.k == 'call' and n.name in ('swap', 'iter_swap') and any('mapped' in (x.name or '') for x in n.walk() if x.k == 'mem' and is_shard_type(x.q or '')):
                    return True
        return False

    def own(self, n):
        """ids of methods of the layer a call on the object itself reaches"""
        if n.k != 'call' or n.op in ('->', '*', '[]', '='):
            return []
        out = []
        for t in self.p.targets(n):
            g = self.p.fns[t]
            if g.cls in CLASSES and not g.lam:
                out.append(t)
        return out

    def closure(self, direct):
        hit = {f.id for f in self.fns if direct(f)}
        callers = collections.defaultdict(set)
        for f in self.fns:
            st = [f]
            while st:
                g = st.pop()
                st += list(self.p.lambdas.get(g.id, ()))
                for n in g.calls():
                    if n.o is not None and deref(n.o) is not None and deref(n.o).k == 'this' or n.o is None:
                        for t in self.own(n):
                            callers[t].add(f.id)
        todo = list(hit)
        while todo:
            for c in callers[todo.pop()]:
                if c not in hit:
                    hit.add(c)
                    todo.append(c)
        return hit

    # ---- reports
    def check(self, f, n, what, ok, text):
        key = (f.id, n.i, what)
        if self.quiet:
            return
        old = self.sinks.get(key)
        if old is None or (old[0] and not ok):
            self.sinks[key] = (ok, f, n, text)

    # ---- running
    def run(self, f, init=None):
        """abstract run of a method; returns the state at its exits"""
        st = State()
        for x in f.params:
            k = kind_of(self.p.types[x['t']], x['n'])
            if k:
                st.v[x['d']] = Val(frozenset((R,)), frozenset(((x['d'], k != 'bit'),)))
        if init:
            for d, v in init.v.items():
                st.v[d] = v
            st.same = list(init.same)
            st.pt.update(init.pt)
            st.nul = set(init.nul)
        ctx = Ctx()
        for i in f.inits:
            if i[2] is not None:
                self.ev(f, i[2], st, ctx)
        end = self.ex(f, f.body, st, ctx) if f.body is not None else st
        for s in ctx.ret:
            end = join(end, s)
        return end

    def outs(self, fid):
        """what a method leaves in its reference and pointer parameters: index -> Val (origins over its own parameters)"""
        if fid in self.out:
            return self.out[fid]
        f = self.p.fns[fid]
        self.out[fid] = {}
        want = []
        for i, x in enumerate(f.params):
            t = self.p.types[x['t']]
            b = clean(t)
            if (('*' in t or '&' in t) and not t.startswith('const ') and ('unsigned char' in b or 'uint8_t' in b)
                    or kind_of(t, x['n']) == 'ptrs'):
                want.append(i)
        if not want or f.body is None:
            return {}
        self.depth += 1
        self.quiet += 1
        end = self.run(f)
        self.quiet -= 1
        self.depth -= 1
        r = {}
        for i in want:
            if end is not None and end.v.get(f.params[i]['d'], NONE).k != {R}:
                r[i] = end.v.get(f.params[i]['d'], NONE)
        self.out[fid] = r
        return r

    # ---- statements
    def ex(self, f, n, st, ctx):
        if n is None or st is None:
            return st
        k = n.k
        if k == 'block':
            for x in n.c:
                st = self.ex(f, x, st, ctx)
                if st is None:
                    return None
            return st
        if k == 'decl':
            for x in n.c:
                self.ev(f, x, st, ctx)
            return st
        if k == 'if':
            for x in n.c[:2]:
                if x is not None:
                    st = self.ex(f, x, st, ctx) if x.k in ('decl', 'block') else (self.ev(f, x, st, ctx), st)[1]
            self.ev(f, n.c[2], st, ctx)
            a, b = st.copy(), st.copy()
            self.refine(f, n.c[2], a, b, st)
            a = self.ex(f, n.c[3], a, ctx)
            b = self.ex(f, n.c[4], b, ctx) if len(n.c) > 4 and n.c[4] is not None else b
            return join(a, b)
        if k in ('while', 'do', 'for', 'forrange'):
            return self.loop(f, n, st, ctx)
        if k == 'switch':
            self.ev(f, n.c[0], st, ctx)
            c2 = Ctx()
            c2.ret, c2.thr, c2.cont = ctx.ret, ctx.thr, ctx.cont
            out = st.copy()
            cur = None
            for x in (n.c[-1].c if n.c[-1] is not None else ()):
                if x.k in ('case', 'default'):
                    cur = join(cur, st.copy())
                    while x is not None and x.k in ('case', 'default'):
                        x = x.c[-1]
                    cur = self.ex(f, x, cur, c2)
                else:
                    cur = self.ex(f, x, cur, c2)
            out = join(out, cur)
            for s in c2.brk:
                out = join(out, s)
            return out
        if k == 'return':
            for x in n.c:
                if x is not None:
                    self.ev(f, x, st, ctx)
            ctx.ret.append(st)
            return None
        if k == 'break':
            ctx.brk.append(st)
            return None
        if k == 'continue':
            ctx.cont.append(st)
            return None
        if k == 'throw':
            for x in n.c:
                if x is not None:
                    self.ev(f, x, st, ctx)
            return None
        if k == 'try':
            c2 = Ctx()
            c2.brk, c2.cont, c2.ret = ctx.brk, ctx.cont, ctx.ret
            pts = [st.copy()]
            cur = st
            body = n.c[0]
            for x in (body.c if body.k == 'block' else [body]):
                cur = self.ex(f, x, cur, c2)
                if cur is None:
                    break
                pts.append(cur.copy())
            # a handler starts from what holds after any statement but the last
            h = None
            for s in (pts[:-1] if cur is not None and len(pts) > 1 else pts):
                h = join(h, s)
            for x in n.c[1:]:
                s = self.ex(f, x.c[-1] if x.c else None, h.copy(), ctx)
                cur = join(cur, s)
            return cur
        if k in ('case', 'default', 'label', 'catch'):
            return self.ex(f, n.c[-1], st, ctx) if n.c else st
        self.ev(f, n, st, ctx)
        return st

    def rewritten(self, f, n, body):
        """containers every element of which the loop replaces (one plain assignment per round)"""
        out = {}
        var = None
        if n.k == 'forrange':
            vs = [x for x in n.c[1].walk() if x.k == 'var']
            var = vs[0].decl if vs else None
            rng = deref(n.c[0])
            for s in (body.c if body.k == 'block' else [body]):
                if s is not None and s.k == 'asg' and s.op == '=':
                    t = skip(s.c[0])
                    if t.k == 'ref' and t.decl == var and rng is not None and rng.k == 'ref' and any(x.name == 'shard' or True for x in [t]):
                        out[rng.decl] = s
        elif n.k == 'for':
            lv = set()
            for x in (n.c[0].walk() if n.c[0] is not None else ()):
                if x.k == 'var':
                    lv.add(x.decl)
            for s in (body.c if body.k == 'block' else [body]):
                if s is not None and s.k == 'asg' and s.op == '=':
                    t = skip(s.c[0])
                    if t.k == 'call' and t.op == '[]' and any(x.k == 'ref' and x.decl in lv for x in t.c[0].walk()):
                        b = deref(t.o)
                        if b is not None and b.k == 'ref' and skip(t.c[0]).k == 'ref':
                            out[b.decl] = s
                    elif t.k in ('un', 'call') and t.op == '*':
                        b = deref(t)
                        if b is not None and b.k == 'ref' and b.decl in lv:
                            out[('it', b.decl)] = s
        return out

    def loop(self, f, n, st, ctx):
        c2 = Ctx()
        c2.ret, c2.thr = ctx.ret, ctx.thr
        if n.k == 'for':
            if n.c[0] is not None:
                st = self.ex(f, n.c[0], st, ctx)
            cond, inc, body = n.c[1], n.c[2], n.c[3]
        elif n.k == 'while':
            cond, inc, body = n.c[-2], None, n.c[-1]
        elif n.k == 'do':
            cond, inc, body = [x for x in n.c if x is not None][-1], None, n.c[0]
            if cond is body:
                cond = None
        else:
            cond, inc, body = None, None, n.c[2]
        rw = self.rewritten(f, n, body)
        if n.k == 'for' and cond is not None and n.c[0] is not None:
            # a counter up to the size of the register
            lv = {x.decl for x in n.c[0].walk() if x.k == 'var'}
            for x in cond.walk():
                if x.k == 'bin' and x.op in ('<', '<=', '!=') and skip(x.c[0]).k == 'ref' and skip(x.c[0]).decl in lv and any(
                        is_this_field(y, 'qubitCount') or R in st.v.get(y.decl, NONE).k or y.k == 'call' and y.name == 'size' and is_this_field(deref(y.o), 'shards')
                        for y in (x.c[1], skip(x.c[1]))):
                    st.v[skip(x.c[0]).decl] = Val(frozenset((R,)), frozenset(((skip(x.c[0]).decl, True),)))
        head = st
        if n.k == 'for' and n.c[0] is not None:
            for x in n.c[0].walk():
                if x.k == 'var' and x.c and const_int(x.c[0]) == 0:
                    self.entry[x.decl] = st.copy()
        rwv = {}
        for it in range(6):
            cur = head.copy()
            if n.k == 'forrange':
                r = self.ev(f, n.c[0], cur, ctx)
                for x in n.c[1].walk():
                    if x.k == 'var':
                        b = deref(n.c[0])
                        cur.v[x.decl] = r
                        cur.pt.pop(x.decl, None)
                        if b is not None and b.k == 'ref':
                            cur.pt[x.decl] = frozenset((b.decl,)) | cur.pt.get(b.decl, EMPTY)
                        elif b is not None and b.k == 'mem':
                            cur.pt[x.decl] = EMPTY
            if cond is not None and n.k != 'do':
                self.ev(f, cond, cur, ctx)
            save = self.rw
            self.rw = dict(save)
            self.rw.update((s.i, (d, rwv)) for d, s in rw.items())
            c2.cont, c2.brk = [], []
            cur = self.ex(f, body, cur, c2)
            self.rw = save
            for s in c2.cont:
                cur = join(cur, s)
            brk = c2.brk
            if cur is not None:
                if inc is not None:
                    self.ev(f, inc, cur, ctx)
                if cond is not None and n.k == 'do':
                    self.ev(f, cond, cur, ctx)
            new = join(head.copy(), cur)
            if new == head:
                break
            head = new
        out = head.copy() if n.k != 'do' else (cur.copy() if cur is not None else None)
        for s in brk:
            out = join(out, s)
        if out is not None:
            for d, v in rwv.items():
                if isinstance(d, tuple):
                    for c in self.targets_of(out, d[1]):
                        out.v[c] = v
                else:
                    out.v[d] = v
        return out

    def targets_of(self, st, d):
        seen, todo = set(), [d]
        while todo:
            x = todo.pop()
            for y in st.pt.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    # ---- conditions: 'a.unit == b.unit'
    def refine(self, f, c, a, b, st):
        c = skip(c)
        if c is None:
            return
        if c.k == 'bin' and c.op == '&&':
            for x in c.c:
                self.refine(f, x, a, State(), st)
            return
        if c.k == 'bin' and c.op == '||':
            for x in c.c:
                self.refine(f, x, State(), b, st)
            return
        if c.k == 'call' and c.name == 'operator bool' and c.o is not None and deref(c.o) is not None and deref(c.o).k == 'ref':
            a.nul.discard(deref(c.o).decl)
            return
        if c.k == 'ref' and c.decl in self.entry:
            # first round of a loop: nothing has been collected yet
            for d in list(b.v):
                if not self.entry[c.decl].v.get(d, NONE).k and b.v[d].k and d in self.entry[c.decl].v:
                    b.v[d] = self.entry[c.decl].v[d]
            return
        if c.k == 'bin' and c.op in ('==', '!=') and const_int(c.c[1]) == 0:
            return self.refine(f, c.c[0], b, a, st) if c.op == '==' else self.refine(f, c.c[0], a, b, st)
        if c.k == 'un' and c.op == '!':
            return self.refine(f, c.c[0], b, a, st)
        if (c.k == 'bin' or c.k == 'call') and c.op in ('==', '!='):
            xs = ([c.o] if c.o is not None else []) + list(c.c)
            q = [x for x in xs if skip(x).k == 'call' and skip(x).name == 'GetQubitCount' and skip(x).o is not None]
            w = [x for x in xs if is_this_field(x, 'qubitCount')]
            if q and w:
                k = self.unit_key(f, skip(q[0]).o, st)
                if k:
                    (a if c.op == '==' else b).same.append(k | {('whole',)})
            elif len(xs) == 2 and unit_type(xs[0].type):
                ks = [self.unit_key(f, x, st) for x in xs]
                if None not in ks and all(ks):
                    (a if c.op == '==' else b).same.append(ks[0] | ks[1])

    def unit_key(self, f, n, st):
        """names of a unit: the origins of the shards it is taken from, or the variable that holds it"""
        n = deref(n)
        while n is not None and n.k == 'call' and n.name in ('dynamic_pointer_cast', 'static_pointer_cast') and n.c:
            n = deref(n.c[0])
        if n is None:
            return None
        if n.k == 'cast' and n.c:
            return self.unit_key(f, n.c[0], st)
        if n.k == 'ref' and n.get('dk') in ('local', 'parm'):
            return frozenset((('u', n.decl),))
        if n.k == 'mem' and n.name == 'first' and n.c:
            e = deref(n.c[0])
            return frozenset((('o', ('ent', e.decl), True),)) if e is not None and e.k == 'ref' else None
        if n.k == 'mem' and n.name == 'unit' and n.c:
            return frozenset(('o',) + x for x in self.shard_origin(f, n.c[0], st)) or None
        if n.k == 'call':
            return frozenset((('call', n.i),))
        return None

    def shard_origin(self, f, b, st):
        b = deref(b)
        if b is None:
            return EMPTY
        if b.k == 'ref':
            v = st.v.get(b.decl, NONE)
            return v.o or frozenset(((b.decl, False),))
        if b.k in ('call', 'idx') and (b.op == '[]' or b.k == 'idx'):
            ix = b.c[0] if b.k == 'call' else b.c[1]
            if const_int(ix) is not None:
                return frozenset((('#%d' % const_int(ix), False),))
            return self.peek(f, ix, st).o or frozenset(((self.fixed(f, ix) or 'x%d' % b.i, False),))
        return EMPTY

    def fixed(self, f, ix):
        """a name for an index expression over variables the function never changes"""
        if f.id not in self.written:
            w = set()
            for n in f.all_nodes():
                t = None
                if n.k == 'asg' or n.k == 'un' and n.op in ('++', '--', '&'):
                    t = n.c[0]
                elif n.k == 'call' and n.o is not None and not n.get('cm'):
                    t = n.o
                for x in (t.walk() if t is not None else ()):
                    if x.k == 'ref' and not x.type.startswith('const '):
                        w.add(x.decl)
                if n.k == 'forrange':
                    w |= {x.decl for x in n.c[1].walk() if x.k == 'var'}
            self.written[f.id] = w
        for x in ix.walk():
            if x.k == 'ref' and x.get('dk') in ('local', 'parm') and (x.decl in self.written[f.id] or '*' in x.type):
                return None
            if x.k in ('mem', 'this', 'lambda', 'asg') or x.k == 'un' and x.op in ('++', '--'):
                return None
        return 't:' + show(ix)

    def peek(self, f, n, st):
        self.quiet += 1
        s = st.copy()
        r = self.ev(f, n, s, Ctx())
        self.quiet -= 1
        return r

    # ---- expressions
    def ev(self, f, n, st, ctx):
        if n is None:
            return NONE
        k = n.k
        if k in ('lit', 'str', 'nullptr', 'this', 'sizeof'):
            return NONE
        if k == 'ref':
            if n.get('dk') in ('local', 'parm'):
                return st.v.get(n.decl, NONE)
            return NONE
        if k == 'mem':
            b = n.c[0] if n.c else None
            if b is not None and b.k != 'this':
                r = self.ev(f, b, st, ctx)
                if n.name == 'mapped':
                    if is_shard_type(n.q or ''):
                        return Val(frozenset((U,)), self.shard_origin(f, b, st))
                    return st.v.get(n.q, NONE)
                if n.name == 'bit':
                    return st.v.get(n.q, Val(frozenset((R,))))
                if n.name == 'second':
                    e = deref(b)
                    return Val(r.k, frozenset(((('ent', e.decl), True),))) if e is not None and e.k == 'ref' else r
                if n.name == 'first':
                    return r
            return NONE
        if k == 'var':
            return self.var(f, n, st, ctx)
        if k == 'lambda':
            return NONE
        if k == 'cond':
            self.ev(f, n.c[0], st, ctx)
            return self.ev(f, n.c[1], st, ctx).join(self.ev(f, n.c[2], st, ctx))
        if k == 'asg':
            v = self.ev(f, n.c[1], st, ctx)
            return self.assign(f, n, n.c[0], v, n.op, st, ctx)
        if k == 'bin':
            a = self.ev(f, n.c[0], st, ctx)
            b = self.ev(f, n.c[1], st, ctx)
            if n.op in ('+', '|', '^', '&', '<<', '>>', '*'):
                return a.join(b)
            if n.op == '-':
                return a if not b.k else NONE
            if n.op in ('<', '>', '<=', '>=', '==', '!='):
                self.compare(f, n, a, b)
            return NONE
        if k == 'un':
            r = self.ev(f, n.c[0], st, ctx)
            return NONE if n.op == '!' else r
        if k == 'idx':
            b = self.ev(f, n.c[0], st, ctx)
            self.ev(f, n.c[1], st, ctx)
            return b
        if k in ('cast', 'defarg', 'definit'):
            return self.ev(f, n.c[0], st, ctx) if n.c else NONE
        if k == 'ctor':
            vs = [self.ev(f, x, st, ctx) for x in n.c]
            if n.get('cp') or n.get('mv') or (n.get('cls') or '') in ('std::vector', 'std::set') or '__normal_iterator' in (n.get('cls') or ''):
                if (n.get('cls') or '').startswith('std::vector') and n.c and clean(n.c[0].type).startswith(('unsigned', 'int', 'size_t')) and not n.get('cp') and n.c[0].k != 'initlist':
                    return vs[1] if len(vs) > 1 else NONE
                r = NONE
                for v in vs:
                    r = r.join(v)
                return r
            return NONE
        if k == 'initlist':
            r = NONE
            for x in n.c:
                r = r.join(self.ev(f, x, st, ctx))
            return r
        if k == 'call':
            return self.call(f, n, st, ctx)
        r = NONE
        for x in n.kids():
            self.ev(f, x, st, ctx)
        return r

    def compare(self, f, n, a, b):
        if a.k and b.k:
            ok = not (R in a.k and (U in b.k or S in b.k)) and not (R in b.k and (U in a.k or S in a.k))
            self.check(f, n, 'compare', ok, 'compares a register position with a sub-register position')

    def var(self, f, n, st, ctx):
        init = n.c[0] if n.c else None
        t = n.type
        v = self.ev(f, init, st, ctx) if init is not None else NONE
        st.v.pop(n.decl, None)
        st.pt.pop(n.decl, None)
        st.same = [x for x in ({y for y in z if y != ('u', n.decl) and y[1:] != (n.decl, False)} for z in st.same) if len(x) > 1]
        st.same = [frozenset(x) for x in st.same]
        if init is None:
            return NONE
        st.nul.discard(n.decl)
        self.drop(st, n.decl)
        if kind_of(t, 'x') == 'bits':
            x = skip(init)
            while x is not None and x.k == 'ctor' and x.c:
                x = skip(x.c[0])
            if x is not None and x.k == 'initlist' and len(x.c) > 1:
                for j, y in enumerate(x.c):
                    st.v[(n.decl, j)] = self.peek(f, y, st)
        if is_shard_type(t):
            st.v[n.decl] = Val(EMPTY, self.shard_origin(f, init, st))
            return NONE
        if unit_type(t) or t.rstrip('&* ').endswith(('QInterfacePtr', 'QStabilizerPtr')):
            self.bind(f, n.decl, init, st)
            return NONE
        self.point(f, n.decl, init, st)
        b = deref(init)
        if '&' in t and 'const' not in t and b is not None:
            # an alias of an element or container
            if b.k == 'ref':
                st.pt[n.decl] = st.pt.get(n.decl, EMPTY) | {b.decl}
            elif b.k == 'call' and b.op == '[]' and deref(b.o) is not None and deref(b.o).k == 'ref':
                st.pt[n.decl] = st.pt.get(n.decl, EMPTY) | {deref(b.o).decl}
        if kind_of(t, 'x') in ('bits', 'ptrs') or clean(t).startswith('std::vector<unsigned __int128') or not v.o and v.k:
            v = Val(v.k, v.o | {(n.decl, kind_of(t, 'x') != 'bit')})
        elif U in v.k:
            # a position taken now belongs to the unit its qubit is in now, whatever happens to the qubit later
            us = {y for y in self.members(st, frozenset(('o',) + x for x in v.o)) if y[0] == 'u'}
            v = Val(v.k, v.o | {(n.decl, False)})
            if us:
                st.same.append(frozenset(us | {('o', n.decl, False)}))
        st.v[n.decl] = v
        return NONE

    def bind(self, f, d, init, st):
        k = self.unit_key(f, init, st)
        st.nul.discard(d)
        if k:
            st.same.append(frozenset(k | {('u', d)}))
        x = skip(init)
        while x is not None and x.k == 'ctor' and x.c:
            x = skip(x.c[0])
        if x is not None and (x.k == 'nullptr' or x.k == 'ctor' and not x.c or x.k == 'ref' and x.decl in st.nul):
            st.nul.add(d)

    def point(self, f, d, init, st):
        """pointers and lists of pointers: which containers they point into"""
        for x in init.walk():
            if x.k == 'un' and x.op == '&':
                b = skip(x.c[0])
                while b is not None and (b.k == 'idx' or b.k == 'call' and b.op == '[]'):
                    b = skip(b.c[0] if b.k == 'idx' else b.o)
                if b is not None and b.k == 'ref':
                    st.pt[d] = st.pt.get(d, EMPTY) | {b.decl}
        b = deref(init)
        while b is not None and b.k == 'ctor' and b.c:
            b = deref(b.c[0])
        if b is not None and b.k == 'call' and b.name in ('begin', 'end') and b.o is not None:
            b = deref(b.o)
        if b is not None and b.k == 'ref' and kind_of(b.type, 'x') == 'ptrs':
            st.pt[d] = st.pt.get(d, EMPTY) | st.pt.get(b.decl, EMPTY) | {b.decl}

    def assign(self, f, n, lhs, v, op, st, ctx):
        t = skip(lhs)
        if t.k == 'mem':
            b = t.c[0] if t.c else None
            if b is not None:
                self.ev(f, b, st, ctx)
            if t.name == 'mapped' and is_shard_type(t.q or ''):
                self.check(f, n or t, 'mapped', R not in v.k, 'stores a register position as the position in a sub-register')
            elif t.name in ('mapped', 'bit') and t.q:
                self.check(f, n or t, 'entry', not v.k & ({R} if t.name == 'mapped' else {U, S}), 'stores a %s position as the %s position of an entry' % (
                    ('register', 'sub-register') if t.name == 'mapped' else ('sub-register', 'register')))
                st.v[t.q] = st.v.get(t.q, NONE).join(v)
            elif t.name == 'unit' and b is not None:
                o = self.shard_origin(f, b, st)
                st.same = [z for z in (frozenset(y for y in z if not (y[0] == 'o' and y[1:] in o)) for z in st.same) if len(z) > 1]
            return v
        if t.k == 'ref':
            if op != '=':
                v = v.join(st.v.get(t.decl, NONE)) if op not in ('-=', '>>=') else st.v.get(t.decl, NONE)
            if n is not None and n.i in self.rw:
                self.rw[n.i][1][self.rw[n.i][0]] = v
                st.v[t.decl] = v
                return v
            if t.decl in st.pt and '&' in t.type or t.decl in st.pt and kind_of(t.type, 'x') != 'ptrs' and self.is_range_ref(f, t):
                for c in self.targets_of(st, t.decl):
                    st.v[c] = st.v.get(c, NONE).join(v)
            if unit_type(t.type):
                return v
            st.v[t.decl] = v
            return v
        if t.k in ('idx', 'call', 'un'):
            if t.k == 'idx' or t.k == 'call' and t.op == '[]':
                self.ev(f, t.c[1] if t.k == 'idx' else t.c[0], st, ctx)
                base = t.c[0] if t.k == 'idx' else t.o
                if n is not None and not (t.k == 'call' and is_shard_type(t.type)):
                    pass
            else:
                base = t.c[0] if t.c else t.o
            b = deref(base)
            if b is not None and b.k == 'call' and b.op == '[]':
                self.ev(f, b, st, ctx)
                b = deref(b.o)
            if n is not None and n.i in self.rw:
                d, vals = self.rw[n.i]
                vals[d] = v
                if not isinstance(d, tuple):
                    vals[d] = Val(v.k, v.o | {(d, True)})
                    self.element(st, d, v)
                return v
            if b is not None and b.k == 'ref':
                if unit_type(t.type):
                    return v
                for c in self.targets_of(st, b.decl):
                    st.v[c] = st.v.get(c, NONE).join(v)
                self.element(st, b.decl, v)
                self.drop(st, b.decl)
                st.v[b.decl] = st.v.get(b.decl, NONE).join(v)
        return v

    def entry_of(self, f, n, t, v, st):
        """a position stored in the entry a map keeps for a unit"""
        t = skip(t)
        if t.k == 'call' and t.op == '[]' and unit_type(t.c[0].type) and v.k & {R, U, S}:
            key = self.unit_key(f, t.c[0], st)
            self.check(f, n, 'map', R not in v.k, 'stores a register position as a position in the sub-register it is kept for')
            want = {('o',) + x for x in v.o}
            if key and want:
                self.check(f, n, 'mapsame', bool(want & self.members(st, key)), 'stores a position under a sub-register that is not known to hold it')

    def drop(self, st, d):
        for x in [x for x in st.v if isinstance(x, tuple) and x[0] == d]:
            del st.v[x]

    def element(self, st, d, v):
        """which unit all elements of a container of positions belong to"""
        if U not in v.k:
            return
        y = ('o', d, True)
        mem = self.members(st, frozenset(('o',) + x for x in v.o if x != (d, True)))
        us = frozenset(x for x in mem if x[0] == 'u')
        if not st.v.get(d, NONE).k:
            st.same = [z for z in (z - {y} for z in st.same) if len(z) > 1]
            if us:
                st.same.append(us | {y})
        else:
            st.same = [z for z in (z if z & us else z - {y} for z in st.same) if len(z) > 1]

    def is_range_ref(self, f, t):
        return t.get('rt') or False

    # ---- calls
    def remap(self, st, args_keep=()):
        for d, v in st.v.items():
            if U in v.k:
                st.v[d] = Val((v.k - {U}) | {S}, v.o)

    def call(self, f, n, st, ctx):
        p = self.p
        op = n.op
        if op == '[]' and n.o is not None:
            b = deref(n.o)
            ix = self.ev(f, n.c[0], st, ctx)
            bb = self.ev(f, n.o, st, ctx)
            if b is not None and b.k == 'mem' and b.name == 'shards':
                ok = not (U in ix.k or S in ix.k)
                self.check(f, n, 'shards', ok, 'selects register data with a sub-register position')
                return NONE
            if b is not None and 'map<' in b.type and unit_type(n.c[0].type):
                # one entry per unit
                uk = self.unit_key(f, n.c[0], st)
                return Val(bb.k, frozenset(x[1:] for x in uk if x[0] == 'o')) if uk else bb
            j = const_int(n.c[0])
            if b is not None and b.k == 'ref' and (b.decl, j) in st.v:
                return Val(bb.k, st.v[(b.decl, j)].o)
            return bb
        if op == '->' or op == '*':
            return self.ev(f, n.o, st, ctx)
        if op == '=' and n.o is not None:
            v = self.ev(f, n.c[0], st, ctx)
            t = skip(n.o)
            if t.k == 'ref' and unit_type(t.type):
                st.same = [z for z in (z - {('u', t.decl)} for z in st.same) if len(z) > 1]
                self.bind(f, t.decl, n.c[0], st)
                return NONE
            if t.k == 'ref' and t.get('dk') in ('local', 'parm'):
                self.point(f, t.decl, n.c[0], st)
                st.v[t.decl] = v
                return v
            return self.assign(f, n, n.o, v, '=', st, ctx)
        if op and op not in ('()',) and n.o is not None or op in ('==', '!=', '<', '>', '+', '-', '<<', '>>', '&', '|', '^', '|=', '&=', '+=', '++', '--'):
            vs = ([self.ev(f, n.o, st, ctx)] if n.o is not None else []) + [self.ev(f, x, st, ctx) for x in n.c]
            if op in ('==', '!=', '<', '>') and len(vs) == 2:
                self.compare(f, n, vs[0], vs[1])
                return NONE
            if op in ('+', '|', '^', '&', '<<', '>>', '++', '--', '*'):
                r = NONE
                for v in vs:
                    r = r.join(v)
                return r
            if op in ('|=', '+=', '^=') and n.o is not None:
                return self.assign(f, n, n.o, vs[1], op, st, ctx)
            return vs[0] if vs else NONE
        name = n.name or ''
        # pure helpers
        if n.o is None and name in ('pow2', 'pow2Ocl', 'log2', 'log2Ocl', 'min', 'max', 'bitSlice', 'abs', 'bi_and_1'):
            r = NONE
            for x in n.c:
                r = r.join(self.ev(f, x, st, ctx))
            return r if name != 'bi_and_1' else NONE
        if n.o is None and name in ('bi_or_ip', 'bi_xor_ip', 'bi_add_ip'):
            v = self.ev(f, n.c[1], st, ctx)
            t = skip(n.c[0])
            if t.k == 'un' and t.op == '&':
                self.entry_of(f, n, t.c[0], v, st)
                self.assign(f, None, t.c[0], v.join(self.peek(f, t.c[0], st)), '=', st, ctx)
            return NONE
        if n.o is None and name in ('copy', 'copy_n') and len(n.c) >= 3:
            v = self.ev(f, n.c[0], st, ctx)
            b = [x for x in n.c[2].walk() if x.k == 'ref' and x.get('dk') in ('local', 'parm')]
            for x in b[:1]:
                st.v[x.decl] = st.v.get(x.decl, NONE).join(v)
            return NONE
        if n.o is None and name == 'swap' and len(n.c) == 2:
            a, b = self.ev(f, n.c[0], st, ctx), self.ev(f, n.c[1], st, ctx)
            ta = skip(n.c[0])
            if is_shard_type(ta.type):
                return NONE
            self.assign(f, None, n.c[0], b.join(a), '=', st, ctx)
            self.assign(f, None, n.c[1], a.join(b), '=', st, ctx)
            return NONE
        if n.o is None and name in ('sort', 'reverse', 'random_shuffle', 'shuffle', 'iter_swap', 'rotate', 'unique', 'stable_sort'):
            for x in n.walk():
                if x.k == 'ref':
                    self.drop(st, x.decl)
        # containers
        if n.o is not None and not n.get('fid', '').startswith('_ZN5Qrack') and not n.get('fid', '').startswith('_ZNK5Qrack') and op != '()' and n.ind is None:
            b = deref(n.o)
            bv = self.ev(f, n.o, st, ctx)
            vs = [self.ev(f, x, st, ctx) for x in n.c]
            if name in ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front') and vs:
                if b is not None and b.k == 'call':
                    self.entry_of(f, n, b, vs[-1], st)
                while b is not None and b.k == 'call' and b.op == '[]':
                    b = deref(b.o)
                if b is not None and b.k == 'ref':
                    self.point(f, b.decl, n.c[-1], st)
                    self.element(st, b.decl, vs[-1])
                    self.drop(st, b.decl)
                    st.v[b.decl] = st.v.get(b.decl, NONE).join(vs[-1])
                return NONE
            if name in ('clear',) and b is not None and b.k == 'ref':
                st.v.pop(b.decl, None)
                return NONE
            if name in ('begin', 'end', 'front', 'back', 'at', 'find', 'data', 'cbegin', 'cend', 'rbegin', 'rend', 'top'):
                return bv
            return NONE
        # a callable handed in by the caller
        if op == '()' and n.o is not None and deref(n.o) is not None and deref(n.o).k == 'ref' and deref(n.o).get('dk') == 'parm':
            vs = [self.ev(f, x, st, ctx) for x in n.c]
            self.lamargs[(f.id, deref(n.o).decl)].append((vs, [self.unit_same(f, x, st) for x in n.c], n))
            return NONE
        vs = [self.ev(f, x, st, ctx) for x in n.c]
        if n.o is not None:
            self.ev(f, n.o, st, ctx)
        if n.ind is not None:
            return self.unitcall(f, n, n.ind, vs, None, st, ctx)
        tgt = self.own(n)
        o = deref(n.o) if n.o is not None else None
        if o is not None and o.k == 'cast' and o.c:
            o = deref(o.c[0])
        isthis = n.o is not None and (o is None or o.k == 'this' or is_ptr_to(o.type, CLASSES) and not (o.k == 'mem' and o.name == 'unit'))
        params = self.params(n)
        if isthis or (n.o is None and tgt):
            return self.owncall(f, n, tgt, vs, params, st, ctx, o is None or o.k == 'this')
        if n.o is not None and self.is_unit(n.o):
            return self.unitcall(f, n, n.o, vs, params, st, ctx)
        return NONE

    def unit_same(self, f, x, st):
        k = self.unit_key(f, x, st) if unit_type(x.type) else None
        return self.members(st, k) if k else EMPTY

    def is_unit(self, o):
        b = deref(o)
        while b is not None and b.k == 'call' and b.name in ('dynamic_pointer_cast', 'static_pointer_cast') and b.c:
            b = deref(b.c[0])
        if b is None:
            return False
        t = b.type
        return any(x in t for x in ('QInterface', 'QStabilizer', 'QParity', 'QAlu')) and 'QUnit' not in t and 'vector' not in t

    def params(self, n):
        fid = n.get('fid')
        if fid in self.p.fns:
            f = self.p.fns[fid]
            return [(x['n'], self.p.types[x['t']]) for x in f.params]
        mc = self.p.method_cls.get(fid)
        if mc:
            return [(x['n'], x.get('tn') or self.ptype(mc, x)) for x in mc[1].get('params', ())]
        return None

    def ptype(self, mc, x):
        return self.p.types[x['t']] if isinstance(x.get('t'), int) and 0 <= x['t'] < len(self.p.types) else ''

    def owncall(self, f, n, tgt, vs, params, st, ctx, onthis):
        p = self.p
        if params:
            for i, (pn, pt) in enumerate(params):
                if i >= len(vs):
                    break
                k = kind_of(n.c[i].type if n.c[i].k != 'ctor' else pt, pn) or kind_of(pt, pn)
                if k in ('bit', 'bits', 'ptrs', 'mask'):
                    ok = not (U in vs[i].k or S in vs[i].k)
                    if k == 'ptrs':
                        for c in self.pointees(f, n.c[i], st):
                            ok = ok and not (st.v.get(c, NONE).k & {U, S})
                    self.check(f, n, 'own%d' % i, ok, 'passes a sub-register position as %s of %s, which takes a register position' % (pn, n.name))
        # lambdas
        for i, x in enumerate(n.c):
            for lam in self.lambdas_in(x):
                self.runlam(f, n, i, lam, tgt, vs, st, ctx)
        ret = NONE
        if n.type in ('unsigned char', 'uint8_t', 'bitLenInt'):
            ret = Val(frozenset((R,)))
        if onthis:
            unitret = unit_type(n.type) and tgt
            origins = EMPTY
            if unitret:
                origins = self.entangled(f, n, vs, params, st)
        whole = EMPTY
        if n.name == 'OrderContiguous' and n.c:
            whole = self.members(st, self.unit_key(f, n.c[0], st) or EMPTY)
        if onthis:
            if any(t in self.remaps for t in tgt):
                if not unitret:
                    st.same = [frozenset(z) for z in st.same if False]
                self.remap(st)
            if unitret and origins:
                st.same.append(frozenset({('o',) + x for x in origins} | {('call', n.i)}))
        # a unit that holds the whole register, put into register order, has the positions of the register
        if n.name == 'EntangleAll' and tgt:
            st.same.append(frozenset({('call', n.i), ('whole',)} | ({('id',)} if all(self.orders(t) for t in tgt) else EMPTY)
                                     | ({('o', '#0', False)} if onthis else EMPTY)))
        if ('whole',) in whole:
            st.same.append(whole | {('id',)})
        outs = {}
        for t in tgt:
            for i, v in self.outs(t).items():
                outs[i] = outs.get(i, NONE).join(self.translate(v, p.fns[t], vs, f, n, st))
        for i, v in outs.items():
            if i >= len(n.c):
                continue
            x = skip(n.c[i])
            if x.k == 'un' and x.op == '&':
                x = skip(x.c[0])
            b = deref(x)
            while b is not None and b.k == 'ctor' and b.c:
                b = deref(b.c[0])
            if b is not None and b.k == 'call' and b.name in ('begin', 'end') and b.o is not None:
                b = deref(b.o)
            if b is None or b.k != 'ref':
                continue
            old = st.v.get(b.decl, NONE)
            cs = self.targets_of(st, b.decl) | {b.decl}
            for c in cs:
                o = st.v.get(c, NONE)
                if kind_of(b.type, 'x') == 'ptrs':
                    st.v[c] = Val(v.k or o.k, o.o)
                else:
                    st.v[c] = v
        return ret

    def orders(self, t):
        return any(x.name == 'OrderContiguous' for x in self.p.fns[t].calls())

    def pointees(self, f, x, st):
        b = deref(x)
        while b is not None and b.k == 'ctor' and b.c:
            b = deref(b.c[0])
        if b is not None and b.k == 'call' and b.name in ('begin', 'end') and b.o is not None:
            b = deref(b.o)
        if b is not None and b.k == 'ref':
            return self.targets_of(st, b.decl) | {b.decl}
        return ()

    def entangled(self, f, n, vs, params, st):
        out = set()
        for i, v in enumerate(vs):
            if kind_of(n.c[i].type, 'x') or (params and i < len(params) and kind_of(params[i][1], params[i][0])):
                out |= v.o
                for c in self.pointees(f, n.c[i], st):
                    out |= st.v.get(c, NONE).o
        return frozenset(out)

    def translate(self, v, g, vs, f, n, st):
        o = set()
        ix = {x['d']: i for i, x in enumerate(g.params)}
        for d, e in v.o:
            if d in ix and ix[d] < len(vs):
                o |= vs[ix[d]].o
        return Val(v.k, frozenset(o))

    def lambdas_in(self, x):
        x = skip(x)
        out = []
        while x is not None and x.k == 'ctor' and x.c:
            x = skip(x.c[0])
        if x is not None and x.k == 'lambda':
            g = self.p.fns.get(x.get('fid'))
            if g is not None:
                out.append(g)
        return out

    def runlam(self, f, n, i, lam, tgt, vs, st, ctx):
        """a lambda handed to a helper is analysed with what the helper passes to it"""
        for t in tgt:
            g = self.p.fns[t]
            if i >= len(g.params):
                continue
            key = (t, g.params[i]['d'])
            if key not in self.lamargs:
                self.lamargs[key] = []
                self.quiet += 1
                self.run(g)
                self.quiet -= 1
            ix = {x['d']: j for j, x in enumerate(g.params)}
            for u in self.lamargs[key]:
                init = State(st.v, st.same, st.pt, st.nul)
                for d in list(init.v):
                    if U in init.v[d].k:
                        init.v[d] = Val((init.v[d].k - {U}) | {S}, init.v[d].o)
                for j, x in enumerate(lam.params):
                    init.v[x['d']] = self.translate(u[0][j], g, vs, f, n, st) if j < len(u[0]) else NONE
                    if unit_type(self.p.types[x['t']]):
                        mem = set()
                        for y in (u[1][j] if j < len(u[1]) else ()):
                            if y[0] == 'o' and y[1] in ix and ix[y[1]] < len(vs):
                                mem |= {('o',) + z for z in vs[ix[y[1]]].o}
                        if mem:
                            init.same.append(frozenset(mem | {('u', x['d'])}))
                self.run(lam, init)

    def members(self, st, key):
        out = set(key)
        ch = True
        while ch:
            ch = False
            for z in st.same:
                if z & out and not z <= out:
                    out |= z
                    ch = True
        return frozenset(out)

    def unitcall(self, f, n, o, vs, params, st, ctx):
        name = n.name or 'member function'
        key = self.unit_key(f, o, st) if n.ind is None else self.ind_key(f, n, st)
        mem = self.members(st, key) if key else EMPTY
        idx = []
        for i, v in enumerate(vs):
            pn, pt = params[i] if params and i < len(params) else ('', n.c[i].type)
            k = kind_of(pt, pn) if params else None
            if 'int128' in pt and (v.k or pn.strip('_') in MASKS):
                k = 'mask'
            if k in ('bit', 'bits', 'mask') or not params and v.k:
                sc = skip(n.c[i])
                const = const_int(n.c[i]) is not None
                bad = None
                if R in v.k and ('id',) not in mem:
                    bad = 'gets a register position'
                elif S in v.k:
                    bad = 'gets a sub-register position looked up before qubits may have moved'
                self.check(f, n, 'unit%d' % i, bad is None, 'sub-register operation %s(%s) %s' % (name, pn, bad))
                if U in v.k:
                    idx.append((i, pn, k, v))
                    # in the unit it is used on
                    want = {('o',) + x for x in v.o}
                    if want and key:
                        ok = bool(want & mem)
                        self.check(f, n, 'same%d' % i, ok, 'sub-register operation %s(%s) gets a position in a sub-register that is not known to be '
                                                          'the one it is called on' % (name, pn))
        for a in range(len(idx)):
            for b in range(a):
                x, y = idx[a], idx[b]
                if x[2] == 'bit' and y[2] == 'bit':
                    ok = not (len(x[3].o) == 1 and x[3].o == y[3].o and not list(x[3].o)[0][1])
                    self.check(f, n, 'dup%d.%d' % (y[0], x[0]), ok, 'sub-register operation %s gets the same qubit as %s and %s' % (name, y[1], x[1]))
        # roles
        root = self.p.root_of(f)
        rp = {x['n']: x['d'] for x in root.params if kind_of(self.p.types[x['t']], x['n'])}
        rd = {d: m for m, d in rp.items()}
        if name not in SYM:
            for i, pn, k, v in idx:
                from_params = {rd[d] for d, e in v.o if d in rd}
                if pn in rp and from_params:
                    self.check(f, n, 'role%d' % i, pn in from_params, 'sub-register operation %s gets %s as %s' % (name, ', '.join(sorted(from_params)), pn))
        if name in ('Swap',):
            return NONE
        if n.type in ('unsigned char', 'uint8_t', 'bitLenInt'):
            return Val(frozenset((U,))) if 'Compose' not in name and 'GetQubitCount' not in name else NONE
        return NONE

    def ind_key(self, f, n, st):
        x = skip(n.ind)
        for y in x.walk():
            k = self.unit_key(f, y, st) if unit_type(y.type) or y.k == 'call' and y.name == 'dynamic_pointer_cast' else None
            if k:
                return k
        return None


def is_ptr_to(t, classes):
    return any(c.split('::')[-1] in t.replace('QUnitCliffordPtr', 'QUnitClifford').replace('QUnitPtr', 'QUnit') for c in classes)


def run(rep, ctx):
    p = ctx.program()
    A = Units(p, rep)
    rep.rule('index space', 'sub-register operations get positions in that sub-register; register data and operations of the layer get '
                            'register positions')
    rep.rule('current', 'a sub-register position is not used after an operation of the layer that may have moved qubits')
    rep.rule('unit', 'the sub-register that performs an operation is the one that holds its operands')
    rep.rule('roles', 'operands reach the sub-register operation in the roles they have in the layer\'s operation, none of them twice')
    for f in sorted(A.fns, key=lambda f: f.id):
        if f.body is None:
            continue
        A.run(f)
    rules = {'shards': 'index space', 'mapped': 'index space', 'map': 'index space', 'entry': 'index space', 'mapsame': 'unit', 'compare': 'index space', 'own': 'index space', 'unit': 'index space', 'same': 'unit',
             'dup': 'roles', 'role': 'roles'}
    seen = collections.Counter()
    for (fid, i, what), (ok, f, n, text) in sorted(A.sinks.items(), key=lambda x: (x[1][1].loc(x[1][2]), x[0][2])):
        r = rules[what.rstrip('0123456789.')]
        if 'looked up before' in text:
            r = 'current'
        root = p.root_of(f)
        k = '%s %s %s %s' % (root.q.replace('Qrack::', ''), what, n.name or n.k, show(n)[:60])
        seen[k] += 1
        rep.check(r, ok, k + ('' if seen[k] == 1 else ' #%d' % seen[k]), f.loc(n), '%s: %s' % (root.q.replace('Qrack::', ''), text))
    cnt = collections.Counter(w.rstrip('0123456789.') for (x, i, w) in A.sinks)
    rep.floor('indices', len(A.sinks), 200)
    rep.note('methods analysed: %d; obligations: %s' % (len(A.fns), dict(cnt)))
