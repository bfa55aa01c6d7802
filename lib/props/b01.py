"""B01: qubit indices, ranges and masks are checked against the register before they select memory.

For each simulator class every public operation is analysed as the class runs it (virtual calls on itself resolved).  A sink is a
subscript or iterator offset of a member container, or an amplitude index, that depends on a caller's argument.  On every path to
a sink the arguments it depends on have been compared with the register size (facts from throwing guards, from helpers that
guarantee it on return, from loops that check every element)."""
from ir import *
import asyncq
import mutate

# arguments that are no qubit numbers: the root of a phase gate
NUMBERS = {('PhaseRootNMask', 0)}
CLASSES = ['Qrack::QEngineCPU', 'Qrack::QStabilizer', 'Qrack::QUnit', 'Qrack::QUnitClifford', 'Qrack::QBdt', 'Qrack::QTensorNetwork',
           'Qrack::QStabilizerHybrid', 'Qrack::QPager']
SIZES = ('qubitCount', 'maxQPower', 'maxQPowerOcl', 'GetQubitCount', 'GetMaxQPower')
POWERS = ('pow2Ocl', 'pow2', 'pow2MaskOcl', 'pow2Mask', 'bitRegMask', 'bitRegMaskOcl', 'bitSlice', 'bitSliceOcl')
SVOPS = {'read': (0,), 'write': (0,), 'read2': (0, 1), 'write2': (0, 2)}


class Bounds(object):
    def __init__(self, p):
        self.p = p
        self.M = mutate.Mutate(p, CLASSES, None)
        self.sums = {}
        self.dcache = {}
        self.nsink = 0
        self.pushes = {}

    # ------------------------------------------------------------- definitions
    def defs(self, f):
        """decl -> [expressions assigned], over the function and its lambdas"""
        r = self.p.root_of(f) if f.lam else f
        if r.id in self.dcache:
            return self.dcache[r.id]
        D = {}
        rng = {}
        ctr = {}
        for g in asyncq.family(self.p, r):
            for n in g.all_nodes():
                if n.k == 'var' and n.decl is not None:
                    if n.p is not None and n.p.k == 'decl' and n.p.p is not None and n.p.p.k == 'forrange' or n.p is not None and n.p.k == 'forrange':
                        fr = n.p if n.p.k == 'forrange' else n.p.p
                        rng[n.decl] = fr.c[0]
                        continue
                    D.setdefault(n.decl, [])
                    if n.c and n.c[0] is not None:
                        D[n.decl].append(n.c[0])
                elif n.k == 'asg' and skip(n.c[0]).k == 'ref':
                    D.setdefault(skip(n.c[0]).decl, []).append(n.c[1])
                elif n.k == 'call' and n.op in ('=', '|=', '&=', '+=', '^=', '<<=', '-=') and n.o is not None and skip(n.o).k == 'ref' and n.c:
                    if n.op not in ('&=',):
                        D.setdefault(skip(n.o).decl, []).append(n.c[0])
                elif n.k == 'call' and n.name in ('bi_or_ip', 'bi_add_ip', 'bi_xor_ip', 'bi_lshift_ip') and n.c and skip(n.c[0]).k == 'un' and skip(skip(n.c[0]).c[0]).k == 'ref':
                    D.setdefault(skip(skip(n.c[0]).c[0]).decl, []).append(n.c[1])
                elif n.k == 'call' and n.name in ('push_back', 'emplace_back', 'insert') and n.o is not None and skip(n.o).k == 'ref' and n.c:
                    D.setdefault(skip(n.o).decl, []).append(n.c[-1])
                    if n.name != 'insert' and g is r:
                        self.pushes.setdefault(r.id, {}).setdefault(skip(n.o).decl, []).append((n, n.c[-1]))
                elif n.k == 'call' and n.name in ('copy', 'transform') and len(n.c) >= 3:
                    d = begin_of(n.c[2])
                    s = begin_of(n.c[0])
                    if d is not None and s is not None:
                        D.setdefault(d, []).append(skip(n.c[0]))
                elif n.k == 'for' and n.c[0] is not None:
                    for v in n.c[0].walk():
                        if v.k == 'var' and n.c[1] is not None:
                            ctr.setdefault(v.decl, []).append(n.c[1])
                # an element stored: v[i] = e
                if n.k == 'asg' or n.k == 'call' and n.op in ('=', '|=', '+=') and n.o is not None and n.c:
                    t = skip(n.c[0] if n.k == 'asg' else n.o)
                    b = t
                    while b is not None and (b.k == 'idx' or b.k == 'call' and b.op == '[]'):
                        b = skip(b.c[0] if b.k == 'idx' else b.o)
                    if b is not None and b is not t and b.k == 'ref':
                        D.setdefault(b.decl, []).append(n.c[1] if n.k == 'asg' else n.c[0])
        self.dcache[r.id] = (D, rng, ctr)
        return self.dcache[r.id]

    # ------------------------------------------------------------- bounded?
    def need(self, f, e, facts, params, depth=0, seen=frozenset()):
        """parameters of the function that e depends on without a bound; [] when e is bounded"""
        e = skip(e)
        if e is None or depth > 40:
            return set()
        if e.get('v') is not None and e.k != 'ref':
            return set()
        rec = lambda x: self.need(f, x, facts, params, depth + 1, seen)
        if e.k == 'ref':
            d = e.decl
            if d in facts:
                return set()
            if d in params:
                return {d}
            if d in seen or d is None:
                return set()
            D, rng, ctr = self.defs(f)
            s2 = seen | {d}
            out = set()
            if d in rng:
                out |= self.need(f, rng[d], facts, params, depth + 1, s2)
            for x in D.get(d, ()):
                out |= self.need(f, x, facts, params, depth + 1, s2)
            for c in ctr.get(d, ()):
                for a, t in cond_atoms(c, True):
                    b = cmp_of(a)
                    if b and b[0] in ('<', '<=', '!=') and skip(b[1]).k == 'ref' and skip(b[1]).decl == d:
                        if is_size(b[2]):
                            return set()
                        if not self.is_count(b[2]):
                            f2 = facts | {x[1] for x in facts if isinstance(x, tuple) and x[0] == 'le'} if b[0] == '<' else facts
                            if self.leans(b[2], f2) and not self.need(f, b[2], f2, params, depth + 1, s2):
                                return set()    # counts up to something bounded
                            out |= self.need(f, b[2], facts, params, depth + 1, s2)
            return out
        if e.k in ('lit', 'str', 'this', 'nullptr', 'sizeof', 'lambda', 'mem'):
            if e.k == 'mem' and e.c and e.c[0] is not None and skip(e.c[0]).k != 'this' and 'fid' not in e.a:
                return set()
            return set()
        if e.k == 'bin':
            a, b = e.c[0], e.c[1]
            if e.op == '&':
                na, nb = rec(a), rec(b)
                return na | nb if na and nb else set()
            if e.op in ('%',):
                return rec(b)
            if e.op in ('>>', '/', '-'):
                return rec(a)
            if e.op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return set()
            return rec(a) | rec(b)
        if e.k == 'un':
            if e.op in ('!',):
                return set()
            return rec(e.c[0])
        if e.k == 'cond':
            return rec(e.c[1]) | rec(e.c[2])
        if e.k == 'idx' or e.k == 'call' and e.op == '[]':
            base = e.c[0] if e.k == 'idx' else e.o
            s = skip(base)
            if s.k == 'ref':
                return rec(s)
            return set()    # an element of a member table
        if e.k in ('ctor', 'initlist'):
            out = set()
            for x in e.c:
                if x is not None:
                    out |= rec(x)
            return out
        if e.k == 'call':
            if e.name in ('size', 'length', 'empty', 'count', 'find', 'log2', 'log2Ocl') and e.o is not None:
                return set()
            if e.name in ('begin', 'end', 'rbegin', 'back', 'front', 'data', 'get', 'c_str', 'cbegin', 'at') and e.o is not None:
                return rec(e.o)
            if e.op in ('&',) and e.o is not None and e.c:
                na, nb = rec(e.o), rec(e.c[0])
                return na | nb if na and nb else set()
            if e.op in ('>>', '/', '-', '++', '--', '->', '*') and e.o is not None and (e.op not in ('*',) or not e.c):
                return rec(e.o)
            if e.name in ('min',):
                na = [rec(x) for x in e.c if x is not None]
                return set() if any(not x for x in na) else set().union(*na)
            if e.op or (e.name or '') in ('pow2', 'pow2Ocl', 'pow2Mask', 'pow2MaskOcl', 'bitRegMask', 'bitRegMaskOcl', 'bitSlice', 'bitSliceOcl', 'log2', 'log2Ocl', 'max',
                                          'move', 'forward', 'pow2Gpu') or (e.name or '').startswith('operator '):
                out = set()
                for x in ([e.o] if e.o is not None else []) + list(e.c):
                    if x is not None:
                        out |= rec(x)
                return out
            return set()    # results of other calls: not the caller's number any more
        out = set()
        for x in e.kids():
            if x is not None:
                out |= rec(x)
        return out

    def is_count(self, e):
        e = skip(e)
        return e is not None and e.k == 'call' and e.name in ('size',)

    # ------------------------------------------------------------- sinks
    def container(self, f, n):
        """a member of this that holds per-qubit, per-page or per-amplitude data"""
        x = skip(n)
        D = None
        for _ in range(6):
            if x is None:
                return None
            if x.k == 'mem' and 'fid' not in x.a and (not x.c or x.c[0] is None or skip(x.c[0]).k == 'this'):
                return x.name
            if x.k == 'idx' or x.k == 'call' and x.op == '[]':
                x = skip(x.c[0] if x.k == 'idx' else x.o)
                continue
            if x.k == 'call' and x.op in ('->', '*') and not x.c:
                x = skip(x.o)
                continue
            if x.k == 'call' and x.name in ('get', 'begin', 'data', 'rbegin') and x.o is not None:
                x = skip(x.o)
                continue
            if x.k == 'ref' and x.get('dk') == 'local':
                D, rng, ctr = self.defs(f)
                es = D.get(x.decl, [])
                if x.decl in rng:
                    x = skip(rng[x.decl])
                    continue
                if len(es) == 1:
                    x = skip(es[0])
                    continue
            return None
        return None

    def sinks(self, g):
        """(node, [index expressions], what) in one function body"""
        for n in g.all_nodes():
            if n.k == 'idx' or n.k == 'call' and n.op == '[]' and n.o is not None:
                b = n.c[0] if n.k == 'idx' else n.o
                ty = self.p.types[skip(b).get('t')] if isinstance(skip(b).get('t'), int) else ''
                if 'map<' in ty:
                    continue
                m = self.container(g, b)
                if m is not None:
                    yield n, [n.c[-1]], m
            elif n.k == 'call' and n.op in ('+', '-') and n.o is not None and n.c or n.k == 'bin' and n.op == '+':
                o = skip(n.o if n.k == 'call' else n.c[0])
                if o is not None and o.k == 'call' and o.name in ('begin', 'get', 'end') and o.o is not None:
                    m = self.container(g, o.o)
                    if m is not None:
                        yield n, [n.c[-1]], m
            elif n.k == 'call' and n.name in POWERS and n.o is None and self.powcls(g):
                one = n.name in ('pow2', 'pow2Ocl') and len(n.c) == 1 and skip(n.c[0]) is not None and skip(n.c[0]).k == 'ref'
                yield n, [x for x in n.c if x is not None], 'the power of two' if one else 'a power of two'
            elif n.k == 'bin' and n.op == '<<' and self.powcls(g):
                yield n, [n.c[1]], 'a shift'
            elif n.k == 'call' and n.name in SVOPS and n.o is not None:
                o = skip(n.o)
                ty = n.get('cls') or ''
                if 'StateVector' in ty:
                    yield n, [n.c[i] for i in SVOPS[n.name] if i < len(n.c)], 'stateVec'

    def powcls(self, g):
        r = self.p.root_of(g) if g.lam else g
        return r.cls in CLASSES

    # ------------------------------------------------------------- facts
    def atom_facts(self, f, a, v, st=frozenset()):
        """declarations bounded by the atom being v"""
        a = skip(a)
        while a is not None and a.k == 'call' and (a.name or '').startswith('operator bool'):
            a = skip(a.o)
        if a is None:
            return set()
        if a.k == 'call' and a.name in ('size', 'empty') and a.o is not None and v is (a.name == 'empty'):
            return self.vars_of(f, a.o)    # nothing in it
        if a.k == 'call' and a.name in ('isBadBitRange', 'isBadPermRange') and v is False and len(a.c) == 3 and is_size(a.c[2]):
            return self.vars_of(f, a.c[0]) | self.vars_of(f, a.c[1])
        c = cmp_of(a)
        if c is None:
            return set()
        op, l, r = c
        if not v:
            op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
        if is_size(l) and not is_size(r):
            l, r = r, l
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        if is_size(r):
            if op == '<':
                return self.vars_of(f, l)
            if op == '!=':
                return {d for d in self.vars_of(f, l) if ('le', d) in st}
            if op == '<=':
                out = set()
                x = skip(l)
                # start + length <= qubitCount
                if x.k == 'bin' and x.op == '+':
                    return self.vars_of(f, x.c[0]) | self.vars_of(f, x.c[1])
                return {('le', d) for d in self.vars_of(f, l)}
        for x, y, o in ((l, r, op), (r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op])):
            # below something that is itself bounded
            if o in ('<', '<=') and self.leans(y, st) and not self.need(f, y, st, {d: 0 for d in self.pdecls(f)}):
                return self.vars_of(f, x)
        return set()

    def blank(self, e):
        e = skip(e)
        return e is not None and e.k in ('ctor', 'initlist') and not [x for x in e.c if x is not None and x.k != 'defarg']

    def leans(self, e, st):
        return any(x.k == 'ref' and x.decl in st or is_size(x) for x in e.walk())

    def pdecls(self, f):
        r = self.p.root_of(f) if f.lam else f
        return [a['d'] for a in r.params]

    def vars_of(self, f, e):
        e = skip(e)
        while e is not None and e.k in ('ctor', 'cast') and len([x for x in e.c if x is not None]) == 1:
            e = skip(e.c[-1])
        if e is not None and e.k == 'ref' and e.decl is not None:
            out = {e.decl}
            D, rng, ctr = self.defs(f)
            es = D.get(e.decl, [])
            if len(es) == 1:
                x = skip(es[0])
                if x.k == 'ref' and x.decl is not None:
                    out |= self.vars_of(f, x)
            return out
        if e is not None and e.k == 'call' and e.name in ('log2', 'pow2', 'pow2Ocl') and e.c:
            return self.vars_of(f, e.c[0])
        return set()

    def loopcheck(self, f, n):
        """vector whose every element a finished loop has checked"""
        body = n.c[-1]
        if n.k == 'forrange':
            v = skip(n.c[0])
            el = None
            for x in n.walk():
                if x.k == 'var':
                    el = x.decl
                    break
            if v is None or v.k != 'ref' or el is None or body is None:
                return set()
            match = lambda l: skip(l).k == 'ref' and skip(l).decl == el
            vec = v.decl
        elif n.k == 'for' and n.c[0] is not None and n.c[1] is not None:
            ctr = [x.decl for x in n.c[0].walk() if x.k == 'var']
            c = cmp_of(skip(n.c[1]))
            if not ctr or c is None or c[0] not in ('<', '!=') or skip(c[2]).k != 'call' or skip(c[2]).name != 'size':
                return set()
            o = skip(skip(c[2]).o)
            if o is None or o.k != 'ref':
                return set()
            vec = o.decl

            def match(l):
                l = skip(l)
                if l.k == 'ref':
                    D, rng, c2 = self.defs(f)
                    es = D.get(l.decl, [])
                    if len(es) == 1:
                        l = skip(es[0])
                return l.k == 'call' and l.op == '[]' and skip(l.o).k == 'ref' and skip(l.o).decl == vec and skip(l.c[-1]).k == 'ref' and skip(l.c[-1]).decl == ctr[0]
        else:
            return set()
        for s in body.walk():
            if s.k == 'if' and s.c[3] is None and s.c[2] is None:
                continue
            if s.k == 'if':
                for a, v in cond_atoms(s.c[2], False):
                    c = cmp_of(skip(a))
                    if c and c[0] == '>=' and not v and match(c[1]) and is_size(c[2]) and s.c[3] is not None and any(x.k == 'throw' for x in s.c[3].walk()):
                        # unconditional: directly in the loop body
                        if s.p is body or s is body:
                            return {vec}
            if s.k == 'call' and s.name and s.o is None or s.k == 'call' and s.o is not None and skip(s.o).k == 'this':
                # a helper that guarantees its argument, called on the element
                for t in self.p.targets(s):
                    g = self.p.fns.get(t)
                    if g is None or g.body is None or not s.c:
                        continue
                    if s.p is body and g.name.startswith(('ThrowIf', 'Check')):
                        gu = self.summary(g, self.dyn)[1]
                        for k in gu:
                            if k < len(s.c) and match(s.c[k]):
                                return {vec}
        return set()

    # ------------------------------------------------------------- per function
    def resolve(self, n, dyn):
        """functions a call on this object reaches"""
        if n.get('fid') is None:
            return []
        fid = n.get('fid')
        if n.get('virt') and not n.get('qualcall'):
            fid = self.M.final(dyn, fid)
        g = self.p.fns.get(fid)
        return [g] if g is not None and g.body is not None else []

    def onself(self, n):
        return n.k == 'call' and (n.o is None and True or n.o is not None and skip(n.o).k == 'this')

    def summary(self, f, dyn):
        """({param index: (where, what)} required, {param index} guaranteed on return)"""
        key = (f.id, dyn)
        if key in self.sums:
            return self.sums[key] or ({}, set())
        self.sums[key] = None
        try:
            r = self.compute(f, dyn)
        except RecursionError:
            r = ({}, set())
        self.sums[key] = r
        return r

    def compute(self, f, dyn):
        p = self.p
        params = {a['d']: i for i, a in enumerate(f.params)}
        pdecl = {i: d for d, i in params.items()}
        fam = asyncq.family(p, f)
        lams = {g.id: g for g in fam if g is not f}

        def guarantees(n):
            out = set()
            if n.k == 'call' and n.name == 'ThrowIfQbIdArrayIsBad' and len(n.c) >= 2 and is_size(n.c[1]):
                return self.vars_of(f, n.c[0])
            if n.k == 'call' and self.onself(n):
                for g in self.resolve(n, dyn):
                    if g is f:
                        continue
                    req, gu = self.summary(g, dyn)
                    for k in gu:
                        if k < len(n.c) and n.c[k] is not None:
                            out |= self.vars_of(f, n.c[k])
                            x = skip(n.c[k])
                            while x is not None and x.k in ('ctor', 'cast') and len([y for y in x.c if y is not None]) == 1:
                                x = skip(x.c[-1])
                            if x is not None and x.k in ('initlist', 'ctor'):
                                for y in x.walk():
                                    if y.k == 'ref':
                                        out |= self.vars_of(f, y)
            return out

        def transfer(st, n):
            g = guarantees(n)
            if g:
                st = st | g
            # a variable that is overwritten: bounded when the new value is
            if n.k == 'asg' and skip(n.c[0]).k == 'ref' and skip(n.c[0]).decl is not None:
                d = skip(n.c[0]).decl
                if n.op == '=':
                    if skip(n.c[1]).get('v') is None and not self.need(f, n.c[1], st, params):
                        st = st | {d}
                    elif d in st:
                        st = st - {d}
                elif n.op == '%=' and self.leans(n.c[1], st) and not self.need(f, n.c[1], st, params):
                    st = st | {d}
                elif d in st and n.op not in ('-=', '>>=', '&=', '%=', '/='):
                    if self.need(f, n.c[1], st, params):
                        st = st - {d}
            return frozenset(st)

        def edge(st, b, i):
            if len(b.s) == 2:
                tn = f.nodes[b.term] if isinstance(b.term, int) and b.term >= 0 else None
                if i == 1 and tn is not None and tn.k in ('forrange', 'for'):
                    st = st | self.loopcheck(f, tn)
                for a, v in edge_atoms(f, b, i):
                    x = skip(a)
                    if x is not None and x.k == 'ref' and x.decl in bools:
                        if v:
                            st = st | {y[2] for y in st if isinstance(y, tuple) and y[0] == 'if' and y[1] == x.decl}
                        else:
                            st = st | {('if', x.decl, d) for d in params}
                    else:
                        st = st | self.atom_facts(f, a, v, st)
                st = st | {('if', b_, d) for b_ in bools for d in st if not isinstance(d, tuple)}
            return frozenset(st)
        old = getattr(self, 'dyn', None)
        self.dyn = dyn
        bools = set()
        for a in f.params:
            t = p.types[a['t']] if isinstance(a.get('t'), int) else ''
            if t in ('bool', 'const bool', 'const bool &', 'bool const') and not any(
                    n.k == 'asg' and skip(n.c[0]).k == 'ref' and skip(n.c[0]).decl == a['d'] for n in f.all_nodes()):
                bools.add(a['d'])
        if f.cfg is None or not f.cfg.blocks:
            return ({}, set())
        ins, before, after = forward(f, frozenset(), transfer, lambda a, b: a & b, edge=edge)
        # lists that only ever receive bounded elements are bounded lists
        D = self.defs(f)[0]
        good = set()
        for d, ps in self.pushes.get(f.id, {}).items():
            if d in params or any(not self.blank(x) for x in D.get(d, ()) if all(x is not y[1] for y in ps)):
                continue
            if all(before(n) is not None and not self.need(f, e, before(n), params) for n, e in ps):
                good.add(d)
        if good:
            ins, before, after = forward(f, frozenset(good), transfer, lambda a, b: a & b, edge=edge)
        req = {}

        def put(i, why):
            if i not in req or req[i][1].startswith('a ') and not why[1].startswith('a '):
                req[i] = why

        def want(node, st, exprs, what, g):
            for e in exprs:
                ds = self.need(f, e, relax(st, what), params)
                self.count(f, node)
                for d in ds:
                    put(params[d], (g.loc(node), what, f.short()))

        def relax(st, what):
            s = set(st)
            if what.endswith('+') or what in grown or what.startswith('a '):
                s |= {x[1] for x in st if isinstance(x, tuple) and x[0] == 'le'}
            return s

        # containers this function itself makes longer: an offset up to the old size is inside afterwards
        grown = set()
        for n in f.all_nodes():
            if n.k == 'call' and n.name in ('insert', 'resize') and n.o is not None:
                m = self.container(f, n.o)
                if m is not None:
                    grown.add(m)

        def visit(g, state):
            for n, exprs, what in self.sinks(g):
                st = state(n)
                if st is None:
                    continue
                it = n.k in ('call', 'bin') and (n.op in ('+', '-'))
                want(n, st, exprs, what + ('+' if it else ''), g)
            for n in g.all_nodes():
                if n.k == 'call' and self.onself(n):
                    for h in self.resolve(n, dyn):
                        if h.lam or h is f:
                            continue
                        if h.cls is None and not h.name:
                            continue
                        rq, gu = self.summary(h, dyn)
                        st = state(n)
                        if st is None:
                            continue
                        for k, why in rq.items():
                            if k < len(n.c) and n.c[k] is not None:
                                st2 = relax(st, why[1])
                                for d in self.need(f, n.c[k], st2, params):
                                    put(params[d], why)
        visit(f, before)
        # lambdas: run where they are called or handed on
        for g in lams.values():
            st = None
            for n in f.all_nodes():
                uses = False
                if n.k == 'call' and any(l is g or g.id in [x.id for x in nested(p, l)] for a in n.c if a is not None for l in asyncq.lambda_args(p, f, a)):
                    uses = True
                if n.k == 'call' and n.op == '()' and n.o is not None and g in asyncq.lambda_args(p, f, n.o):
                    uses = True
                if not uses:
                    continue
                b = before(n)
                if b is None:
                    continue
                b = frozenset(b) | guarantees(n)
                st = b if st is None else st & b
            if st is None:
                # made in another lambda, or stored: take where it is made
                par = p.fns.get(g.parent)
                if par is not None and par is not f:
                    continue
                for n in f.all_nodes():
                    if n.k == 'lambda' and n.get('fid') == g.id:
                        st = before(n)
            if st is None:
                continue
            S = st
            for h in nested(p, g):
                visit(h, lambda n, S=S: S)
        gu = set()
        st = None
        for b in f.cfg.blocks.values():
            if f.cfg.exit in b.s and not b.nr:
                a = after(b.id)
                if a is None:
                    continue
                last = f.nodes[b.e[-1]] if b.e and isinstance(b.e[-1], int) else None
                if last is not None and last.k == 'throw':
                    continue
                # the edge into the exit may carry facts
                for i, s in enumerate(b.s):
                    if s == f.cfg.exit:
                        x = edge(a, b, i)
                        st = x if st is None else st & x
        for d in st or ():
            if d in params:
                gu.add(params[d])
        self.dyn = old
        # a mask made early is harmless when every normal return has checked the argument
        for i in [i for i in req if i in gu and req[i][1].startswith(('a ', 'the '))]:
            del req[i]
        return req, gu

    def count(self, f, n):
        self.nsink += 1


def nested(p, g, seen=None):
    seen = seen if seen is not None else set()
    if g.id in seen:
        return []
    seen.add(g.id)
    out = [g]
    for n in g.all_nodes():
        if n.k == 'lambda' and n.get('fid') in p.fns:
            out += nested(p, p.fns[n.get('fid')], seen)
    return out


def begin_of(e):
    e = skip(e)
    if e is not None and e.k == 'call' and e.name in ('begin', 'get') and e.o is not None and skip(e.o).k == 'ref':
        return skip(e.o).decl
    if e is not None and e.k == 'bin' and e.op == '+':
        return begin_of(e.c[0])
    if e is not None and e.k == 'call' and e.op == '+' and e.o is not None:
        return begin_of(e.o)
    return None


def is_size(e):
    e = skip(e)
    while e is not None and e.k in ('ctor', 'cast') and len([x for x in e.c if x is not None]) == 1:
        e = skip(e.c[-1])
    if e is None:
        return False
    if e.k == 'mem' and e.name in SIZES and (not e.c or e.c[0] is None or skip(e.c[0]).k == 'this' or True):
        return True
    if e.k == 'call' and e.name in SIZES:
        return True
    if e.k == 'call' and e.name == 'size' and e.o is not None and skip(e.o).k == 'mem' and skip(e.o).name in ('shards',):
        return True
    if e.k == 'ref' and e.get('dk') == 'parm' and e.name in SIZES:
        return True
    return False


def cmp_of(a):
    a = skip(a)
    if a is None:
        return None
    if a.k == 'bin' and a.op in ('<', '>', '<=', '>=', '==', '!='):
        l, r = skip(a.c[0]), skip(a.c[1])
        if l is not None and l.k == 'call' and l.name == 'bi_compare' and len(l.c) == 2 and const_int(r) == 0:
            return a.op, l.c[0], l.c[1]
        return a.op, a.c[0], a.c[1]
    if a.k == 'call' and a.op in ('<', '>', '<=', '>=', '==', '!='):
        if a.o is not None and a.c:
            return a.op, a.o, a.c[0]
        if len(a.c) == 2:
            return a.op, a.c[0], a.c[1]
    return None


def roots(p, B, dyn):
    done = set()
    lin = {c: set(B.M.lineage(c)) | {'Qrack::QInterface' if 'QAlu' in c or 'QParity' in c else c} for c in B.M.lineage(dyn)}
    for c in B.M.lineage(dyn):
        for m in p.classes.get(c, {}).get('methods', ()):
            if m.get('ctor') or m.get('acc') != 'public' or m['n'].startswith('~') or m.get('static'):
                continue
            fid = B.M.final(dyn, m['id']) if m.get('virt') else m['id']
            g = p.fns.get(fid)
            if g is None or g.body is None or g.id in done:
                continue
            if 'Qrack::QInterface' not in lin.get(g.cls, ()):
                continue
            done.add(g.id)
            yield g


def run(rep, ctx):
    p = ctx.program()
    rep.rule('checked', 'no argument reaches a subscript of member data or an amplitude index unless compared with the register size')
    B = Bounds(p)
    n = 0
    for dyn in CLASSES:
        for g in roots(p, B, dyn):
            req, gu = B.summary(g, dyn)
            for i, a in enumerate(g.params):
                t = p.types[a['t']] if isinstance(a.get('t'), int) else ''
                if '*' in t or (g.name, i) in NUMBERS or not any(x in t for x in ('unsigned char', 'bitLenInt', 'vector<', 'bitCapInt', '__int128', 'unsigned long')):
                    continue
                n += 1
                ok = i not in req
                w = req.get(i)
                rep.check('checked', ok, '%s %s(%s)' % (dyn.split('::')[-1], g.name, a['n']) + ('' if len([1 for h in roots(p, B, dyn) if h.name == g.name]) < 2 or True else ''),
                          g.loc(g.body), '' if ok else '%s::%s: argument %s selects %s at %s (%s) without a check against the register size' % (
                              dyn.split('::')[-1], g.name, a['n'], w[1], w[0], w[2]))
    rep.note('%d arguments of public operations, %d index uses' % (n, B.nsink))
