"""In-memory form of the extractor's output: functions with resolved syntax trees and control-flow graphs, classes,
globals, plus the generic analyses (dominance, forward dataflow, call graph with virtual dispatch) the rules share."""
import json, re
from collections import defaultdict


class Node(object):
    __slots__ = ('k', 'i', 'l', 't', 'c', 'o', 'ind', 'a', 'p', 'fn', 'caps')

    def get(self, key, d=None):
        return self.a.get(key, d)

    @property
    def name(self):
        return self.a.get('n')

    @property
    def q(self):
        return self.a.get('q')

    @property
    def op(self):
        return self.a.get('op')

    @property
    def decl(self):
        return self.a.get('d')

    @property
    def val(self):
        return self.a.get('v')

    def ival(self):
        v = self.a.get('v')
        if v is None:
            return None
        try:
            return int(v)
        except ValueError:
            return None

    def kids(self):
        if self.ind is not None:
            yield self.ind
        if self.o is not None:
            yield self.o
        for x in self.c:
            if x is not None:
                yield x
        for x in self.caps:
            yield x

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(list(n.kids())))

    @property
    def type(self):
        return self.fn.prog.types[self.t] if self.t is not None and self.t >= 0 else ''

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def __repr__(self):
        return '<%s %s>' % (self.k, show(self))


def show(n, depth=0):
    """compact source-like rendering, for reports only"""
    if n is None:
        return ''
    if depth > 6:
        return '..'
    d = depth + 1
    k = n.k
    if k == 'ref':
        return n.name
    if k == 'mem':
        b = n.c[0] if n.c else None
        if b is None or b.k == 'this':
            return n.name
        return show(b, d) + '.' + n.name
    if k == 'this':
        return 'this'
    if k == 'call':
        args = ', '.join(show(x, d) for x in n.c)
        if n.op:
            if n.op == '[]':
                return '%s[%s]' % (show(n.o, d), args)
            if n.op == '->':
                return show(n.o, d)
            if n.op == '()':
                return '%s(%s)' % (show(n.o, d), args)
            if n.o is not None:
                return '(%s %s %s)' % (show(n.o, d), n.op, args)
            return '%s(%s)' % (n.op, args)
        if n.o is not None:
            return '%s.%s(%s)' % (show(n.o, d), n.name, args)
        return '%s(%s)' % (n.name or show(n.ind, d), args)
    if k == 'ctor':
        return '%s(%s)' % ((n.get('cls') or '').split('::')[-1], ', '.join(show(x, d) for x in n.c))
    if k in ('bin', 'asg'):
        return '(%s %s %s)' % (show(n.c[0], d), n.op, show(n.c[1], d))
    if k == 'un':
        return '%s%s' % (n.op, show(n.c[0], d))
    if k == 'lit':
        return str(n.val)
    if k == 'idx':
        return '%s[%s]' % (show(n.c[0], d), show(n.c[1], d))
    if k == 'cast' or k == 'defarg' or k == 'definit':
        return show(n.c[0], d)
    if k == 'cond':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in n.c)
    if k == 'var':
        return '%s = %s' % (n.name, show(n.c[0], d)) if n.c else n.name
    if k == 'lambda':
        return '[lambda]'
    if k == 'nullptr':
        return 'nullptr'
    return '%s{%s}' % (k, ', '.join(show(x, d) for x in n.kids()))


class Block(object):
    __slots__ = ('id', 'e', 's', 'term', 'tk', 'tc', 'nr', 'eh', 'preds', 'lb')


class Cfg(object):
    def __init__(self, fn, j):
        self.fn = fn
        self.entry = j['entry']
        self.exit = j['exit']
        self.blocks = {}
        for b in j['b']:
            B = Block()
            B.id = b['id']
            B.e = b['e']
            B.term = b.get('term')
            B.tk = b.get('tk')
            B.tc = b.get('tc')
            B.nr = b.get('nr', 0)
            B.lb = b.get('lb')
            s = b['s']
            # the extractor asks for exceptional edges: a block without terminator and two successors ends in a
            # call; its second successor is the handler (or the exit)
            B.eh = []
            if B.term is None and len(s) > 1:
                B.eh = [x for x in s[1:] if x >= 0]
                s = s[:1]
            B.s = s
            B.preds = []
            self.blocks[B.id] = B
        for B in self.blocks.values():
            for i, x in enumerate(B.s):
                if x >= 0:
                    self.blocks[x].preds.append((B.id, i))
            for x in B.eh:
                self.blocks[x].preds.append((B.id, 'eh'))
        self.pos = {}
        for B in self.blocks.values():
            for k, e in enumerate(B.e):
                if isinstance(e, int):
                    self.pos[e] = (B.id, k)

    def where(self, node):
        """(block, index) at which the node, or its closest enclosing element, is evaluated"""
        n = node
        while n is not None:
            if n.i in self.pos:
                return self.pos[n.i]
            n = n.p
        return None


class Fn(object):
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.id = j['id']
        self.q = j['q']
        self.name = j['n']
        self.file = j['file']
        self.line = j['line']
        self.end = j['end']
        self.cls = j.get('cls')
        self.params = j['params']
        self.lam = bool(j.get('lam'))
        self.parent = j.get('parent')
        self._body = None
        self._cfg = None
        self._inits = None
        self.nodes = {}

    def get(self, k, d=None):
        return self.j.get(k, d)

    def _mk(self, j, p):
        if j is None:
            return None
        n = Node()
        n.k = j['k']
        n.i = j.get('i')
        n.l = j.get('l')
        n.t = j.get('t')
        n.a = j
        n.p = p
        n.fn = self
        o = j.get('o')
        n.o = self._mk(o, n) if isinstance(o, dict) else None
        ind = j.get('ind')
        n.ind = self._mk(ind, n) if isinstance(ind, dict) else None
        n.c = [self._mk(x, n) for x in j.get('c', ())]
        n.caps = []
        if n.k == 'lambda':
            n.caps = [self._mk(c['init'], n) for c in j['cap'] if 'init' in c]
        if n.i is not None:
            self.nodes[n.i] = n
        return n

    @property
    def body(self):
        if self._body is None:
            self._body = self._mk(self.j['body'], None)
            self._inits = []
            for x in self.j.get('inits', ()):
                e = self._mk(x['e'], None)
                self._inits.append((x.get('field'), x, e))
        return self._body

    @property
    def inits(self):
        self.body
        return self._inits

    @property
    def cfg(self):
        if self._cfg is None and self.j.get('cfg'):
            self.body
            self._cfg = Cfg(self, self.j['cfg'])
        return self._cfg

    def all_nodes(self):
        """every node of the body and of constructor initialisers (not of lambdas inside: those are own functions)"""
        b = self.body
        if b is not None:
            for n in b.walk():
                yield n
        for _, _, e in self._inits:
            if e is not None:
                for n in e.walk():
                    yield n

    def calls(self):
        return [n for n in self.all_nodes() if n.k in ('call', 'ctor')]

    def loc(self, n=None):
        return '%s:%s' % (self.file, (n.l if n is not None and n.l else self.line))

    def short(self):
        q = self.q
        if self.lam:
            root = self.prog.root_of(self)
            return root.short() + '::lambda@%s' % self.line
        return re.sub(r'\bQrack::', '', q)

    def __repr__(self):
        return '<Fn %s>' % self.short()


class Program(object):
    def __init__(self):
        self.types = []
        self._tix = {}
        self.fns = {}
        self.classes = {}
        self.vars = {}
        self.units = []

    def load(self, path, unit):
        with open(path) as f:
            d = json.load(f)
        tmap = []
        for t in d['types']:
            if t not in self._tix:
                self._tix[t] = len(self.types)
                self.types.append(t)
            tmap.append(self._tix[t])
        self.units.append(unit)
        static = {j['id'].split('@')[0]: j['id'] for j in d['functions'] if '@' in j['id']}  # (internal linkage)

        def fix(o):
            st = [o]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('fid') in static:
                        x['fid'] = static[x['fid']]
                    for key in ('t', 'ot', 'at', 'et', 'ret'):
                        v = x.get(key)
                        if isinstance(v, int) and v >= 0:
                            x[key] = tmap[v]
                    if isinstance(x.get('base'), int):
                        x['base'] = tmap[x['base']]
                    st.extend(v for kk, v in x.items() if isinstance(v, (dict, list)) and kk != 'cfg')
                elif isinstance(x, list):
                    st.extend(v for v in x if isinstance(v, (dict, list)))
        for j in d['functions']:
            if j['id'] in self.fns:
                continue
            fix(j)
            self.fns[j['id']] = Fn(self, j)
        for j in d['classes']:
            if j['q'] not in self.classes:
                fix(j)
                self.classes[j['q']] = j
        for j in d['vars']:
            if j['q'] not in self.vars:
                fix(j)
                self.vars[j['q']] = j

    def finish(self):
        self.overriders = defaultdict(set)  # method id -> ids that (transitively) override it
        self.method_cls = {}
        direct = defaultdict(set)
        for q, c in self.classes.items():
            for m in c['methods']:
                self.method_cls[m['id']] = (q, m)
                for o in m.get('ovr', ()):
                    direct[o].add(m['id'])

        def close(i, seen):
            for x in direct.get(i, ()):
                if x not in seen:
                    seen.add(x)
                    close(x, seen)
            return seen
        for i in list(direct):
            self.overriders[i] = close(i, set())
        self.bases_of = {}
        self.derived = defaultdict(set)
        for q in self.classes:
            seen = set()
            st = [q]
            while st:
                x = st.pop()
                for b in self.classes.get(x, {}).get('bases', ()):
                    if b not in seen:
                        seen.add(b)
                        st.append(b)
            self.bases_of[q] = seen
            for b in seen:
                self.derived[b].add(q)
        self.byq = defaultdict(list)
        for f in self.fns.values():
            if not f.lam:
                self.byq[f.q].append(f)
        self.lambdas = defaultdict(list)
        for f in self.fns.values():
            if f.lam:
                self.lambdas[f.parent].append(f)

    def root_of(self, f):
        while f.lam:
            f = self.fns[f.parent]
        return f

    def targets(self, call):
        """ids of functions (with bodies) a call node may reach, virtual dispatch resolved over the class hierarchy"""
        fid = call.get('fid')
        if fid is None:
            return []
        out = []
        if call.get('virt'):
            ot = self.types[call.get('ot')] if isinstance(call.get('ot'), int) else None
            cand = {fid} | self.overriders.get(fid, set())
            if ot and ot in self.classes:
                ok = self.derived.get(ot, set()) | {ot}
                # methods overridden in a subclass of the static type, or inherited by it
                c2 = set()
                for c in cand:
                    mc = self.method_cls.get(c)
                    if mc is None or mc[0] in ok or mc[0] in self.bases_of.get(ot, ()) or True and ot in self.bases_of.get(mc[0], ()):
                        c2.add(c)
                cand = c2
            for c in cand:
                if c in self.fns:
                    out.append(c)
        elif fid in self.fns:
            out.append(fid)
        return out

    def cls_methods(self, cls, name=None):
        out = []
        for f in self.fns.values():
            if f.cls == cls and not f.lam and (name is None or f.name == name):
                out.append(f)
        return out


# ---------------------------------------------------------------- helpers over nodes

def skip(n):
    """strip explicit casts, default-argument wrappers and copy/move constructions"""
    while n is not None:
        if n.k in ('cast', 'defarg', 'definit') and n.c:
            n = n.c[0]
        elif n.k == 'ctor' and len(n.c) == 1 and (n.get('cp') or n.get('mv')):
            n = n.c[0]
        elif n.k == 'call' and n.q in ('std::move', 'std::forward', 'std::move_if_noexcept') and n.c:
            n = n.c[0]
        elif n.k == 'call' and n.name == 'static_pointer_cast' and n.c:
            n = n.c[0]
        else:
            return n
    return n


def deref(n):
    """strip smart-pointer/pointer dereference as well: p->x, *p, p.get()"""
    while True:
        n = skip(n)
        if n is None:
            return n
        if n.k == 'call' and n.op in ('->', '*') and n.o is not None and not n.c:
            n = n.o
        elif n.k == 'call' and n.name == 'get' and n.o is not None and not n.c and not n.get('fid', '').startswith('_ZN5Qrack'):
            n = n.o
        elif n.k == 'un' and n.op in ('*', '&'):
            n = n.c[0]
        else:
            return n


def is_this_field(n, name=None):
    n = deref(n)
    return n is not None and n.k == 'mem' and n.c and n.c[0] is not None and n.c[0].k == 'this' and 'fid' not in n.a and (
        name is None or n.name == name)


def path(n):
    """access path of an lvalue-ish expression: tuple like ('this','engine') or ('v',decl,'stateVec') or None"""
    n = deref(n)
    if n is None:
        return None
    if n.k == 'this':
        return ('this',)
    if n.k == 'ref':
        if n.get('dk') in ('local', 'parm'):
            return ('v', n.decl)
        if n.get('dk') == 'global':
            return ('g', n.q)
        return None
    if n.k == 'mem' and 'fid' not in n.a and n.c:
        b = path(n.c[0])
        return b + (n.name,) if b else None
    if n.k == 'idx':
        b = path(n.c[0])
        return b + ('[]',) if b else None
    if n.k == 'call' and n.op == '[]' and n.o is not None:
        b = path(n.o)
        return b + ('[]',) if b else None
    return None


def const_int(n):
    n = skip(n)
    return n.ival() if n is not None else None


# ---------------------------------------------------------------- dataflow

def forward(fn, init, transfer, join, edge=None, eh=False, dtor=None, bottom=None):
    """generic forward dataflow.  transfer(state, node)->state per evaluated element; edge(state, block, idx)->state or
    None (infeasible) per successor; returns {block: in-state} and a function state_before(node)."""
    cfg = fn.cfg
    ins = {cfg.entry: init}
    work = [cfg.entry]
    nodes = fn.nodes

    def run(b, st, stop=None):
        for k, e in enumerate(b.e):
            if stop is not None and k >= stop:
                break
            if isinstance(e, int):
                st = transfer(st, nodes[e])
            elif e[0] == 'dtor' and dtor is not None:
                st = dtor(st, e[1])
        return st
    it = 0
    while work:
        it += 1
        if it > 200000:
            raise RuntimeError('dataflow did not converge in ' + fn.q)
        bid = work.pop()
        b = cfg.blocks[bid]
        out = run(b, ins[bid])
        if b.nr:
            succ = []
        else:
            succ = [(i, s) for i, s in enumerate(b.s) if s >= 0]
        for i, s in succ:
            st = out
            if edge is not None:
                st = edge(out, b, i)
                if st is None:
                    continue
            if s not in ins:
                ins[s] = st
                work.append(s)
            else:
                j = join(ins[s], st)
                if j != ins[s]:
                    ins[s] = j
                    work.append(s)
        if eh:
            # an exception can leave the block before its last element took effect
            for s in b.eh:
                st = join(run(b, ins[bid], len(b.e) - 1), out)
                if s not in ins:
                    ins[s] = st
                    work.append(s)
                else:
                    j = join(ins[s], st)
                    if j != ins[s]:
                        ins[s] = j
                        work.append(s)

    def before(node):
        w = cfg.where(node)
        if w is None or w[0] not in ins:
            return None
        return run(cfg.blocks[w[0]], ins[w[0]], w[1])

    def after_block(bid):
        if bid not in ins:
            return None
        return run(cfg.blocks[bid], ins[bid])
    return ins, before, after_block


def reachable(fn):
    cfg = fn.cfg
    seen = set([cfg.entry])
    st = [cfg.entry]
    while st:
        b = cfg.blocks[st.pop()]
        if b.nr:
            continue
        for s in b.s:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append(s)
    return seen


def cond_atoms(cond, truth):
    """facts implied by `cond` being `truth`: yields (atom-node, bool)"""
    n = cond
    if n is None:
        return
    n = skip(n)
    if n.k == 'un' and n.op == '!':
        yield from cond_atoms(n.c[0], not truth)
        return
    if n.k == 'call' and n.op == '!' and n.o is not None:
        yield from cond_atoms(n.o, not truth)
        return
    if n.k == 'bin' and n.op == '&&':
        if truth:
            yield from cond_atoms(n.c[0], True)
            yield from cond_atoms(n.c[1], True)
        return
    if n.k == 'bin' and n.op == '||':
        if not truth:
            yield from cond_atoms(n.c[0], False)
            yield from cond_atoms(n.c[1], False)
        return
    yield (n, truth)


def edge_atoms(fn, b, i):
    """facts (atom, truth) on the i-th way out of a two-way block; the block that ends `A && B` is reached with A true"""
    if len(b.s) != 2 or not isinstance(b.tc, int) or b.tc < 0:
        return
    t = i == 0
    n = skip(fn.nodes[b.tc])
    yield from cond_atoms(n, t)
    while n is not None and n.k == 'bin' and (n.op == '&&' and not t or n.op == '||' and t):
        if any(isinstance(e, int) and fn.nodes[e] is n for e in b.e):
            return    # both ways through the operator meet before this block ends
        n = skip(n.c[1])
        yield from cond_atoms(n, t)
        while n is not None and n.k == 'un' and n.op == '!':
            n = skip(n.c[0])
            t = not t
