"""Which effects can a method have on the object it is called on?

Interprocedural, flow-insensitive effect analysis with constant flags: statements that are dead for the given values of
flag parameters (doApply == false) are not visited. Every reached write, container mutation and call is attributed to an
origin: S (the object itself or something it owns or shares), F (made by this call: clones, new simulators), P (something
the caller passed in), L (a local variable). Only effects on S are reported. Calls on the object itself are followed into
the implementation the dynamic class uses."""
from ir import *

MAKERS = ('Clone', 'CloneEmpty', 'make_shared', 'make_unique', 'CreateQuantumInterface', 'MakeEngine', 'MakeSimulator', 'MakeStateVec',
          'AllocStateVec', 'CreateArrangedLayers', 'CreateArrangedLayersFull', 'MakeQEngineShard', 'CopyCircuit', 'MakeStabilizer', 'async')
CONT_MUT = {'push_back', 'emplace_back', 'pop_back', 'clear', 'erase', 'insert', 'emplace', 'resize', 'assign', 'swap', 'reset',
            'push', 'pop', 'emplace_front', 'push_front', 'pop_front', 'store', 'fetch_add', 'merge', 'splice', 'sort', 'reverse'}
REF_KEEP = {'get', 'front', 'back', 'begin', 'end', 'rbegin', 'rend', 'data', 'at', 'find', 'lower_bound', 'upper_bound', 'lock', 'value'}


def pointerish(t):
    t = t.strip()
    return t.endswith(('*', '&')) or 'shared_ptr<' in t.split('<')[0] + '<' or t.endswith('Ptr') or 'iterator' in t or t.startswith('std::shared_ptr')


def ptr_inside(t):
    """copying a value of this type still shares something"""
    return 'Ptr' in t or 'shared_ptr' in t or '*' in t or 'iterator' in t or 'QEngineShard' in t or 'auto' == t


class Effect(object):
    __slots__ = ('kind', 'what', 'fn', 'node', 'via')

    def __init__(self, kind, what, fn, node, via=()):
        self.kind, self.what, self.fn, self.node, self.via = kind, what, fn, node, via

    def where(self):
        return self.fn.loc(self.node)

    def text(self):
        v = ' -> '.join(self.via)
        return '%s %s%s' % (self.kind, self.what, (' (via %s)' % v) if v else '')


class Mutate(object):
    def __init__(self, prog, family, policy):
        """family: classes with virtual simulator API; policy(dyn, fn, name, own) -> 'ok' | 'bad' | None (follow)"""
        self.p = prog
        self.family = set(family)
        self.policy = policy
        self.memo = {}
        self.visited = {}

    # ---------------------------------------------------------- class facts
    def lineage(self, cls):
        out = []
        st = [cls]
        while st:
            c = st.pop(0)
            if c in out:
                continue
            out.append(c)
            st.extend(self.p.classes.get(c, {}).get('bases', ()))
        return out

    def final(self, dyn, fid):
        """implementation of virtual method fid in dynamic class dyn"""
        cand = {fid} | self.p.overriders.get(fid, set())
        # bases of fid as well: a call through a derived declaration may be re-declared further up
        for c in self.lineage(dyn):
            for m in self.p.classes.get(c, {}).get('methods', ()):
                if m['id'] in cand:
                    return m['id']
        return fid

    def is_sim(self, t):
        for f in self.family:
            s = f.split('::')[-1]
            if re.search(r'\b%s(Ptr)?\b' % s, t):
                return True
        return False

    # ---------------------------------------------------------- origins
    def env(self, fn):
        """per function (lambdas included): decl -> list of initialising expressions"""
        e = getattr(fn, '_mut_env', None)
        if e is not None:
            return e
        e = {}
        kinds = {}
        todo = [fn]
        while todo:
            f = todo.pop()
            for x in f.params:
                kinds[x['d']] = ('lparm' if f.lam else 'parm', x, f)
            for n in f.all_nodes():
                if n.k == 'var':
                    kinds[n.decl] = ('local', n, f)
                    if n.c and n.c[0] is not None:
                        e.setdefault(n.decl, []).append(n.c[0])
                elif n.k == 'forrange':
                    v = n.c[1]
                    for d in v.walk():
                        if d.k == 'var':
                            kinds[d.decl] = ('elt', d, f)
                            e.setdefault(d.decl, []).append(n.c[0])
                elif n.k == 'asg' and n.op == '=':
                    t = skip(n.c[0])
                    if t.k == 'ref' and t.get('dk') == 'local':
                        e.setdefault(t.decl, []).append(n.c[1])
                elif n.k == 'call' and n.op == '=' and n.o is not None and n.c:
                    t = skip(n.o)
                    if t.k == 'ref' and t.get('dk') == 'local':
                        e.setdefault(t.decl, []).append(n.c[0])
                elif n.k == 'call' and n.o is not None and n.name in ('push_back', 'emplace_back', 'insert', 'emplace'):
                    t = skip(n.o)
                    if t.k == 'ref' and t.get('dk') == 'local':
                        e.setdefault(t.decl, []).extend(n.c)
                elif n.k == 'lambda':
                    g = self.p.fns.get(n.get('fid'))
                    if g is not None and g is not f:
                        todo.append(g)
        fn._mut_env = (e, kinds)
        return fn._mut_env

    def origin(self, n, root, seen=frozenset(), content=False):
        """origin of the object an expression denotes (content: of what it points to or contains)"""
        if n is None:
            return {'L'}
        k = n.k
        if k in ('cast', 'defarg', 'definit'):
            return self.origin(n.c[0], root, seen, content) if n.c else {'L'}
        if k == 'this':
            return {'S'}
        if k == 'ctor':
            if n.get('cp') or n.get('mv'):
                return self.origin(n.c[0], root, seen, True) if n.c else {'F'}
            if len(n.c) >= 1 and re.search(r'(shared_ptr|unique_ptr|Ptr|lock_guard|iterator)', n.get('cls') or ''):
                return self.origin(n.c[0], root, seen, True)
            out = {'F'}
            if ptr_inside(n.type):
                for x in n.c:
                    out |= self.origin(x, root, seen, True) - {'L'}
            return out
        if k in ('new', 'lit', 'str', 'nullptr', 'lambda', 'sizeof'):
            return {'F'}
        if k == 'initlist':
            out = {'F'}
            for x in n.c:
                out |= self.origin(x, root, seen, True) - {'L'}
            return out
        if k == 'mem':
            if 'fid' in n.a:
                return {'F'}
            return self.origin(n.c[0], root, seen, n.get('arrow') or content) if n.c else {'S'}
        if k == 'idx':
            return self.origin(n.c[0], root, seen, True)
        if k == 'un':
            if n.op == '*':
                return self.origin(n.c[0], root, seen, True)
            return self.origin(n.c[0], root, seen, content)
        if k == 'cond':
            return self.origin(n.c[1], root, seen, content) | self.origin(n.c[2], root, seen, content)
        if k in ('bin',):
            return set().union(*[self.origin(x, root, seen, content) for x in n.c]) if '*' in n.type or 'iterator' in n.type else {'L'}
        if k == 'asg':
            return self.origin(n.c[0], root, seen, content)
        if k == 'ref':
            dk = n.get('dk')
            if dk == 'global':
                return {'G'}
            if dk not in ('local', 'parm'):
                return {'F'}
            d = n.decl
            e, kinds = self.env(root)
            kd = kinds.get(d)
            if kd is None:
                return {'S'} if dk == 'local' and content else {'L'}
            t = kd[1].type if kd[0] in ('local', 'elt') else self.p.types[kd[1]['t']]
            if kd[0] == 'parm':
                i = [j for j, x in enumerate(root.params) if x['d'] == d]
                if content or t.rstrip().endswith(('&', '*')) or ptr_inside(t):
                    return {'P%d' % (i[0] if i else 0)}
                return {'L'}
            if kd[0] == 'lparm':
                if ptr_inside(t) or (self.is_sim(t)):
                    return {'S'}
                return {'L'}
            isref = t.rstrip().endswith('&') or t.rstrip().endswith('*') or 'iterator' in t
            if not (isref or content) or d in seen:
                return {'L'}
            if not isref and not ptr_inside(t):
                return {'L'}
            out = set()
            for x in e.get(d, ()):
                out |= self.origin(x, root, seen | {d}, content or not t.rstrip().endswith('&') or kd[0] == 'elt')
            return out or {'L'}
        if k == 'call':
            if n.op in ('->', '*') and n.o is not None and not n.c:
                return self.origin(n.o, root, seen, True)
            if n.op == '[]' and n.o is not None:
                return self.origin(n.o, root, seen, content or not isinstance(n.o, type(None)))
            if n.op == '=' and n.o is not None:
                return self.origin(n.o, root, seen, content)
            if n.name in MAKERS:
                return {'F'}
            if n.q in ('std::move', 'std::forward', 'std::ref', 'std::get') or n.name in ('dynamic_pointer_cast', 'static_pointer_cast'):
                return self.origin(n.c[0], root, seen, content)
            if n.name in ('min', 'max', 'swap'):
                return {'L'}
            t = n.type
            if n.o is not None:
                oo = self.origin(n.o, root, seen, True)
                if n.name in REF_KEEP or ptr_inside(t) or t.rstrip().endswith('&') or self.is_sim(t):
                    return oo
                return {'F'}
            if (ptr_inside(t) or t.rstrip().endswith('&')) and not n.q.startswith('std::'):
                out = set()
                for x in n.c:
                    out |= self.origin(x, root, seen, True) - {'L'}
                return out or {'F'}
            return {'F'}
        return {'L'}

    # ---------------------------------------------------------- constant conditions
    def truth(self, n, c):
        n = skip(n)
        if n is None:
            return None
        if n.k == 'ref' and n.decl in c:
            return c[n.decl]
        if n.k == 'un' and n.op == '!':
            v = self.truth(n.c[0], c)
            return None if v is None else not v
        if n.k == 'bin' and n.op in ('&&', '||'):
            a, b = self.truth(n.c[0], c), self.truth(n.c[1], c)
            if n.op == '&&':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if n.k == 'bin' and n.op in ('==', '!='):
            a, b = self.truth(n.c[0], c), self.truth(n.c[1], c)
            if a is not None and b is not None:
                return (a == b) == (n.op == '==')
            return None
        v = n.ival()
        if v is not None and n.type in ('bool', 'const bool', 'int'):
            return bool(v)
        if n.k == 'lit' and n.val in ('true', 'false', True, False):
            return n.val in ('true', True)
        return None

    def reached(self, n, c):
        """(nodes evaluated, falls through) for a statement or expression under constant flags c"""
        out = []

        def ex(n):
            if n is None:
                return
            if n.k == 'cond':
                ex(n.c[0])
                v = self.truth(n.c[0], c)
                if v is not False:
                    ex(n.c[1])
                if v is not True:
                    ex(n.c[2])
                return
            if n.k == 'bin' and n.op in ('&&', '||'):
                ex(n.c[0])
                v = self.truth(n.c[0], c)
                if not ((n.op == '&&' and v is False) or (n.op == '||' and v is True)):
                    ex(n.c[1])
                return
            out.append(n)
            for x in n.kids():
                ex(x)

        def st(n):
            """returns True if control may continue after the statement"""
            if n is None:
                return True
            k = n.k
            if k == 'block':
                for x in n.c:
                    if not st(x):
                        return False
                return True
            if k == 'if':
                init, cv, cond, th, el = (list(n.c) + [None] * 5)[:5]
                st(init)
                st(cv)
                ex(cond)
                v = self.truth(cond, c) if cv is None else None
                a = st(th) if v is not False else None
                b = (st(el) if el is not None else True) if v is not True else None
                return bool(a) or bool(b)
            if k in ('while', 'do', 'for', 'forrange', 'switch', 'case', 'default', 'try', 'catch'):
                for x in n.c:
                    st(x)
                if k in ('case', 'default'):
                    return True
                return True
            if k in ('return', 'break', 'continue', 'throw'):
                out.append(n)
                for x in n.kids():
                    ex(x)
                return False
            if k == 'decl':
                out.append(n)
                for x in n.kids():
                    ex(x)
                return True
            ex(n)
            return True
        st(n)
        return out

    # ---------------------------------------------------------- the analysis
    def effects(self, fn, dyn, consts=(), depth=0):
        """list of Effect on the object (origin S) or its parameters (kind 'param', what=index)"""
        key = (fn.id, dyn, tuple(sorted(consts)))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        out = []
        c = dict(consts)
        root = self.p.root_of(fn) if fn.lam else fn
        # a local flag initialised once stands for its initial value
        for n in fn.all_nodes():
            if n.k == 'var' and n.c and n.c[0] is not None and n.decl not in c and \
                    n.type in ('bool', 'const bool', 'auto', 'const auto'):
                v = self.truth(n.c[0], c)
                if v is not None:
                    c[n.decl] = v
        # flags that are reassigned are not constant
        for n in fn.all_nodes():
            if n.k == 'asg':
                t = skip(n.c[0])
                if t.k == 'ref':
                    c.pop(t.decl, None)
        self.scan(fn, fn.body, dyn, c, root, out, depth)
        for _, _, e in fn.inits:
            if e is not None:
                self.scan(fn, e, dyn, c, root, out, depth)
        self.memo[key] = out
        return out

    def scan(self, fn, body, dyn, c, root, out, depth):
        self.visited[fn.id] = fn
        for n in self.reached(body, c):
            if n.k == 'lambda':
                g = self.p.fns.get(n.get('fid'))
                if g is not None and g is not fn and g.body is not None:
                    self.scan(g, g.body, dyn, c, root, out, depth)
            elif n.k == 'asg' or (n.k == 'un' and n.op in ('++', '--')) or (
                    n.k == 'call' and n.op in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '++', '--') and n.o is not None):
                t = n.c[0] if n.k != 'call' else n.o
                self.write(fn, n, t, root, out)
            elif n.k == 'delete':
                self.write(fn, n, n.c[0], root, out, True)
            elif n.k in ('call', 'ctor'):
                self.call(fn, n, dyn, c, root, out, depth)

    def lname(self, t):
        """name of the field a write to S ends in: Class::field or chain"""
        x = t
        names = []
        while x is not None:
            if x.k in ('cast', 'defarg', 'definit') and x.c:
                x = x.c[0]
            elif x.k == 'mem':
                names.append(x.name)
                x = x.c[0] if x.c else None
            elif x.k == 'idx':
                names.append('[]')
                x = x.c[0]
            elif x.k == 'call' and x.op == '[]':
                names.append('[]')
                x = x.o
            elif x.k == 'call' and x.op in ('->', '*'):
                x = x.o
            elif x.k == 'call' and x.o is not None:
                names.append((x.name or x.op or '?') + '()')
                x = x.o
            elif x.k == 'un':
                x = x.c[0]
            elif x.k == 'this':
                break
            elif x.k == 'ref':
                names.append('{%s}' % x.type.replace('const ', '').replace('Qrack::', '').rstrip('& '))
                break
            else:
                break
        return '.'.join(reversed(names)).replace('.[]', '[]')

    def write(self, fn, n, t, root, out, content=False):
        o = self.origin(t, root, content=content)
        # a local reference / pointer variable that is itself assigned: not a write through it
        s = skip(t)
        if s.k == 'ref' and s.get('dk') == 'local':
            e, kinds = self.env(root)
            kd = kinds.get(s.decl)
            if kd and kd[0] == 'local' and not kd[1].type.rstrip().endswith('&') and not content:
                return
        for x in o:
            if x == 'S' or x == 'G':
                out.append(Effect('writes', self.lname(t), fn, n))
            elif x.startswith('P'):
                out.append(Effect('param', int(x[1:]), fn, n))

    def call(self, fn, n, dyn, c, root, out, depth):
        if n.k == 'ctor':
            # a library object constructed around references to S: followed for its body only
            return
        nm = n.name
        if n.get('fid') is None and n.o is None:
            return
        # reference arguments of the standard library and of free functions
        pm = n.get('pm') or ''
        lib = n.get('fid') in self.p.method_cls or n.get('fid') in self.p.fns
        if n.o is None and not n.get('sm'):
            if n.q and n.q.startswith('std::') or not lib:
                if nm in ('swap', 'sort', 'reverse', 'fill', 'copy', 'transform', 'shuffle', 'iota', 'move_backward', 'rotate', 'fill_n', 'iter_swap'):
                    for i, x in enumerate(n.c):
                        if i < len(pm) and pm[i] == 'c':
                            continue
                        if nm in ('copy',) and i < 2 or nm == 'transform' and i < 2:
                            continue
                        if 'S' in self.origin(x, root, content='iterator' in x.type or '*' in x.type):
                            out.append(Effect('writes', self.lname(deref(x)) or show(x), fn, n))
                return
            for t in self.p.targets(n):
                f = self.p.fns[t]
                for e in self.effects(f, None, (), depth + 1) if f.body is not None and depth < 12 else ():
                    if e.kind == 'param' and e.what < len(n.c) and 'S' in self.origin(n.c[e.what], root, content='*' in n.c[e.what].type):
                        out.append(Effect('writes', self.lname(n.c[e.what]), fn, n))
                    elif e.kind != 'param':
                        out.append(e)
            return
        if n.o is None:
            return  # static method
        oo = self.origin(n.o, root, content=bool(n.get('arrow') or (n.o.k == 'call' and n.o.op == '->') or '*' in n.o.type or 'Ptr' in n.o.type))
        own = deref(n.o).k == 'this' and not (n.o.k == 'call')
        mc = self.p.method_cls.get(n.get('fid'))
        cls = mc[0] if mc else None
        if cls is None and not lib:
            # standard library object
            if (nm in CONT_MUT) and not n.get('cm'):
                o2 = self.origin(n.o, root)
                s = skip(n.o)
                if s.k == 'ref' and s.get('dk') in ('local',):
                    e, kinds = self.env(root)
                    kd = kinds.get(s.decl)
                    if kd and not kd[1].type.rstrip().endswith('&'):
                        return
                if 'S' in o2:
                    out.append(Effect('writes', self.lname(n.o), fn, n))
                for x in o2:
                    if x.startswith('P'):
                        out.append(Effect('param', int(x[1:]), fn, n))
            elif n.op == '()':
                pass
            return
        if 'S' not in oo:
            for x in oo:
                if x.startswith('P') and cls is not None and not n.get('cm'):
                    out.append(Effect('pcall', (int(x[1:]), nm), fn, n))
            # arguments that are S and may be changed by the callee
            self.args(fn, n, dyn, root, out, depth)
            return
        consts = {}
        v = self.policy(dyn if own else None, fn, n, own, self, c)
        if v == 'ok':
            return
        if v == 'bad':
            out.append(Effect('calls', '%s::%s' % ((cls or '').split('::')[-1], nm), fn, n))
            return
        if own and dyn is not None:
            ids = [n.get('fid') if n.get('qualcall') or not n.get('virt') else self.final(dyn, n.get('fid'))]
            tg = [i for i in ids if i in self.p.fns]
        else:
            tg = self.p.targets(n)
        if not tg:
            m = mc[1] if mc else {}
            if not (n.get('cm') or m.get('const') or m.get('implicit')):
                out.append(Effect('calls', '%s::%s (no body seen)' % ((cls or '').split('::')[-1], nm), fn, n))
            return
        if depth > 25:
            out.append(Effect('calls', '%s (too deep)' % nm, fn, n))
            return
        for t in tg:
            g = self.p.fns[t]
            if g.body is None:
                continue
            cs = []
            for i, x in enumerate(g.params):
                if i < len(n.c):
                    b = self.truth(n.c[i], c)
                    if b is not None and self.p.types[x['t']] in ('bool', 'const bool'):
                        cs.append((x['d'], b))
                    elif '*' in self.p.types[x['t']] and skip(n.c[i]).k == 'nullptr':
                        cs.append((x['d'], False))
            for e in self.effects(g, dyn if own else g.cls, tuple(cs), depth + 1):
                if e.kind == 'param':
                    if e.what < len(n.c):
                        for x in self.origin(n.c[e.what], root, content=True):
                            if x == 'S':
                                out.append(Effect('writes', self.lname(n.c[e.what]), fn, n))
                            elif x.startswith('P') and x != 'P':
                                out.append(Effect('param', int(x[1:]), fn, n))
                elif e.kind == 'pcall':
                    i, m = e.what
                    if i < len(n.c) and 'S' in self.origin(n.c[i], root, content=True):
                        out.append(Effect('calls', m + ' on an argument', fn, n))
                elif len(e.via) < 8:
                    out.append(Effect(e.kind, e.what, e.fn, e.node, (fn.short().split('::')[-1] + '>' + nm,) + e.via))

    def args(self, fn, n, dyn, root, out, depth):
        pass
