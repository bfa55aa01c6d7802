"""S01: what is saved is what is loaded. Token structure of each pair of stream operators, by abstract execution."""
from ir import *

TRANSPARENT = {'get', 'operator->', 'operator*', 'dynamic_pointer_cast', 'static_pointer_cast', 'move', 'forward', 'as_const',
               'ref', 'cref', 'data', 'const_pointer_cast'}
CHAR = ('char', 'unsigned char', 'signed char', 'uint8_t', 'int8_t')
BITS = {'bool': 1, 'char': 8, 'unsigned char': 8, 'signed char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
        'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64,
        '__int128': 128, 'unsigned __int128': 128, 'unsigned __int128 &': 128}
FLOATS = {'float': 9, 'double': 17, 'long double': 21, '_Float16': 5, '__fp16': 5, 'Qrack::half': 5}


class Unknown(Exception):
    def __init__(self, node, why):
        Exception.__init__(self, why)
        self.node = node
        self.why = why


def clean(t):
    t = (t or '').strip()
    for x in ('const ', 'volatile '):
        t = t.replace(x, '')
    return t.replace(' const', '').rstrip('&').strip()


def is_stream(t, which):
    t = clean(t)
    return t.startswith('std::basic_%sstream' % which) or t.startswith('std::%sstream' % which)


class Ev(object):
    """one token, loop or choice of the stream"""
    def __init__(self, k, node, **a):
        self.k, self.node = k, node
        self.__dict__.update(a)


class Exec(object):
    """structured abstract execution of a stream operator; values are terms over the streamed object"""
    def __init__(self, prog, f, writer):
        self.p, self.f, self.writer = prog, f, writer
        self.evs = []
        self.stack = [self.evs]
        self.loops = []
        self.env = {}
        self.builds = {}
        self.fresh = 0
        self.alias = {}
        self.stores = []
        self.sizes = {}
        self.cleared = set()
        self.depth = 0
        self.ntok = 0
        self.calls = []
        self.prec = 6
        self.rets = []
        self.fns = [f]
        self.removed = []
        self.lams = {}
        ps = f.params
        self.env[ps[0]['d']] = ('stream',)
        self.env[ps[1]['d']] = ('root',)
        self.block(f.body)

    # ---- events
    def emit(self, e):
        e.loops = tuple(self.loops)
        self.stack[-1].append(e)

    # ---- values
    def new(self, w):
        self.fresh += 1
        return (w, self.fresh)

    def resolve(self, t):
        while t in self.alias:
            t = self.alias[t]
        return t

    def fld(self, b, n):
        b = self.resolve(b)
        if b[0] == 'elem':
            if n == 'first':
                return self.key(b[1], b[2])
            if n == 'second':
                return self.at(b[1], self.key(b[1], b[2]))
        if b[0] == 'rec' and n in dict(b[1]):
            return dict(b[1])[n]
        if b[0] == 'alt':
            return ('alt', tuple(self.fld(x, n) for x in b[1]))
        return self.resolve(('fld', b, n))

    def key(self, c, i):
        c = self.resolve(c)
        if c[0] == 'part':
            ks, v = self.one(c[1])
            if len(ks) > len(c[2]):
                return ks[len(c[2])]
        elif c in self.builds:
            ks, v = self.one(c)
            return ks[0]
        return ('key', c, i)

    def one(self, c):
        b = self.builds[c]
        if len(b) != 1:
            raise Unknown(None, 'a container filled in several places')
        return b[0]

    def at(self, c, i):
        c = self.resolve(c)
        if c[0] == 'alt':
            return ('alt', tuple(self.at(x, i) for x in c[1]))
        base, pre = (c[1], c[2]) if c[0] == 'part' else (c, ())
        if base in self.builds:
            ks, v = self.one(base)
            pre = pre + (i,)
            if len(pre) < len(ks):
                return ('part', base, pre)
            return v
        return self.resolve(('at', c, i))

    def size(self, c):
        c = self.resolve(c)
        if c[0] == 'alt':
            return self.size(c[1][0])
        if c in self.sizes:
            return self.sizes[c]
        return ('size', c)

    def inline(self, n, fn, recv, args):
        if self.depth > 8:
            raise Unknown(n, 'call too deep')
        self.depth += 1
        old_this = self.env.get('this')
        old_rets = self.rets
        self.rets = []
        if fn.lam is None or recv is not None:
            self.env['this'] = recv
        for q, a in zip(fn.params, args):
            self.env[q['d']] = a
        self.fns.append(fn)
        self.block(fn.body)
        self.fns.pop()
        r = self.rets
        self.rets = old_rets
        self.env['this'] = old_this
        self.depth -= 1
        return r[-1] if r else ('none',)

    def method(self, n, recv):
        """the override of a virtual method for the static class of the receiver"""
        fn = self.p.fns.get(n.get('fid'))
        if not n.get('virt'):
            return fn
        t = n.o.type if n.o is not None else ''
        m = re.search(r'(Qrack::\w+)', t)
        cls = m.group(1) if m else (n.get('cls') or '')
        for c in [cls] + list(self.p.bases_of.get(cls, [])):
            for f in self.p.fns.values():
                if f.cls == c and f.name == n.name and f.body and len(f.params) == len(n.c):
                    return f
        return fn

    def expr(self, n):
        if n is None:
            return ('none',)
        k = n.k
        v = n.ival()
        if v is not None and k not in ('asg', 'call', 'un'):
            return ('c', v)
        if k == 'ref':
            if n.decl in self.env:
                return self.resolve(self.env[n.decl])
            if n.get('dk') == 'local' or n.get('dk') == 'parm':
                t = ('loc', n.decl)
                self.env[n.decl] = t
                return t
            return ('glob', n.name)
        if k == 'this':
            return self.env.get('this', ('root',))
        if k == 'mem':
            if n.c and n.c[0] is not None:
                return self.fld(self.expr(n.c[0]), n.name)
            return self.fld(self.env.get('this', ('root',)), n.name)
        if k in ('lit', 'str'):
            return ('c', n.val if k == 'lit' else n.get('s'))
        if k == 'nullptr':
            return ('c', 'null')
        if k in ('defarg', 'definit'):
            return self.expr(n.c[0]) if n.c else ('none',)
        if k == 'cast':
            v = self.expr(n.c[0])
            a, b = BITS.get(clean(n.c[0].type)), BITS.get(clean(n.type))
            if a and b and b < a and v[0] != 'c':
                return ('narrow', b, a, v)
            return v
        if k == 'idx':
            a = self.expr(n.c[0])
            return self.at(a, self.expr(n.c[1]))
        if k == 'un':
            o = n.op
            a = self.expr(n.c[0])
            if o in ('*', '&'):
                return self.deref(a) if o == '*' else a
            if o in ('++', '--'):
                self.assign(n, n.c[0], ('op', o[0], a, ('c', 1)))
                return a
            return ('un', o, a)
        if k == 'bin':
            a, b = self.expr(n.c[0]), self.expr(n.c[1])
            if n.op == ',':
                return b
            return self.opn(n.op, a, b)
        if k == 'asg':
            r = self.expr(n.c[1])
            if n.op != '=':
                r = self.opn(n.op[:-1], self.expr(n.c[0]), r)
            self.assign(n, n.c[0], r)
            return r
        if k == 'cond':
            self.expr(n.c[0])
            return ('alt', (self.expr(n.c[1]), self.expr(n.c[2])))
        if k == 'lambda':
            t = self.new('lam')
            self.lams[t] = self.p.fns.get(n.get('fid'))
            return t
        if k == 'ctor':
            return self.ctor(n)
        if k == 'call':
            return self.call(n)
        if k in ('initlist', 'new'):
            return ('new', n.i, tuple(self.expr(x) for x in n.kids()))
        if k in ('sizeof', 'throw', 'delete'):
            return ('none',)
        return ('unk', n.i) + tuple(self.expr(x) for x in n.kids())

    def deref(self, a):
        a = self.resolve(a)
        if a[0] == 'it':
            return ('elem', a[1], a[2]) if self.is_map(a[1]) else self.at(a[1], a[2])
        return a

    def opn(self, o, a, b):
        if a[0] == 'it' and o in '+-':
            return ('it', a[1], b if a[2] == ('c', 0) else ('op', o, a[2], b))
        if o == '<<' and b[0] == 'c':
            return ('op', '*', a, ('c', 1 << int(b[1])))
        if a[0] == 'c' and b[0] != 'c' and o in '+*':
            a, b = b, a
        return ('op', o, a, b)

    types = None

    def is_map(self, c):
        return c in self.mapterms

    mapterms = set()

    def note_map(self, n, t):
        if re.match(r'(const )?std::(unordered_)?(multi)?map<', n.type or ''):
            self.mapterms = self.mapterms | {t}
        return t

    def ctor(self, n):
        cls = n.get('cls') or ''
        args = [x for x in n.c]
        if n.get('cp') or n.get('mv'):
            return self.expr(args[0])
        vals = [self.expr(x) for x in args]
        if cls.startswith('Qrack::'):
            f = self.p.fns.get(n.get('fid'))
            if f is not None and f.inits:
                rec = []
                save = dict(self.env)
                for q, a in zip(f.params, vals):
                    self.env[q['d']] = a
                for fl, j, e in f.inits:
                    if e is not None:
                        rec.append((fl, self.expr(e)))
                self.env = save
                return ('rec', tuple(rec))
        if cls in ('std::shared_ptr', 'std::unique_ptr') and len(vals) >= 1:
            return vals[0]
        if cls in ('std::vector', 'std::set', 'std::map', 'std::list', 'std::multimap', 'std::unordered_map', 'std::deque'):
            t = self.new('box')
            if vals and not (vals[0][0] in ('new',)):
                self.sizes[t] = vals[0]
            if vals and vals[0][0] == 'it' and len(vals) > 1:
                return vals[0][1]
            return self.note_map(n, t)
        if cls == 'std::pair' and len(vals) == 2:
            return ('rec', (('first', vals[0]), ('second', vals[1])))
        return ('new', n.i, tuple(vals))

    def local_box(self, t):
        t = self.resolve(t)
        return t[0] in ('loc', 'box')

    def store(self, n, lhs, rhs):
        """lhs := rhs for a place of the streamed object or of a local container"""
        l = lhs
        ks = []
        while l[0] == 'at':
            ks.insert(0, l[2])
            l = self.resolve(l[1])
        if l[0] == 'part':
            ks = list(l[2]) + ks
            l = l[1]
        if l[0] in ('loc', 'box') and ks:
            self.builds.setdefault(l, [])
            if (tuple(ks), rhs) not in self.builds[l]:
                self.builds[l].append((tuple(ks), rhs))
            return
        if rhs[0] == 'rec':
            for f, v in rhs[1]:
                self.store(n, ('fld', lhs, f), v)
            return
        self.stores.append((lhs, rhs, n, tuple(self.loops)))
        if rhs[0] in ('box', 'loc'):
            if rhs in self.sizes:
                self.sizes[lhs] = self.sizes[rhs]
            self.cleared.add(lhs)
        elif rhs[0] == 'new' or rhs == ('c', 'null'):
            self.cleared.add(lhs)

    def assign(self, n, lhsnode, r):
        t = lhsnode
        while t.k == 'cast':
            t = t.c[0]
        if t.k == 'ref' and t.decl is not None:
            cur = self.env.get(t.decl)
            ty = ''
            if t.get('rt') in ('r', 'c') and cur is not None and cur[0] in ('at', 'fld', 'part'):
                self.store(n, cur, r)
                return
            self.env[t.decl] = r
            return
        l = self.place(t)
        if l is not None and l[0] in ('tok',):
            return
        if l is not None:
            self.store(n, l, r)

    def place(self, n):
        """the place a node names (not the value a local container has there)"""
        while n.k in ('cast',):
            n = n.c[0]
        if n.k == 'idx':
            return ('at', self.place(n.c[0]), self.expr(n.c[1]))
        if n.k == 'call' and n.op == '[]':
            return ('at', self.place(n.o), self.expr(n.c[0]))
        if n.k == 'call' and n.name in ('get', 'operator->', 'operator*', 'at', 'front', 'back', 'data') and n.o is not None:
            if n.name == 'at':
                return ('at', self.place(n.o), self.expr(n.c[0]))
            if n.name in ('operator*', 'operator->'):
                return self.deref(self.place(n.o))
            return self.place(n.o)
        if n.k == 'mem' and n.c and n.c[0] is not None:
            b = self.place(n.c[0])
            return self.fld(b, n.name)
        if n.k == 'un' and n.op in ('*', '&'):
            return self.deref(self.place(n.c[0]))
        if n.k == 'ctor' and (n.get('cp') or n.get('mv')) and n.c:
            return self.place(n.c[0])
        return self.expr(n)

    # ---- calls
    def call(self, n):
        q = n.q or ''
        nm = n.name or ''
        if n.get('cls') == 'std::ios_base' or nm in ('precision', 'flags', 'setf', 'width', 'fill'):
            if nm == 'precision' and n.o is not None and self.expr(n.o) == ('stream',):
                old = self.prec
                if n.c:
                    a = self.expr(n.c[0])
                    self.prec = a[1] if a[0] == 'c' else (a[1] if a[0] == 'prec' else None)
                return ('prec', old)
        if n.op in ('<<', '>>') and not q.startswith('Qrack::') or (n.op in ('<<', '>>') and q.startswith('Qrack::operator')):
            a = n.o if n.o is not None else n.c[0]
            b = n.c[0] if n.o is not None else n.c[1]
            if is_stream(a.type, 'o') or is_stream(a.type, 'i') or is_stream(a.type, ''):
                s = self.expr(a)
                if s == ('stream',):
                    self.io(n, b)
                    return ('stream',)
        recv = None
        if n.op == '->' or n.op == '*' and n.o is not None and not n.c:
            r = self.expr(n.o)
            return self.deref(r)
        if n.op == '[]':
            return self.at(self.note_map(n.o, self.expr(n.o)), self.expr(n.c[0]))
        if n.op in ('=',) and n.o is not None:
            r = self.expr(n.c[0])
            self.assign(n, n.o, r)
            return r
        if n.op == '()' and n.o is not None:
            f = self.expr(n.o)
            args = [self.expr(x) for x in n.c]
            if f in self.lams and self.lams[f] is not None:
                return self.inline(n, self.lams[f], self.env.get('this'), args)
            return ('none',)
        if n.op in ('++', '--') and n.o is not None:
            a = self.expr(n.o)
            self.assign(n, n.o, self.opn(n.op[0], a, ('c', 1)))
            return a
        if n.op in ('+', '-') and n.o is not None and n.c:
            return self.opn(n.op, self.expr(n.o), self.expr(n.c[0]))
        if n.o is not None:
            if (n.get('cls') or '').startswith('std::'):
                return self.stdmember(n, nm)
            recv = self.expr(n.o)
            f = self.method(n, recv)
            args = [self.expr(x) for x in n.c]
            return self.repo(n, f, recv, args)
        if q.startswith('std::'):
            args = [self.expr(x) for x in n.c]
            if nm in TRANSPARENT and args:
                return args[0]
            if nm in ('make_shared', 'make_unique'):
                return ('new', n.i, tuple(args))
            if nm in ('begin', 'cbegin') and args:
                return ('it', args[0], ('c', 0))
            if nm in ('end', 'cend') and args:
                return ('it', args[0], ('end',))
            if nm in ('make_pair',) and len(args) == 2:
                return ('rec', (('first', args[0]), ('second', args[1])))
            if nm == 'copy' and len(args) == 3:
                return self.copy(n, args)
            if any(a == ('stream',) or (a[0] == 'new' and ('stream',) in a[2]) for a in args) and nm not in ('flush',):
                raise Unknown(n, 'the stream is handed to %s' % nm)
            return ('f', nm) + tuple(args)
        args = [self.expr(x) for x in n.c]
        f = self.p.fns.get(n.get('fid'))
        return self.repo(n, f, None, args)

    def copy(self, n, args):
        a, b, c = args
        if a[0] == 'it' or c[0] == 'new' and ('stream',) in c[2]:
            raise Unknown(n, 'the stream is handed to copy')
        if any(x[0] == 'new' and ('stream',) in x[2] for x in args):
            raise Unknown(n, 'the stream is handed to copy')
        return ('none',)

    def repo(self, n, f, recv, args):
        if f is not None and f.body is not None:
            small = len(f.nodes) < 160
            uses = any(a == ('stream',) for a in args)
            if uses:
                return self.inline(n, f, recv, args)
            self.calls.append((recv, f, args, n, tuple(self.loops)))
            if small and not any(x.k in ('for', 'while', 'do', 'forrange', 'lambda') for x in f.body.walk()):
                if f.name not in ('SetPermutation',):
                    return self.inline(n, f, recv, args)
        else:
            self.calls.append((recv, n, args, n, tuple(self.loops)))
        return ('f', n.name, recv or ('none',)) + tuple(args)

    def stdmember(self, n, nm):
        cls = n.get('cls') or ''
        args = [self.expr(x) for x in n.c]
        o = self.note_map(n.o, self.place(n.o))
        v = self.resolve(o)
        if nm in ('get', 'operator->', 'operator*', 'data'):
            return self.deref(v)
        if nm in ('size', 'length'):
            return self.size(v)
        if nm in ('begin', 'cbegin'):
            return ('it', v, ('c', 0))
        if nm in ('end', 'cend'):
            return ('it', v, ('end',))
        if nm in ('rbegin', 'crbegin'):
            return ('it', ('rev', v), ('c', 0))
        if nm in ('rend', 'crend'):
            return ('it', ('rev', v), ('end',))
        if nm in ('at',):
            return self.at(v, args[0])
        if nm in ('clear', 'reset'):
            self.cleared.add(v)
            self.builds.pop(v, None)
            return ('none',)
        if nm in ('resize', 'assign') and args:
            self.sizes[v] = args[0]
            if nm == 'assign':
                self.cleared.add(v)
            return ('none',)
        if nm in ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front'):
            lv = ('L', self.loops[-1]) if self.loops else ('c', self.ntok)
            if nm in ('emplace', 'emplace_back', 'emplace_front') and len(args) == 2 and v in self.mapterms:
                args = [('rec', (('first', args[0]), ('second', args[1])))]
            if v in self.mapterms and args and args[-1][0] == 'rec':
                d = dict(args[-1][1])
                if 'first' in d and 'second' in d:
                    self.store(n, ('at', v, d['first']), d['second'])
                    return ('none',)
            if nm in ('push_front', 'emplace_front') or (nm in ('insert', 'emplace') and len(args) == 2 and
                                                         args[0] == ('it', v, ('c', 0)) and 'set' not in cls):
                lv = ('rev', lv)
            if args:
                a = args[-1]
                self.store(n, ('at', v, lv), a)
            return ('none',)
        if nm in ('erase', 'pop_back'):
            self.removed.append((v, n, tuple(self.loops)))
            return ('none',)
        if nm in ('swap',) and args:
            self.store(n, v, args[0])
            return ('none',)
        if nm in ('empty', 'operator bool'):
            return ('f', nm, v)
        return ('f', nm, v) + tuple(args)

    # ---- input and output
    def io(self, n, b):
        t = clean(b.type)
        if b.k == 'ref' and b.get('dk') == 'func':
            if b.name in ('endl', 'ends', 'flush', 'ws', 'skipws', 'dec', 'boolalpha', 'noboolalpha', 'scientific',
                          'hexfloat', 'defaultfloat', 'fixed', 'showpoint', 'noshowpoint', 'hex', 'oct', 'unitbuf'):
                if b.name == 'endl':
                    self.emit(Ev('sep', n))
                elif b.name in ('hex', 'oct', 'hexfloat', 'fixed', 'boolalpha'):
                    self.emit(Ev('mode', n, what=b.name))
                elif b.name == 'scientific':
                    pass
                return
        if 'Setprecision' in t or '_Setprecision' in t:
            a = None
            for x in b.walk():
                if x.k == 'call' and x.name == 'setprecision':
                    a = self.expr(x.c[0])
            self.prec = a[1] if a and a[0] in ('c', 'prec') and isinstance(a[1], int) else None
            return
        if t in ('std::_Setw', 'std::_Setfill<char>'):
            raise Unknown(n, 'formatted output')
        b0 = b
        while b0.k == 'cast':
            b0 = b0.c[0]
        if b0.k == 'cond' and all(self.text(x) is not None for x in b0.c[1:3]):
            self.expr(b0.c[0])
            s = [self.text(x) for x in b0.c[1:3]]
            if all(x and not x.strip() for x in s):
                self.emit(Ev('sep', n))
            else:
                for x in s:
                    if x.strip():
                        self.emit(Ev('text', n, s=x))
            return
        if b.k == 'str' or t.startswith('char[') or (b.k == 'lit' and t == 'char'):
            s = b.get('s') if b.k == 'str' else chr(int(b.val)) if b.ival() is not None else '?'
            self.emit(Ev('sep' if s and not s.strip() else 'text', n, s=s))
            return
        kind = self.kind(t)
        if not self.writer:
            l = self.place(b)
            self.ntok += 1
            tok = ('tok', self.ntok)
            self.emit(Ev('tok', n, kind=kind, ty=t, id=self.ntok, src=l))
            if kind.startswith('obj:'):
                if l[0] in ('new', 'loc', 'none', 'f') or (b.k == 'ref' and b.get('dk') == 'local'):
                    if b.k == 'ref':
                        self.env[b.decl] = tok
                    else:
                        for x in b.walk():
                            if x.k == 'ref' and x.get('dk') == 'local':
                                self.env[x.decl] = tok
                else:
                    self.stores.append((l, tok, n, tuple(self.loops)))
            else:
                self.assign(n, b, tok)
            return
        v = self.expr(b)
        self.ntok += 1
        self.emit(Ev('tok', n, kind=kind, ty=t, id=self.ntok, src=v, prec=self.prec))

    def text(self, x):
        while x.k == 'cast':
            x = x.c[0]
        if x.k == 'str':
            return x.get('s') or ''
        if x.k == 'lit' and clean(x.type) == 'char' and x.ival() is not None:
            return chr(x.ival())
        return None

    def kind(self, t):
        if t in ('bool',):
            return 'bool'
        if t in CHAR:
            return 'char'
        if t in BITS or t.endswith('__int128'):
            return 'int'
        if t in FLOATS:
            return 'float'
        if t.startswith('std::complex<'):
            return 'complex'
        if 'basic_string' in t:
            return 'string'
        m = re.match(r'std::shared_ptr<(Qrack::\w+)>', t)
        if m:
            return 'obj:' + m.group(1)
        if t == 'std::_Bit_reference':
            return 'bool'
        if t.endswith('*'):
            return 'pointer'
        return 'other:' + t

    # ---- statements
    def block(self, n):
        if n is None:
            return
        k = n.k
        if k == 'block':
            for x in n.c:
                self.block(x)
            return
        if k == 'decl':
            for v in n.c:
                if v.k != 'var':
                    continue
                t = clean(v.type)
                val = self.expr(v.c[0]) if v.c else ('loc', v.decl)
                ref = (v.type or '').rstrip().endswith('&')
                if not ref and val[0] in ('at', 'fld') and re.match(r'std::(vector|list|map|set|deque)<', t):
                    pass
                self.env[v.decl] = val
                if val[0] in ('loc', 'box'):
                    self.note_map(v, val)
            return
        if k == 'if':
            init, cv, cond, th, el = (list(n.c) + [None] * 5)[:5]
            self.block(init)
            if cv is not None:
                self.block(cv)
            c = self.expr(cond) if cond is not None else ('none',)
            alts = []
            save = dict(self.env)
            envs = []
            for br in (th, el):
                self.stack.append([])
                self.env = dict(save)
                if br is not None:
                    self.block(br)
                envs.append(self.env)
                alts.append(self.stack.pop())
            leaves = [self.leaves(th), self.leaves(el)]
            if leaves[0] and not leaves[1]:
                self.env = envs[1]
                if alts[0]:
                    self.emit(Ev('if', n, cond=c, a=alts[0], b=[]))
                self.stack[-1].extend(alts[1])
                return
            self.env = dict(envs[0]) if th is not None else save
            for d in envs[0]:
                if d in envs[1] and envs[0][d] != envs[1][d] and d != 'this':
                    self.env[d] = ('alt', (envs[0][d], envs[1][d]))
            for d in envs[1]:
                self.env.setdefault(d, envs[1][d])
            if alts[0] or alts[1]:
                self.emit(Ev('if', n, cond=c, a=alts[0], b=alts[1]))
            return
        if k in ('for', 'while', 'do', 'forrange'):
            return self.loop(n)
        if k == 'return':
            if n.c and n.c[0] is not None:
                self.rets.append(self.expr(n.c[0]))
            return
        if k == 'try':
            self.block(n.c[0])
            return
        if k in ('break', 'continue', 'case', 'default', 'switch', 'catch'):
            if k == 'switch':
                raise Unknown(n, 'switch')
            for x in n.kids():
                self.block(x)
            return
        self.expr(n)

    def leaves(self, n):
        if n is None:
            return False
        last = n
        while last.k == 'block':
            xs = [x for x in last.c if x is not None]
            if not xs:
                return False
            last = xs[-1]
        return last.k in ('throw', 'return') and self.depth == 0 or last.k in ('throw', 'continue')

    def loop(self, n):
        k = n.k
        lid = self.new('loop')[1]
        ix = ('L', lid)
        count = None
        if k == 'forrange':
            c = self.resolve(self.place(n.c[0]))
            c = self.note_map(n.c[0], c)
            v = n.c[1].c[0] if n.c[1].k == 'decl' else n.c[1]
            count = self.size(c)
            body, inc = n.c[2], None
            self.loops.append(lid)
            self.env[v.decl] = ('elem', c, ix) if c in self.mapterms or re.search(r'std::pair<', v.type or '') else \
                self.at(c, ix)
        else:
            if k == 'for':
                init, cond, inc, body = (list(n.c) + [None] * 4)[:4]
                self.block(init)
            elif k == 'while':
                xs = [x for x in n.c if x is not None]
                cond, body, inc = xs[-2], xs[-1], None
            else:
                body, cond, inc = n.c[0], n.c[1], None
            self.loops.append(lid)
            written = set()
            for part in (body, inc, cond):
                if part is None:
                    continue
                for x in part.walk():
                    t = None
                    if x.k == 'asg' or (x.k == 'un' and x.op in ('++', '--')):
                        t = x.c[0]
                    elif x.k == 'call' and x.op in ('++', '--', '+=', '-=') and x.o is not None:
                        t = x.o
                    while t is not None and t.k == 'cast':
                        t = t.c[0]
                    if t is not None and t.k == 'ref' and t.decl is not None and t.decl in self.env:
                        written.add((t.decl, x.op))
            ctr = None
            start = None
            down = False
            for d, o in sorted(written, key=str):
                cur = self.env.get(d)
                used = cond is not None and any(x.k == 'ref' and x.decl == d for x in cond.walk())
                if used and o in ('++', '--'):
                    ctr, start, down = d, cur, o == '--'
                elif not used:
                    self.env[d] = self.new('var')
            if ctr is not None:
                if start is not None and start[0] == 'it':
                    self.env[ctr] = ('it', start[1], ix)
                else:
                    self.env[ctr] = ix if not down else ('down', ix)
            if cond is not None:
                cc = cond
                while cc.k == 'cast':
                    cc = cc.c[0]
                ab = None
                if cc.k == 'bin' and cc.op in ('<', '!=', '>', '<=', '>='):
                    ab = cc.op, self.expr(cc.c[0]), self.expr(cc.c[1])
                elif cc.k == 'call' and cc.op in ('!=', '<'):
                    xs = ([cc.o] if cc.o is not None else []) + list(cc.c)
                    ab = cc.op, self.expr(xs[0]), self.expr(xs[1])
                if ab:
                    o, a, b = ab
                    if o == '>' and not down:
                        o, a, b = '<', b, a
                    if ctr is not None and not down:
                        if b[0] == 'it' and b[2] == ('end',):
                            count = self.size(b[1])
                        elif a[0] == 'it' and a[2] == ('end',):
                            count = self.size(a[1])
                        elif o in ('<', '!='):
                            count = b
                            if start == ('c', 0):
                                pass
                            elif start is not None and start[0] == 'c' and b[0] == 'c':
                                count = ('c', int(b[1]) - int(start[1]))
                            elif start is not None:
                                count = ('op', '-', b, start)
                        elif o == '<=':
                            count = ('op', '+', b, ('c', 1))
                            if start == ('c', 1):
                                count = b
                                self.env[ctr] = ('op', '+', ix, ('c', 1))
        if ctr is not None if k != 'forrange' else False:
            if count is not None and count[0] == 'c' and isinstance(count[1], int) and 0 < count[1] <= 16 and \
                    start is not None and start[0] == 'c' and any(x.k == 'call' and x.op in ('<<', '>>') for x in body.walk()):
                self.loops.pop()
                for i in range(count[1]):
                    self.env[ctr] = ('c', int(start[1]) + i)
                    self.block(body)
                self.env[ctr] = ('c', int(start[1]) + count[1])
                return
        self.stack.append([])
        self.block(body)
        if inc is not None:
            pass
        evs = self.stack.pop()
        self.loops.pop()
        if evs:
            self.emit(Ev('loop', n, lid=lid, count=count, body=evs, stop=any(x.k in ('break', 'return') for x in body.walk())))


def leaf_events(evs):
    for e in evs:
        if e.k == 'tok':
            yield e
        elif e.k == 'loop':
            for x in leaf_events(e.body):
                yield x
        elif e.k == 'if':
            for x in leaf_events(e.a + e.b):
                yield x


def core(evs):
    return [e for e in evs if e.k in ('tok', 'loop', 'if')]


class Match(object):
    """pairs the writer's and the reader's tokens and compares places, counts and kinds"""
    def __init__(self, rep, name, w, r, inv):
        self.rep, self.name, self.w, self.r, self.inv = rep, name, w, r, inv
        self.lmap = {}     # reader loop -> writer loop
        self.tmap = {}     # reader token -> writer token event
        self.wtok = {}
        self.bad = []
        self.seq(w.evs, r.evs, 0)
        for rt, we in self.tmap.items():
            self.wtok[rt] = we

    def where(self, x, e):
        f = x.f
        return '%s:%s' % (f.file, e.node.l) if hasattr(f, 'file') else str(e.node.l)

    def seq(self, a, b, lvl):
        a, b = core(a), core(b)
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                self.bad.append(('structure', b[i], 'r', 'reads something that is not written there'))
                return
            if i >= len(b):
                self.bad.append(('structure', a[i], 'w', 'writes something that is not read'))
                return
            x, y = a[i], b[i]
            if x.k != y.k:
                self.bad.append(('structure', x, 'w', 'writes a %s where a %s is read' % (NAMES[x.k], NAMES[y.k])))
                return
            if x.k == 'tok':
                self.tmap[y.id] = x
            elif x.k == 'loop':
                self.lmap[y.lid] = x.lid
                self.seq(x.body, y.body, lvl + 1)
                self.counts = getattr(self, 'counts', [])
                self.counts.append((x, y))
            else:
                self.seq(x.a, y.a, lvl)
                self.seq(x.b, y.b, lvl)


NAMES = {'tok': 'value', 'loop': 'sequence', 'if': 'choice'}
SYM = {}


def canon(t, m, side, val, inv, seen=0):
    """canonical rendering of a term; val: term -> token number for values that are themselves on the stream"""
    if seen > 30:
        return '?'
    f = lambda x: canon(x, m, side, val, inv, seen + 1)
    if not t or not isinstance(t[0], str):
        return '(%s)' % ', '.join(f(x) if isinstance(x, tuple) else str(x) for x in t)
    if t in val:
        return '#%d' % val[t]
    k = t[0]
    if k == 'tok':
        e = m.tmap.get(t[1])
        if e is None:
            return '#?'
        return '#%d' % e.id
    if k == 'L':
        lid = t[1]
        if side == 'r':
            lid = m.lmap.get(lid, lid)
            if lid == t[1] and t[1] not in m.lmap:
                return 'L?%d' % t[1]
        return 'L%d' % lid
    if k == 'c':
        return str(t[1])
    if k == 'root':
        return 's'
    if k == 'fld':
        return '%s.%s' % (f(t[1]), t[2])
    if k == 'at':
        return '%s[%s]' % (f(t[1]), f(t[2]))
    if k == 'size':
        s = f(t[1])
        for pat, rep in inv:
            if re.match(pat + '$', s):
                return re.sub(pat, rep, s)
        return '|%s|' % s
    if k == 'narrow':
        return f(t[3])
    if k == 'op':
        return '(%s %s %s)' % (f(t[2]), t[1], f(t[3]))
    if k == 'alt':
        own = [x for x in t[1] if base_of(x)[0] not in ('new', 'loc', 'box')]
        return ' or '.join(sorted(set(f(x) for x in own or t[1])))
    if k in ('rev', 'down'):
        return '%s(%s)' % (k, f(t[1]))
    return k + ('(%s)' % ', '.join(f(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


# ---------------------------------------------------------------- what a save has to contain, per class
INV = [(r's\.[xz]\[[^]]*\]', 's.qubitCount')]
SAVED = {
    'Qrack::QStabilizer': ['s.qubitCount', r's.x[*][*]', r's.z[*][*]', 's.r[*]'],
    'Qrack::QUnitClifford': ['s.qubitCount', 's.shards[*].mapped', 's.shards[*].unit'],
    'Qrack::QStabilizerHybrid': ['s.qubitCount', 's.stabilizer', 's.shards[*].gate[0]', 's.shards[*].gate[1]',
                                 's.shards[*].gate[2]', 's.shards[*].gate[3]'],
    'Qrack::QCircuitGate': ['s.target', 's.controls[*]', 's.payloads[*][0]', 's.payloads[*][1]', 's.payloads[*][2]',
                            's.payloads[*][3]'],
    'Qrack::QCircuit': ['s.qubitCount', 's.gates[*]'],
}
RESET = {
    'Qrack::QStabilizer': ['qubitCount', 'maxQPower', 'x', 'z', 'r'],
    'Qrack::QUnitClifford': ['qubitCount', 'maxQPower', 'shards'],
    'Qrack::QStabilizerHybrid': ['qubitCount', 'maxQPower', 'engine', 'rdmClone', 'ancillaCount', 'deadAncillaCount'],
    'Qrack::QCircuitGate': ['target', 'controls', 'payloads'],
    'Qrack::QCircuit': ['qubitCount', 'gates'],
}


def star(s):
    return re.sub(r'\[(?:[^][0-9]|[0-9]+[^]0-9]|#|\[[^]]*\])[^][]*\]', '[*]', s)


def root_field(n, isroot):
    """the field of the object that an lvalue names as a whole"""
    while n is not None and n.k in ('cast',):
        n = n.c[0]
    if n is None or n.k != 'mem':
        return None
    b = n.c[0] if n.c else None
    if b is None or b.k == 'this':
        return n.name if isroot('this') else None
    while b.k in ('cast',) or (b.k == 'call' and b.name in ('operator->', 'get') and b.o is not None):
        b = b.c[0] if b.k == 'cast' else b.o
    if b.k == 'this':
        return n.name if isroot('this') else None
    if b.k == 'ref' and isroot(b.decl):
        return n.name
    return None


def must(prog, n, isroot, cls, depth=0):
    """fields of the object that are given a new value whenever the statement completes"""
    out = set()
    if n is None:
        return out
    k = n.k
    if k in ('block', 'try'):
        for x in (n.c if k == 'block' else n.c[:1]):
            out |= must(prog, x, isroot, cls, depth)
        return out
    if k == 'if':
        init, cv, cond, th, el = (list(n.c) + [None] * 5)[:5]
        a, b = must(prog, th, isroot, cls, depth), must(prog, el, isroot, cls, depth)
        zero, nz = set(), set()

        def facts(c, neg):
            while c is not None and c.k == 'cast':
                c = c.c[0]
            if c is None:
                return
            if c.k == 'un' and c.op == '!':
                return facts(c.c[0], not neg)
            if c.k == 'bin' and c.op == '&&' and not neg:
                facts(c.c[0], neg)
                facts(c.c[1], neg)
                return
            f = root_field(c, isroot)
            if f and neg:
                zero.add(f)
        facts(cond, False)
        a |= zero
        if ends(th):
            return out | b
        if ends(el):
            return out | a
        return out | (a & b)
    if k in ('for', 'while', 'do', 'forrange', 'lambda', 'switch', 'cond'):
        if k == 'do':
            return must(prog, n.c[0], isroot, cls, depth)
        return out
    for x in n.walk():
        if x.k == 'lambda':
            continue
        f = None
        if x.k == 'asg' and x.op == '=':
            f = root_field(x.c[0], isroot)
        elif x.k == 'call' and x.op == '=' and x.o is not None:
            f = root_field(x.o, isroot)
        elif x.k == 'call' and x.op == '>>' and x.c:
            f = root_field(x.c[-1], isroot)
        elif x.k == 'call' and x.name in ('clear', 'reset', 'assign', 'swap') and x.o is not None:
            f = root_field(x.o, isroot)
        if f:
            out.add(f)
        elif x.k == 'call' and depth < 4 and (x.get('cls') or '').startswith('Qrack::'):
            o = x.o
            while o is not None and (o.k == 'cast' or (o.k == 'call' and o.name in ('operator->', 'get') and o.o is not None)):
                o = o.c[0] if o.k == 'cast' else o.o
            on = (o is None or o.k == 'this') and isroot('this') or o is not None and o.k == 'ref' and isroot(o.decl)
            if on:
                g = prog.fns.get(x.get('fid'))
                if x.get('virt') and not x.get('qualcall'):
                    for c in [cls] + list(prog.bases_of.get(cls, [])):
                        h = [f for f in prog.fns.values() if f.cls == c and f.name == x.name and f.body and
                             len(f.params) == len(x.c)]
                        if h:
                            g = h[0]
                            break
                if g is not None and g.body is not None:
                    out |= must(prog, g.body, lambda d: d == 'this', cls, depth + 1)
                    if not x.get('virt') or x.get('qualcall'):
                        pass
        elif x.k == 'call' and depth < 4 and x.get('fid') in prog.fns and x.o is None and not x.op:
            g = prog.fns[x.get('fid')]
            if g.body is not None and (g.q or '').startswith('Qrack::'):
                ds = set()
                for q, a in zip(g.params, x.c):
                    while a.k in ('cast', 'ctor') and len(a.c) == 1:
                        a = a.c[0]
                    if a.k == 'ref' and isroot(a.decl):
                        ds.add(q['d'])
                if ds:
                    out |= must(prog, g.body, lambda d: d in ds, cls, depth + 1)
    return out


def ends(n):
    while n is not None and n.k == 'block':
        xs = [x for x in n.c if x is not None]
        n = xs[-1] if xs else None
    return n is not None and n.k in ('return', 'throw')


def loc(x, n):
    fn = n.fn if getattr(n, 'fn', None) is not None else x.f
    return fn.loc(n)


def separation(evs, pend, bad):
    """pend: a value was written and nothing that separates it from the next one yet; returns pend afterwards"""
    for e in evs:
        if e.k == 'sep':
            pend = False
        elif e.k == 'text':
            bad.append((e, 'writes the text "%s", which is not read' % e.s))
        elif e.k == 'tok':
            if pend:
                bad.append((e, 'writes a value directly after another one'))
            pend = not e.kind.startswith('obj:')
        elif e.k == 'loop':
            p1 = separation(e.body, pend, bad)
            if p1 and not pend:
                separation(e.body, True, bad)
            pend = pend or p1
        elif e.k == 'if':
            pa = separation(e.a, pend, bad)
            pb = separation(e.b, pend, bad)
            pend = pa or pb
    return pend


def modes(evs):
    for e in evs:
        if e.k == 'mode':
            yield e
        elif e.k == 'loop':
            for x in modes(e.body):
                yield x
        elif e.k == 'if':
            for x in modes(e.a + e.b):
                yield x


def operators(p):
    """class -> (writer, reader)"""
    out = {}
    for f in p.fns.values():
        if f.body is None or len(f.params) != 2 or f.cls or f.lam:
            continue
        if f.name not in ('operator<<', 'operator>>'):
            continue
        t0, t1 = p.types[f.params[0]['t']], p.types[f.params[1]['t']]
        if not is_stream(t0, 'o' if f.name == 'operator<<' else 'i'):
            continue
        m = re.search(r'shared_ptr<(Qrack::\w+)>', t1)
        key = m.group(1) if m else ('int' if 'int128' in t1 or 'BigInteger' in t1 else None)
        if key:
            out.setdefault(key, {})[f.name[-2:]] = f
    return out


def pair(rep, p, name, w, r):
    short = name.split('::')[-1]
    try:
        W = Exec(p, w, True)
        R = Exec(p, r, False)
    except Unknown as e:
        rep.note('%s: not decided (%s at %s)' % (short, e.why, e.node.fn.loc(e.node) if e.node is not None else ''))
        return 0
    bad = []
    pend = separation(W.evs, False, bad)
    toks = list(leaf_events(W.evs))
    rtoks = list(leaf_events(R.evs))
    for e in toks:
        rep.check('separated', not any(b[0] is e for b in bad), '%s token %d' % (short, e.id), loc(W, e.node),
                  'saving a %s %s' % (short, next((b[1] for b in bad if b[0] is e), '')))
    for e, t in bad:
        if e.k == 'text':
            rep.check('separated', False, '%s text %s' % (short, e.s), loc(W, e.node), 'saving a %s %s' % (short, t))
    rep.check('separated', not pend, '%s end' % short, w.loc(w.body), 'saving a %s ends without a separator' % short)
    for x in (W, R):
        for e in modes(x.evs):
            rep.check('numbers', False, '%s mode %s' % (short, e.what), loc(x, e.node),
                      '%s changes how numbers are written or read (%s)' % (short, e.what))
        for e in leaf_events(x.evs):
            ok = e.kind not in ('char', 'pointer', 'string') and not e.kind.startswith('other')
            rep.check('numbers', ok, '%s %s token %d' % (short, 'writer' if x is W else 'reader', e.id), loc(x, e.node),
                      '%s %s a value of type %s, which is not a number' % (short, 'writes' if x is W else 'reads', e.ty))
            if x is W:
                s = e.src
                nar = s[0] == 'narrow'
                rep.check('whole value', not nar, '%s token %d' % (short, e.id), loc(x, e.node),
                          'saving a %s writes only %s of %s bits of a value' % (short, s[1] if nar else '', s[2] if nar else ''))
    m = Match(rep, short, W, R, INV)
    rep.check('structure', not m.bad, short, loc(W if m.bad and m.bad[0][2] == 'w' else R, m.bad[0][1].node) if m.bad
              else w.loc(w.body), '%s %s' % (short, m.bad[0][3] if m.bad else ''))
    if m.bad:
        return len(toks)
    for rt, e in sorted(m.tmap.items()):
        y = next(x for x in rtoks if x.id == rt)
        rep.check('same kind', e.kind == y.kind or {e.kind, y.kind} == {'int', 'bool'}, '%s token %d' % (short, e.id), loc(R, y.node),
                  '%s is written as %s and read as %s' % (short, e.kind, y.kind))
        if e.kind in ('int', 'bool') and y.kind in ('int', 'bool'):
            a, b = BITS.get(e.ty, 0), BITS.get(y.ty, 999)
            rep.check('whole value', b >= min(a, 32) if a <= 64 and b >= 32 else b >= a, '%s token %d read' % (short, e.id), loc(R, y.node),
                      'a %s value of %s bits is read into %s bits' % (short, a, b))
    # ---- places
    val = {}
    for e in toks:
        s = e.src
        while s[0] == 'narrow':
            s = s[3]
        if s[0] in ('L', 'key') or s[0] == 'size':
            val[s] = e.id
    wp = {}
    for e in toks:
        s = e.src
        while s[0] == 'narrow':
            s = s[3]
        v2 = {k: v for k, v in val.items() if v != e.id}
        wp[e.id] = canon(s, m, 'w', v2, INV)
    inv_tok = {}
    for k, s in wp.items():
        if s.startswith('s.') and '[' not in s:
            inv_tok[s] = '#%d' % k

    def sub(s):
        for k in sorted(inv_tok, key=len, reverse=True):
            s = re.sub(re.escape(k) + r'(?![\w.\[])', inv_tok[k], s)
        return s
    wp = {k: (s if s in inv_tok else sub(s)) for k, s in wp.items()}
    ren = {}
    stores = list(R.stores)
    for lhs, rhs, n, lo in stores:
        if rhs[0] in ('new', 'loc', 'box') and base_of(lhs) == ('root',):
            ren[rhs] = lhs
    for b, ents in R.builds.items():
        for ks, v in ents:
            l = b
            for kk in ks:
                l = ('at', l, kk)
            stores.append((l, v, None, ()))
    for y in rtoks:
        stores.append((y.src, ('tok', y.id), y.node, y.loops))

    def rename(t, d=0):
        if d > 20:
            return t
        if t in ren:
            return rename(ren[t], d + 1)
        return tuple(rename(x, d + 1) if isinstance(x, tuple) else x for x in t)
    SYM['ren'] = rename
    sinks = {}
    rev_tok = {v: k for k, v in m.tmap.items()}
    for lhs, rhs, n, lo in stores:
        while rhs[0] == 'narrow':
            rhs = rhs[3]
        if rhs[0] == 'tok':
            l = rename(lhs)
            if base_of(l) == ('root',):
                s = canon(l, m, 'r', {}, INV)
                sinks.setdefault(rhs[1], set()).add(s if s in inv_tok else sub(s))
    alltext = ' '.join(x for s in sinks.values() for x in s)
    for rt, e in sorted(m.tmap.items()):
        y = next(x for x in rtoks if x.id == rt)
        pw = wp[e.id]
        got = sinks.get(rt, set())
        if pw.startswith('s.') or pw == 's':
            ok = pw in got and not any(star(g) != star(pw) for g in got)
            rep.check('same place', ok, '%s token %d' % (short, e.id), loc(R, y.node),
                      'the %s written from %s is read into %s' % (NAMES['tok'], pw, ', '.join(sorted(got)) or 'nothing'))
        elif pw.startswith('|'):
            rep.check('same place', not got, '%s token %d' % (short, e.id), loc(R, y.node),
                      'the count written from %s is read into %s' % (pw, ', '.join(sorted(got))))
        elif val.get(strip(e.src)) == e.id:
            used = any('#%d]' % e.id in wp[k] for k in wp)
            ru = '#%d]' % e.id in alltext or any(('#%d' % e.id) in g for g in got) or got == {pw}
            rep.check('same place', (not used) or ru, '%s token %d' % (short, e.id), loc(R, y.node),
                      'the selector written as token %d is not used as one when loading' % e.id)
        else:
            ok = bool(got) and pw in got
            if '?' in pw or 'alt' in pw or ' or ' in pw:
                parts = pw.split(' or ')
                ok = any(x in got for x in parts)
            if not ok and ('f(' in pw or 'new(' in pw or 'unk(' in pw or 'var(' in pw or 'loc(' in pw):
                rep.note('%s token %d: not decided (%s)' % (short, e.id, pw[:80]))
                continue
            rep.check('same place', ok, '%s token %d' % (short, e.id), loc(R, y.node),
                      'the value written from %s is read into %s' % (pw, ', '.join(sorted(got)) or 'nothing'))
    for x, y in getattr(m, 'counts', []):
        if x.count is None or y.count is None:
            rep.note('%s: the length of the sequence at %s is not decided' % (short, loc(W, x.node)))
            continue
        a = sub(canon(x.count, m, 'w', val, INV))
        b = sub(canon(rename(y.count), m, 'r', {}, INV))
        rep.check('same count', a == b, '%s loop %s' % (short, loc(W, x.node).split(':')[-1]), loc(R, y.node),
                  '%s writes %s elements and reads %s' % (short, a, b))
    # ---- completeness
    have = set()
    for s in wp.values():
        for x in s.split(' or '):
            have.add(star(x))
    for want in SAVED.get(name, []):
        rep.check('complete', want in have or re.sub(r'\[[0-3]\]$', '[*]', want) in have, '%s %s' % (short, want), w.loc(w.body),
                  'saving a %s does not write %s' % (short, want[2:]))
    rd = r.params[1]['d']
    ma = must(p, r.body, lambda d: d == rd, name)
    for want in RESET.get(name, []):
        rep.check('replaced', want in ma, '%s %s' % (short, want), r.loc(r.body),
                  'loading a %s does not replace its %s on every path' % (short, want))
    # ---- qubits dropped while loading
    if name == 'Qrack::QStabilizerHybrid':
        st = [(canon(rename(rhs), m, 'r', {}, INV), n) for lhs, rhs, n, lo in R.stores
              if lhs == ('fld', ('root',), 'ancillaCount') and not lo]
        ok = any(sub(s) in ('(s.stabilizer.qubitCount - #1)',) or re.search(r'stabilizer', s) and (wq in s or 's.qubitCount' in s)
                 for s, n in st for wq in [inv_tok.get('s.qubitCount', '#1')])
        rep.check('dropped', ok, short + ' ancillae', st[-1][1].fn.loc(st[-1][1]) if st else r.loc(r.body),
                  'loading a %s does not count the tableau qubits beyond the register as ancillae' % short)
        for recv, f, args, n, lo in R.calls:
            if getattr(f, 'name', None) == 'Dispose' and recv == ('fld', ('root',), 'stabilizer'):
                e = sum(1 for v, nn, l2 in R.removed if v == ('fld', ('root',), 'shards') and l2 == lo)
                d = sum(1 for lhs, rhs, nn, l2 in R.stores if lhs == ('fld', ('root',), 'ancillaCount') and l2 == lo and
                        rhs == ('op', '-', ('fld', ('root',), 'ancillaCount'), ('c', 1)))
                later = any(lhs == ('fld', ('root',), 'ancillaCount') and rhs[0] == 'op' and not l2 and nn is not None and
                            nn.l > n.l for lhs, rhs, nn, l2 in R.stores)
                rep.check('dropped', e == 1 and (d == 1 or later), '%s %s' % (short, n.l), loc(R, n),
                          'loading a %s drops a qubit of the tableau without dropping its buffer and its place in the '
                          'ancilla count' % short)
    return len(toks)


def consts(n, names):
    """constants multiplied, divided or subtracted in a statement"""
    out = []
    for x in n.walk():
        if x.k in ('bin', 'asg') and x.op in names:
            v = x.c[1].ival()
            if v is None:
                v = x.c[0].ival()
            out.append((x.op, v, x))
        elif x.k == 'call' and x.op in names:
            for a in x.c:
                if a.ival() is not None:
                    out.append((x.op, a.ival(), x))
    return out


def digits(rep, w, r):
    """wide integers: written and read digit by digit"""
    div = []
    for x in w.body.walk():
        if x.k == 'call' and 'div' in (x.name or '') and len(x.c) >= 2:
            v = x.c[1].ival()
            lp = next((a for a in x.ancestors() if a.k in ('while', 'for', 'do')), None)
            div.append((x, v, lp))
    div += [(x, v, next((a for a in x.ancestors() if a.k in ('while', 'for', 'do')), None))
            for o, v, x in consts(w.body, ('/', '%', '/=', '%='))]
    mul = [(x, v) for o, v, x in consts(r.body, ('*', '*='))]
    if not div or not mul:
        rep.note('wide integers: the form of the conversion is not known; not decided')
        return
    bases = {v for _, v, _ in div} | {v for _, v in mul}
    rep.check('digits', bases == {10}, 'base', w.loc(div[0][0]), 'wide integers are written in base %s and read in base %s'
              % (sorted({v for _, v, _ in div}, key=str), sorted({v for _, v in mul}, key=str)))
    sub = [v for o, v, x in consts(r.body, ('-', '-=')) if v is not None and v > 9]
    if sub:
        rep.check('digits', set(sub) == {48}, 'zero digit', r.loc(r.body), 'a digit is read as its distance from %s' % sub)
    # the value that is divided is the one that goes on to the next step
    for x, v, lp in div:
        if lp is None or x.k != 'call' or len(x.c) < 4:
            continue
        a = x.c[0]
        while a.k == 'cast':
            a = a.c[0]
        src = a.decl if a.k == 'ref' else None
        upd = any(y.k in ('asg',) and y.c[0].k == 'ref' and y.c[0].decl == src or
                  y.k == 'call' and y.op == '=' and y.o is not None and y.o.k == 'ref' and y.o.decl == src for y in lp.walk())
        if not upd:   # divided in place
            upd = any(z.k == 'un' and z.op == '&' and z.c[0].k == 'ref' and z.c[0].decl == src for z in x.c[2].walk())
        rep.check('digits', upd, 'next digit', w.loc(x), 'the quotient does not become the value of the next step')
        cd = [z for z in ((lp.c[-2] if lp.k == 'while' else lp.c[1] if lp.k in ('do', 'for') else None),) if z is not None]
        moved = {y.c[0].decl for y in lp.walk() if y.k == 'asg' and y.c[0].k == 'ref'} | \
            {y.o.decl for y in lp.walk() if y.k == 'call' and y.op in ('=', '/=', '++', '--') and y.o is not None and y.o.k == 'ref'} | \
            {y.c[0].decl for y in lp.walk() if y.k == 'un' and y.op in ('++', '--', '&') and y.c[0].k == 'ref'}
        if cd:
            rep.check('digits', any(z.k == 'ref' and z.decl in moved for z in cd[0].walk()), 'ends', w.loc(lp),
                      'nothing in the loop over the digits changes what its end depends on')
    # order: lowest digit first into the buffer, buffer from its end to its start
    front = any(x.k == 'call' and x.name in ('push_front', 'insert') for x in w.body.walk())
    back = any(x.k == 'call' and x.name in ('push_back', 'emplace_back') for x in w.body.walk())
    outs = [x for x in w.body.walk() if x.k == 'call' and x.op == '<<' and
            any(a.k in ('for', 'while', 'forrange') for a in x.ancestors())]
    if back and not front and outs:
        lp = next(a for a in outs[0].ancestors() if a.k in ('for', 'while', 'forrange'))
        down = any(x.k == 'un' and x.op == '--' for x in lp.walk()) or \
            any(x.k == 'call' and x.name in ('rbegin', 'crbegin') for x in lp.walk()) or \
            any(x.k == 'call' and x.name == 'reverse' for x in w.body.walk())
        rep.check('digits', down, 'order', w.loc(outs[0]), 'the digits are written lowest first')


def strip(s):
    while s[0] == 'narrow':
        s = s[3]
    return s


def base_of(t):
    while t[0] in ('fld', 'at', 'size', 'rev', 'down'):
        t = t[1]
    return t


def precision(rep, p, pairs):
    """every place that saves an object which holds real numbers sets a sufficient precision first"""
    import sys
    need = {}
    def real(cls, seen=()):
        if cls in seen or '<<' not in pairs.get(cls, {}):
            return 0
        if cls not in need:
            try:
                W = Exec(p, pairs[cls]['<<'], True)
            except Unknown:
                return 0
            d = 0
            for e in leaf_events(W.evs):
                if e.kind in ('float', 'complex'):
                    t = re.sub(r'std::complex<(.*)>', r'\1', e.ty)
                    if (e.prec or 0) < FLOATS.get(t, 9):
                        d = max(d, FLOATS.get(t, 9))
                elif e.kind.startswith('obj:'):
                    d = max(d, real(e.kind[4:], seen + (cls,)))
            need[cls] = d
        return need[cls]
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.body is None or f.name in ('operator<<',) and not f.cls:
            continue
        for x in f.body.walk():
            if x.k != 'call' or x.op != '<<' or not (x.q or '').startswith('Qrack::operator'):
                continue
            t = clean(x.c[-1].type)
            mm = re.match(r'std::shared_ptr<(Qrack::\w+)>', t)
            if not mm:
                continue
            d = real(mm.group(1))
            if not d:
                continue
            s = x.c[0]
            while s.k == 'cast':
                s = s.c[0]
            n += 1
            ok = False
            if s.k == 'ref':
                best = None
                for y in f.body.walk():
                    if y.k == 'call' and y.name == 'precision' and y.o is not None and y.c and y.l <= x.l:
                        o = y.o
                        while o.k == 'cast':
                            o = o.c[0]
                        if o.k == 'ref' and o.decl == s.decl and y.c[0].ival() is not None:
                            best = y.c[0].ival()
                    if y.k == 'call' and y.name == 'setprecision' and y.c and y.l <= x.l and y.c[0].ival() is not None:
                        best = y.c[0].ival()
                ok = best is not None and best >= d
            if s.k == 'ref' and s.get('dk') == 'parm':
                rep.note('%s: precision is the caller\'s' % f.q)
                continue
            rep.check('precision', ok, '%s %s' % (f.q, mm.group(1).split('::')[-1]), f.loc(x),
                      '%s saves a %s with fewer than %d digits' % (f.q, mm.group(1).split('::')[-1], d))
    return n


def run(rep, ctx):
    p = ctx.program()
    rep.rule('structure', 'loading reads the same sequence of values, lists and choices that saving writes')
    rep.rule('same kind', 'each value is read as the kind of value it was written as')
    rep.rule('same place', 'each value is read into the part of the object it was written from')
    rep.rule('same count', 'each list is read with the length it was written with')
    rep.rule('separated', 'white space separates each value from the next one')
    rep.rule('numbers', 'only numbers are written and read (no characters, no addresses), in decimal')
    rep.rule('whole value', 'no value is cut to a narrower type before it is written')
    rep.rule('precision', 'real numbers are written with all their digits')
    rep.rule('complete', 'everything that makes up the state is written')
    rep.rule('replaced', 'whatever the loading object held before is replaced')
    rep.rule('dropped', 'a qubit that is dropped while loading is dropped from the tableau, the buffers and the count')
    rep.rule('digits', 'integers wider than the machine word are written and read digit by digit in base 10, highest first')
    pairs = operators(p)
    n = 0
    if len(pairs.get('int', {})) == 2:
        digits(rep, pairs['int']['<<'], pairs['int']['>>'])
    for name, d in sorted(pairs.items()):
        if name == 'int':
            continue
        rep.check('structure', len(d) == 2, name + ' both', list(d.values())[0].loc(list(d.values())[0].body),
                  '%s can only be %s' % (name, 'saved' if '<<' in d else 'loaded'))
        if len(d) == 2:
            n += pair(rep, p, name, d['<<'], d['>>'])
    for c in SAVED:
        rep.check('structure', c in pairs, c + ' exists', '', '%s has no save and load operators' % c)
    npr = precision(rep, p, pairs)
    rep.floor('classes that are saved and loaded', len(pairs), 3)
    rep.floor('values on the stream', n, 12)
