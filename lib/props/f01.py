"""F01: every part is made as the whole was configured.

Settings travel as long positional argument lists (fifteen places, five of them bool). Each place has a role, taken from the
constructor that receives it; each argument has the role of the member or parameter it is. Wherever a simulator, or a base of
one, is made, the two have to agree."""
from ir import *
from sx import Stop, TooMany, walk
from props.k01 import World, Run

PARAM = {'rgp': 'generator', 'doNorm': 'normalisation', 'randomGlobalPhase': 'random phase', 'useHostMem': 'host memory',
         'deviceId': 'device', 'useHardwareRNG': 'hardware generator', 'useSparseStateVec': 'sparse', 'norm_thresh': 'amplitude floor',
         'devList': 'device list', 'qubitThreshold': 'qubit threshold', 'sep_thresh': 'separability threshold',
         'separation_thresh': 'separability threshold', 'phaseFac': 'phase factor', 'phasFac': 'phase factor', 'qBitCount': 'qubits',
         'initState': 'initial state'}
FIELD = {'rand_generator': 'generator', 'doNormalize': 'normalisation', 'randGlobalPhase': 'random phase', 'useHostRam': 'host memory',
         'devID': 'device', 'useRDRAND': 'hardware generator', 'hardware_rand_generator': 'hardware generator', 'isSparse': 'sparse',
         'amplitudeFloor': 'amplitude floor', 'deviceIDs': 'device list', 'thresholdQubits': 'qubit threshold',
         'thresholdQubitsPerPage': 'qubit threshold', 'separabilityThreshold': 'separability threshold', 'phaseFactor': 'phase factor',
         'phaseOffset': 'phase factor'}
# settings a part may be given a value of its own for
FREE = ('host memory', 'device', 'sparse', 'device list', 'qubit threshold', 'phase factor', 'qubits', 'initial state')
# (function, class made, role) -> why it may differ
OWN = {
    ('', 'QStabilizer', 'normalisation'): 'a tableau is never normalised',
    ('', 'QUnitClifford', 'normalisation'): 'a tableau is never normalised',
    ('QBdt::MakeQEngine', '', 'random phase'): 'the phase of a leaf is relative to that of the other leaves',
    ('QPager::MakeEngine', '', 'random phase'): 'the phase of a page is relative to that of the other pages',
    ('QPager::MakeEngine', '', 'normalisation'): 'the pager normalises over all pages',
    ('QStabilizerHybrid::GetAmplitudeOrProb', '', 'normalisation'): 'works out one amplitude',
    ('QStabilizerHybrid::GetAmplitudeOrProb', '', 'random phase'): 'works out one amplitude',
}
STANDARD = ['qubits', 'initial state', 'generator', 'phase factor', 'normalisation', 'random phase', 'host memory', 'device',
            'hardware generator', 'sparse', 'amplitude floor', 'device list', 'qubit threshold', 'separability threshold']
GEN = 'mersenne_twister_engine'


def strip(n):
    while n is not None:
        if n.k in ('cast', 'definit') and n.c:
            n = n.c[0]
        elif n.k == 'ctor' and len(n.c) == 1:
            n = n.c[0]
        else:
            return n
    return n


def roles(p, f):
    out = []
    for x in f.params:
        t = p.types[x['t']]
        out.append('generator' if GEN in t or 'qrack_rand_gen' in t else PARAM.get(x['n']))
    return out


class Args(object):
    def __init__(self, p):
        self.p = p

    def local(self, f, d):
        """the one value of a local variable"""
        init, n = None, 0
        for x in f.all_nodes():
            if x.k == 'var' and x.decl == d:
                init = x.c[0] if x.c else None
            if x.k == 'asg' and skip(x.c[0]) is not None and skip(x.c[0]).k == 'ref' and skip(x.c[0]).decl == d:
                n += 1
            if x.k == 'un' and x.op in ('++', '--', '&') and skip(x.c[0]) is not None and skip(x.c[0]).k == 'ref' and skip(x.c[0]).decl == d:
                n += 1
        return init if n == 0 else None

    def role(self, f, n, depth=0):
        """(role or None, negated)"""
        n = strip(n)
        if n is None or depth > 6:
            return None, False
        if n.k == 'mem' and 'fid' not in n.a:
            return FIELD.get(n.name), False
        if n.k == 'ref':
            if n.get('dk') == 'parm':
                for x, r in zip(f.params, roles(self.p, f)):
                    if x['d'] == n.decl:
                        return r, False
            if n.get('dk') == 'global' and GEN in n.type:
                return 'generator', False
            if n.get('dk') == 'local':
                i = self.local(f, n.decl)
                if i is not None:
                    return self.role(f, i, depth + 1)
            return None, False
        if n.k == 'un' and n.op == '!':
            r, neg = self.role(f, n.c[0], depth + 1)
            return r, not neg
        if n.k == 'call' and n.q in ('std::move', 'std::forward', 'std::static_pointer_cast') and n.c:
            return self.role(f, n.c[0], depth + 1)
        if n.k == 'call' and n.name == 'operator bool' and n.o is not None:
            return self.role(f, n.o, depth + 1)
        if n.k == 'call' and n.op in ('!=', '==') or n.k == 'bin' and n.op in ('!=', '=='):
            xs = [y for y in ([n.o] if n.o is not None else []) + list(n.c) if y is not None and strip(y) is not None and strip(y).k != 'nullptr']
            if len(xs) == 1:
                r, neg = self.role(f, xs[0], depth + 1)
                return r, neg != (n.op == '==')
        if n.k == 'cond':
            r, neg = self.role(f, n.c[0], depth + 1)
            a, b = strip(n.c[1]), strip(n.c[2])
            if a is not None and b is not None and a.k == 'lit' and b.k == 'lit' and a.ival() is not None and b.ival() is not None:
                if bool(a.ival()) and not bool(b.ival()):
                    return r, neg
                if bool(b.ival()) and not bool(a.ival()):
                    return r, not neg
            # a setting that only applies under a condition
            for x in (n.c[1], n.c[2]):
                r = self.role(f, x, depth + 1)
                if r[0] is not None:
                    return r
            return None, False
        if n.k == 'call' and n.get('fid') in self.p.fns and not n.c:
            # a getter
            g = self.p.fns[n.get('fid')]
            if g.body is not None and len(g.body.c) == 1 and g.body.c[0].k == 'return' and g.body.c[0].c:
                return self.role(g, g.body.c[0].c[0], depth + 1)
        return None, False


def fresh(a):
    """no generator, or a new one"""
    s = strip(a)
    return s is None or s.k in ('nullptr', 'lit', 'new') or s.k == 'ctor' and not s.c or any(
        y.k in ('nullptr', 'new') or y.k == 'call' and y.q in ('std::make_shared', 'std::make_unique') for y in a.walk())


def made(p, n):
    """(class name, argument nodes with their roles) of a creation, or None"""
    q = n.q or ''
    if n.k == 'call' and q in ('std::make_shared', 'std::make_unique'):
        t = n.type
        cls = t[t.index('<') + 1:t.rindex('>')].split(',')[0].strip()
        if cls not in p.classes or 'Qrack::QInterface' not in [cls] + list(p.bases_of.get(cls, ())):
            return None
        return cls, list(n.c)
    if n.k == 'call' and (n.name or '') == 'CreateQuantumInterface':
        return 'factory', list(n.c)
    if n.k == 'new' and n.c:
        for c in n.c:
            if c is not None and c.k == 'ctor' and c.get('cls') in p.classes and 'Qrack::QInterface' in p.bases_of.get(c.get('cls'), ()):
                return c.get('cls'), list(c.c)
    return None


def run(rep, ctx):
    p = ctx.program()
    w = World(p)
    A = Args(p)
    rep.rule('generator', 'a simulator made by another one is given the random generator of its maker')
    rep.rule('place', 'a setting of the maker, or a parameter of a constructor, arrives at the place of that setting')
    rep.rule('kept', 'normalisation, random phase, hardware generator, amplitude floor and separability threshold come from the maker')
    rep.rule('member', 'a constructor puts each setting it is given into the member of that setting')
    rep.rule('handed on', 'a constructor hands each setting it is given on to the constructor it delegates to, or to its base')
    rep.rule('forward', 'the factory hands all its arguments on in their order, to a simulator of the type asked for')
    rep.rule('length', 'splitting off or allocating `length` qubits makes a register of that length')
    w.cur = None
    sites = nargs = 0
    cnt = {}

    def key(s):
        cnt[s] = cnt.get(s, 0) + 1
        return s if cnt[s] == 1 else '%s #%d' % (s, cnt[s])

    def target_roles(cls, n, args):
        if cls == 'factory':
            i = 0
            while i < len(args) and args[i] is not None and 'QInterfaceEngine' in args[i].type:
                i += 1
            return [None] * i + STANDARD[:max(0, len(args) - i)]
        class Fake(object):
            pass
        x = Fake()
        x.c = args
        f = w.ctor(cls, x)
        return roles(p, f)[:len(args)] if f is not None else None

    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.body is None:
            continue
        if f.name == 'CreateQuantumInterface':
            continue
        root = p.root_of(f)
        for n in f.all_nodes():
            m = made(p, n)
            if m is None:
                continue
            cls, args = m
            if len(args) == 1 and args[0] is not None and strip(args[0]) is not None and strip(args[0]).k == 'this':
                continue        # copy construction: K01
            tr = target_roles(cls, n, args)
            if tr is None:
                continue
            sites += 1
            short = 'simulator' if cls == 'factory' else cls.split('::')[-1]
            fn = root.short()
            member = bool(root.cls) and root.cls in p.classes and 'Qrack::QInterface' in [root.cls] + list(p.bases_of.get(root.cls, ()))
            anyset = member
            for i, (a, t) in enumerate(zip(args, tr)):
                if a is None or t is None or a.k == 'defarg':
                    if t == 'generator' and member:
                        rep.check('generator', False, key('%s makes %s' % (fn, short)), f.loc(n), 'no generator is passed on')
                    continue
                r, neg = A.role(root, a)
                if r is None and f is not root:
                    r, neg = A.role(f, a)
                nargs += 1
                if t == 'generator':
                    bad = r is not None and r != 'generator' or r is None and fresh(a)
                    rep.check('generator', not bad, key('%s makes %s' % (fn, short)), f.loc(a),
                              'the %s made here gets a generator of its own, or none' % short)
                    continue
                if r is not None and (r != t or neg):
                    rep.check('place', False, key('%s makes %s: %s' % (fn, short, t)), f.loc(a),
                              'the %s of the maker arrives as the %s of the %s%s' % (r, t, short, ', negated' if neg and r == t else ''))
                    continue
                if r == t:
                    rep.check('place', True, key('%s makes %s: %s' % (fn, short, t)), f.loc(a), '')
                    continue
                if not member or t in FREE:
                    continue
                ex = any(k in OWN for k in ((fn, short, t), (fn, '', t), ('', short, t)))
                s = strip(a)
                const = s is not None and (s.k in ('lit', 'nullptr') or s.get('v') is not None or s.k == 'ref' and s.get('dk') in ('global', 'enum'))
                rep.check('kept', ex or not const, key('%s makes %s: %s' % (fn, short, t)), f.loc(a),
                          'the %s of the %s made here is always the same, whatever the maker\'s is' % (t, short))
            # length
            if root.name in ('Decompose', 'Allocate') and member and 'qubits' in tr + ['qubits']:
                i = tr.index('qubits') if 'qubits' in tr else None
                if i is None and cls != 'factory':
                    i = 0 if 'bool' not in args[0].type and 'vector' not in args[0].type else 1
                if i is not None and i < len(args):
                    a = strip(args[i])
                    ln = [x for x in root.params if x['n'] == 'length' or 'unsigned char' in p.types[x['t']] or 'bitLenInt' in p.types[x['t']]]
                    last = ln[-1] if ln else None
                    if last is not None and len(root.params) == 2:
                        ok = a is None or not (a.k == 'mem' or a.k == 'lit' and a.ival() != 0 or a.k == 'ref' and a.get('dk') == 'parm' and a.decl != last['d'])
                        rep.check('length', ok, key('%s makes %s' % (fn, short)), f.loc(n), 'the register made has not the length asked for')
            if member and cls == 'factory':
                for r, fl in (('separability threshold', 'separabilityThreshold'),):
                    if fl in w.fields(root.cls) and r not in tr:
                        rep.check('kept', False, key('%s makes %s: %s' % (fn, short, r)), f.loc(n),
                                  'the %s of the maker is not passed on' % r)
    # settings changed later
    rep.rule('later', 'a setting that a setter hands to the parts there are is also given to the parts made later')
    nlater = 0
    for q in sorted(p.classes):
        if not q.startswith('Qrack::') or 'Qrack::QInterface' not in p.bases_of.get(q, ()):
            continue
        mk = []
        for f in p.fns.values():
            if f.cls == q and f.body is not None and not f.get('ctor') and (f.name.startswith('Make') or f.name in ('Allocate', 'Decompose')):
                for n in f.all_nodes():
                    m = made(p, n)
                    if m is not None and not m[0].endswith('QUnitClifford'):
                        mk.append((f, n, m))
        if not mk:
            continue
        for m in p.classes[q]['methods']:
            f = p.fns.get(m['id'])
            if f is None or f.body is None or not f.name.startswith('Set') or len(f.params) != 1:
                continue
            d = f.params[0]['d']
            stored = [skip(n.c[0]).name for n in f.body.walk() if n.k == 'asg' and n.op == '=' and skip(n.c[0]) is not None and
                      skip(n.c[0]).k == 'mem' and skip(n.c[0]).c and skip(n.c[0]).c[0] is not None and skip(n.c[0]).c[0].k == 'this' and
                      any(x.k == 'ref' and x.decl == d for x in n.c[1].walk())]
            fwd = bool(forwards(p, f)[1])
            if not stored:
                continue
            for g, n, (cls, args) in mk:
                if f.name in ('SetDevice', 'SetPhaseOffset', 'SetPermutation', 'SetQuantumState'):
                    continue
                if len(args) == 1 and args[0] is not None and strip(args[0]) is not None and strip(args[0]).k == 'this':
                    continue        # copy construction: K01
                if cls != q and not fwd or cls == q and ((cls, f.name) in NOPART or (cls, g.name) in NOPART):
                    continue
                nlater += 1
                given = any(passes(x, f.name, stored) for x in p.root_of(g).all_nodes())
                given = given or any(y.k == 'mem' and y.name in stored for a in args if a is not None for y in a.walk())
                given = given or any(x.k == 'call' and x.get('fid') in p.fns and helper_sets(p, p.fns[x.get('fid')], f.name, stored)
                                     for x in p.root_of(g).all_nodes())
                rep.check('later', given, key('%s: %s' % (g.short(), f.name)), g.loc(n),
                          'a simulator made here is not given what %s() has set' % f.name)
    rep.floor('later', nlater, 2)
    rep.rule('reaches', 'a setting changed on a simulator made of others is handed to the parts there are')
    nreach = 0
    for q, names in sorted(REACH.items()):
        if q not in p.classes:
            continue
        own = {}
        for m in p.classes[q]['methods']:
            f = p.fns.get(m['id'])
            if f is not None and f.body is not None and len(f.params) == 1:
                own[f.name] = f
        for nm in names:
            f = own.get(nm)
            nreach += 1
            why = 'the parts of a %s keep their setting' % q.split('::')[-1] if f is None else reaches(p, f)
            rep.check('reaches', why is None, '%s::%s' % (q.split('::')[-1], nm), f.loc(f.body) if f is not None else 'include', why or '')
    rep.floor('settings handed to parts', nreach, 10)
    # constructors
    ctors = 0
    for q in sorted(p.classes):
        if not q.startswith('Qrack::') or not ('Qrack::QInterface' in [q] + list(p.bases_of.get(q, ()))):
            continue
        for m in p.classes[q]['methods']:
            f = p.fns.get(m['id'])
            if f is None or not m.get('ctor') or m.get('implicit') or not f.params:
                continue
            mine = roles(p, f)
            if not any(mine):
                continue
            ctors += 1
            fn = '%s(%d)' % (q.split('::')[-1], len(f.params))
            deleg = [x for x in f.inits if x[0] is None]
            handed = {}
            for field, j, e in deleg:
                c = e
                while c is not None and c.k in ('cast', 'definit') and c.c:
                    c = c.c[0]
                g = p.fns.get(c.get('fid')) if c is not None and c.k == 'ctor' else None
                if g is None:
                    continue
                tr = roles(p, g)
                for a, t in zip(c.c, tr):
                    if a is None or t is None or a.k == 'defarg':
                        continue
                    r, neg = A.role(f, a)
                    if r is not None:
                        rep.check('place', r == t and not neg, key('%s -> %s: %s' % (fn, g.short(), t)), f.loc(a) if a.l else f.q,
                                  'the %s given arrives as the %s of %s' % (r, t, g.short()))
                    handed[t] = r == t
                isdel = 'deleg' in j or g.cls == f.cls
                for t in tr:
                    if t in mine and t is not None:
                        ok = handed.get(t, False)
                        if (q, t) in OWNCTOR:
                            continue
                        # sent as another value: fine only when the constructor looks at the parameter itself
                        used = used_in(p, f, mine.index(t))
                        rep.check('handed on', ok or used and not isdel, key('%s -> %s: %s' % (fn, g.short(), t)), f.loc(f.body) if f.body is not None else f.q,
                                  'the %s given does not reach %s' % (t, g.short()))
            # members
            R = Run(p, w)
            R.entry = w
            w.cur = q
            R.env, R.heap, R.ev, R.loops, R.stack, R.this, R.nres, R.seq = {}, {}, [], [], [f], ('this',), 0, 0
            R.pc, R.dec, R.pos, R.alts = {}, [], 0, []
            obj = ('new', 0)
            try:
                R.construct(f, obj, [('A', i) for i in range(len(f.params))])
            except (Stop, TooMany):
                continue
            for fl in w.fields(q):
                r = FIELD.get(fl)
                if r is None or ('fld', obj, fl) not in R.heap or fl in ('hardware_rand_generator', 'phaseOffset') or (q, r) in OWNCTOR:
                    continue
                t = R.heap[('fld', obj, fl)]
                got = {mine[x[1]] for x in walk(t) if x[0] == 'A' and x[1] < len(mine)}
                wrong = {g for g in got if g is not None and g != r} - RELATED.get(r, set())
                rep.check('member', not wrong, key('%s.%s' % (fn, fl)), f.loc(f.body) if f.body is not None else f.q,
                          'member %s is set from the %s' % (fl, ', '.join(sorted(wrong))))
                if r in mine and not any(x[0] == 'op' and x[1] in ('ctorbody', 'unseen') for x in walk(t)) and not wrong:
                    neg = t[0] == 'not'
                    rep.check('member', r in got and not neg, key('%s.%s given' % (fn, fl)), f.loc(f.body) if f.body is not None else f.q,
                              'member %s does not take the value given for the %s' % (fl, r))
    # factory
    nfac = 0
    from build import Broken
    try:
        wit = witness()
    except Broken:
        wit = p         # the factories take other arguments now: the instances the library uses
    for f in sorted(wit.fns.values(), key=lambda f: f.id):
        if f.name != 'CreateQuantumInterface' or f.body is None:
            continue
        nfac += 1
        pos = {x['d']: i for i, x in enumerate(f.params)}
        skipn = sum(1 for x in f.params if 'QInterfaceEngine' in wit.types[x['t']])
        rest = list(range(skipn, len(f.params)))
        deeper = {}
        for n in f.body.walk():
            m = made(wit, n)
            if m is None or m[0] == 'factory':
                continue
            cls, args = m
            if (skipn > 1 or skipn and 'vector' in wit.types[f.params[0]['t']]) and takes_layers(p, cls):
                deeper.setdefault(cls, []).append((n, bool(args) and args[0] is not None and 'vector' in args[0].type and 'QInterfaceEngine' in args[0].type))
            idx = []
            for a in args:
                s = strip(a)
                while s is not None and s.k == 'call' and s.q in ('std::move', 'std::forward') and s.c:
                    s = strip(s.c[0])
                if s is not None and s.k == 'ref' and s.decl in pos and pos[s.decl] >= skipn:
                    idx.append(pos[s.decl])
                elif s is not None and 'QInterfaceEngine' in s.type:
                    continue
                else:
                    idx.append(None)
            ok = idx == rest
            rep.check('forward', ok, key('CreateQuantumInterface/%d makes %s' % (len(f.params), cls.split('::')[-1])), f.loc(n),
                      'not every argument is handed on in its place')
            want = CASE.get(cls.split('::')[-1])
            cs = [x for x in n.ancestors() if x.k == 'case']
            if cs and want:
                v = {y.name for y in cs[0].c[0].walk() if y.k == 'ref' and y.name} if cs[0].c and cs[0].c[0] is not None else set()
                if v:
                    rep.check('forward', bool(v & want), key('CreateQuantumInterface/%d case %s' % (len(f.params), cls.split('::')[-1])), f.loc(n),
                              '%s is made where %s is asked for' % (cls.split('::')[-1], ', '.join(sorted(v))))
        for cls, l in sorted(deeper.items()):
            rep.check('forward', any(x[1] for x in l), key('CreateQuantumInterface/%d layers below %s' % (len(f.params), cls.split('::')[-1])),
                      f.loc(l[0][0]), 'the layers asked for below a %s are not handed on' % cls.split('::')[-1])
    rep.floor('creations', sites, 20)
    rep.floor('arguments', nargs, 120)
    rep.floor('constructors', ctors, 15)
    rep.floor('factory instances', nfac, 2)


# (class, setter): nothing it sets decides results there
NOPART = {('Qrack::QStabilizerHybrid', 'Allocate'): 'only the tableau and the gate buffers are taken over, and they are empty',
          ('Qrack::QPager', 'SetTInjection'): 'the pages have no gadgets'}


def witness():
    """every factory, instantiated with all arguments"""
    import build
    return build.extract_text("""#include "qfactory.hpp"
using namespace Qrack;
#define ARGS n, s, g, c, true, true, false, d, true, false, e, v, q, e
void qrack_witness(bitLenInt n, bitCapInt s, qrack_rand_gen_ptr g, complex c, int64_t d, real1_f e, std::vector<int64_t> v, bitLenInt q)
{
    CreateQuantumInterface(QINTERFACE_QUNIT, ARGS);
    CreateQuantumInterface(QINTERFACE_QUNIT, QINTERFACE_CPU, ARGS);
    CreateQuantumInterface(QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU, ARGS);
    CreateQuantumInterface(std::vector<QInterfaceEngine>{ QINTERFACE_QUNIT }, ARGS);
}
""")


def takes_layers(p, cls):
    for m in p.classes[cls]['methods']:
        f = p.fns.get(m['id'])
        if f is not None and m.get('ctor') and f.params and 'vector' in p.types[f.params[0]['t']] and 'QInterfaceEngine' in p.types[f.params[0]['t']]:
            return True
    return False


ALLSET = ('SetSdrp', 'SetNcrp', 'SetReactiveSeparate', 'SetTInjection')
REACH = {'Qrack::QInterfaceNoisy': ALLSET + ('SetConcurrency', 'SetDevice'), 'Qrack::QTensorNetwork': ALLSET,
         'Qrack::QUnit': ('SetNcrp', 'SetTInjection', 'SetConcurrency', 'SetDevice'), 'Qrack::QPager': ('SetTInjection', 'SetConcurrency', 'SetDevice'),
         'Qrack::QBdtHybrid': ('SetConcurrency',), 'Qrack::QStabilizerHybrid': ('SetConcurrency', 'SetDevice')}


def forwards(p, f):
    """the setter with its lambdas and helpers, and the calls that hand the setting to other objects"""
    fam = [f]
    for g in fam:
        fam += p.lambdas.get(g.id, [])
    for g in list(fam):
        for n in g.all_nodes():
            if n.k == 'call' and (n.o is None or skip(n.o).k == 'this') and n.get('fid') in p.fns and not n.get('qualcall') and not n.get('virt'):
                h = p.fns[n.get('fid')]
                if h not in fam and h.cls == f.cls:
                    fam += [h] + p.lambdas.get(h.id, [])
    fwd = [(g, n) for g in fam for n in g.all_nodes() if n.k == 'call' and n.name == f.name and not n.get('qualcall') and
           n.o is not None and skip(n.o).k != 'this' and n.c]
    return fam, fwd


def reaches(p, f):
    fam, fwd = forwards(p, f)
    if not fwd:
        return 'the parts keep their setting'
    for g, n in fwd:
        a = strip(n.c[0])
        if a is None or a.k in ('lit', 'nullptr') or a.get('v') is not None:
            return 'the parts are always given the same value'
        if a.k == 'un' and a.op == '!':
            return 'the parts are given the opposite value'
        if g is not f and g.lam and a.k == 'ref' and a.get('dk') == 'parm':
            at = [i for i, x in enumerate(g.params) if x['d'] == a.decl]
            for h in fam:
                for c in h.all_nodes():
                    if at and c.k == 'call' and len(c.c) == len(g.params) and at[0] > 0 and c.c[0] is not None and any(
                            y.k == 'lambda' and y.get('fid') == g.id for y in c.c[0].walk()):
                        b = c.c[at[0]]
                        if b is None or not any(y.k == 'ref' and y.get('dk') == 'parm' or y.k == 'mem' for y in b.walk()):
                            return 'the parts are given another value'
                        e = strip(b)
                        if e is not None and e.k == 'cond' and strip(e.c[1]).ival() == 0 and strip(e.c[2]).ival():
                            return 'the parts are given the opposite value'
    return None


def passes(x, name, stored):
    """is this a call of the setter, or an assignment of the member, with a value that is not a constant"""
    v = None
    if x.k == 'call' and x.name == name and x.c:
        v = x.c[0]
    elif x.k == 'asg' and x.op == '=':
        l = skip(x.c[0])
        if l is not None and l.k == 'mem' and l.name in stored and l.c and l.c[0] is not None and l.c[0].k != 'this':
            v = x.c[1]
    return v is not None and strip(v) is not None and any(
        y.k == 'mem' and 'fid' not in y.a or y.k == 'call' and y.o is not None or y.k == 'ref' and y.get('dk') in ('local', 'parm') for y in v.walk())


def helper_sets(p, g, name, stored):
    return g.body is not None and any(passes(x, name, stored) for x in g.body.walk())


def used_in(p, f, i):
    d = f.params[i]['d']
    return f.body is not None and any(x.k == 'ref' and x.decl == d for x in f.body.walk()) or any(
        e is not None and any(x.k == 'ref' and x.decl == d for x in e.walk()) for fl, j, e in f.inits if fl is not None)


CASE = {'QStabilizer': {'QINTERFACE_STABILIZER'}, 'QUnitClifford': {'QINTERFACE_QUNIT_CLIFFORD'}, 'QBdt': {'QINTERFACE_BDT'},
        'QBdtHybrid': {'QINTERFACE_BDT_HYBRID'}, 'QPager': {'QINTERFACE_QPAGER'}, 'QStabilizerHybrid': {'QINTERFACE_STABILIZER_HYBRID'},
        'QUnit': {'QINTERFACE_QUNIT'}, 'QTensorNetwork': {'QINTERFACE_TENSOR_NETWORK'}, 'QEngineCPU': {'QINTERFACE_CPU'},
        'QInterfaceNoisy': {'QINTERFACE_NOISY'}}
# the floor applies only when normalising
RELATED = {'amplitude floor': {'normalisation'}}
# (class, setting) -> why its constructor does not hand it on
OWNCTOR = {
    ('Qrack::QEngineCPU', 'host memory'): 'always in host memory',
    ('Qrack::QPager', 'normalisation'): 'off until QueueSetDoNormalize(): the pages are normalised together',
}
