"""W01: the wrapping simulators (QInterfaceNoisy, QBdtHybrid) forward every operation to the simulator they wrap, with the
same operands in the same roles, hand its answer back, and apply noise to exactly the operands of noisy gates."""
from ir import *
import sx
from sx import C

WRAP = {'Qrack::QInterfaceNoisy': ['engine'], 'Qrack::QBdtHybrid': ['qbdt', 'engine']}
IFACE = ('Qrack::QInterface', 'Qrack::QAlu', 'Qrack::QParity')
OPAQUE = ('SwitchMode', 'CheckThreshold', 'MakeSimulator')
OWN = ('Copy', 'Clone', 'GetUnitaryFidelity', 'ResetUnitaryFidelity', 'SetNoiseParameter', 'GetNoiseParameter')
BOOKKEEPING = ('CountBranches', 'DepolarizingChannelWeak1Qb', 'SetQubitCount', 'SetConcurrency', 'GetQubitCount', 'IsZeroAmplitude')
THIS = ('this',)
# gates that are subject to noise: how often each control gets it (None: not specified)
NOISY = {'Mtrx': 0, 'Phase': 0, 'Invert': 0, 'MCMtrx': None, 'MACMtrx': None, 'UniformlyControlledSingleBit': 1, 'XMask': 0,
         'PhaseParity': 0, 'CSwap': 1, 'AntiCSwap': 1, 'CSqrtSwap': 1, 'AntiCSqrtSwap': 1, 'CISqrtSwap': 1, 'AntiCISqrtSwap': 1,
         'Swap': 0, 'ISwap': 0, 'IISwap': 0, 'SqrtSwap': 0, 'ISqrtSwap': 0, 'FSim': 0}
INERT = ('isOpenCL', 'isFinished', 'Finish', 'Dump', 'SetDevice', 'GetDevice', 'GetMaxSize', 'SetConcurrency', 'GetUnitaryFidelity',
         'ResetUnitaryFidelity', 'SetNoiseParameter', 'GetNoiseParameter')


def short(c):
    return c.replace('Qrack::', '')


def fld(o, w):
    return ('fld', o, w)


def sig(f):
    return '%s(%s)' % (f.short(), ','.join(x['n'] for x in f.params))


def run(rep, ctx):
    p = ctx.program(want=['qinterface_noisy.cpp', 'qbdthybrid.cpp'])
    rep.rule('forward', 'every path of a wrapper operation calls the operation of the same name on the wrapped simulator exactly '
                        'once, with its own parameters in the same positions, and no other operation')
    rep.rule('result', 'the value a wrapper operation returns is the value the wrapped simulator returned')
    rep.rule('mode', 'the wrapped simulator an operation is forwarded to is the one the object currently holds')
    rep.rule('switch', 'changing representation copies the amplitudes from the representation held to the new one, and leaves '
                       'exactly one held')
    rep.rule('noise', 'every noisy gate applies the noise channel once to each target (and listed control) after the gate, with '
                      'the configured strength, and accounts for it in the fidelity; nothing else applies noise')
    rep.rule('inert', 'operations whose inherited default does nothing stay overridden')
    iface = set()
    for c in IFACE:
        iface |= {m['n'] for m in p.classes[c]['methods']}
    n = 0
    for cls, held in WRAP.items():
        if cls not in p.classes:
            rep.note('%s is gone' % cls)
            continue
        fns = [f for f in p.fns.values() if f.cls == cls and not f.lam]
        names = {m['n'] for m in p.classes[cls]['methods'] if not m.get('implicit')}
        base = names_of_bases(p, cls)
        for x in INERT:
            if (cls, x) in CURRENT:
                rep.check('inert', x in names, '%s::%s' % (short(cls), x), '%s:%s' % (p.classes[cls]['file'], p.classes[cls]['line']),
                          '%s no longer overrides %s, whose inherited default does nothing' % (short(cls), x))
        for f in sorted(fns, key=lambda f: (f.file, f.line)):
            if f.name not in iface or f.name in OWN or f.get('implicit') or f.name.startswith('~') or f.name == short(cls):
                continue
            n += method(rep, p, cls, held, f, iface)
        if cls == 'Qrack::QBdtHybrid':
            switch(rep, p, cls, fns)
    rep.floor('wrapper operations', n, 100)


CURRENT = {('Qrack::QInterfaceNoisy', x) for x in INERT} | {
    ('Qrack::QBdtHybrid', x) for x in ('isFinished', 'Finish', 'Dump', 'SetDevice', 'GetDevice', 'GetMaxSize', 'SetConcurrency')}


def names_of_bases(p, cls):
    out = set()
    for b in p.bases_of.get(cls, ()):
        out |= {m['n'] for m in p.classes[b]['methods']}
    return out


def method(rep, p, cls, held, f, iface):
    def inl(g, n):
        return g.cls == cls and g.name not in iface and g.name not in OPAQUE

    def pure(n):
        return n.name in ('GetQubitCount', 'GetConcurrencyLevel', 'bi_compare_0', 'log2', 'bi_compare')
    try:
        paths = sx.Exec(p, inl, pure).paths(f)
    except sx.TooMany:
        rep.note('%s: too many paths' % f.short())
        return 0
    key = sig(f)
    for q in paths:
        if q.end == 'throw':
            continue
        one(rep, p, cls, held, f, q, key)
    return 1


def one(rep, p, cls, held, f, q, key):
    where = f.loc()
    name = f.name
    params = [('p', i, x['n']) for i, x in enumerate(f.params)]
    types = [p.types[x['t']] for x in f.params]
    cur = {w: fld(THIS, w) for w in held}
    main, others, redirect = [], [], []
    idx = {}
    for k, e in enumerate(q.ev):
        if e.k == 'write' and e.a[0][0] == 'fld' and e.a[0][1] == THIS and e.a[0][2] in held:
            cur[e.a[0][2]] = e.a[1]
        if e.k != 'call':
            continue
        nm, o, args, r = e.a
        w = [x for x in held if o == fld(THIS, x) or (o == cur[x] and o[0] != 'nullptr')]
        if w:
            if nm == name:
                main.append((k, e, w[0]))
            elif nm not in BOOKKEEPING:
                others.append((k, e, w[0]))
        elif o == THIS and nm == name and e.node.get('cls') == cls:
            redirect.append((k, e))
    # ---- own overload taking the typed pointer
    if redirect and not main:
        ok = len(redirect) == 1 and redirect[0][1].a[2] == tuple(params)
        rep.check('forward', ok, key, where, '%s hands its arguments to its own overload in a different order or not exactly once' % key)
        void = p.types[f.get('ret')] == 'void' if isinstance(f.get('ret'), int) else True
        rep.check('result', q.val is None or q.val == redirect[0][1].a[3], key, where, '%s does not return its overload\'s answer' % key)
        return
    # ---- special forms
    cond0 = q.pc.get(params[1]) is False if len(params) > 1 else False
    if name == 'Allocate' and not main and len(params) > 1 and (cond0 or q.pc.get(('eq', C(0), params[1])) or q.pc.get(('eq', params[1], C(0)))):
        rep.check('forward', not others, key, where, 'allocating no qubits touches the wrapped simulator')
        return
    if name == 'GetDevice' and not main and cls.endswith('QBdtHybrid'):
        rep.check('result', q.val == fld(THIS, 'devID'), key, where, 'GetDevice() does not return the device set by SetDevice()')
        return
    if name == 'SetPermutation' and cls.endswith('QBdtHybrid') and not main:
        mk = q.calls('MakeSimulator')
        ok = len(mk) == 1 and len(mk[0].a[2]) == 3 and mk[0].a[2][0] == C(1) and mk[0].a[2][1:] == tuple(params[:2]) and \
            q.heap.get(fld(THIS, 'qbdt')) == mk[0].a[3] and q.heap.get(fld(THIS, 'engine')) == ('nullptr',) and not others
        rep.check('forward', ok, key, where, 'SetPermutation neither forwards nor installs a decision tree in the given permutation')
        return
    if not rep.check('forward', len(main) == 1, key, where,
                     '%s calls %s on the wrapped simulator %d times on one path' % (key, name, len(main))):
        return
    k, e, w = main[0]
    where = f.loc(e.node) if e.fn is f else where
    bad = [x[1].a[0] for x in others]
    if name == 'ProbAll':
        bad = [b for b in bad if b != 'SetPermutation']
    rep.check('forward', not bad, key + ' others', where, '%s also performs %s on the wrapped simulator' % (key, ', '.join(sorted(set(bad)))))
    rep.check('forward', not e.depth, key + ' loop', where, '%s is forwarded once per iteration of a loop' % key)
    # ---- operands
    args = list(e.a[2])
    want = []
    for v, t in zip(params, types):
        if 'shared_ptr' in t:
            want.append(fld(v, w))
        else:
            want.append(v)
    if name == 'SetConcurrency':
        ok = len(args) == 1 and (args[0] == params[0] or args[0] == ('op', 'GetConcurrencyLevel', THIS))
        own = [x for x in q.calls('SetConcurrency') if x.a[1] == THIS and x.a[2] == (params[0],)]
        rep.check('forward', len(own) == 1, key + ' own', where, 'the wrapper does not set its own concurrency')
    elif name == 'Decompose' and types[-1] not in () and 'shared_ptr' not in types[-1] and cls.endswith('Noisy'):
        mk = [x for x in q.ev if x.k == 'make']
        ok = len(args) == 2 and args[0] == params[0] and (args[1] == params[1] or mk and args[1][0] == 'fld' and args[1][1] == mk[0].a[2])
    else:
        ok = args == want
    rep.check('forward', ok, key + ' args', where, '%s does not pass its parameters to the wrapped %s in their own positions (%s)' % (
        key, name, ', '.join(render(a) for a in args)))
    # ---- result
    r = e.a[3]
    void = q.val is None
    if not void:
        ok = q.val == r or q.pc.get(r) is True and q.val == C(1) or q.pc.get(r) is False and q.val == C(0) or \
            name == 'Allocate' and q.val == params[0] or name == 'Decompose' or returns_void(p, f)
        rep.check('result', ok, key, where, '%s returns %s instead of the wrapped simulator\'s answer' % (key, render(q.val)))
    elif not returns_void(p, f):
        rep.check('result', False, key, where, '%s returns nothing' % key)
    # ---- after-effects
    if name == 'MAll' and w == 'engine' and cls.endswith('QBdtHybrid'):
        mk = q.calls('MakeSimulator')
        if mk:
            ok = mk[0].a[2][0] == C(1) and mk[0].a[2][1] == r and q.heap.get(fld(THIS, 'qbdt')) == mk[0].a[3] and q.heap.get(fld(THIS, 'engine')) == ('nullptr',)
            rep.check('forward', ok, key + ' after', where, 'after MAll() the decision tree is not put into the measured permutation')
    if name == 'ProbAll':
        for x in q.calls('SetPermutation'):
            ok = x.a[2][0] == params[0] and any(kk[0] == 'lt' and kk[1] == r and v is False for kk, v in q.pc.items())
            rep.check('forward', ok, key + ' after', where, 'ProbAll() resets the state although the probability is not (nearly) 1, or to another permutation')
    if name == 'SetDevice' and cls.endswith('QBdtHybrid'):
        rep.check('forward', q.heap.get(fld(THIS, 'devID')) == params[0], key + ' own', where, 'SetDevice() does not record the device')
    if len(held) > 1:
        modes(rep, f, q, k, e, w, key, where, params, types)
    if cls.endswith('Noisy'):
        noise(rep, p, f, q, k, key, where, params, types)


def returns_void(p, f):
    t = f.get('ret')
    return isinstance(t, int) and p.types[t] == 'void'


def render(v):
    if v[0] == 'p':
        return v[2]
    if v[0] == 'fld':
        return ('' if v[1] == THIS else render(v[1]) + '.') + v[2]
    if v[0] == 'c':
        return str(v[1])
    if v[0] == 'res':
        return '%s()' % v[2]
    return v[0] if len(v) < 2 else '%s(..)' % (v[1] if isinstance(v[1], str) else v[0])


def modes(rep, f, q, k, e, w, key, where, params, types):
    """w: held field the call goes to; is it the one that is held at this point"""
    other = 'engine' if w == 'qbdt' else 'qbdt'
    state = None
    if q.pc.get(fld(THIS, w)) is True or q.pc.get(fld(THIS, other)) is False:
        state = w
    elif q.pc.get(fld(THIS, w)) is False or q.pc.get(fld(THIS, other)) is True:
        state = other
    opnd = {}
    for x in q.ev[:k]:
        if x.k != 'call':
            continue
        if x.a[0] == 'SwitchMode':
            a = x.a[2][0]
            m = None
            if a == C(1):
                m = 'qbdt'
            elif a == C(0):
                m = 'engine'
            elif a == ('not', fld(THIS, 'engine')) or a == fld(THIS, 'qbdt'):
                m = 'same'
            if x.a[1] == THIS:
                state = m if m != 'same' else state
            else:
                opnd[x.a[1]] = state if m == 'same' and state else m
                if m == 'same' and state is None:
                    opnd[x.a[1]] = 'same'
        elif x.a[0] == 'CheckThreshold' and x.a[1] == THIS:
            state = None
    rep.check('mode', state == w, key, where, '%s forwards to %s although the object may not hold one there' % (key, w))
    for v, t in zip(params, types):
        if 'shared_ptr' in t and fld(v, w) in e.a[2]:
            rep.check('mode', opnd.get(v) in (w, 'same'), key + ' operand', where,
                      '%s passes %s of its argument without bringing the argument into the same representation first' % (key, w))


def noise(rep, p, f, q, k, key, where, params, types):
    dep = [(i, e) for i, e in enumerate(q.ev) if e.k == 'call' and e.a[0] == 'DepolarizingChannelWeak1Qb']
    if f.name not in NOISY:
        rep.check('noise', not dep, key, where, '%s applies noise although it is not a noisy gate' % key)
        return
    strengths = {strength(e.a[2][1]) for _, e in dep if len(e.a[2]) > 1}
    off = any(c[0] == 'lt' and c[1] == C(0) and strength(c[2]) and v is False or
              c[0] == 'eq' and strength(c[2] if c[1] == C(0) else c[1]) and v is True for c, v in q.pc.items())
    if not dep:
        rep.check('noise', off, key, where, '%s applies no noise on a path where the noise strength may be positive' % key)
        return
    rep.check('noise', not off, key + ' off', where, '%s applies noise although the strength is not positive' % key)
    rep.check('noise', strengths <= {'param', 'env'} and None not in strengths, key + ' strength', where,
              '%s applies noise with a strength that is neither the configured nor the environment\'s' % key)
    if 'param' in strengths and 'env' not in strengths:
        env = any(x[0] == 'op' and x[1] in ('getenv', 'std::getenv') for c, v in q.pc.items() if v for x in sx.walk(c))
        rep.check('noise', not env, key + ' env', where, '%s ignores QRACK_GATE_DEPOLARIZATION' % key)
    rep.check('noise', all(i > k for i, _ in dep), key + ' order', where, '%s applies noise before the gate' % key)
    got = {}
    masks = 0
    for i, e in dep:
        t = e.a[2][0]
        got[t] = got.get(t, 0) + 1
        if t[0] == 'op' and t[1] == 'log2':
            masks += 1
    ctrl = NOISY[f.name]
    for v, t in zip(params, types):
        if t in ('unsigned char', 'const unsigned char'):
            rep.check('noise', got.pop(v, 0) == 1, key + ' ' + v[2], where, '%s does not apply noise exactly once to %s' % (key, v[2]))
        elif 'vector<unsigned char' in t:
            mine = [g for g in got if g[0] == 'elt' and g[1] == v]
            cnt = sum(got.pop(g) for g in mine)
            rep.check('noise', cnt == ctrl if ctrl is not None else cnt <= 1, key + ' ' + v[2], where,
                      '%s does not apply noise exactly once to each of %s' % (key, v[2]))
        elif v[2].strip('_') == 'mask':
            mine = [g for g in got if g[0] == 'op' and g[1] == 'log2' or g[0] in ('res',)]
            cnt = sum(got.pop(g) for g in mine)
            rep.check('noise', cnt == 1, key + ' ' + v[2], where, '%s does not apply noise once per bit of its mask' % key)
    rep.check('noise', not got, key + ' extra', where, '%s applies noise to something that is not an operand: %s' % (
        key, ', '.join(render(g) for g in got)))
    # fidelity accounting: one write of logFidelity per application
    ws = [(i, e) for i, e in enumerate(q.ev) if e.k == 'write' and e.a[0] == fld(THIS, 'logFidelity')]
    ok = len(ws) == len(dep) and all(fidelity_ok(e.a[1]) for _, e in ws)
    rep.check('noise', ok, key + ' fidelity', where, '%s does not account for each noise application in the fidelity' % key)


def strength(v):
    if v == fld(THIS, 'noiseParam'):
        return 'param'
    if any(x[0] == 'op' and x[1] in ('getenv', 'std::getenv') for x in sx.walk(v)):
        return 'env'
    return None


def fidelity_ok(v):
    if v[0] == 'c':
        return 'inf' in str(v[1]).lower()
    if v[0] == 'lin':
        logs = [(t, c) for t, c in v[2] if t[0] == 'op' and t[1].endswith('log')]
        rest = [(t, c) for t, c in v[2] if not (t[0] == 'op' and t[1].endswith('log'))]
        if logs and all(c > 0 for _, c in logs) and len(rest) <= 1 and v[1] == 0:
            return all(one_minus(t[2]) for t, _ in logs)
    if v[0] == 'op' and 'infinity' in str(v[1]) or any(x[0] == 'op' and 'infinity' in str(x[1]) for x in sx.walk(v)):
        return True
    return False


def one_minus(v):
    return v[0] == 'lin' and v[1] == 1 and len(v[2]) == 1 and v[2][0][1] == -1 and strength(v[2][0][0])


def switch(rep, p, cls, fns):
    f = [g for g in fns if g.name == 'SwitchMode']
    if len(f) != 1:
        rep.note('SwitchMode is not there')
        return
    f = f[0]
    where = f.loc()

    def inl(g, n):
        return g.cls == cls and g.name not in OPAQUE
    flag = ('p', 0, f.params[0]['n'])
    engine, qbdt = fld(THIS, 'engine'), fld(THIS, 'qbdt')
    for want in (0, 1):
        for held in ('engine', 'qbdt'):
            facts = {engine: held == 'engine', qbdt: held == 'qbdt'}
            same = (held == 'qbdt') == bool(want)
            for q in sx.Exec(p, inl).paths(f, args={0: C(want)}, facts=facts):
                if q.end == 'throw':
                    continue
                key = 'QBdtHybrid::SwitchMode(%s) holding %s' % ('true' if want else 'false', held)
                # the guard compares the negation of a pointer with the flag: decide it from the facts
                g = [c for c in q.pc if c[0] == 'eq' or c[0] == 'not']
                taken = [v for c, v in q.pc.items() if c[0] == 'eq' and engine_cmp(c)]
                if taken:
                    c = [c for c in q.pc if c[0] == 'eq' and engine_cmp(c)][0]
                    if q.pc[c] != truth_of(c, facts):
                        continue
                mk = q.calls('MakeSimulator')
                if same:
                    rep.check('switch', not mk and not q.writes(), key, where, 'switching to the representation already held changes the object')
                    continue
                get, put = q.calls('GetQuantumState'), q.calls('SetQuantumState')
                ok = len(mk) == 1 and mk[0].a[2] and mk[0].a[2][0] == C(want) and len(get) == 1 and len(put) == 1 and \
                    get[0].a[1] == fld(THIS, held) and put[0].a[1] == mk[0].a[3] and get[0].a[2] == put[0].a[2]
                rep.check('switch', ok, key, where, 'the new representation does not receive the amplitudes of the old one')
                a, b = ('qbdt', 'engine') if want else ('engine', 'qbdt')
                ok = bool(mk) and q.heap.get(fld(THIS, a)) == mk[0].a[3] and q.heap.get(fld(THIS, b)) == ('nullptr',)
                rep.check('switch', ok, key + ' held', where, 'after the switch the object does not hold exactly the new representation')
    g = [x for x in fns if x.name == 'MakeSimulator']
    if len(g) != 1:
        return
    g = g[0]
    kinds = {}
    for c in g.all_nodes():
        if c.k == 'ref' and c.get('dk') == 'enum' and c.name in ('QINTERFACE_BDT', 'QINTERFACE_HYBRID'):
            kinds[c.name] = c.ival()
    for bdt in (0, 1):
        for q in sx.Exec(p, inl).paths(g, args={0: C(bdt)}):
            if q.end == 'throw':
                continue
            cr = q.calls('CreateQuantumInterface')
            cnt = [e for e in q.calls('SetQubitCount') if cr and e.a[1] == cr[0].a[3] and e.a[2] == (fld(THIS, 'qubitCount'),)]
            key = 'QBdtHybrid::MakeSimulator(%s)' % bool(bdt)
            rep.check('switch', len(cr) == 1 and q.val == cr[0].a[3] and (cnt or cr[0].a[2][1] == fld(THIS, 'qubitCount')), key, g.loc(),
                      'the new simulator does not have the wrapper\'s number of qubits')
            if cr and len(kinds) == 2:
                want = kinds['QINTERFACE_BDT' if bdt else 'QINTERFACE_HYBRID']
                other = kinds['QINTERFACE_HYBRID' if bdt else 'QINTERFACE_BDT']
                cs = [x[1] for x in sx.walk(cr[0].a[2][0]) if x[0] == 'c']
                rep.check('switch', want in cs and other not in cs, key + ' kind', g.loc(), 'MakeSimulator builds the wrong kind of simulator')
                rep.check('switch', ('p', 1, g.params[1]['n']) in cr[0].a[2], key + ' perm', g.loc(), 'the new simulator does not start in the given permutation')


def engine_cmp(c):
    return any(x == ('not', fld(THIS, 'engine')) or x == fld(THIS, 'engine') or x == fld(THIS, 'qbdt') for x in c[1:])


def truth_of(c, facts):
    def ev(x):
        if x[0] == 'c':
            return bool(x[1])
        if x[0] == 'not':
            r = ev(x[1])
            return None if r is None else not r
        return facts.get(x)
    a, b = ev(c[1]), ev(c[2])
    return None if a is None or b is None else a == b
