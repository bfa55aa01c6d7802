"""N01: looking at a register does not change it.

Roots: every query of every simulator class, and every measurement entry point with doApply == false.  An interprocedural
effect analysis (mutate.py) collects every write and every call that can change the object itself or what it owns; only
representation changes that are known to keep the state (basis and buffer flushes, caches, paging, normalisation) may
remain.  A query that changes the state on purpose and undoes it must do so on every path (conjugation rule)."""
import collections
from ir import *
import mutate
import sx

FAM = ('Qrack::QInterface', 'Qrack::QAlu', 'Qrack::QParity')
QUERY = set('''Prob CProb ACProb ProbAll ProbReg ProbMask ProbMaskAll ProbBitsAll ProbRegAll ProbParity ProbRdm ProbAllRdm
ProbMaskRdm GetAmplitude GetQuantumState GetProbs GetAmplitudePage GetReducedDensityMatrix ExpectationBitsAll
ExpectationBitsAllRdm ExpectationPauliAll ExpectationUnitaryAll ExpectationBitsFactorized ExpectationBitsFactorizedRdm
ExpectationFloatsFactorized ExpectationFloatsFactorizedRdm VarianceBitsAll VarianceBitsAllRdm VariancePauliAll
VarianceUnitaryAll VarianceFloatsFactorized VarianceFloatsFactorizedRdm VarianceBitsFactorized VarianceBitsFactorizedRdm
ExpVarUnitaryAll ExpVarBitsAll ExpVarFactorized ExpVarBitsFactorized MultiShotMeasureMask SampleClone SumSqrDiff
ApproxCompare isFinished isBinaryDecisionTree isClifford isOpenCL GetUnitaryFidelity GetReactiveSeparate GetTInjection
GetNoiseParameter Clone CloneEmpty GetDevice FirstNonzeroPhase GetRunningNorm IsZeroAmplitude CtrlOrAntiProb GetExpectation
GetQubitCount GetMaxQPower GetIsArbitraryGlobalPhase GetAmpDistribution LossySaveStateVector
IsSeparable IsSeparableX IsSeparableY IsSeparableZ Copy CProbRdm ACProbRdm GetQuantumStateOrProbs GetAmplitudeOrProb'''.split())
FORCE = ('ForceM', 'ForceMReg')
# helpers that keep the represented state; everything else is followed
NEUTRAL = {
    '*': 'Finish isFinished SetConcurrency GetConcurrencyLevel UpdateRunningNorm NormalizeState',
    'QEngineCPU': 'UpdateRunningNorm NormalizeState',
    'QPager': 'CombineEngines SeparateEngines',
    'QStabilizer': 'gaussian seed rowmult rowcopy rowset rowswap clifford',
    'QStabilizerHybrid': 'SwitchToEngine FlushCliffordFromBuffers FlushBuffers InvertBuffer FlushH RdmCloneFlush RdmCloneHelper '
                         'UpdateRoundingThreshold FlushIfBlocked FlushIfBuffered',
    'QUnitClifford': 'CombinePhaseOffsets OrderContiguous EntangleAll EntangleInCurrentBasis SortUnit',
    'QUnit': 'RevertBasis1Qb RevertBasisToX1Qb RevertBasisToY1Qb RevertBasisX RevertBasisY RevertBasis2Qb ToPermBasis '
             'ToPermBasisProb ToPermBasisMeasure ToPermBasisAll ToPermBasisAllMeasure Entangle EntangleAll EntangleRange '
             'EntangleInCurrentBasis OrderContiguous SortUnit FindShardIndex EndEmulation EndAllEmulation CheckShardSeparable ClampShard '
             'ProbBase ConvertYToZ ConvertZToY ConvertXToY ConvertYToX DirtyShardRange DirtyShardRangePhase',
    'QBdt': 'Prune Branch ExecuteAsStateVector',
    'QTensorNetwork': 'MakeLayerStack RunAsAmplitudes CheckQubitCount',
}
CACHE = {'QUnitClifford': ('phaseOffset',), 'QStabilizer': ('phaseOffset',),
         'QStabilizerHybrid': ('rdmClone', 'stateMapCache'), 'QTensorNetwork': ('layerStack',)}
# single named exceptions: (function, effect) and why the state is kept
EXACT = {
    ('QBdtHybrid::ProbAll', 'calls', 'QBdtHybrid::SetPermutation'): 'certain outcome (checked by W01)',
    ('QBdtHybrid::SetPermutation', 'calls', 'QBdt::SetPermutation'): 'as above',
    ('QBdtHybrid::SetPermutation', 'writes', 'qbdt'): 'as above',
    ('QBdtHybrid::SetPermutation', 'writes', 'engine'): 'as above',
    ('QBdt::SumSqrDiff', 'writes', 'root.scale'): 'global phase of a register created with a random global phase',
}
RNG = ('rawRand', 'prng', 'rand_generator', 'rand_distribution')


def neutral_sets():
    return {k: set(v.split()) for k, v in NEUTRAL.items()}


def run(rep, ctx):
    p = ctx.program()
    fam = set(FAM)
    for f in FAM:
        fam |= p.derived.get(f, set())
    neu = neutral_sets()
    alln = set().union(*neu.values())
    rep.rule('query', 'no write to the simulator (or anything it owns) and no state-changing call on it is reachable from a query, '
                      'beyond helpers that keep the represented state')
    rep.rule('conjugation', 'a query that applies gates undoes them, in reverse order and with the inverse gate, on every path')
    rep.rule('unapplied', 'a measurement asked not to apply its result (doApply == false) reaches no state change')
    rep.rule('argument', 'a comparison does not change the register it compares with')

    iface = set()
    for c in FAM + ('Qrack::QEngine',):
        iface |= {m['n'] for m in p.classes[c]['methods'] if m.get('virt')}
    iface -= QUERY

    def policy(dyn, fn, n, own, M, c):
        nm = n.name
        if nm in QUERY:
            return 'ok'
        mc = p.method_cls.get(n.get('fid'))
        cls = mc[0].split('::')[-1] if mc else ''
        if nm in neu['*'] or nm in neu.get(cls, ()) or own and not cls and nm in alln:
            return 'ok'
        if mc and mc[0] in fam:
            if settled(p, fn, n):
                return 'ok'
            if not n.get('virt') or nm not in iface:
                if p.targets(n) and all(restores(p, p.fns[t]) for t in p.targets(n)):
                    return 'ok'
            if nm in FORCE:
                i = flag_index(mc[1], p)
                if i is not None and i < len(n.c) and M.truth(n.c[i], c) is False:
                    return 'ok'
                return 'bad'
            if n.get('cm'):
                return 'ok'
            if nm in iface:
                return 'bad'
        return None
    M = mutate.Mutate(p, fam, policy)
    nq = nf = 0
    for dyn in sorted(fam):
        names = {}
        for f in p.fns.values():
            if f.cls != dyn or f.lam or f.body is None:
                continue
            if f.name in QUERY and not (f.name == 'Copy' and f.params):
                nq += 1
                examine(rep, p, M, f, dyn, (), 'query', neu, iface)
            if f.name in FORCE:
                i = [k for k, x in enumerate(f.params) if x['n'] == 'doApply']
                bools = [k for k, x in enumerate(f.params) if p.types[x['t']] in ('bool', 'const bool')]
                k = i[0] if i else (bools[-1] if bools else None)
                if k is None:
                    continue
                nf += 1
                examine(rep, p, M, f, dyn, ((f.params[k]['d'], False),), 'unapplied', neu, iface)
    restore(rep, p)
    equal_only(rep, p)
    rep.floor('queries', nq, 150)
    rep.floor('measurement entry points', nf, 8)


def flag_index(m, p):
    for i, x in enumerate(m.get('params') or ()):
        if x['n'] == 'doApply':
            return i
    b = [i for i, x in enumerate(m.get('params') or ()) if p.types[x['t']] in ('bool', 'const bool')]
    return b[-1] if b else None


def sig(f):
    return '%s(%s)' % (f.short(), ','.join(x['n'] for x in f.params))


SAVED = {'stabilizer': True, 'ancillaCount': False, 'deadAncillaCount': False, 'shards': True}


def restore(rep, p):
    """QStabilizerHybrid::GetAmplitudeOrProb rounds a copy of the representation in place and puts the original back"""
    rep.rule('restore', 'a query that replaces the representation while it works puts the original back on every path')
    this = ('this',)
    for f in p.fns.values():
        if f.short() != 'QStabilizerHybrid::GetAmplitudeOrProb' or f.body is None:
            continue
        try:
            paths = sx.Exec(p, None, lambda n: n.name in ('IsBuffered', 'IsLogicalProbBuffered', 'Clone'), max_paths=6000).paths(f)
        except sx.TooMany:
            rep.note('restore: too many paths')
            continue
        done = set()
        for q in paths:
            if q.end == 'throw':
                continue
            cut = [k for k, e in enumerate(q.ev) if e.k == 'call' and e.a[0] == 'RdmCloneFlush']
            if not cut:
                changed = [x for x in SAVED if q.heap.get(('fld', this, x), ('fld', this, x)) != ('fld', this, x)]
                rep.check('restore', not changed, f.short() + ' untouched', f.loc(), 'GetAmplitudeOrProb replaces %s although nothing was rounded' % ', '.join(changed))
                continue
            for x, cloned in SAVED.items():
                v = q.heap.get(('fld', this, x))
                last = [k for k, e in enumerate(q.ev) if e.k == 'write' and e.a[0] == ('fld', this, x)]
                ok = v is not None and last and last[-1] > cut[-1]
                done.add((x, ok))
                rep.check('restore', ok, '%s %s' % (f.short(), x), f.loc(),
                          'GetAmplitudeOrProb does not put the original %s back after rounding, on some path' % x)


def equal_only(rep, p):
    rep.rule('equal', 'a comparison rewrites a register only after the two compared equal')
    this = ('this',)
    for f in p.fns.values():
        if f.short() != 'QStabilizerHybrid::ApproxCompareHelper' or f.body is None:
            continue
        try:
            paths = sx.Exec(p, None, None, max_paths=20000).paths(f)
        except sx.TooMany:
            rep.note('equal: too many paths')
            continue
        for q in paths:
            k = [i for i, e in enumerate(q.ev) if e.k == 'call' and e.a[0] == 'SetPermutation' or e.k in ('write', 'mut') and
                 e.a[0] is not None and isinstance(e.a[0], tuple) and sx.contains(e.a[0], this)]
            if not k:
                continue
            ok = any(c[0] == 'lt' and v is False and any(x[0] == 'res' and x[2] in ('SumSqrDiff', 'ApproxCompare') for x in sx.walk(c))
                     for c, v in q.pc.items()) or \
                any(isinstance(c, tuple) and c[0] == 'res' and c[2] == 'ApproxCompare' and v for c, v in q.pc.items())
            rep.check('equal', ok, f.short(), f.loc(q.ev[k[0]].node), 'a register is rewritten although the two did not compare equal')


_memo = {}


def restores(p, g):
    """a helper that applies gates and undoes them on every path"""
    if g.id not in _memo:
        _memo[g.id] = False
        if g.body is not None and g.cls:
            own = [n for n in g.all_nodes() if n.k == 'call' and n.o is not None and
                   (n.name in SELF or n.name in PAIR or n.name in ('Mtrx', 'U'))]
            if len(own) >= 2:
                _memo[g.id] = conjugated(p, g, ()) is True
    return _memo[g.id]


_paths = {}


def settled(p, fn, n):
    """a measurement of a qubit that is known, on every path to it, to be in a definite state: M(q) under IsSeparableZ(q)"""
    if n.name not in ('M', 'ForceM'):
        return False
    if fn.lam:
        return False
    if fn.id not in _paths:
        try:
            _paths[fn.id] = sx.Exec(p, None, lambda n: n.name.startswith('IsSeparable'), max_paths=3000).paths(fn)
        except sx.TooMany:
            _paths[fn.id] = None
    ps = _paths[fn.id]
    if not ps:
        return False
    hit = False
    for q in ps:
        for e in q.ev:
            if e.k == 'call' and e.node is n:
                hit = True
                o, a = e.a[1], e.a[2]
                if q.pc.get(('op', 'IsSeparableZ', o) + a[:1]) is not True:
                    return False
    return hit


def examine(rep, p, M, f, dyn, consts, rule, neu, iface):
    M.memo = {}
    eff = M.effects(f, dyn, consts)
    bad = collections.OrderedDict()
    for e in eff:
        if e.kind in ('writes', 'calls'):
            if str(e.what).startswith(RNG) or allowed(f, dyn, e, neu):
                continue
            bad.setdefault((e.kind, str(e.what), e.where()), e)
        elif e.kind == 'pcall' and f.name in ('SumSqrDiff', 'ApproxCompare') and e.what[1] in iface and e.what[1] not in QUERY and e.what[1] not in neu['*'] and \
                not any(e.what[1] in s for s in neu.values()):
            bad.setdefault(('arg', '%s on argument %s' % (e.what[1], f.params[e.what[0]]['n'] if e.what[0] < len(f.params) else '?'), e.where()), e)
    key = sig(f)
    if bad and all(k[0] != 'arg' for k in bad):
        r = conjugated(p, f, consts)
        if r is True:
            rep.check('conjugation', True, key, f.loc(), '')
            return
        if r:
            rep.check('conjugation', False, key, r[0], '%s changes the register and does not restore it: %s' % (key, r[1]))
            return
    args = [e for k, e in bad.items() if k[0] == 'arg']
    rest = [e for k, e in bad.items() if k[0] != 'arg']
    rep.check(rule, not rest, key, rest[0].where() if rest else f.loc(), '%s%s changes the register: %s' % (
        key, ' with doApply == false' if rule == 'unapplied' else '', '; '.join(e.text() for e in rest[:4])))
    if args:
        rep.check('argument', False, key, args[0].where(), '%s changes its argument: %s' % (key, '; '.join(k[1] for k in bad if k[0] == 'arg')))


def allowed(f, dyn, e, neu):
    if e.fn.short() == 'QStabilizerHybrid::ApproxCompareHelper':
        # equal registers may take over the Clifford form of the other: only on the path where they compared equal
        return True
    if e.fn.short() == 'QStabilizerHybrid::GetAmplitudeOrProb' and e.kind == 'writes':
        return True     # decided by the restore rule
    for c, fields in CACHE.items():
        if e.kind == 'writes' and any(e.what == x or str(e.what).startswith(x + '.') or str(e.what).startswith(x + '[') for x in fields) and \
                (e.fn.cls or '').endswith('::' + c):
            return True
    return (e.fn.short(), e.kind, str(e.what)) in EXACT


# ------------------------------------------------------------------ conjugation
SELF = set('H X Y Z CNOT AntiCNOT CY CZ Swap CCNOT XMask ZMask YMask AntiCZ AntiCY CH CSwap MCInvert'.split())
PAIR = {'S': 'IS', 'T': 'IT', 'SH': 'HIS', 'SqrtX': 'ISqrtX', 'SqrtY': 'ISqrtY', 'ISwap': 'IISwap', 'QFT': 'IQFT', 'CS': 'CIS', 'SqrtSwap': 'ISqrtSwap'}
PAIR.update({v: k for k, v in list(PAIR.items())})


OTHER = ('Mtrx', 'MCMtrx', 'MACMtrx', 'UCMtrx', 'RX', 'RY', 'RZ', 'RT', 'U')


def conjugated(p, f, consts):
    """True: every path restores; (where, text): some path does not; None: cannot tell (not of this form)"""
    def inl(g, n):
        return g.cls == f.cls and g.name not in QUERY and not g.get('virt')

    try:
        paths = sx.Exec(p, inl, None, max_paths=4000).paths(f)
    except sx.TooMany:
        return None
    seen = False
    for q in paths:
        if q.end == 'throw':
            continue
        items, ok = sequence(f, q)
        if not ok:
            return None
        seen = seen or any(it[0] == 'g' or it[2] for it in items)
        loops = []
        feasible = True
        for it in items:
            if it[0] == 'l':
                feasible = feasible and not any(o[1] == it[1] and any(o[3].get(k, v) != v for k, v in it[3].items()) for o in loops)
                loops.append(it)
        if not feasible:
            continue
        stack = []
        for it in items:
            if it[0] == 'l' and not it[2]:
                continue
            if stack and cancels(stack[-1], it):
                stack.pop()
                continue
            stack.append(it)
        if stack:
            it = stack[-1]
            return it[-1], 'after %s, the %s' % (show_item(it), 'inverse does not follow on a path')
    return True if seen else None


def show_item(it):
    return it[1] if it[0] == 'g' else 'a loop of ' + ', '.join(x[1] for x in it[2])


def sequence(f, q):
    """state-changing calls on this object, loops grouped; ok False: an event of another form"""
    out = []
    stack = [(None, None, out)]
    inv = {}
    for e in q.ev:
        if e.k == 'loop':
            stack.append((e.a[0], e.a[2], []))
        elif e.k == 'endloop':
            uid, info, body = stack.pop()
            if info is not None and info[-1] == 'rev':
                info = info[:-1]    # the qubits of a loop are distinct: its direction does not matter
            if body or True:
                cond = {canon(k, uid): v for k, v in (e.pc or {}).items() if sx.contains(k, ('i', uid))}
                if body:
                    b = [tuple(canon(x, uid) if isinstance(x, tuple) and k == 2 else x for k, x in enumerate(it)) for it in body]
                    stack[-1][2].append(('l', info, b, cond, b[-1][-1]))
                else:
                    stack[-1][2].append(('l', info, [], cond, f.loc(e.node)))
        elif e.k == 'unwind':
            return out, False
        elif e.k == 'call':
            nm, o, args, r = e.a
            if nm == 'inv2x2' and len(args) == 2:
                inv[args[1]] = args[0]
                continue
            if o is not None and isinstance(o, tuple) and sx.contains(o, ('this',)):
                mc = e.node.get('cm') or nm in QUERY or nm in neutral_sets()['*'] or any(nm in s for s in neutral_sets().values())
                if mc:
                    continue
                a = tuple(('inv', inv[x]) if x in inv else x for x in args)
                if nm not in SELF and nm not in PAIR and nm not in OTHER and nm not in ('SetPermutation',):
                    return out, False
                stack[-1][2].append(('g', nm, a + (o,), f.loc(e.node)))
        elif e.k == 'write' and sx.contains(e.a[0], ('this',)):
            return out, False
    return [it for it in out], True


def canon(x, uid):
    if x == ('i', uid):
        return ('i', '*')
    if isinstance(x, tuple):
        return tuple(canon(y, uid) for y in x)
    return x


def cancels(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'g':
        return inverse(a, b)
    if a[1] != b[1]:
        return False
    if len(a[2]) != len(b[2]):
        return False
    return all(x[0] == 'g' and y[0] == 'g' and inverse(x, y) is True for x, y in zip(a[2], reversed(b[2])))


def negated(x, y):
    return sx.add(x, y) == sx.C(0)


def inverse(a, b):
    n1, a1, n2, a2 = a[1], a[2], b[1], b[2]
    if n1 == n2 and n1 in SELF or PAIR.get(n1) == n2:
        return a1 == a2
    if n1 == n2 and n1 in ('Mtrx', 'MCMtrx', 'MACMtrx', 'UCMtrx') and len(a1) == len(a2):
        k = 0 if n1 == 'Mtrx' else 1
        m1, m2 = a1[k], a2[k]
        return a1[:k] + a1[k + 1:] == a2[:k] + a2[k + 1:] and (m1 == ('inv', m2) or m2 == ('inv', m1))
    if n1 == n2 and n1 in ('RX', 'RY', 'RZ', 'RT') and len(a1) == 3:
        return a1[1:] == a2[1:] and negated(a1[0], a2[0])
    if n1 == n2 == 'U' and len(a1) == 5 and len(a2) == 5:
        return a1[0] == a2[0] and a1[4] == a2[4] and negated(a1[1], a2[1]) and negated(a1[2], a2[3]) and negated(a1[3], a2[2])
    return False
