"""A03: calls on one simulator (neuron, circuit) exclude each other, and locking cannot deadlock."""
from ir import *
from api import Api, handle_kind, is_handle_type

MAPS = {'QInterface': 'simulatorMutexes', 'QNeuron': 'neuronMutexes', 'QCircuit': 'circuitMutexes'}


def run(rep, ctx):
    p = ctx.program()
    a = Api(p)
    a.analyse()
    rep.rule('held', 'every use of a registered object through the C API happens while the mutex of that object is held '
                     '(or before the object is registered)')
    rep.rule('helper', 'every call of a helper that uses an object happens while the mutex of that object is held')
    rep.rule('order', 'the order in which mutex families are acquired while others are held has no cycle')
    rep.rule('pair', 'two mutexes of one family are only ever acquired together, by std::lock')
    rep.rule('registry', 'registries grow, and their entries are replaced, only under the registry mutex or that of the entry')
    touches = neuron_touch(p)
    sim = simulator_map(a)
    need = {f.id: set() for f in a.fns}     # (kind, key over parameters)
    state = {}
    for f in a.fns:
        state[f.id] = a.run(f)

    def ok_at(st, kind, k):
        return a.holds(st, MAPS[kind], k) or a.has(st, 'FR', k)

    def local_obl(f):
        _, before, _ = state[f.id]
        for n in f.all_nodes():
            if n.k == 'call' and n.op in ('->', '*') and n.o is not None and not n.c and is_handle_type(n.o.type):
                st = before(n)
                if st is None:
                    continue
                k = a.key(n.o)
                kind = handle_kind(n.o.type)
                if k is None or k[0] == 'c':
                    continue
                yield n, n.o, kind, k, st
                if kind == 'QNeuron':
                    m = n.p
                    if m is not None and m.k == 'call' and m.get('fid') in touches:
                        yield n, n.o, 'neuron simulator', k, st
            if n.k == 'call' and n.get('fid') not in a.byid and n.op is None:
                # handed to the library: it will be used there
                for x in n.c:
                    if x is not None and is_handle_type(x.type) and not (n.q or '').startswith('std::'):
                        st = before(n)
                        k = a.key(x)
                        if st is not None and k is not None:
                            yield n, x, handle_kind(x.type), k, st

    def held(st, kind, k):
        if kind == 'neuron simulator':
            for k2 in a.cls(st, k):
                if a.holds(st, MAPS['QInterface'], ('reg', 'neuronSimulators', k2)):
                    return True
            return a.has(st, 'FR', k)
        return ok_at(st, kind, k)

    for rnd in range(8):
        changed = False
        for f in a.fns:
            if f.get('extc') and f.get('hdr'):
                continue
            prm = set(('v', x['d']) for x in f.params)
            _, before, _ = state[f.id]

            def want(kind, k, st):
                for k2 in sorted(a.cls(st, k), key=str):
                    base = k2[2] if k2[0] == 'reg' else k2
                    if base in prm and (kind, k2) not in need[f.id]:
                        if any(x[0] == kind for x in need[f.id] if x[1] in a.cls(st, k)):
                            return False
                        need[f.id].add((kind, k2))
                        return True
                return False
            for n, e, kind, k, st in local_obl(f):
                if not held(st, kind, k):
                    changed |= want(kind, k, st)
            for n in f.calls():
                if n.get('fid') in a.byid:
                    st = before(n)
                    if st is None:
                        continue
                    for kind, k in need[n.get('fid')]:
                        s = a.subst(n, [('X', k)])
                        for _, k2 in s:
                            if not held(st, kind, k2):
                                changed |= want(kind, k2, st)
        if not changed:
            break
    nd = nh = 0
    for f in a.fns:
        _, before, _ = state[f.id]

        def passed_on(kind, k, st):
            return any(x[0] == kind and x[1] in a.cls(st, k) for x in need[f.id])
        for n, e, kind, k, st in local_obl(f):
            ok = held(st, kind, k)
            if not ok and passed_on(kind, k, st):
                continue
            nd += 1
            rep.check('held', ok, '%s: %s%s' % (f.name, show(e), ' (its simulator)' if kind.startswith('neuron') else ''),
                      f.loc(n), '%s is used without holding its mutex' % show(e))
        for n in f.calls():
            if n.get('fid') in a.byid and need[n.get('fid')]:
                st = before(n)
                if st is None:
                    continue
                g = a.byid[n.get('fid')]
                for kind, k in need[g.id]:
                    s = list(a.subst(n, [('X', k)]))
                    if not s:
                        continue
                    ok = held(st, kind, s[0][1])
                    if not ok and passed_on(kind, s[0][1], st):
                        continue
                    nh += 1
                    rep.check('helper', ok, '%s -> %s' % (f.name, g.name), f.loc(n),
                              '%s() uses an object whose mutex is not held here' % g.name)
    lock_order(rep, a, state)
    registry(rep, a, state)
    rep.floor('exported functions', len(a.api), 150)
    rep.floor('uses of shared objects', nd, 100)
    rep.floor('calls of helpers that use one', nh, 20)


def neuron_touch(p):
    """QNeuron methods that (transitively) operate on the simulator"""
    direct = set()
    calls = defaultdict(set)
    for f in p.fns.values():
        if f.cls and f.cls.endswith('::QNeuron'):
            for n in f.all_nodes():
                if n.k == 'call' and n.cls_qinterface:
                    direct.add(f.id)
                for t in p.targets(n) if n.k in ('call', 'ctor') else ():
                    calls[f.id].add(t)
    ch = True
    while ch:
        ch = False
        for f, ts in calls.items():
            if f not in direct and ts & direct:
                direct.add(f)
                ch = True
    return direct


def _qi(n):
    c = n.get('cls') or ''
    return c in ('Qrack::QInterface', 'Qrack::QAlu', 'Qrack::QParity')


Node.cls_qinterface = property(_qi)


def simulator_map(a):
    return 'neuronSimulators'


def acquisitions(a, f, before):
    """blocking acquisitions: (node, [mutex keys acquired together], state before)"""
    for n in f.all_nodes():
        if n.k == 'call' and n.q == 'std::lock':
            st = before(n)
            if st is not None:
                yield n, [a.mutex_key(x, st) for x in n.c], st
        elif n.k == 'call' and n.name == 'lock' and n.o is not None and not n.c:
            st = before(n)
            if st is not None:
                yield n, [a.mutex_key(n.o, st)], st
        elif n.k == 'ctor' and (n.get('cls') or '').startswith(('std::lock_guard', 'std::unique_lock')) or \
                n.k == 'call' and n.name in ('make_unique', 'make_shared') and a.is_guard_type(n.type):
            st = before(n)
            if st is None:
                continue
            for mk, node, mode in a.guards(st, n):
                if node is n and mode == 'new':
                    yield n, [mk], st


def lock_order(rep, a, state):
    acq = {}
    for f in a.fns:
        acq[f.id] = list(acquisitions(a, f, state[f.id][1]))
    # families a function may acquire, helpers included
    fam = {f.id: set(m[1] for _, ms, _ in acq[f.id] for m in ms if m) for f in a.fns}
    ch = True
    while ch:
        ch = False
        for f in a.fns:
            for n in f.calls():
                if n.get('fid') in fam and not fam[n.get('fid')] <= fam[f.id]:
                    fam[f.id] |= fam[n.get('fid')]
                    ch = True
    edges = {}
    n_acq = 0

    def held(st):
        out = set()
        for x in st:
            if x[0] in ('HELD', 'LK'):
                out.add(x[1])
        return out
    for f in a.fns:
        for n, ms, st in acq[f.id]:
            n_acq += 1
            hs = held(st)
            for m in ms:
                if m is None:
                    continue
                for h in hs:
                    if h[1] == m[1]:
                        rep.check('pair', False, '%s: %s' % (f.name, m[1]), f.loc(n),
                                  'acquires a second mutex of %s while one is held: two threads can block each other' % m[1])
                    else:
                        edges.setdefault((h[1], m[1]), (f, n))
            keys = [m for m in ms if m]
            for i in range(len(keys)):
                for j in range(i):
                    same = keys[i][1] == keys[j][1] and a.same(st, keys[i][2], keys[j][2])
                    rep.check('pair', not same, '%s: lock' % f.name, f.loc(n), 'std::lock is given the same mutex twice')
        _, before, _ = state[f.id]
        for n in f.calls():
            if n.get('fid') in fam and fam[n.get('fid')]:
                st = before(n)
                if st is None:
                    continue
                for h in held(st):
                    for m in fam[n.get('fid')]:
                        if h[1] == m:
                            rep.check('pair', False, '%s -> %s' % (f.name, n.name), f.loc(n),
                                      '%s() acquires a mutex of %s while one is held here' % (n.name, m))
                        else:
                            edges.setdefault((h[1], m), (f, n))
    # cycles
    g = defaultdict(set)
    for x, y in edges:
        g[x].add(y)

    def reach(x, y):
        seen, st = set(), [x]
        while st:
            z = st.pop()
            if z == y:
                return True
            if z not in seen:
                seen.add(z)
                st += g[z]
        return False
    for (x, y), (f, n) in sorted(edges.items(), key=lambda e: e[0]):
        rep.check('order', not reach(y, x), '%s before %s' % (x, y), f.loc(n),
                  '%s acquires %s while holding %s, and elsewhere the order is the reverse' % (f.name, y, x))
    rep.floor('lock acquisitions', n_acq, 100)


def registry(rep, a, state):
    meta = 'metaOperationMutex'
    need = {f.id: [] for f in a.fns}
    n_w = 0
    growers = defaultdict(list)
    for f in a.fns:
        _, before, _ = state[f.id]
        for n in f.all_nodes():
            if n.k == 'call' and n.name in ('push_back', 'emplace_back', 'erase', 'clear', 'resize') and n.o is not None:
                g = skip(n.o)
                if g.k == 'ref' and g.get('dk') == 'global' and g.q in a.regs:
                    growers[f.id].append((n, g.q))
    # a helper that grows must be called with the registry mutex held
    pend = {}
    for f in a.fns:
        _, before, _ = state[f.id]
        for n, q in growers[f.id]:
            st = before(n)
            if st is None:
                continue
            ok = any(x[0] == 'HELD' and x[1][1] == meta for x in st)
            if not ok and not f.get('hdr'):
                pend[f.id] = True
                continue
            n_w += 1
            rep.check('registry', ok, '%s: %s' % (f.name, q), f.loc(n), '%s changes size without the registry mutex' % q)
    for f in a.fns:
        _, before, _ = state[f.id]
        for n in f.calls():
            if pend.get(n.get('fid')):
                st = before(n)
                if st is None:
                    continue
                ok = any(x[0] == 'HELD' and x[1][1] == meta for x in st)
                n_w += 1
                rep.check('registry', ok, '%s -> %s' % (f.name, n.name), f.loc(n),
                          '%s() changes the size of a registry and is called without the registry mutex' % n.name)
    rep.floor('registry growth sites', n_w, 10)
