"""A01: no foreign handle reaches memory unless it was checked."""
from ir import *
from api import Api


def run(rep, ctx):
    p = ctx.program()
    a = Api(p)
    a.analyse()
    rep.rule('bound', 'every element access of a handle registry is dominated by a check that the index is smaller than '
                      'the registry size (or is an index obtained from the registry itself)')
    rep.rule('null', 'every dereference of a handle taken from a registry is dominated by a null check')
    rep.rule('cast', 'every dereference of a dynamic cast of a simulator is dominated by a null check')
    rep.rule('helper', 'every call of a helper satisfies what the helper needs of its handle arguments')
    rep.rule('error', 'every early return on an out-of-range handle records an error or returns one')
    rep.rule('registry', 'vectors indexed by the same handle grow together')
    lines = {'bound': 'registry access %s is not guarded by a size check on every path',
             'null': 'handle %s is dereferenced without a null check on every path',
             'cast': 'the result of a dynamic cast, %s, is dereferenced without a null check'}
    count = {}
    for f in a.fns:
        boundary = f.get('extc') and f.get('hdr')
        for kind, n, V, e, ok, need in a.results[f.id]:
            moved = not ok and need is not None and need in a.req[f.id]
            if moved:
                continue  # an obligation of the callers, checked there
            if kind.startswith('pre'):
                g = a.byid[n.get('fid')]
                rep.check('helper', ok, '%s -> %s' % (f.name, g.name), f.loc(n),
                          '%s() is called with a handle that is not checked (%s) on every path' % (
                              g.name, 'range' if kind == 'preLT' else 'null'))
                count['helper'] = count.get('helper', 0) + 1
            else:
                rep.check(kind, ok, '%s: %s' % (f.name, show(e)), f.loc(n), lines[kind] % show(n))
                count[kind] = count.get(kind, 0) + 1
    # errors on rejected handles
    nerr = 0
    for f in a.fns:
        if not f.get('extc'):
            continue
        _, before, after = a.run(f)
        prm = set(('v', x['d']) for x in f.params)
        for r in f.all_nodes():
            if r.k != 'return':
                continue
            st = before(r)
            if st is None:
                continue
            ge = [x for x in st if x[0] == 'GE' and x[1] in prm]
            if not ge:
                continue
            cv = const_int(r.c[0]) if r.c and r.c[0] is not None else None
            rt = p.types[f.get('ret')]
            ok = ('ERR',) in st or (rt == 'int' and cv not in (None, 0))
            nerr += 1
            rep.check('error', ok, f.name, f.loc(r), 'returns for an out-of-range handle without recording an error')
    # registries
    sizes = {}
    for fid, g in a.grow.items():
        f = a.byid[fid]
        for v in g:
            want = a.groups[v]
            rep.check('registry', want <= a.grow[fid] or len(want) == 1, '%s: %s' % (f.name, v), f.loc(),
                      'grows %s but not %s' % (v, ', '.join(sorted(want - g))))
            sizes[v] = len(want)
    rep.floor('exported functions', len(a.api), 150)
    rep.floor('handle registries', len([v for v in a.regs if is_handle(a.regs[v])]), 3)
    rep.floor('registry accesses', count.get('bound', 0), 150)
    rep.floor('handle dereferences', count.get('null', 0), 100)
    rep.floor('rejecting returns', nerr, 20)


def is_handle(t):
    return 'std::shared_ptr<Qrack::' in t and not t.startswith('std::vector<std::vector')
