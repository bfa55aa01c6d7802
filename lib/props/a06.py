"""A06: the qubit id map follows every change of the register."""
from ir import *
import apieval as A
import apicheck as K


def positional(v):
    return not (v[0] == 'res')


def pair(a, b):
    f = lambda v: v[2] if v[0] == 'trunc' else v
    return sorted((repr(f(a)), repr(f(b))))


def run(rep, ctx):
    p = ctx.program()
    tr = K.traces(p)
    spec = K.load('api_idmap.json')
    lib = K.libnames(p)
    known = set()
    for alts in spec.values():
        for a in alts:
            for b in a:
                for x in b:
                    known.update(y.split('.')[-1] for y in K.TOKEN.findall(x))
    rep.rule('swap', 'a swap that moves a qubit to another position is followed, before anything else happens, by the '
                     'same exchange in the id map, and the id map is exchanged only then')
    rep.rule('lifecycle', 'functions that create, copy, join, split or remove registers leave exactly the id map their '
                          'specification requires')
    rep.rule('failure', 'after a failed change of the register, the id map is not changed')
    rep.rule('disjoint', 'when the qubits of two registers are gathered, the second starts at or after the end of the first')
    nswap = nlife = nfail = 0
    for name, (f, t, norm) in sorted(tr.items()):
        if t is None:
            rep.note('%s: not analysed (%s)' % (name, norm))
            continue
        for pl, node, bad in norm.gathers:
            rep.check('disjoint', not bad, name, f.loc(node), 'the second register is gathered over qubits of the first')
        flat = list(A.flatten(t))
        ev = [(e, g) for e, g in flat if not (e.k == 'lib' and e.a[1] in A.QUIET)]
        used = set()
        fell = None
        for i, (e, g) in enumerate(ev):
            if e.k == 'catchfall':
                fell = e
            if e.k in K.MAPKINDS and e.k != 'mapdrop' and fell is not None:
                nfail += 1
                rep.check('failure', False, name, f.loc(e.node),
                          'the id map is changed although the preceding change of the register may have failed')
            if e.k == 'lib' and e.a[1] == 'Swap' and e.a[0] == 'Qrack::QInterface' and len(e.a[3]) == 2:
                a, b = e.a[3]
                if not (positional(a) or positional(b)):
                    continue  # the SWAP gate: exchanges states, ids keep their places
                nswap += 1
                nxt = ev[i + 1] if i + 1 < len(ev) else (None, None)
                ok = nxt[0] is not None and nxt[0].k == 'mapswap' and nxt[1] == g and nxt[0].a[0] == e.a[2] and \
                    pair(nxt[0].a[1], nxt[0].a[2]) == pair(a, b)
                if nxt[0] is not None and nxt[0].k == 'mapother':
                    rep.note('%s: exchange in the id map not decided' % name)
                    used.add(i + 1)
                    continue
                used.add(i + 1)
                rep.check('swap', ok, name, f.loc(e.node), 'a positional swap without the same exchange in the id map')
        for i, (e, g) in enumerate(ev):
            if e.k == 'mapswap' and i not in used:
                rep.check('swap', False, name, f.loc(e.node), 'the id map is exchanged without a swap of the register')
        if any(e.k == 'lib' and e.a[1] in A.STRUCTURAL for e, g in flat):
            nfail += 1
            rep.check('failure', True, name, f.loc(), 'no change of the id map after a failed change of the register')
        if name in spec or K.has_map_events(t):
            if name not in spec:
                kinds = sorted(set(e.k for e, g in flat if e.k in K.MAPKINDS and e.k != 'mapswap'))
                if kinds and 'mapother' not in kinds:
                    rep.check('lifecycle', False, name, f.loc(), 'changes the id map (%s), which this function must not' % ', '.join(kinds))
                continue
            nlife += 1
            K.compare(rep, 'lifecycle', f, spec[name], K.text6(norm), known, lib, name + '()')
    rep.floor('positional swaps', nswap, 8)
    rep.floor('register-changing functions', nlife, 7)
    rep.floor('functions that change the register', nfail, 8)
