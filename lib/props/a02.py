"""A02: an exception raised by the library never crosses the C boundary, and is recorded."""
from ir import *
from api import Api, is_obj_ptr, handle_kind
from effects import Throws, guarded_by, catches_all, contained

ERRORS = ('simulatorErrors', 'neuronErrors', 'metaError')


def run(rep, ctx):
    p = ctx.program()
    a = Api(p)
    a.analyse()
    T = Throws(p)
    rep.rule('escape', 'no call in an exported function that may reach a throw in library code lies outside a try block '
                       'with a handler for std::exception (or everything)')
    rep.rule('record', 'every handler of such a try block records a non-zero error status')
    rep.rule('which', 'the recorded status is that of the object the guarded operation used')
    ncalls = nhand = 0
    seen = set()
    todo = [f.id for f in a.api]
    while todo:
        fid = todo.pop()
        if fid in seen:
            continue
        seen.add(fid)
        f = a.byid[fid]
        for n in f.calls():
            if n.get('fid') in a.byid:
                todo.append(n.get('fid'))
    for f in sorted((a.byid[x] for x in seen), key=lambda f: f.line):
        boundary = f in a.api
        risky = defaultdict(list)
        for n in f.all_nodes():
            w = T.may(n)
            if not w:
                continue
            if boundary:
                ncalls += 1
                ok = contained(n)
                rep.check('escape', ok, '%s: %s' % (f.name, show(n)[:80]), f.loc(n),
                          'an exception can leave the C boundary: ' + (T.chain(w) if w != 'throw' else 'throw'))
            for t in guarded_by(n):
                if catches_all(t, p):
                    risky[id(t)].append((t, n))
                    break
        for k, lst in risky.items():
            t = lst[0][0]
            for c in t.c[1:]:
                if c is None or c.k != 'catch':
                    continue
                nhand += 1
                writes, flags = recorded(a, f, c)
                ok = bool(writes) or flagged(a, f, flags)
                names = sorted(set(show(n)[:40] for _, n in lst))[0]
                rep.check('record', ok, '%s: handler of %s' % (f.name, names), f.loc(c),
                          'a failed operation is caught without recording an error')
                if writes:
                    rep.check('which', which(a, f, t, c, writes), '%s: handler of %s' % (f.name, names), f.loc(c),
                              'the handler records the error of a different object than the one the operation used')
    rep.floor('calls that may raise', ncalls, 120)
    rep.floor('handlers', nhand, 100)
    rep.floor('library functions that may raise', len(T.why), 500)


def recorded(a, f, c, depth=0):
    """error locations a handler writes a non-zero constant to on every path out of it: [(vector, index key)], and flags"""
    writes, flags = [], set()
    for n in c.walk():
        if n.k == 'asg' and n.op == '=':
            l = skip(n.c[0])
            v = const_int(n.c[1])
            if l.k == 'ref' and l.get('dk') == 'global' and l.q in ERRORS and v:
                if unconditional(n, c):
                    writes.append((l.q, None))
            elif l.k == 'call' and l.op == '[]' and l.o is not None and skip(l.o).k == 'ref' and skip(l.o).q in ERRORS:
                if v and unconditional(n, c):
                    writes.append((skip(l.o).q, a.var(l.c[0]) or a.key(l.c[0])))
            elif l.k == 'ref' and l.get('dk') in ('local', 'parm') and unconditional(n, c):
                flags.add(l.decl)
        if n.k == 'call' and n.get('fid') in a.byid and depth < 4 and unconditional(n, c):
            g = a.byid[n.get('fid')]
            w2, _ = recorded(a, g, g.body, depth + 1)
            m = {}
            for prm, arg in zip(g.params, n.c):
                m[('v', prm['d'])] = a.var(arg) or a.key(arg)
            for v, k in w2:
                writes.append((v, m.get(k) if k is not None else None))
    return writes, flags


def unconditional(n, top):
    x = n
    while x is not top and x.p is not None:
        q = x.p
        if q.k in ('if', 'while', 'for', 'forrange', 'switch', 'cond', 'catch') and q is not top:
            if not (q.k == 'if' and False):
                return False
        x = q
    return True


def flagged(a, f, flags):
    """a local the handler sets reaches an error status: through an assignment, push_back, or other local"""
    if not flags:
        return False
    fl = set(flags)
    for _ in range(3):
        for n in f.all_nodes():
            if n.k == 'var' and n.c and n.c[0] is not None and any(x.k == 'ref' and x.decl in fl for x in n.c[0].walk()):
                fl.add(n.decl)
    for n in f.all_nodes():
        val = tgt = None
        if n.k == 'asg':
            tgt, val = n.c[0], n.c[1]
        elif n.k == 'call' and n.name in ('push_back', 'emplace_back') and n.o is not None and n.c:
            tgt, val = n.o, n.c[0]
        elif n.k == 'call' and n.get('fid') in a.byid:
            # handed to a helper that stores it
            g = a.byid[n.get('fid')]
            for prm, arg in zip(g.params, n.c):
                if arg is not None and any(x.k == 'ref' and x.decl in fl for x in arg.walk()):
                    if flagged(a, g, {prm['d']}):
                        return True
            continue
        if tgt is None:
            continue
        if any(x.k == 'ref' and x.get('dk') == 'global' and x.q in ERRORS for x in tgt.walk()):
            if any(x.k == 'ref' and x.decl in fl for x in val.walk()):
                return True
            # control dependence: if (!flag) simulatorErrors[...] = 1
            for an in n.ancestors():
                if an.k == 'if' and an.c[2] is not None and any(x.k == 'ref' and x.decl in fl for x in an.c[2].walk()):
                    return True
    return False


FAM = {'QInterface': ('simulators', 'simulatorErrors'), 'QNeuron': ('neurons', 'neuronErrors')}


def which(a, f, t, c, writes):
    """the index written must be the handle of an object used in the try body"""
    if any(v == 'metaError' for v, _ in writes):
        return True
    _, before, _ = a.run(f)
    ok_idx = set()
    unknown = False
    for n in t.c[0].walk():
        keys = []
        if n.k == 'call' and n.op in ('->', '*') and n.o is not None and is_obj_ptr(n.o.type):
            keys.append(n.o)
        if n.k == 'call':
            for x in n.c:
                if x is not None and is_obj_ptr(x.type):
                    keys.append(x)
        if n.k == 'call' and n.get('fid') in a.byid:
            for x in n.c:
                v = a.var(x) if x is not None else None
                if v:
                    ok_idx.add(v)   # a handle passed on to a helper
        if n.k == 'call' and n.q == 'CreateQuantumInterface' or n.k == 'call' and n.name and n.name.startswith('CreateQuantumInterface'):
            unknown = True
        for e in keys:
            st = before(n)
            k = a.key(e)
            if k is None or st is None:
                continue
            ks = a.cls(st, k)
            got = [x for x in ks if x[0] == 'reg' and x[1] in ('simulators', 'neurons', 'circuits')]
            for x in got:
                ok_idx.add(x[2])
                ok_idx |= a.cls(st, x[2])
    if unknown or not ok_idx:
        return True
    return any(k in ok_idx for v, k in writes)
