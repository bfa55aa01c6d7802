"""Work queued by a state-vector engine: which code runs later on the engine's own thread, and what is pending when.

An engine object is named by its access path ('this', or a parameter or local that points to another engine).  For every
engine the analysis keeps 'settled': no queued operation can still be running or waiting.  Finish() and Dump() settle,
anything that may queue work un-settles."""
from ir import *
import mutate

QUEUE = ('dispatch', 'Dispatch')
SETTLE = ('Finish', 'Dump')


def lambda_args(p, f, a, seen=None):
    """lambda functions a callable argument may hold"""
    a = skip(a)
    out = []
    if a is None:
        return out
    if a.k in ('ctor', 'initlist') and a.c:
        for x in a.c:
            out += lambda_args(p, f, x, seen)
        return out
    if a.k == 'lambda':
        g = p.fns.get(a.get('fid'))
        return [g] if g is not None else []
    if a.k == 'cond':
        return lambda_args(p, f, a.c[1], seen) + lambda_args(p, f, a.c[2], seen)
    if a.k == 'ref' and a.get('dk') == 'local':
        seen = seen or set()
        if a.decl in seen:
            return out
        seen.add(a.decl)
        for g in family(p, f):
            for n in g.all_nodes():
                if n.k == 'var' and n.decl == a.decl and n.c and n.c[0] is not None:
                    out += lambda_args(p, g, n.c[0], seen)
                elif n.k == 'call' and n.op == '=' and n.o is not None and is_ref(n.o, a.decl) and n.c:
                    out += lambda_args(p, g, n.c[0], seen)
                elif n.k == 'asg' and n.op == '=' and is_ref(n.c[0], a.decl):
                    out += lambda_args(p, g, n.c[1], seen)
    return out


def is_ref(n, d):
    n = skip(n)
    return n is not None and n.k == 'ref' and n.decl == d


_fam = {}


def family(p, f):
    """the function, and every lambda inside it"""
    r = p.root_of(f) if f.lam else f
    key = (id(p), r.id)
    if key not in _fam:
        idx = _fam.get(id(p))
        if idx is None:
            idx = {}
            for g in p.fns.values():
                if g.lam and g.body is not None:
                    idx.setdefault(p.root_of(g).id, []).append(g)
            _fam[id(p)] = idx
        _fam[key] = [r] + [g for g in idx.get(r.id, []) if g is not r]
    return _fam[key]


def queue_calls(p):
    """(function, call, [lambdas]) for every call that hands work to a dispatch queue"""
    out = []
    for f in p.fns.values():
        if f.body is None:
            continue
        for n in f.all_nodes():
            if n.k != 'call' or n.name not in QUEUE or not n.c:
                continue
            t = [p.fns[x] for x in p.targets(n)]
            if not t or not any(queues(p, g) for g in t):
                continue
            out.append((f, n, lambda_args(p, f, n.c[-1])))
    return out


def queues(p, g, seen=None):
    """does g (a Dispatch wrapper or the queue itself) hand its callable to a DispatchQueue?"""
    if g.cls == 'Qrack::DispatchQueue':
        return True
    if g.body is None:
        return False
    for n in g.all_nodes():
        if n.k == 'call' and n.name in QUEUE:
            for x in p.targets(n):
                if p.fns[x] is not g and queues(p, p.fns[x]):
                    return True
    return False
