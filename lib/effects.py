"""Whole-program effect summaries over the resolved call graph."""
from ir import *


def catches_all(tr, prog):
    """does this try statement catch every std::exception"""
    for c in tr.c[1:]:
        if c is None or c.k != 'catch':
            continue
        et = c.get('et')
        t = prog.types[et] if isinstance(et, int) and et >= 0 else ''
        t = t.replace('const ', '').replace('&', '').strip()
        if t in ('', '...', 'std::exception'):
            return True
    return False


def guarded_by(n):
    """try statements whose body (not handlers) contains the node, innermost first"""
    out = []
    x = n
    while x.p is not None:
        p = x.p
        if p.k == 'try' and p.c and p.c[0] is x:
            out.append(p)
        x = p
    return out


def contained(n):
    return any(catches_all(t, n.fn.prog) for t in guarded_by(n))


class Throws(object):
    """which functions may let an exception raised by library code escape; why[fid] = (node, callee or None)"""

    def __init__(self, prog):
        self.p = prog
        self.why = {}
        callers = defaultdict(list)
        for f in prog.fns.values():
            for n in f.all_nodes():
                if n.k == 'throw':
                    if not contained(n) and f.id not in self.why:
                        self.why[f.id] = (n, None)
                elif n.k in ('call', 'ctor'):
                    for t in self.targets(n):
                        callers[t].append((f, n))
                elif n.k == 'lambda' and n.get('fid'):
                    callers[n.get('fid')].append((f, n))
        work = list(self.why)
        while work:
            g = work.pop()
            for f, n in callers.get(g, ()):
                if f.id in self.why or contained(n):
                    continue
                self.why[f.id] = (n, g)
                work.append(f.id)

    def targets(self, n):
        return self.p.targets(n)

    def may(self, n):
        """does evaluating this call (itself, not its arguments) possibly raise; returns a witness function id"""
        if n.k == 'throw':
            return 'throw'
        if n.k == 'lambda':
            return None
        if n.k in ('call', 'ctor'):
            for t in self.targets(n):
                if t in self.why:
                    return t
            for a in n.c:
                if a is not None:
                    s = skip(a)
                    if s is not None and s.k == 'lambda' and s.get('fid') in self.why:
                        return s.get('fid')
        return None

    def chain(self, fid, depth=6):
        out = []
        while fid in self.why and len(out) < depth:
            n, nxt = self.why[fid]
            out.append('%s (%s)' % (self.p.fns[fid].short(), self.p.fns[fid].loc(n)))
            if nxt is None:
                break
            fid = nxt
        return ' -> '.join(out)
