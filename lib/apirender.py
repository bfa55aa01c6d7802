"""Compact, canonical rendering of the values and events of apieval (loop symbols are renumbered by depth)."""
from apieval import *


def strip_registry(v):
    """drop the alternatives taken for unknown handles (error exits)"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'ite':
        c = v[1]
        if registry_guard(c):
            return strip_registry(v[3])
        if c[0] != 'not' and False:
            return v
    return tuple(strip_registry(x) if isinstance(x, tuple) else x for x in v)


def registry_guard(c):
    """'the handle is out of range / null'"""
    if c[0] == 'not' and c[1][0] == 'lt' and any(x == ('op', 'size', ('g', g)) for g in REGS for x in walk(c[1])):
        return True
    if c[0] == 'not' and c[1][0] in ('sim',):
        return True
    if c[0] == 'not' and c[1][0] == 'elt' and c[1][1][0] == 'g':
        return True
    if c[0] == 'eq' and ('nullptr',) in c[1:]:
        return True
    if c[0] == 'ite' and c[2] == C(0) and registry_guard(neg(c[1])):
        return registry_guard(c[3]) or c[3][0] in ('sim',)
    if c[0] == 'or2':
        return registry_guard(c[1]) or registry_guard(c[2])
    return False


REGS = ('simulators', 'neurons', 'circuits', 'simulatorTypes')


def is_slot(v):
    # the index of the first free slot of a registry
    if v[0] == 'ite':
        return is_slot(v[2]) or is_slot(v[3])
    return v[0] == 'op' and v[1] == 'brk' and any(x and x[0] == 'op' and x[1] == 'size' and x[2][0] == 'g' for x in walk(v))


class R(object):
    def __init__(self):
        self.names = {}

    def sym(self, uid):
        if uid not in self.names:
            self.names[uid] = 'ijklmnuvwxyz'[len(self.names) % 12] + ('' if len(self.names) < 12 else str(len(self.names) // 12))
        return self.names[uid]

    def __call__(self, v):
        k = v[0] if v else ''
        if k == 'c':
            return str(v[1])
        if k == 'p':
            return '$%d' % v[1]
        if k == 'i':
            return self.sym(v[1])
        if k == 'start':
            return 'START(%s)' % self(v[1])
        if k == 'elt':
            return '%s[%s]' % (self(v[1]), self(v[2]))
        if k == 'sim':
            if is_slot(v[1]):
                return 'NEWSIM'
            return 'S%s' % (self(v[1]) if v[1][0] != 'p' or v[1][1] else '')
        if k == 'res':
            return 'Q%s(%s)' % ('' if v[1] == ('sim', ('p', 0, 'sid')) else '{' + self(v[1]) + '}', self(v[2]))
        if k == 'lin':
            terms = sorted('%s%s' % ('' if x == 1 else '-' if x == -1 else '%s*' % x, self(t)) for t, x in v[2])
            return '(' + '+'.join(([str(v[1])] if v[1] else []) + terms) + ')'
        if k == 'cat':
            return '[' + ','.join(self.part(x) for x in v[1:]) + ']'
        if k == 'or':
            return '(%s)' % '|'.join(([self(v[1])] if v[1] != C(0) else []) + [self.part(x) for x in v[2]])
        if k == 'pow2':
            return '2^%s' % self(v[1])
        if k == 'cx':
            return '<%s,%s>' % (self(v[1]), self(v[2]))
        if k == 'ite':
            return '(%s ? %s : %s)' % (self(v[1]), self(v[2]), self(v[3]))
        if k == 'not':
            return '!%s' % self(v[1])
        if k == 'lt':
            return '(%s<%s)' % (self(v[1]), self(v[2]))
        if k == 'eq':
            return '(%s)' % '=='.join(sorted([self(v[1]), self(v[2])]))
        if k == 'min':
            return 'min{%s<%s}(%s;%s)' % (self.sym(v[3]), self(v[2]), self(v[4]), self(v[1]))
        if k == 'fold':
            return 'fold{%s<%s}(%s;%s)' % (self.sym(v[2]), self(v[1]), self(v[4]), self(v[3]))
        if k == 'sum':
            return 'sum{%s<%s}(%s)' % (self.sym(v[2]), self(v[1]), self(v[3]))
        if k == 'trunc':
            return 'u%d(%s)' % (v[1], self(v[2]))
        if k == 'libres':
            return '%s.%s(%s)' % (self(v[2]), v[1], ','.join(self(x) for x in v[3]))
        if k == 'acc':
            return 'ACC{%s}' % self.sym(v[1])
        if k == 'op' and v[1] in ('loopval', 'brkidx', 'skips'):
            return '%s{%s}' % (v[1].upper(), self.sym(v[2][1]))
        if k == 'op':
            if v[1] == 'brk':
                return 'brk{%s}(%s,%s)' % (self.sym(v[2][1]), self(v[3]), self(v[4]))
            if v[1] in ('last',):
                return 'last{%s<%s}(%s)' % (self.sym(v[3][1]), self(v[2]), self(v[4]))
            return '%s(%s)' % (v[1], ','.join(self(x) for x in v[2:]))
        if k == 'make':
            return 'new %s(%s)' % (v[1].replace('Qrack::', ''), ','.join(self(x) for x in v[2]))
        if k == 'newsim':
            return 'NEWSIM'
        if k == 'count':
            return '#%s%s' % (self(v[1]), "'" * v[2])
        if k == 'k':
            return v[1].replace('Qrack::', '')
        if k == 'fresh':
            return '?'
        if k == 'lambda':
            return 'lambda'
        return '%s(%s)' % (k, ','.join(self(x) if isinstance(x, tuple) else str(x) for x in v[1:]))

    def part(self, x):
        if x[0] == 'one':
            return self(x[1])
        if x[0] == 'rep':
            return '{%s:%s<%s}' % (','.join(self.part(y) for y in x[3]), self.sym(x[2]), self(x[1]))
        if x[0] == 'when':
            return '{%s if %s}' % (','.join(self.part(y) for y in x[2]), self(x[1]))
        return str(x)

    def guard(self, g):
        if g[0] == 'each':
            return 'for %s<%s' % (self.sym(g[1]), self(g[2]))
        if g[0] == 'catch':
            return 'catch'
        return self(g)

    def event(self, e, g):
        gs = [self.guard(x) for x in g]
        if e.k == 'lib':
            s = '%s.%s(%s)' % (self(e.a[2]), e.a[1], ', '.join(self(x) for x in e.a[3]))
        elif e.k == 'ret':
            s = 'return %s' % self(strip_registry(e.a[0]))
        else:
            s = '%s(%s)' % (e.k, ', '.join(self(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e.a))
        return ('  |'.join([' & '.join(gs), s])) if gs else s
