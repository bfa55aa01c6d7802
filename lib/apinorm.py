"""Normal form of an API function's trace: what the call does, independent of how the code is arranged."""
import cmath
import math

from apieval import *
from apirender import R, strip_registry, registry_guard, is_slot

S2 = math.sqrt(0.5)
NAMED_GATES = {
    'X': (0, 1, 1, 0), 'Y': (0, -1j, 1j, 0), 'Z': (1, 0, 0, -1), 'H': (S2, S2, S2, -S2), 'S': (1, 0, 0, 1j),
    'IS': (1, 0, 0, -1j), 'T': (1, 0, 0, S2 + S2 * 1j), 'IT': (1, 0, 0, S2 - S2 * 1j),
    'SqrtX': ((1 + 1j) / 2, (1 - 1j) / 2, (1 - 1j) / 2, (1 + 1j) / 2),
    'ISqrtX': ((1 - 1j) / 2, (1 + 1j) / 2, (1 + 1j) / 2, (1 - 1j) / 2),
    'SqrtY': ((1 + 1j) / 2, (-1 - 1j) / 2, (1 + 1j) / 2, (1 + 1j) / 2),
    'ISqrtY': ((1 - 1j) / 2, (1 - 1j) / 2, (-1 + 1j) / 2, (1 - 1j) / 2),
}
CTRL1 = {'CNOT': 'X', 'CY': 'Y', 'CZ': 'Z', 'CH': 'H', 'CS': 'S', 'CIS': 'IS', 'CT': 'T', 'CIT': 'IT'}


def cxv(z):
    def r(x):
        x = round(x, 5)
        return C(int(x) if x == int(x) else x)
    z = complex(z)
    return ('cx', r(z.real), r(z.imag))


def rnd(v):
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('c',) and isinstance(v[1], float):
        x = round(v[1], 5)
        return C(int(x) if x == int(x) else x)
    if v[:1] == ('c',) and v[1] is not None and isinstance(v[1], int):
        return v
    if v[:1] == ('k',) and v[1] in NAMED:
        return NAMED[v[1]]
    return tuple(rnd(x) if isinstance(x, tuple) else x for x in v)


ZERO = ('cx', C(0), C(0))


def gate_form(name, args):
    """(controls, anti?, matrix, target) of a single-target gate call, or None"""
    one = lambda m: ('cat',) + tuple(('one', x) for x in m)
    if name in NAMED_GATES and len(args) == 1:
        return ('cat',), 0, one([cxv(x) for x in NAMED_GATES[name]]), args[0]
    if name == 'Phase' and len(args) == 3:
        return ('cat',), 0, one([args[0], ZERO, ZERO, args[1]]), args[2]
    if name == 'Invert' and len(args) == 3:
        return ('cat',), 0, one([ZERO, args[0], args[1], ZERO]), args[2]
    if name == 'Mtrx' and len(args) == 2:
        return ('cat',), 0, args[0], args[1]
    if name in ('MCPhase', 'MACPhase') and len(args) == 4:
        return args[0], int(name == 'MACPhase'), one([args[1], ZERO, ZERO, args[2]]), args[3]
    if name in ('MCInvert', 'MACInvert') and len(args) == 4:
        return args[0], int(name == 'MACInvert'), one([ZERO, args[1], args[2], ZERO]), args[3]
    if name in ('MCMtrx', 'MACMtrx') and len(args) == 3:
        return args[0], int(name == 'MACMtrx'), args[1], args[2]
    base = name[4:] if name.startswith('Anti') else name
    if base in CTRL1 and len(args) == 2:
        return ('cat', ('one', args[0])), int(name != base), one([cxv(x) for x in NAMED_GATES[CTRL1[base]]]), args[1]
    return None


def slot_guard(x):
    c = x[1] if x[0] == 'not' else x
    return c[0] == 'eq' and any(y[0] == 'op' and y[1] == 'brk' for y in c[1:]) and any(y[0] == 'op' and y[1] == 'size' for y in c[1:])


class Norm(object):
    def __init__(self, fn, trace):
        self.fn = fn
        self.places = []
        flat = [(e, tuple(g)) for e, g in flatten(trace)]
        self.all = flat
        self.opaque = []
        self.events = []          # (event, guards, values) after normalisation
        self.bad_place = []
        self.gathers = []
        conds = self.split_conds(flat)
        self.branches = []
        if not conds:
            self.branches.append(self.one(flat, ()))
        else:
            c = conds[0]
            for val in (True, False):
                fl = []
                for e, g in flat:
                    gg = tuple(assume(x, c, val) for x in g)
                    if any(x == C(0) for x in gg):
                        continue
                    gg = tuple(x for x in gg if x[0] != 'c')
                    ne = Event(e.k, tuple(assume(x, c, val) if isinstance(x, tuple) else x for x in e.a), e.node, e.epoch, e.info)
                    fl.append((ne, gg))
                self.branches.append(self.one(fl, ((c, val),)))

    def split_conds(self, flat):
        out = []
        for e, g in flat:
            for v in list(e.a) + list(g):
                for x in walk(v):
                    if x and x[0] == 'ite' and x[1][0] in ('lt', 'not') and len(set(y for y in walk(x[1]) if y and y[0] == 'min')) >= 2:
                        c = x[1][1] if x[1][0] == 'not' else x[1]
                        # the comparison of the two registers' lowest positions
                        if c[0] == 'lt' and c[1][0] == 'min' and c[2][0] == 'min' and c not in out:
                            out.append(c)
        return out

    # -- one execution without undecided register orders
    def one(self, flat, asm):
        places = []               # (start value, q base, n)
        out = []
        i = 0
        while i < len(flat):
            e, g = flat[i]
            if e.k == 'lib' and e.a[1] == 'Swap' and g and g[-1][0] == 'each' and i + 1 < len(flat) and flat[i + 1][0].k == 'mapswap' and flat[i + 1][1] == g:
                pl = self.placement(e, flat[i + 1][0], g[-1])
                if pl is not None:
                    k = self.start_kind(pl, places)
                    if places or k is not None:
                        self.gathers.append((pl, e.node, pl in self.bad_place))
                    if k is not None:
                        places.append(pl)
                        out.append((Event('place', (pl[3], pl[1], pl[2]), e.node, e.epoch), g[:-1]))
                        i += 2
                        continue
            out.append((e, g))
            i += 1
        res = []
        for e, g in out:
            gs = [x for x in g if not registry_guard(x) and not registry_guard(neg(x))]
            vals = e.a
            # values under the guards that hold
            for x in gs:
                if x[0] == 'not':
                    vals = tuple(assume_branch(v, x[1], False) if isinstance(v, tuple) else v for v in vals)
                elif x[0] not in ('each', 'catch'):
                    vals = tuple(assume_branch(v, x, True) if isinstance(v, tuple) else v for v in vals)
            for pl in reversed(places):
                vals = tuple(subst(v, pl[0], ('start', pl[1], pl[2])) if isinstance(v, tuple) else v for v in vals)
            res.append((e, tuple(self.guards(gs)), tuple(rnd(self.fits(v)) if isinstance(v, tuple) else v for v in vals)))
        return res, places

    def placement(self, e, m, each):
        _, uid, N = each
        sym = ('i', uid)
        a, b = e.a[3][0], e.a[3][1]
        if e.a[2] != m.a[0]:
            return None
        for x, y in ((a, b), (b, a)):
            if y[0] != 'res' or not contains(y, sym):
                continue
            q = y[2]
            if q[0] != 'elt' or q[2] != sym:
                continue
            s = add(x, sym, -1)
            if contains(s, sym):
                continue
            mm = [self.untrunc(m.a[1]), self.untrunc(m.a[2])]
            if sorted(map(repr, mm)) == sorted(map(repr, (self.untrunc(x), y))):
                return (s, q[1], N, e.a[2])
        return None

    def untrunc(self, v):
        return v[2] if v[0] == 'trunc' else v

    def is_min_of(self, s, q, N, sim):
        if s[0] != 'min':
            return False
        _, init, n, uid, v = s
        return n == N and v[0] == 'res' and v[2] == ('elt', q, ('i', uid)) and (
            init[0] == 'res' and init[2] == ('elt', q, C(0)) or init[0] == 'count' or init[0] == 'c' and init[1] >= 255)

    def start_kind(self, pl, places):
        s, q, N, sim = pl
        if self.is_min_of(s, q, N, sim):
            if places:
                self.bad_place.append(pl)
                return None
            return 'min'
        # max(min(q), first + n)
        if s[0] == 'ite' and s[1][0] == 'lt' and places:
            a, b = s[1][1], s[1][2]
            if {repr(s[2]), repr(s[3])} == {repr(a), repr(b)} and s[2] == b:
                for x, y in ((a, b), (b, a)):
                    if self.is_min_of(x, q, N, sim):
                        for p in places:
                            if y == add(p[0], p[2]):
                                return 'max'
                            k = add(y, p[0], -1)
                            if k[0] in ('p', 'c'):
                                self.bad_place.append(pl)
            elif self.is_min_of(a, q, N, sim) and s[3] == a:
                # moved past the end of the first register, but under a weaker condition
                for p in places:
                    k = add(b, p[0], -1)
                    if s[2] == add(p[0], p[2]) and k[0] in ('p', 'c') and k != p[2]:
                        self.bad_place.append(pl)
        return None

    def guards(self, gs):
        """drop what an earlier alternative of the same selection implies and what only skips an empty call"""
        pos = [x for x in gs if x[0] == 'eq' and (x[1][0] == 'c' or x[2][0] == 'c')]
        out = []
        for x in gs:
            if x[0] == 'not' and x[1][0] == 'eq' and (x[1][1][0] == 'c' or x[1][2][0] == 'c'):
                sel = x[1][2] if x[1][1][0] == 'c' else x[1][1]
                if any(sel in p[1:] for p in pos):
                    continue
            if self.count_guard(x):
                continue
            if x[0] == 'c' and x[1]:
                continue
            if x not in out:
                out.append(x)
        return out

    def count_guard(self, x):
        # "the count is not zero", "the number of words fits"
        if x[0] == 'p' or (x[0] == 'lt' and x[1] == C(0) and x[2][0] == 'p') or (x[0] == 'not' and x[1][0] == 'eq' and C(0) in x[1][1:] and ('p' in (x[1][1][0], x[1][2][0]))):
            p = [y for y in walk(x) if y and y[0] == 'p'][0]
            return self.is_count(p)
        if x[0] == 'not' and x[1][0] == 'lt' and x[1][1] == C(2) and x[1][2][0] == 'p':
            return self.is_count(x[1][2])
        return False

    def is_count(self, p):
        # a parameter that only ever bounds loops
        for e, g in self.all:
            for v in g:
                if v[0] == 'each' and contains(v, p):
                    return True
            for v in e.a:
                for x in walk(v) if isinstance(v, tuple) else ():
                    if x and ((x[0] in ('rep',) and contains(x[1], p)) or (x[0] == 'min' and contains(x[2], p)) or (x[0] == 'fold' and contains(x[1], p))):
                        return True
        return False

    # -- canonical text
    def canonical(self, kinds=('lib', 'ret', 'place', 'regset', 'regpush', 'create'), only=None):
        texts = []
        for res, places in self.branches:
            r = R()
            out = []
            for e, g, v in res:
                if e.k == 'lib' and e.a[1] in QUIET:
                    continue
                if e.k not in kinds or (only and e.k == 'lib' and e.a[1] not in only):
                    continue
                r2 = R()
                g = [x for x in g if not slot_guard(x)]
                gs = [r2.guard(x) for x in g if x[0] == 'each'] + sorted(r2.guard(x) for x in g if x[0] != 'each')
                if e.k == 'place':
                    t = 'PLACE %s<%s>' % (r2(v[1]), r2(v[2]))
                elif e.k == 'catch':
                    continue
                elif e.k in ('simpush', 'simset'):
                    t = 'simulators[%s] := %s' % ('new' if e.k == 'simpush' or is_slot(v[0]) else r2(v[0]), r2(v[-1]))
                    if e.k == 'simpush' or is_slot(v[0]):
                        gs = [x for x in gs if False]
                elif e.k == 'mapclear':
                    t = 'mapclear(%s)' % r2(strip_registry(v[0]))
                elif e.k.startswith('map') or e.k == 'catchfall':
                    t = '%s(%s)' % (e.k, ', '.join(r2(strip_registry(x)) for x in v))
                elif e.k == 'create':
                    t = 'CREATE(%s)' % ', '.join(r2(x) for x in v[0])
                elif e.k in ('regset', 'regpush'):
                    slot = e.k == 'regpush' or v[1][0] != 'p' and v[0] != 'neuronSimulators'
                    t = '%s[%s] := %s' % (v[0], 'new' if slot else r2(v[1]), r2(v[-1]))
                elif e.k == 'ret':
                    if is_slot(v[0]):
                        continue
                    t = 'return %s' % r2(self.drop_empty(strip_registry(v[0])))
                else:
                    gf = gate_form(v[1], v[3])
                    if gf is not None:
                        t = '%s.GATE(%s%s, %s, %s)' % (r2(v[2]), 'anti' if gf[1] else '', r2(gf[0]), r2(gf[2]), r2(gf[3]))
                    else:
                        t = '%s.%s(%s)' % (r2(v[2]), v[1], ', '.join(r2(x) for x in v[3]))
                t = (' & '.join(gs) + '  |' if gs else '') + t
                if e.k not in ('regset', 'regpush', 'simset', 'simpush') or t not in out:
                    out.append(t)
            # consecutive placements are an unordered set
            pl = sorted(x for x in out if 'PLACE' in x)
            k = 0
            for i, x in enumerate(out):
                if 'PLACE' in x:
                    out[i] = pl[k]
                    k += 1
            # what is registered where does not depend on when; removing an entry and renumbering the others commute
            out = [x for x in out if x.startswith('simulators[new')] + [x for x in out if not x.startswith('simulators[new')]
            for i in range(len(out) - 1):
                a, b = out[i], out[i + 1]
                if 'maperase(' in a and 'mapdec(' in b and a.split('  |')[:-1] == b.split('  |')[:-1]:
                    out[i], out[i + 1] = b, a
            if out not in texts:
                texts.append(out)
        return texts

    def fits(self, v):
        # (n > capacity ? 0 : X): the constant does not fit in a word
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'ite':
            c = v[1][1] if v[1][0] == 'not' else v[1]
            if c[0] == 'lt':
                a, b = c[1], c[2]
                p = a if a[0] == 'p' else b if b[0] == 'p' else None
                o = b if p is a else a
                if p is not None and o[0] == 'c' and o[1] not in (0, 1) and self.is_count(p):
                    if v[2] == C(0):
                        return self.fits(v[3])
                    if v[3] == C(0):
                        return self.fits(v[2])
        return tuple(self.fits(x) if isinstance(x, tuple) else x for x in v)

    def drop_empty(self, v):
        # (!n ? 0 : X): the result of an empty call
        if v[0] == 'ite' and v[1][0] == 'not' and v[1][1][0] == 'p' and v[2][0] == 'c':
            return self.drop_empty(v[3])
        return v
