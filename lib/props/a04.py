"""A04: a qubit argument always means the qubit the caller's id currently names."""
from ir import *
import apieval as A
import apicheck as K

MASKS = ('mask', 'permutation', 'qPowers')


def index_kind(t, name):
    """'bit' | 'mask' | None for a library parameter"""
    b = t.replace('const ', '').replace('&', '').strip()
    if b == 'unsigned char' and 'ength' not in name and name not in ('n',):
        return 'bit'
    if b in ('std::vector<unsigned char>', 'std::set<unsigned char>'):
        return 'bit'
    if 'int128' in b and name in MASKS:
        return 'mask'
    return None


def data(v):
    # parts of a value, leaving out the conditions that only select between alternatives
    if isinstance(v, tuple) and v:
        yield v
        for y in (v[2:] if v[0] == 'ite' else v):
            yield from data(y)


class Bad(Exception):
    pass


class Check(object):
    def __init__(self, obj, epoch):
        self.obj, self.epoch = obj, epoch
        self.res = 0
        self.opaque = None

    def res_ok(self, v):
        _, sim, ident, ep = v
        self.res += 1
        if sim != self.obj:
            raise Bad('an id is looked up in the id map of another simulator')
        for x in data(ident):
            if x and x[0] == 'res':
                raise Bad('an id is looked up twice')
            if x and x[0] == 'trunc':
                raise Bad('an id is truncated before it is looked up')
        return ep

    def bit(self, v, direct=True):
        k = v[0]
        if k == 'res':
            ep = self.res_ok(v)
            if direct and ep != self.epoch:
                raise Bad('a position looked up before the id map changed is used after the change')
        elif k == 'trunc':
            self.bit(v[2], direct)
        elif k in ('p', 'elt'):
            if any(x and x[0] in ('res', 'count') for x in A.walk(v)):
                self.opaque = k
            elif any(x and x[0] == 'p' for x in A.walk(v)):
                raise Bad('a caller-supplied id is used as a position without looking it up')
            else:
                self.opaque = k
        elif k == 'cat':
            for part in v[1:]:
                self.part(part, self.bit)
        elif k == 'ite':
            self.bit(v[2], direct)
            self.bit(v[3], direct)
        elif k == 'lin':
            # positional arithmetic: a position plus an offset
            kinds = set(x[0] for t, _ in v[2] for x in A.walk(t) if x)
            if not kinds & {'res', 'count', 'start', 'min', 'op', 'sum', 'fresh', 'acc'}:
                raise Bad('a caller-supplied number is used as a position without looking it up')
            for t, _ in v[2]:
                for x in A.walk(t):
                    if x and x[0] == 'res':
                        self.res_ok(x)
        elif k in ('min', 'min2'):
            for x in A.walk(v):
                if x and x[0] == 'res':
                    self.res_ok(x)
            if v[-1][0] in ('p', 'elt'):
                raise Bad('caller-supplied ids are compared as positions without looking them up')
        elif k in ('c', 'i', 'count', 'start'):
            pass
        else:
            self.opaque = k

    def part(self, part, f):
        if part[0] == 'one':
            f(part[1])
        elif part[0] == 'rep':
            for x in part[3]:
                self.part(x, f)
        elif part[0] == 'when':
            for x in part[2]:
                self.part(x, f)

    def mask(self, v):
        k = v[0]
        if k == 'or':
            self.mask(v[1])
            for x in v[2]:
                self.part(x, self.mask)
        elif k == 'pow2':
            self.bit(v[1])
        elif k == 'cat':
            for x in v[1:]:
                self.part(x, self.mask)
        elif k == 'c':
            pass
        elif k == 'ite':
            self.mask(v[2])
            self.mask(v[3])
        elif k in ('p', 'elt', 'res'):
            raise Bad('a number is used as a bit mask of positions without setting one bit per looked-up id')
        else:
            self.opaque = k


def run(rep, ctx):
    p = ctx.program()
    tr = K.traces(p)
    rep.rule('position', 'every qubit position a simulator operation receives is the current value of the id map at the '
                         "caller's id, or computed from such values and the register width")
    rep.rule('plain', 'no other parameter of a simulator operation receives a looked-up position')
    ncall = nres = 0
    for name, (f, t, norm) in sorted(tr.items()):
        if t is None:
            rep.note('%s: not analysed (%s)' % (name, norm))
            continue
        flat = list(A.flatten(t))
        for e, g in flat:
            if e.k == 'lib' and e.a[0] in ('Qrack::QInterface', 'Qrack::QAlu', 'Qrack::QParity') and e.info:
                ncall += 1
                obj = e.a[2]
                for i, v in enumerate(e.a[3]):
                    if i >= len(e.info):
                        break
                    ty, pn = e.info[i]
                    kind = index_kind(ty, pn)
                    nres += one(rep, f, e, '%s(%s)' % (e.a[1], pn), kind, v, obj, e.epoch)
            if e.k in ('regpush', 'regset') and e.a[0] == 'neurons' and e.a[-1][0] == 'make' and len(e.a[-1][2]) >= 3:
                a = e.a[-1][2]
                nres += one(rep, f, e, 'QNeuron(inputs)', 'bit', a[1], a[0], e.epoch)
                nres += one(rep, f, e, 'QNeuron(output)', 'bit', a[2], a[0], e.epoch)
        te = [e for e, g in flat if e.k == 'lib' and e.a[1] == 'TimeEvolve']
        for e in te:
            for field in ('targetBit', 'controls'):
                sets = [x for x, g in flat if x.k == 'fldset' and x.a[1] == A.C(field)]
                raw = not sets and any(v and v[0] == 'make' and 'HamiltonianOp' in v[1] for a in e.a[3] for v in A.walk(a))
                if raw:
                    rep.check('position', False, '%s: %s' % (name, field), f.loc(e.node),
                              'the %s of the operators handed to TimeEvolve are caller ids that were never looked up' % field)
                for x in sets:
                    v = x.a[2]
                    if v[0] == 'upd':
                        v = v[3]
                    nres += one(rep, f, x, 'HamiltonianOp.%s' % field, 'bit', v, e.a[2], x.epoch)
    rep.floor('simulator calls of exported functions', ncall, 80)
    rep.floor('looked-up positions', nres, 60)


def one(rep, f, e, what, kind, v, obj, epoch):
    key = '%s: %s' % (f.name, what)
    if kind is None:
        bad = v[0] in ('res', 'pow2') and any(x and x[0] == 'res' for x in A.walk(v))
        rep.check('plain', not bad, key, f.loc(e.node), 'a position is passed where %s expects another kind of value' % what)
        return 0
    c = Check(obj, epoch)
    try:
        (c.bit if kind == 'bit' else c.mask)(v)
    except Bad as b:
        rep.check('position', False, key, f.loc(e.node), str(b))
        return 0
    if c.opaque:
        rep.note('%s: not decided (%s)' % (key, c.opaque))
        return 0
    rep.check('position', True, key, f.loc(e.node), 'looked up')
    return c.res
