"""A05: every C API function performs the operation it is documented to perform, with its arguments in their roles."""
from ir import *
import apieval as A
import apicheck as K


def run(rep, ctx):
    p = ctx.program()
    tr = K.traces(p)
    spec = K.load('api_ops.json')
    lib = K.libnames(p)
    known = set()
    for alts in spec.values():
        for a in alts:
            for b in a:
                for x in b:
                    known.update(y.split('.')[-1] for y in K.TOKEN.findall(x))
    rep.rule('operation', 'the simulator operations an exported function performs, the conditions on them, their order and '
                          'the origin of every argument are those of its specification')
    n = 0
    for name, (f, t, norm) in sorted(tr.items()):
        if name not in spec:
            rep.note('%s: no specification' % name)
            continue
        if t is None:
            rep.note('%s: not analysed (%s)' % (name, norm))
            continue
        try:
            got = K.text5(norm)
        except (KeyError, IndexError, TypeError, ValueError) as e:
            rep.note('%s: not rendered (%r)' % (name, e))
            continue
        n += 1
        K.compare(rep, 'operation', f, spec[name], got, known, lib, name + '()')
    rep.floor('exported functions compared', n, 120)
