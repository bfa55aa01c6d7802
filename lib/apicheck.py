"""Shared pieces of A04-A06: run the abstract executor over the C API, compare with a specification."""
import json
import os
import re

import apieval as A
import apinorm as N
from ir import *

HERE = os.path.dirname(os.path.abspath(__file__))
TOKEN = re.compile(r'([A-Za-z_.][\w.]*)(?=[({])')
MAPKINDS = ('mapset', 'mapdec', 'maperase', 'mapdrop', 'mapclear', 'mapcopy', 'mapswap', 'mapswapid', 'mapother', 'secset')
KIND5 = ('lib', 'ret', 'place', 'regset', 'regpush', 'create')
KIND6 = ('lib', 'place', 'simset', 'simpush', 'catchfall') + MAPKINDS


def api_functions(p):
    return sorted((f for f in p.fns.values() if f.file == A.FILE and f.get('extc') and f.get('hdr') and not f.lam),
                  key=lambda f: f.line)


def traces(p):
    ev = A.Eval(p)
    out = {}
    for f in api_functions(p):
        try:
            tr = ev.run(f)
            out[f.name] = (f, tr, N.Norm(f, tr))
        except Exception as e:
            out[f.name] = (f, None, repr(e))
    return out


def has_map_events(trace):
    return any(e.k in MAPKINDS + ('simset', 'simpush') and e.k not in ('mapswap',) for e, g in A.flatten(trace))


def text5(n):
    return n.canonical(KIND5)


def text6(n):
    return n.canonical(KIND6, A.STRUCTURAL)


def load(name):
    return json.load(open(os.path.join(HERE, 'spec', name)))


def libnames(p):
    out = set()
    for fid, (cls, m) in p.method_cls.items():
        if cls.startswith('Qrack::'):
            out.add(m.get('n') or m.get('name') or '')
    return out


def opaque(text, known, lib):
    """the function computes something in a way the executor has no normal form for"""
    if '?' in re.sub(r' \? ', '', text):
        return '?'
    for t in TOKEN.findall(text):
        b = t.split('.')[-1]
        if t == 'SKIPS' or t in known or b in known or b in lib:
            continue
        return t
    return None


def where(f, n, norm, line):
    return f.loc()


def compare(rep, rule, f, spec, got, known, lib, word):
    """one obligation per event of the function"""
    if got in spec or any(s == got for s in spec):
        rep.check(rule, True, f.name, f.loc(), word)
        return
    flat = '\n'.join('\n'.join(x) for x in got)
    o = opaque(flat, known, lib)
    for w in ('ACC{', 'LOOPVAL{', 'BRKIDX{'):
        if w in flat and not any(w in x for a in spec for b in a for x in b):
            o = w[:-1]
    if o is not None:
        rep.note('%s: not decided (%s has no normal form)' % (f.name, o))
        return
    want = spec[0]
    extra = [x for g in got for x in g if not any(x in w for w in want)]
    missing = [x for w in want for x in w if not any(x in g for g in got)]
    if extra or missing:
        txt = 'does %s instead of %s' % ('; '.join(extra) or 'nothing', '; '.join(missing) or 'nothing')
    else:
        txt = 'does the right steps in another order: %s' % '; '.join(got[0])
    rep.check(rule, False, f.name, f.loc(), '%s %s' % (word, txt))
