#!/usr/bin/env python3
"""Writes a proposal of lib/spec/api_*.json from the current tree; the committed files were reviewed by hand against
the declared meaning of every function (include/pinvoke_api.hpp, include/qinterface.hpp) and are what the checks use."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
sys.setrecursionlimit(20000)
import build
import apicheck as K
p = build.extract(None, ())
t = K.traces(p)
five, six = {}, {}
for name, (f, tr, n) in sorted(t.items()):
    five[name] = [K.text5(n)]
    if K.has_map_events(tr):
        six[name] = [K.text6(n)]
out = sys.argv[1]


def dump(d, path):
    lines = []
    for k in sorted(d):
        alts = []
        for alt in d[k]:
            br = ['   [%s]' % (',\n    '.join(json.dumps(x) for x in b)) for b in alt]
            alts.append('[\n%s]' % ',\n'.join(br))
        lines.append(' %s: [%s]' % (json.dumps(k), ', '.join(alts)))
    open(path, 'w').write('{\n%s\n}\n' % ',\n'.join(lines))


dump(five, os.path.join(out, 'api_ops.json'))
dump(six, os.path.join(out, 'api_idmap.json'))
