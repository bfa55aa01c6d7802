#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's current source."""
import hashlib, importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import build
from report import Report


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = Report(pid, tier, seed)
    try:
        mod = importlib.import_module('props.' + pid.lower())
        ctx = Context(tier)
        mod.run(rep, ctx)
        rep.scope.update(ctx.scope())
        return rep.finish()
    except build.Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


class Context(object):
    def __init__(self, tier):
        self.tier = tier
        self._prog = {}

    def program(self, opts=(), want=None):
        """the parsed library under one build configuration"""
        key = (tuple(opts), tuple(want) if want else None)
        if key not in self._prog:
            self._prog[key] = build.extract(want, opts)
        return self._prog[key]

    def scope(self):
        out = {}
        for (opts, want), p in self._prog.items():
            out[' '.join(opts) or 'default configuration'] = {
                'translation_units': len(p.units), 'functions': len(p.fns), 'classes': len(p.classes),
                'nodes': sum(len(f.nodes) for f in p.fns.values())}
        return {'parsed': out}


if __name__ == '__main__':
    sys.exit(main())
