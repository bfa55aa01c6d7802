"""Obligations, violations, known findings and evidence for one property run."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Report(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []       # (rule, key, where, text, ok)
        self.floors = []    # (what, count, floor)
        self.notes = []
        self.scope = {}
        self.rules = []

    def rule(self, name, text):
        self.rules.append((name, text))

    def check(self, rule, ok, key, where, text):
        """one obligation; key names the construct without line numbers (known findings are matched on it)"""
        self.obl.append((rule, key, where, text, bool(ok)))
        return bool(ok)

    def floor(self, what, count, least):
        self.floors.append((what, count, least))

    def note(self, s):
        self.notes.append(s)

    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('{'):
                    j = json.loads(line)
                    if j.get('property') == self.pid and j.get('kind') == 'known':
                        out.append(j)
        return out

    def finish(self, level='other'):
        bad = [o for o in self.obl if not o[4]]
        known = self.known()
        fresh, seen_known = [], []
        for o in bad:
            k = [j for j in known if j['rule'] == o[0] and j['key'] == o[1]]
            if k:
                seen_known.append((o, k[0]))
            else:
                fresh.append(o)
        broken = [f for f in self.floors if f[1] < f[2]]
        for w, c, l in self.floors:
            print('analysed: %s: %d (at least %d expected)' % (w, c, l))
        byrule = {}
        for o in self.obl:
            r = byrule.setdefault(o[0], [0, 0])
            r[0] += 1
            r[1] += o[4]
        for r, (n, ok) in sorted(byrule.items()):
            print('rule %s: %d obligations, %d discharged' % (r, n, ok))
        done = set()
        for o, j in seen_known:
            if (o[0], o[1]) in done:
                continue
            done.add((o[0], o[1]))
            print('KNOWN-FINDING: property=%s %s [%s] at %s' % (self.pid, j['what'], o[1], o[2]))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        viol = []
        for n, o in enumerate(fresh):
            viol.append({'rule': o[0], 'construct': o[1], 'where': o[2], 'report': o[3]})
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'obligations': len(self.obl), 'discharged': len(self.obl) - len(bad),
                'explanation': 'static analysis of the current source: every obligation below was generated from the '
                               'parsed translation units and decided without running the code',
                'scope': self.scope, 'rules': [{'rule': a, 'text': b, 'obligations': byrule.get(a, [0, 0])[0],
                                                'discharged': byrule.get(a, [0, 0])[1]} for a, b in self.rules],
                'instances': ['%s: %d (floor %d)' % f for f in self.floors],
                'known_findings': sorted(set('%s %s' % (o[0], o[1]) for o, _ in seen_known)),
                'sample': ['%s %s %s' % (o[0], o[2], o[1]) for o in self.obl[:40]],
                'notes': self.notes,
            },
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        if viol:
            ev['coverage']['violation_reports'] = viol
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if fresh:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for o in fresh:
                    f.write('%s: [%s] %s\n    construct: %s\n' % (o[2], o[0], o[3], o[1]))
            for o in fresh[:60]:
                print('%s: [%s] %s   (%s)' % (o[2], o[0], o[3], o[1]))
            if len(fresh) > 60:
                print('... %d more in %s' % (len(fresh) - 60, rp))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        if broken:
            for w, c, l in broken:
                print('ANALYSIS-BROKEN: only %d %s, at least %d were confirmed by hand' % (c, w, l))
            return 3
        print('ok: property %s: %d obligations, %d discharged, %d known findings' % (
            self.pid, len(self.obl), len(self.obl) - len(bad), len(done)))
        return 0
