"""Common frame of all checks: obligations, violations, evidence, known findings."""
import json, os, sys, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.environ.get('VP_CACHE', os.path.join(VERIF, '.build'))


class Check:
    def __init__(self, prop, technique):
        self.prop = prop
        self.technique = technique
        self.t0 = time.time()
        self.obl = {}            # rule -> [list of instance descriptions]
        self.viol = []           # (key, message)
        self.units = {}
        self.notes = []
        self.floors = []

    def ok(self, rule, inst):
        """an obligation of rule `rule` was examined for instance `inst` (string)"""
        self.obl.setdefault(rule, []).append(inst)

    def violation(self, rule, key, msg):
        self.viol.append(('%s/%s' % (rule, key), msg))

    def require(self, cond, rule, inst, key, msg):
        self.ok(rule, inst)
        if not cond:
            self.violation(rule, key, msg)
        return cond

    def floor(self, rule, n):
        """about n instances of the rule were counted by hand on the pinned tree; code may be merged into helpers, but not vanish"""
        n = max(1, n // 2)
        have = len(self.obl.get(rule, []))
        self.floors.append((rule, n, have))
        if have < n:
            self.violation('vacuity', rule, 'rule "%s": only %d instances found, at least %d expected: '
                           'the construct the rule decides on is gone or no longer recognised' % (rule, have, n))

    def analysed(self, what, n):
        self.units[what] = n

    def known(self):
        r = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', line.strip())
                if m and m.group(1) == self.prop:
                    r[m.group(2)] = m.group(3)
        return r

    def finish(self, assumptions=()):
        known = self.known()
        new, old = [], []
        seen = set()
        for k, m in self.viol:
            if (k, m) in seen:
                continue
            seen.add((k, m))
            (old if k in known else new).append((k, m))
        tier = os.environ.get('VERIF_TIER', 'quick')
        n = sum(len(v) for v in self.obl.values())
        nd = len({(r, i) for r, v in self.obl.items() for i in v})
        ev = dict(property=self.prop, tier=tier if tier in ('quick', 'thorough') else 'quick',
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(
                      explanation='Static analysis of the current source tree, nothing of it is executed: %s. Every instance of '
                      'each rule that the source contains was examined; counts below are of this run.' % self.technique,
                      analysed=self.units,
                      instances=n, distinct_instances=nd,
                      rules={r: dict(instances=len(v), distinct=len(set(v)), samples=sorted(set(v))[:6]) for r, v in sorted(self.obl.items())},
                      floors=[dict(rule=a, expected_at_least=b, found=c) for a, b, c in self.floors],
                      notes=self.notes,
                      known_findings=[k for k, _ in old],
                      exhaustive=True),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        EV = os.environ.get('VP_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(EV, exist_ok=True)
        with open(os.path.join(EV, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write('\n')
        for k, m in old:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, known[k], k))
        print('%s: %d instances of %d rules examined, %d violations, %.1f s' % (self.prop, n, len(self.obl), len(new), time.time() - self.t0))
        for r, v in sorted(self.obl.items()):
            print('  %-60s %d' % (r, len(v)))
        if new:
            rep = os.path.join(EV, self.prop + '.violations.txt')
            with open(rep, 'w') as f:
                for k, m in new:
                    f.write('%s\n    %s\n' % (k, m))
            for k, m in new:
                print('  %s\n      %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        return 0
