"""Bookkeeping of one check: obligations, violations, known findings, evidence."""
import json, os, re, time
from . import facts

KNOWN = os.path.join(facts.VERIF, 'KNOWN_FINDINGS.txt')


class Report:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.t0 = time.time()
        self.counts = {}
        self.viol = []          # (key, where, message)
        self.samples = []
        self.oblig = 0
        self.discharged = 0
        self.assumptions = []
        self.errors = []
        self.analysed = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, what=None):
        self.oblig += 1
        self.discharged += 1
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, where, msg):
        """key: stable name of the construct (no line numbers)"""
        self.oblig += 1
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, where, msg))

    def floor(self, name, n):
        """the analysis must have seen at least n instances of `name`"""
        if self.counts.get(name, 0) < n:
            self.errors.append('only %d instances of "%s" found, at least %d expected' % (self.counts.get(name, 0), name, n))

    def error(self, msg):
        self.errors.append(msg)

    def finish(self):
        known = load_known(self.prop)
        new, old = [], []
        for v in self.viol:
            (old if v[0] in known else new).append(v)
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        cov = {
            'explanation': self.rule,
            'obligations': self.oblig,
            'discharged': self.discharged,
            'analysed': self.counts,
            'samples': self.samples[:25],
        }
        if old:
            cov['known_findings'] = [{'key': k, 'where': w, 'what': m} for k, w, m in old]
        ev = {
            'property': self.prop,
            'tier': tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': cov,
            'wall_s': round(time.time() - self.t0, 3),
        }
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        ev['violations'] = len(new)
        d = os.path.join(facts.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(d, self.prop + '.violations.json')
        if os.path.exists(rp):
            os.remove(rp)
        for k, w, m in old:
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.prop, m, k, w))
        for e in self.errors:
            print('ERROR: property=%s %s' % (self.prop, e))
        if new:
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'rule': self.rule, 'rerun': 'cd %s && python3-vt -m analysis %s' % (facts.VERIF, self.prop),
                           'violations': [{'key': k, 'where': w, 'what': m} for k, w, m in new]}, f, indent=1)
            for k, w, m in new:
                print('%s: %s [%s]' % (w, m, k))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.errors:
            return 2
        print('property=%s held: %d obligations; %s' % (self.prop, self.oblig, ', '.join('%s=%d' % kv for kv in sorted(self.counts.items()))))
        return 0


def load_known(prop):
    """keys of the accepted findings of a property: lines `known: property=<id> key=<key> | <what>`"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(.*?) \| (.*)$', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
