"""Check context: evidence, violations, known findings, replay files."""
import hashlib
import json
import os
import random
import re
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = HERE + '/known_findings.txt'


class Ctx:
    """One run of one property's check"""

    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        self.seed = seed if seed is not None else int(os.environ.get('VERIF_SEED') or '1')
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.evals = 0
        self.nontriv = set()
        self.classes = {}
        self.samples = []
        self.extra = {}
        self.rule = ''
        self.assumptions = []
        self.notes = []
        self.lock = threading.RLock()
        # no new work is started past the soft deadline; a check has 900 s in all
        self.soft = self.t0 + (float(os.environ.get('VERIF_SOFT') or (420 if self.tier == 'quick' else 3600)))

    @property
    def quick(self):
        return self.tier == 'quick'

    def rng(self, *key):
        h = hashlib.sha256(repr((self.prop, self.seed) + key).encode()).digest()
        return random.Random(int.from_bytes(h[:8], 'big'))

    def late(self):
        return time.time() > self.soft

    def cls(self, name, n=1):
        with self.lock:
            self.classes[name] = self.classes.get(name, 0) + n

    def case(self, key=None, nontrivial=False, sample=None):
        """counts one evaluated case; key identifies it for distinctness"""
        with self.lock:
            self._case(key, nontrivial, sample)

    def _case(self, key, nontrivial, sample):
        self.evals += 1
        if nontrivial:
            h = hashlib.md5(repr(key).encode()).digest()[:8]
            new = h not in self.nontriv
            self.nontriv.add(h)
            if new and sample is not None and (len(self.samples) < 6 or
                                               (len(self.samples) < 14 and len(self.nontriv) % 97 == 0)):
                self.samples.append(sample)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- violations
    def violation(self, what, replay):
        """Records a violation with its replay file and prints the VIOLATION line"""
        with self.lock:
            self._violation(what, replay)

    def _violation(self, what, replay):
        d = HERE + '/replays'
        os.makedirs(d, exist_ok=True)
        p = '%s/%s-%d.json' % (d, self.prop, len(self.violations))
        replay = dict(replay, property=self.prop, what=what, seed=self.seed, tier=self.tier)
        with open(p, 'w') as f:
            json.dump(replay, f, indent=1, ensure_ascii=False, default=str)
        self.violations.append(what)
        self.log('violation: ' + what[:1500])
        print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)

    def findings(self):
        """keys of the listed known findings of this property -> text"""
        out = {}
        try:
            for l in open(FINDINGS, encoding='utf-8'):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3)
        except OSError:
            pass
        return out

    def known_finding(self, key):
        """True (and reported) if key is a listed finding"""
        f = self.findings()
        if key in f:
            if key not in self.known:
                self.known.append(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f[key]), flush=True)
            return True
        return False

    # ---- evidence
    def finish(self):
        os.makedirs(HERE + '/evidence', exist_ok=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.nontriv), rule=self.rule,
                   samples=self.samples[:14], classes=dict(sorted(self.classes.items())))
        cov.update(self.extra)
        ev = dict(property=self.prop, tier='quick' if self.quick else 'thorough', seed=self.seed,
                  level='exploration', coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  assumptions=self.assumptions, violations=len(self.violations))
        if self.known:
            ev['coverage']['known_findings'] = self.known
        with open('%s/evidence/%s.json' % (HERE, self.prop), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        self.log('cases %d, distinct non-trivial %d, violations %d' % (
            self.evals, len(self.nontriv), len(self.violations)))
        return 1 if self.violations else 0
