"""Skeleton of a check: evidence, known findings, verdict."""
import hashlib
import json
import os
import sys
import time
import traceback

import vp

EVID = os.environ.get('EVID') or os.path.join(vp.VERIF, 'evidence')
KNOWN = os.path.join(vp.VERIF, 'known_findings.txt')


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.level = 'model_checking'

    # -- bookkeeping
    def tlc(self, t):
        self.cov['states'] += t.distinct
        self.cov['transitions'] += t.generated
        return t

    def traces(self, n):
        self.cov['traces_validated_against_impl'] += n

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def violation(self, what, replay):
        """what: one line; replay: anything JSON-able that reproduces it."""
        self.violations.append((what, replay))
        vp.log('violation[%s]: %s' % (self.pid, what))

    def full(self):
        return len(self.violations) >= 5

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.pid, 'tier': vp.TIER, 'seed': vp.SEED, 'level': self.level, 'coverage': self.cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, what in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        if self.violations:
            for i, (what, replay) in enumerate(self.violations[:5]):
                p = os.path.join(EVID, 'replay-%s-%d.json' % (self.pid, i))
                with open(p, 'w') as f:
                    json.dump({'what': what, 'replay': replay}, f, indent=1, default=str)
                print('# ' + what[:400])
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        print('ok property=%s %s' % (self.pid, json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})))
        return 0


def known_findings(pid):
    """-> {key: text} of the listed (unrepaired) findings of a property"""
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out[key.replace('key=', '')] = text
    except OSError:
        pass
    return out


def main(pid, fn):
    os.chdir(vp.VERIF)
    c = Check(pid)
    try:
        fn(c)
    except vp.BuildError as e:
        vp.log(traceback.format_exc())
        print('ERROR: cannot build: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    sys.exit(c.finish())
