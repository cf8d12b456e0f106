"""Running TLC on the specifications in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import vp

SPEC = os.path.join(vp.VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '').replace(' states generated ', ' states generated, ')) or \
            re.findall(r'(\d+) states generated[, ]+(\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.transitions = self.generated

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        """name of the violated invariant/property, if any"""
        m = re.search(r'(?:Invariant|Property|property) (\S+) (?:is|was) violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached|Assumption', self.out)
        return m.group(0) if m else None


_HDR = '---- MODULE %s ----\n'


def run(module, cfg, extra='', workers=4, args=(), timeout=600, heap='3g', files=None, jvm=()):
    """Model check `module` (in /verif/spec).  `cfg` is the text of the
    configuration; `extra` are definitions put in a module extending it; files
    are written next to it.  Lines printed with PrintT(<<"CASE", ToJson(x)>>)
    are returned decoded in .cases."""
    d = tempfile.mkdtemp(prefix='tlc', dir=vp.scratch())
    try:
        top = 'MC'
        with open(os.path.join(d, 'MC.tla'), 'w') as f:
            f.write(_HDR % top + 'EXTENDS %s, TLC, Json\n%s\n====\n' % (module, extra))
        with open(os.path.join(d, 'MC.cfg'), 'w') as f:
            f.write(cfg)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=1' if workers == 1 else '-XX:+UseParallelGC',
               '-DTLA-Library=' + SPEC] + list(jvm) + ['-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'st'), '-noGenerateSpecTE',
               '-config', 'MC.cfg'] + list(args) + ['MC.tla']
        outp = os.path.join(d, 'out')
        with open(outp, 'wb') as fo:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        with open(outp, errors='replace') as f:
            out = f.read()
        t = Tlc(rc, '')
        cases, rest = [], []
        for line in out.split('\n'):
            if line.startswith('<<"CASE", '):
                s = line[len('<<"CASE", '):-2]
                cases.append(json.loads(json.loads(s)))
            else:
                rest.append(line)
        t = Tlc(rc, '\n'.join(rest))
        t.cases = cases
        return t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def must(t, what):
    """A run of TLC on the specification alone has to succeed."""
    if not t.ok:
        raise vp.MachineryError('TLC on %s: rc %s\n%s' % (what, t.rc, t.out[-3000:]))
    return t


def validate(module, traces, cfg, extra='', workers=4, timeout=600, chunk=None):
    """Check recorded traces against a trace specification.  The module reads the
    constant Traces (a sequence of sequences of records, from traces.json) and
    prints <<"ACCEPT", i>> when the whole of trace i is explained.  Returns
    (set of accepted 0-based indices, Tlc)."""
    t = run(module, cfg, extra, workers=workers, timeout=timeout, files={'traces.json': json.dumps(traces)})
    acc = set(int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', t.out))
    if t.rc not in (0,) and not t.violated:
        raise vp.MachineryError('TLC on %s: rc %s\n%s' % (module, t.rc, t.out[-3000:]))
    return acc, t
