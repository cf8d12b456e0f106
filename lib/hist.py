"""Histories recorded by a driver decided by TLC against a trace specification."""
import json
import random
import re
import subprocess

import tla
import vp


def decide(chk, what, cmds, module, cfg, cap, chunk=1200, timeout=400, prep=lambda h: h):
    """cmds: [(key, command)]; a driver prints one history (a JSON list) per line
    and its counters last.  cfg(key, extra) is the configuration of TLC for the
    histories of the commands with this key."""
    def one(a):
        k, (key, cmd) = a
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise vp.MachineryError('%r does not end' % (cmd,))
        lines = r.stdout.strip().split('\n')
        if r.returncode or not lines[-1].startswith('{"runs"'):
            return key, cmd, None, None, r
        st = json.loads(lines.pop())
        if len(lines) > cap:
            lines = random.Random(k).sample(lines, cap)
        return key, cmd, [prep(json.loads(x)) for x in lines], st, r
    res = vp.pmap(one, list(enumerate(cmds)))
    groups = {}
    for key, cmd, tr, st, r in res:
        if tr is None:
            if r.returncode == 2:
                raise vp.MachineryError('%r: usage' % (cmd,))
            chk.violation('%s crashes: %s (exit %s)' % (what, ' '.join(cmd[1:]), r.returncode), {'cmd': cmd, 'stdout': r.stdout[-800:], 'stderr': r.stderr[-500:]})
            continue
        chk.count('schedules', st['runs'])
        chk.count('histories', st['distinct'])
        if st['complete']:
            chk.count('scenarios_with_all_schedules')
        groups.setdefault(key, []).extend((cmd, x) for x in tr)
    work = []
    for key, l in groups.items():
        work += [(key, l[a:a + chunk]) for a in range(0, len(l), chunk)]

    def val(w):
        key, l = w
        acc, t = tla.validate(module, [x for _, x in l], cfg(key, ''), workers=1, timeout=1200)
        return len(acc), t, [(key, l[k]) for k in range(len(l)) if k not in acc]
    bad = []
    for n, t, b in vp.pmap(val, work, 8):
        chk.traces(n)
        chk.tlc(t)
        bad += b
    bad.sort(key=lambda b: len(b[1][1]))
    for key, (cmd, x) in bad[:5]:
        acc, t = tla.validate(module, [x], cfg(key, 'INVARIANT Where'), workers=1)
        at = max([int(v) for v in re.findall(r'<<"AT", 1, (\d+)>>', t.out)] + [1]) - 1
        e = x[at] if at < len(x) else {'e': 'end of history'}
        chk.violation('%s, %s: event %d is not allowed: %s' % (what, ' '.join(cmd[1:]), at, json.dumps(e)), {'cmd': cmd, 'history': x, 'at': at})
    for key, cmd, tr, st, r in res:
        if tr:
            chk.sample(json.dumps(tr[0])[:400])
            break
