"""Development tool: python3 lib/seedtool.py <definition.py>...
A definition sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python)."""
import json, os, runpy, shutil, subprocess, sys
V = '/verif'
W = '/tmp/sw'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/build.sh', '/tmp/sw-build.sh')
        open('/tmp/sw-' + f, 'w').write(s)
    return sh('bash /tmp/sw-build.sh')


def demo(d):
    # laid elsewhere, as in the final check
    t = '/tmp/sw-demo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    try:
        r = sh('timeout 280 bash %s/demo.sh' % t, cwd=W)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return r.returncode, r.stdout[-160:]


def main():
    if not os.path.isdir(W):
        sh('cp -a /repo ' + W)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('git -C %s fetch -q /repo && git -C %s checkout -q -f %s && git -C %s reset -q --hard %s' % (W, W, head, W, head))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for f in sys.argv[1:]:
        m = runpy.run_path(f)
        d = '%s/seeded/%s' % (V, m['ID'])
        sh('git -C %s checkout -q -- .' % W)
        for p, old, new in m['EDITS']:
            s = open(os.path.join(W, p)).read()
            if s.count(old) != 1:
                print(m['ID'], 'BAD EDIT', p, s.count(old), old[:60]); break
            open(os.path.join(W, p), 'w').write(s.replace(old, new))
        else:
            diff = sh('git -C %s diff -U3' % W).stdout
            # the lines removed have to be those of the original repository
            base = '2318a1b'
            warn = ''
            for p in set(e[0] for e in m['EDITS']):
                orig = sh('git -C %s show %s:%s' % (W, base, p)).stdout.split('\n')
                rm = [l[1:] for l in sh('git -C %s diff -U0 -- %s' % (W, p)).stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
                if rm and not any(l in orig and l.strip() for l in rm):
                    warn += ' NOT-ORIGINAL-LINES(%s)' % p
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': m['PROP'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
            open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom wslib import *\n' + m['DEMO'])
            shutil.copy(V + '/lib/demo/wslib.py', d + '/wslib.py')
            r = build()
            if r.returncode:
                print(m['ID'], 'DOES NOT BUILD', r.stdout[-800:]); continue
            bad = demo(d)
            sh('bash /tmp/sw-test.sh /tmp/sw-out.json')
            o = json.load(open('/tmp/sw-out.json'))
            miss = stable - set(o['passed'])
            sh('git -C %s checkout -q -- .' % W)
            build()
            good = [demo(d) for _ in range(2)]
            ok = bad[0] != 0 and all(g[0] == 0 for g in good) and not miss
            print(m['ID'], 'OK' if ok else 'PROBLEM', 'patched:', bad, 'clean:', good if not ok else 0, 'tests:', sorted(miss)[:3], warn)
        sys.stdout.flush()


main()
