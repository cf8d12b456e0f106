"""C09: histories of the real worker pool under all schedules with a bounded
number of preemptions, and random ones, against spec/Pool.tla."""
import random

import hist
import tla
import vp

MC = '''SPECIFICATION PoolSpec
CONSTANT Callers = {1,2}
CONSTANT Ids = {%s}
INVARIANT Once
INVARIANT OnlyAccepted
INVARIANT InOrder
INVARIANT Bounded
INVARIANT Over
PROPERTY LosesNone
PROPERTY Runs
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION TSpec
INVARIANT Report
%s
CONSTANT Callers={%s}
CONSTANT Ids={}
CHECK_DEADLOCK FALSE
'''


def drv():
    return vp.driver('pool_drv', 'pool_drv.c', ['src/pool.c'], flags=['-O2'], obj_cc='clang',
                     obj_flags=['-std=gnu11', '-O1', '-g', '-fsanitize=thread', '-mllvm', '-tsan-distinguish-volatile=1'])


def scenarios(rng, thorough):
    """(threads, queue, mode, preemptions, max runs, options, adders)"""
    k = 8 if thorough else 1
    n = 150000 * k
    pb = 2 + thorough
    S = [(1, 2, 'd', pb, n, 'gw', ['n,n']), (1, 1, 'd', pb, n, 'gw', ['n,n', 'n']), (2, 1, 'd', pb, n, 'iw', ['n', 'n']),
         (2, 2, 'd', pb, n, 'gw', ['g2,n,n']), (2, 3, 'd', pb, n, 'gw', ['g2', 'g2']), (3, 3, 'd', 1 + thorough, n, 'gw', ['g3,n,n']),
         (2, 2, 'd', pb, n, 'gh', ['h,n', 'n']), (2, 2, 'd', pb, n, 'ih', ['h,n', 'n,n']), (1, 3, 'd', pb, n, 'gh', ['h,n,n', 'n']),
         (1, 3, 'd', pb, n, 'ih', ['h,n,n', 'n']), (2, 3, 'd', pb, n, 'gh', ['h,d,n']), (2, 3, 'd', pb, n, 'ih', ['h,d,n']),
         (2, 2, 'd', pb, n, 'gw', ['N,n,P,n']), (2, 2, 'd', pb, n, 'gw', ['a,a']), (1, 1, 'd', pb, n, 'gw', ['a,a,n']),
         (1, 1, 'd', pb, n, 'gh', ['h,n,n']), (2, 4, 'd', pb, n, 'gw', ['n,n', 'n,n']), (3, 2, 'd', 1 + thorough, n, 'gw', ['n,n', 'n,n'])]
    for c in (1, 2, 3):
        S.append((3, 2, 'd', 2, n, 'gc%d' % c, ['n']))
    for m in (1, 2, 3):
        S.append((2, 2, 'd', 2, n, 'gm%d' % m, ['n']))
    for _ in range(50 * k):
        th, qs = rng.choice((1, 2, 3, 4)), rng.choice((1, 1, 2, 3, 6))
        o = rng.choice(('gw', 'iw', 'gh', 'ih')) + rng.choice(('', 's'))
        kinds = 'nnna' + ('g' if o[0] == 'g' and th > 1 else '') + ('d' if 'h' in o and th > 1 else '')
        pr = []
        nd = 0
        for _ in range(rng.choice((1, 2, 3))):
            l = []
            for _ in range(rng.choice((1, 2, 4, 8))):
                x = rng.choice(kinds)
                if x == 'd':
                    nd += 1
                    if nd > 1:
                        x = 'n'
                l.append(x + ('2' if x == 'g' else ''))
            pr.append(','.join(l))
        if 'h' in o:
            if nd and th < 2:
                continue
            pr[0] = 'h,' + pr[0]
        S.append((th, qs, 'r', 0, 300, o, pr))
    return S


def prep(h):
    """note at the begin of a call what it is going to return"""
    last = {}
    for e in h:
        if e['e'] == 'add?':
            e['w'] = 99
            last[e['t']] = e
        elif e['e'] == 'add':
            last[e['t']]['w'] = e['r']
    return h


def c09(chk):
    exe = drv()
    t = tla.must(tla.run('Pool', MC % ('1,2,3' if vp.THOROUGH else '1,2'), workers=8, heap='8g', timeout=1500), 'Pool')
    chk.tlc(t)
    chk.count('model_states', t.distinct)
    rng = random.Random(vp.SEED * 104729 + 9)
    S = scenarios(rng, vp.THOROUGH)
    cmds = [((1 + len(s[6]) + s[0],), [exe, str(s[0]), str(s[1]), s[2], str(s[3]), str(s[4]), str(vp.SEED * 1000 + k), s[5]] + s[6]) for k, s in enumerate(S)]
    hist.decide(chk, 'the worker pool', cmds, 'PoolTrace', lambda key, inv: TR % (inv, ','.join(map(str, range(key[0])))), cap=6000 if vp.THOROUGH else 250, prep=prep)
