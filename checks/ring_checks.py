"""C08: histories of the real ring buffer under all schedules with a bounded
number of preemptions (every memory access is a switching point), and random
ones, against spec/Ring.tla."""
import random

import hist
import tla
import vp

MC = '''SPECIFICATION RingSpec
CONSTANT Space=%d
CONSTANT Records=2
CONSTANT Threads={1,2}
CONSTANT Lens={%s}
CONSTANT MaxIds=%d
INVARIANT NoOverlap
INVARIANT Inside
INVARIANT NeverFull
INVARIANT TakenReady
INVARIANT Order
INVARIANT Distinct
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION TSpec
INVARIANT Report
%s
CONSTANT Space=%d
CONSTANT Records=%d
CONSTANT Threads={%s}
CONSTANT Lens={1}
CONSTANT MaxIds=0
CHECK_DEADLOCK FALSE
'''


def drv():
    return vp.driver('ring_drv', 'ring_drv.c', ['src/ringbuf.c'], flags=['-O2'], obj_cc='clang',
                     obj_flags=['-std=gnu11', '-O1', '-g', '-fsanitize=thread', '-mllvm', '-tsan-distinguish-volatile=1'])


def scenarios(rng, thorough):
    """(space, nworkers, ntemp, mode, preemptions, max runs, consume, programs)"""
    S = []
    k = 10 if thorough else 1
    # what the server does: temporary records, single slots
    S += [(4, 0, 3, 'd', 3, 400000 * k, '2,a', ['1', '1']),
          (3, 0, 3, 'd', 2, 400000 * k, '3,a', ['1,1', '1,1']),
          (2, 0, 3, 'd', 3, 400000 * k, '3,o', ['1,1', '1']),
          (3, 0, 2, 'd', 2, 400000 * k, '3,h', ['1,1,1', '1']),
          (5, 0, 3, 'd', 2 + thorough, 400000 * k, '2,h', ['1', '1', '1']),
          (3, 0, 1, 'd', 2, 300000 * k, '2,a', ['1,1', '1,1']),
          (4, 0, 2, 'd', 2, 300000 * k, '2,a', ['1', '1', '1'])]
    # longer ranges, the end of the ring left unused
    S += [(5, 0, 2, 'd', 2, 300000 * k, '3,a', ['2,2', '2']),
          (5, 0, 2, 'd', 2, 300000 * k, '3,o', ['3,1', '2,1']),
          (4, 0, 2, 'd', 2, 300000 * k, '4,o', ['3,2', '1']),
          (7, 0, 2, 'd', 2, 300000 * k, '3,h', ['2,3,2', '3']),
          (4, 2, 0, 'd', 2, 300000 * k, '3,a', ['p1,1,2', 'p2,1']),
          (3, 1, 1, 'd', 2, 300000 * k, '3,o', ['p1,1', '1,1'])]
    for _ in range(60 * k):
        sp = rng.choice((2, 3, 4, 5, 8))
        np = rng.choice((2, 3, 4))
        one = rng.random() < 0.5
        pr = [','.join(str(1 if one else rng.randrange(1, max(2, sp - 1))) for _ in range(rng.choice((2, 3, 6, 10)))) for _ in range(np)]
        S.append((sp, 0, rng.choice((1, np - 1, np, np + 1)), 'r', 0, 400, '%d,%s' % (rng.choice((2, 4, 8, 15)), rng.choice('aoh')), pr))
    return S


def c08(chk):
    exe = drv()
    for sp, lens, mx in ((3, '1', 6), (4, '1,2,3', 4)) + (((5, '1,2,3', 5), (5, '1,2,4', 6)) if vp.THOROUGH else ((5, '1,2,3', 4),)):
        t = tla.must(tla.run('Ring', MC % (sp, lens, mx), workers=8, heap='10g', timeout=1500), 'Ring')
        chk.tlc(t)
        chk.count('model_states', t.distinct)
    rng = random.Random(vp.SEED * 104729 + 8)
    S = scenarios(rng, vp.THOROUGH)
    cmds = [((s[0], s[1] + s[2], len(s[7])), [exe, str(s[0]), str(s[1]), str(s[2]), s[3], str(s[4]), str(s[5]), str(vp.SEED * 1000 + k), s[6]] + s[7]) for k, s in enumerate(S)]
    hist.decide(chk, 'the ring buffer', cmds, 'RingTrace', lambda key, inv: TR % (inv, key[0], key[1], ', '.join(str(i + 1) for i in range(key[2]))),
                cap=20000 if vp.THOROUGH else 2500)
