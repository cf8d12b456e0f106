"""Checks decided with spec/Conn.tla: C01 C02 C03 C04 (and parts of C15, C17)."""
import random

import conn
import vp

DATA = '{Fr(o,f,<<"a">>) : o \\in {0,1,2}, f \\in BOOLEAN}'
EMPTY = '{Fr(1,TRUE,<<>>), Fr(0,TRUE,<<>>), Fr(2,FALSE,<<>>), Fr(0,FALSE,<<>>)}'
CTRL = '{Fr(9,TRUE,<<"a">>), Fr(10,TRUE,<<>>), CloseFr(1000,<<>>)}'
LIM = '{[Fr(1,TRUE,<<"a">>) EXCEPT !.size="lim"], [Fr(0,TRUE,<<"a">>) EXCEPT !.size="lim"], [Fr(2,FALSE,<<"a">>) EXCEPT !.size="lim"]}'
OVER = '{[Fr(1,TRUE,<<"a">>) EXCEPT !.size="over"], [Fr(0,TRUE,<<"a">>) EXCEPT !.size="over"], [Fr(2,FALSE,<<"a">>) EXCEPT !.size="over"]}'
APP = '{AppClose(1000), AppClose(4001), AppFr("ping"), AppFr("reply"), AppFr("none")}'


def U(*a):
    return ' \\cup '.join(a)


def sample(c, cases):
    for x in cases[:: max(1, len(cases) // 3)][:3]:
        c.sample({'frames': x['h'], 'server_sends': x['o'], 'application_gets': x['d']})
    c.count('behaviours', len(cases))


def pick(cases, n, seed):
    if n is None or len(cases) <= n:
        return cases
    return random.Random(seed).sample(cases, n)


def std(c, alphabet, steps, segs, cap=None, strat='seq', frame=200, fragmented=3, buffer=64, after=1, extra=(), sim=None, kind='rel', batch=16, **kw):
    b = vp.build(kind)
    cfg = conn.server_config(b, frame=frame, fragmented=fragmented, buffer=buffer, **kw)
    if sim:
        cases = conn.simulate_cases(c, alphabet, steps, sim, vp.SEED, after, fragmented)
    else:
        cases = conn.enumerate_cases(c, alphabet, steps, after, fragmented)
    cases = pick(cases, cap, vp.SEED)
    sample(c, cases)
    conn.replay(c, b, cases, cfg, segs, vp.SEED * 1000 + steps, frame, strat, batch=batch, extra=extra)
    return cases


def c01(c):
    t = vp.THOROUGH
    # every sequence of up to 3 frames, under every segmentation
    std(c, U(DATA, EMPTY, CTRL, LIM), 3, ['whole', 'frames', 'random'] + (['header', 'bytes'] if t else []))
    # messages of many fragments with control frames in between
    std(c, U('{Fr(1,FALSE,<<"a">>), Fr(0,FALSE,<<"a">>), Fr(0,TRUE,<<"a">>), Fr(9,TRUE,<<"a">>), Fr(2,TRUE,<<"a">>)}'), 6 if t else 5, ['whole', 'frames', 'header'], fragmented=5)
    # long random conversations
    std(c, U(DATA, EMPTY, CTRL, LIM, APP), 14, ['whole', 'random', 'frames'], sim=4000 if t else 300, strat='rand', fragmented=6)
    std(c, U('{Fr(1,TRUE,<<"a">>), Fr(2,TRUE,<<"a">>), Fr(2,FALSE,<<"a">>), Fr(0,FALSE,<<"a">>), Fr(0,TRUE,<<"a">>), Fr(9,TRUE,<<"a">>)}', LIM), 25, ['whole', 'random'], sim=1500 if t else 120, strat='rand', fragmented=30,
        frame=1000, buffer=128)
    # every length form (7, 16 and 64 bit)
    for frame in (125, 126, 127, 65535, 65536, 70001) if t else (125, 126, 65535, 65536):
        std(c, U(LIM, '{Fr(1,TRUE,<<"a">>), Fr(0,TRUE,<<"a">>)}'), 2, ['whole', 'random'], frame=frame, buffer=32768 if frame > 1000 else 64, batch=4)
        if c.full():
            return
    if t:
        std(c, U(DATA, CTRL), 4, ['whole', 'frames', 'random'], cap=20000)


def c02(c):
    t = vp.THOROUGH
    bad = ' \\cup '.join([
        '{[Fr(o,TRUE,<<"a">>) EXCEPT !.rsv=r] : o \\in {0,1,2,8,9,10}, r \\in %s}' % ('1..7' if t else '{1,2,4}'),
        '{Fr(o,f,<<"a">>) : o \\in {3,7,11,15}, f \\in BOOLEAN}' if not t else '{Fr(o,f,<<"a">>) : o \\in (3..7) \\cup (11..15), f \\in BOOLEAN}',
        '{[Fr(o,TRUE,<<"a">>) EXCEPT !.mask=FALSE] : o \\in {0,1,2,8,9,10}}',
        '{Fr(o,FALSE,<<"a">>) : o \\in {9,10}}', '{[CloseFr(1000,<<>>) EXCEPT !.fin=FALSE]}',
        '{[Fr(o,TRUE,<<"a">>) EXCEPT !.size=s] : o \\in {9,10}, s \\in {"c125","c126","lim","over"}}',
        '{[CloseFr(1000,<<>>) EXCEPT !.size=s] : s \\in {"c125","c126"}}',
        OVER, '{CloseFr(k,<<>>) : k \\in {0,1,2,999,1000,1004,1005,1006,1015,1016,2999,3000,4999,5000,65535}}',
        '{CloseFr(1000,<<"X">>), CloseFr(1001,<<"a","H">>), CloseFr(1001,<<"a","H","L">>), Fr(1,TRUE,<<"X">>), Fr(0,TRUE,<<"a","X">>), Fr(1,FALSE,<<"X">>)}'])
    good = '{Fr(1,TRUE,<<"a">>), Fr(1,FALSE,<<"a">>), Fr(0,TRUE,<<"a">>), Fr(0,FALSE,<<"a">>), Fr(2,FALSE,<<"a">>), Fr(9,TRUE,<<"a">>)}'
    # every violating frame after every short prefix, and followed by anything
    std(c, U(good, bad), 2, ['whole', 'frames', 'random'] + (['bytes', 'header'] if t else []), after=1)
    std(c, U(good, bad), 3, ['whole', 'random'], cap=None if t else 3000, after=1)
    # combinations of several faults in one frame
    multi = '{[op |-> o, fin |-> f, mask |-> m, rsv |-> r, size |-> s, pay |-> <<"a">>, code |-> 1000, app |-> ""] : o \\in {0,1,5,8,9,12}, f \\in BOOLEAN, m \\in BOOLEAN, r \\in {0,4}, s \\in {"n","c126","over"}}'
    std(c, multi, 1, ['whole', 'bytes', 'header'])
    std(c, U(multi, good), 2, ['whole', 'random'], cap=None if t else 1500)
    if t:
        std(c, U(good, bad), 12, ['whole', 'random', 'frames'], sim=5000, strat='rand', fragmented=8)


def c03(c):
    t = vp.THOROUGH
    codes = '{CloseFr(k,<<>>) : k \\in {0,1000,1001,1002,1003,1007,1008,1009,1010,1011,1012,1013,1014,3000,3999,4000,4999}}'
    reasons = '{CloseFr(1000,p) : p \\in {<<"a">>,<<"H","L">>,<<"a","a","H","L","a">>}} \\cup {[CloseFr(4000,<<"a">>) EXCEPT !.size="c125"], CloseFr(1001,<<"H">>), CloseFr(1001,<<"X">>), CloseFr(1,<<>>), CloseFr(1005,<<>>), CloseFr(5000,<<>>)}'
    rest = '{Fr(1,TRUE,<<"a">>), Fr(1,FALSE,<<"a">>), Fr(0,TRUE,<<"a">>), Fr(9,TRUE,<<"a">>), Fr(10,TRUE,<<"a">>), [Fr(1,TRUE,<<"a">>) EXCEPT !.mask=FALSE]}'
    app = '{AppClose(1000), AppClose(1001), AppClose(4321)}'
    std(c, U(codes, reasons, rest, app), 2, ['whole', 'frames', 'bytes'], after=2)
    std(c, U('{CloseFr(0,<<>>),CloseFr(1000,<<"a">>),CloseFr(1,<<>>)}', rest, app), 4 if t else 3, ['whole', 'frames', 'random'], after=2, strat='rand')
    close_races(c, 600 if t else 100)
    # with other senders, blocked output, and the close at any position of the ring
    import server
    import server_checks
    b = vp.build('rel')
    server.run_all(c, b, server_checks.jobs_close(server_checks.Gen(random.Random(vp.SEED * 7919 + 3), b), 12000 if t else 2000))


def close_races(c, n):
    """The same behaviours while the application closes, the client closes and
    other connections come and go, under random schedules and partial writes."""
    alpha = U('{CloseFr(1000,<<>>), AppClose(1001), AppFr("reply"), Fr(1,TRUE,<<"a">>), [Fr(1,TRUE,<<"a">>) EXCEPT !.size="lim"], Fr(9,TRUE,<<"a">>)}')
    std(c, alpha, 4, ['whole', 'frames'], cap=n, strat='rand', extra=['opt spurious 0.05', 'opt eintr 0.1'], after=1)


def c04(c):
    t = vp.THOROUGH
    ping = '{Fr(9,TRUE,p) : p \\in {<<>>,<<"a">>,<<"X">>,<<"H">>}} \\cup {[Fr(9,TRUE,<<"a">>) EXCEPT !.size="c125"]}'
    pong = '{Fr(10,TRUE,<<>>), Fr(10,TRUE,<<"a","a">>), [Fr(10,TRUE,<<"X">>) EXCEPT !.size="c125"]}'
    rest = '{Fr(1,TRUE,<<"a">>), Fr(1,FALSE,<<"a">>), Fr(0,FALSE,<<"a">>), Fr(0,TRUE,<<"a">>), AppFr("ping"), AppFr("reply"), CloseFr(1000,<<>>)}'
    std(c, U(ping, pong, rest), 3, ['whole', 'frames', 'random'] + (['bytes'] if t else []))
    std(c, U(ping, pong, rest), 15, ['whole', 'random', 'frames'], sim=4000 if t else 250, strat='rand', fragmented=8)
    # every payload length a ping can have
    b = vp.build('rel')
    cfg = conn.server_config(b)
    one = {'op': 9, 'fin': True, 'mask': True, 'rsv': 0, 'size': 'n', 'pay': [], 'code': 0, 'app': ''}
    cases = []
    for n in range(126):
        f = dict(one, pay=['len'])
        cases.append({'h': [f], 'o': [{'k': 'pong', 'op': 10, 'parts': [1], 'codes': []}], 'd': [], 'p': 'open', 'n': n})
    conn.replay(c, b, [x for x in cases], cfg, ['whole', 'random'], vp.SEED, 200, batch=32)
    c.count('behaviours', len(cases))
