"""C13: executions of the real server in virtual time validated against
spec/Timeout.tla."""
import json
import random
import re

import conn
import tla
import tls_checks
import vp
import ws

MC = '''SPECIFICATION MCSpec
INVARIANT SeeOk
INVARIANT InTime
INVARIANT Off
%s
CONSTANT Conns = {1,2}
CONSTANT Responsive = {1}
CONSTANT T <- TT
CONSTANT P = %d
CONSTANT R <- RR
CONSTANT W <- RR
CONSTANT Slack = 0
CONSTANT Horizon = %d
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION TSpec
INVARIANT Report
%s
CONSTANT Conns = {%s}
CONSTANT T <- TT
CONSTANT P = %d
CONSTANT R <- RR
CONSTANT W <- WW
CONSTANT Slack = 1
CHECK_DEADLOCK FALSE
'''
SETTINGS = [(1000, 2, -1, -1), (1000, 3, 1000, 1000), (1000, 1, -1, 50), (1000, 0, 50, -1), (997, 5, 300, 300), (60000, 10, 1000, 1000), (60000, 2, 100000, 100000),
            (-1, 0, 100, 100), (-1, 3, 100, 100), (-1, 5, -1, -1), (40, 4, 10, 10), (3000, 7, 1000, 1000), (500, 2, 5000, 5000), (2500, 2, 1000, -1)]


class Prog:
    """one client program with what its sends mean"""

    def __init__(self, pid, cid, t0, sends):
        self.pid, self.cid, self.lines, self.sends = pid, cid, [], sends
        sends[cid] = []
        self.frames = 0
        if t0:
            self.op('sleep', t0)
        self.op('conn', cid)

    def op(self, *a):
        self.lines.append('%d %s' % (self.pid, ' '.join(map(str, a))))
        return self

    def send(self, data, mid=0, leave=False):
        self.sends[self.cid].append((mid, leave))
        return self.op('send', data.hex())

    def up(self):
        self.send(ws.request(proto=b'rec'))
        return self.op('waithttp')

    def pong(self, rng):
        return self.send(ws.frame(10, rng.choice((b'', b'x', b'whatever')), mask=b'abcd'))


def client(rng, pid, cid, sends, T, P, R, W, kind=None):
    per = T // P if T > 0 and P > 0 else max(T, 100)
    base = T if T > 0 else 100000
    x = Prog(pid, cid, rng.choice((0, 0, rng.randrange(0, 3 * per + 1))), sends)
    kind = kind or rng.choice(('raw', 'partial', 'idle', 'answer', 'answer', 'some', 'talk', 'split', 'cap', 'gone', 'slowtalk', 'edge', 'stops'))
    rest = rng.choice((base // 2, 2 * base + 3 * per))
    if kind == 'raw':
        x.op('sleep', rng.choice((base // 2, base - 1, 3 * base)))
        if rng.random() < 0.5:
            x.up().op('sleep', rest)
    elif kind == 'partial':
        r = ws.request(proto=b'rec')
        k = rng.randrange(1, len(r))
        x.send(r[:k], 2).op('sleep', rng.choice((1, base // 2, max(0, R - 1), R + 1 if R >= 0 else 5)))
        x.send(r[k:]).op('sleep', rest)
    elif kind == 'idle':
        x.up().op('sleep', 2 * base + 3 * per)
    elif kind in ('answer', 'some', 'stops'):
        x.up()
        n = rng.choice((1, 3, 8, 20)) if kind == 'answer' else rng.choice((1, 2, 5))
        if T <= 0 or P <= 0:
            x.op('sleep', rest)
        else:
            for k in range(n):
                x.op('waitfr', k + 1)
                if kind == 'some' and rng.random() < 0.4:
                    continue
                x.op('sleep', rng.choice((0, 1, per // 2, max(0, per - 1))))
                x.pong(rng)
            if kind == 'stops':
                x.op('sleep', 2 * base + 3 * per)
    elif kind == 'talk':
        x.up()
        for k in range(rng.choice((2, 6, 15))):
            x.op('sleep', rng.choice((per // 2, per, base // 2, base - 1)))
            x.send(ws.frame(1, b'm%d' % k, mask=b'abcd'))
    elif kind == 'slowtalk':
        x.up()
        for k in range(rng.choice((1, 2, 4))):
            x.op('sleep', rng.choice((base - 1, base, base + 1, base + per - 1, base + per, base + per + 1)))
            x.send(ws.frame(2, b'm%d' % k, mask=b'abcd'))
    elif kind == 'edge':
        x.up()
        for k in range(rng.choice((1, 3))):
            x.op('sleep', rng.choice((999, 1000, 1001, 500, 1500, 1999)))
            x.pong(rng)
        x.op('sleep', rest)
    elif kind == 'split':
        x.up()
        f = ws.frame(1, b'0123456789' * 3, mask=b'abcd')
        for k in range(rng.choice((1, 2, 3))):
            a = rng.randrange(1, len(f))
            x.send(f[:a], 2).op('sleep', rng.choice((1, per // 2, max(0, R - 1), R + 1 if R >= 0 else 7, base // 2)))
            x.send(f[a:])
            g = [ws.frame(1, b'ab', fin=0, mask=b'abcd'), ws.frame(0, b'cd', mask=b'abcd')]
            x.send(g[0], 1).op('sleep', rng.choice((1, per // 3, max(0, R - 1))))
            x.send(g[1])
    elif kind == 'cap':
        x.up()
        x.op('cap', rng.choice((0, 1, 3)))
        x.op('sleep', rng.choice((per // 2, per + 1, 2 * per, base - 1, 2 * base + 2 * per)))
        if rng.random() < 0.6:
            x.send(ws.frame(1, b'hi', mask=b'abcd'))
        x.op('sleep', rng.choice((1, per // 2)))
        x.op('drain', -1).op('sleep', rng.choice((1, per + 1)))
        x.send(ws.frame(1, b'there', mask=b'abcd'))
        x.op('sleep', rest)
    elif kind == 'gone':
        x.up()
        x.op('sleep', rng.choice((0, per, base - 1)))
        if rng.random() < 0.4:
            x.send(ws.frame(8, ws.close(1000), mask=b'abcd'), leave=True)
            x.op('waiteof')
        else:
            x.op(rng.choice(('close', 'rst', 'half')))
    if rng.random() < 0.3 and kind != 'gone':
        x.op('close')
    return x


def scenario(rng, bdir, T, P, R, W):
    sends = {}
    nc = rng.choice((1, 1, 2, 3, 4, 6))
    crowd = rng.random() < 0.03
    if crowd:
        nc = rng.choice((65, 70, 100))
    pr = [client(rng, p, p, sends, T, P, R, W, rng.choice(('idle', 'idle', 'idle', 'talk')) if crowd else None) for p in range(min(nc, 120))]
    opts = ['opt clock', 'opt maxwait 1000000000', 'opt maxsteps 3000000', 'opt seed %d' % rng.randrange(1 << 30)]
    st = rng.choice(('seq', 'seq', 'rand', 'pct'))
    opts.append('opt strat ' + st)
    if st == 'rand':
        opts.append('opt p ' + rng.choice(('0.05', '0.3')))
    if st == 'pct':
        opts.append('opt pct %d 1500' % rng.choice((2, 5)))
    cfg = vp.config(timeouts={'poll': rng.choice((-1, -1, 77)), 'read': R, 'write': W, 'client': T, 'pings': P}, pool={'workers': rng.choice((1, 2, 4))},
                    subprotocols=[vp.plug(bdir, 'rec', 'mode=sink')])
    if rng.random() < .25:        # some over TLS, some do not get past its handshake
        cfg = tls_checks.secure(cfg, bdir)
        for x in pr:
            if rng.random() < .7:
                k = next(i for i, l in enumerate(x.lines) if l.split(' ')[1] == 'conn')
                cut = rng.random() < .15
                x.lines[k] += ' 443'
                x.lines.insert(k + 1, '%d tls %d %d %s' % (x.pid, tls_checks.seg(rng), rng.randrange(0, 330) if cut else -1, rng.choice(('1.3', '1.2') if cut else tls_checks.MODES)))
                if cut:
                    x.lines = [l for i, l in enumerate(x.lines) if i <= k + 1 or l.split(' ')[1] in ('sleep', 'close', 'rst')]
                    x.op('sleep', 2 * max(T, 100))
    return '\n'.join(opts + [l for x in pr for l in x.lines]) + '\n', cfg, sends, nc


def project(run, sends):
    T, nsend, out, done = [], {}, {}, {}
    gone = set()
    for e in run.ev:
        k = e['e']
        if k == 'time':
            T.append({'e': 'time', 't': e['t']})
        elif k == 'conn' and e['ok']:
            T.append({'e': 'connect', 'c': e['c']})
        elif k == 'send':
            i = nsend.get(e['c'], 0)
            nsend[e['c']] = i + 1
            if e['c'] in gone:
                continue
            mid, leave = sends[e['c']][i]
            T.append({'e': 'data', 'c': e['c'], 'mid': mid})
            if leave:
                T.append({'e': 'leave', 'c': e['c']})
        elif k in ('cclose', 'chalf', 'crst'):
            gone.add(e['c'])
            T.append({'e': 'leave', 'c': e['c']})
        elif k in ('cap', 'drain'):
            T.append({'e': 'stall', 'c': e['c'], 'b': e['n'] >= 0})
        elif k == 'sig':
            T.append({'e': 'stop'})
        elif k == 'eof':
            T.append({'e': 'closed', 'c': e['c']})
        elif k in ('crash', 'stuck', 'stuck-shutdown', 'livelock', 'hang'):
            T.append({'e': k})
        elif k == 'out':
            out[e['c']] = out.get(e['c'], b'') + bytes.fromhex(e['h'])
            if e['c'] not in done:
                st, _, rest = ws.split_http(out[e['c']])
                if st is None:
                    continue
                T.append({'e': 'up' if st == 101 else 'refused %s' % st, 'c': e['c']})
                done[e['c']] = True
                out[e['c']] = rest
            fr, out[e['c']] = ws.parse_frames(out[e['c']])
            for f in fr:
                if f.masked or f.rsv or not f.fin or len(f.payload) > 125:
                    T.append({'e': 'garbage %r' % f, 'c': e['c']})
                elif f.op == 9:
                    T.append({'e': 'ping', 'c': e['c']})
                elif f.op == 8:
                    code = int.from_bytes(f.payload[:2], 'big')
                    T.append({'e': 'giveup' if code == 1013 else 'wclose', 'c': e['c'], 'code': code})
                else:
                    T.append({'e': 'garbage %r' % f, 'c': e['c']})
    T.append({'e': 'exit' if run.find('end') and run.rc == 0 else 'died rc %s' % run.rc})
    return T


def consts(s):
    return 'TT == %d\nRR == %d\nWW == %d\n' % (s[0], s[2], s[3])


def c13(chk):
    bdir = vp.build('rel')
    T = vp.THOROUGH
    mcs = [(4, 2, 8), (3, 3, 6), (4, 0, 7), (-1, 2, 5)] if not T else [(4, 2, 11), (3, 3, 9), (6, 3, 10), (6, 2, 10), (4, 0, 11), (4, 1, 10), (5, 2, 10), (-1, 2, 7)]
    for tt, p, hor in mcs:
        t = tla.must(tla.run('TimeoutMC', MC % ('PROPERTY Faithful' if p > 1 else '', p, hor), 'TT == %d\nRR == -1\n' % tt, workers=8, heap='8g'), 'TimeoutMC')
        chk.tlc(t)
        chk.count('model_states', t.distinct)
    rng = random.Random(vp.SEED * 7919 + 13)
    n = 110 if not T else 900
    groups = []
    for s in SETTINGS:
        groups.append((s, [scenario(rng, bdir, *s) for _ in range(n)]))

    def one(a):
        sc, cfg, sends, nc = a
        r = vp.run_sim(sc, cfg, bdir)
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end')
        return r, project(r, sends)
    for s, l in groups:
        res = vp.pmap(one, l)
        parts = [list(range(a, len(l), 8)) for a in range(8)]

        def val(p):
            nc = max([l[i][3] for i in p] + [1])
            acc, t = tla.validate('TimeoutTrace', [res[i][1] for i in p], TR % ('', ','.join(map(str, range(nc))), s[1]), consts(s), workers=1, timeout=800)
            return [p[k] for k in range(len(p)) if k not in acc], t
        for bad, t in vp.pmap(val, [p for p in parts if p]):
            chk.tlc(t)
            for i in bad[:2]:
                sc, cfg, sends, nc = l[i]
                r, tr = res[i]
                acc, t1 = tla.validate('TimeoutTrace', [tr], TR % ('INVARIANT Where', ','.join(map(str, range(nc))), s[1]), consts(s), workers=1)
                at = max([int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', t1.out)] + [1]) - 1
                e = tr[at] if at < len(tr) else {'e': 'end'}
                near = [x for x in tr[:at] if x.get('c') == e.get('c') or x['e'] == 'time'][-8:]
                chk.violation('timeouts client %d pings %d read %d write %d: event %d is not allowed: %s%s' % (*s, at, json.dumps(e), ' (%s)' % conn.brief_fatal(r) if r.fatal else ''),
                              {'script': sc, 'config': cfg, 'before': near, 'event': e, 'trace': tr})
            if chk.full():
                return
        bads = 0
        chk.traces(len(l) - bads)
        chk.count('pings', sum(1 for _, tr in res for e in tr if e['e'] == 'ping'))
        chk.count('given_up', sum(1 for _, tr in res for e in tr if e['e'] == 'giveup'))
    chk.sample(groups[0][1][0][0][:600])
