"""C07, C10, C11, C12, C16: executions of the real server under controlled
schedules validated against spec/Server.tla."""
import random

import server
import tla
import vp

MC_EXTRA = '''
R == [k |-> "req", ok |-> TRUE, path |-> "p", ck |-> "c"]
M(n) == [k |-> "msg", op |-> 1, id |-> n]
P(n) == [k |-> "ping", op |-> 10, id |-> n]
CL == [k |-> "close", op |-> 8, id |-> 1001]
BAD == [k |-> "bad", op |-> 8, id |-> 0]
Scr == %s
'''
MC_CFG = '''SPECIFICATION MCSpec
CONSTANT Conns = {%s}
CONSTANT Fds = {5,6}
CONSTANT Script <- Scr
CONSTANT App = "%s"
CONSTANT Reply = "%s"
CONSTANT MayLeave = {%s}
CONSTANT MayShut = %s
INVARIANT MCInv
PROPERTY Settles
PROPERTY Exits
CHECK_DEADLOCK FALSE
'''


def model(chk, app, reply, leave='', shut='FALSE', scripts='(1 :> <<R, M(11), P(12), M(13)>>) @@ (2 :> <<R, M(21), CL>>)', conns='1,2'):
    t = tla.must(tla.run('ServerMC', MC_CFG % (conns, app, reply, leave, shut), MC_EXTRA % scripts, workers=8, heap='10g', timeout=850), 'ServerMC')
    chk.tlc(t)
    chk.count('model_states', t.distinct)


# ------------------------------------------------------------ workloads
def rnd_payload(rng, tag, big=0):
    n = rng.choice((0, 1, 3, 10, 30, 49, 50, 51, 125, 126, 200)) if not big else rng.choice((100, 1000, 5000, 20000))
    if n == 0 and rng.random() < 0.5:
        return b''
    b = ('%s:' % tag).encode()
    return (b + bytes(rng.choice(b'abcdefghijklmnop') for _ in range(max(0, n - len(b)))))


class Gen:
    def __init__(self, rng, bdir):
        self.rng, self.bdir, self.ncid = rng, bdir, 0

    def cid(self):
        self.ncid += 1
        return self.ncid - 1

    def talk(self, x, n, k, commands=True, cross=True, fds=(106, 107, 108), big=False, waits=True):
        """n random items on the open connection of client x"""
        rng = self.rng
        parts = []
        for m in range(n):
            r = rng.random()
            if r < 0.42 or not commands:
                if r < 0.08:
                    parts += x.part_ping(('p%d.%d' % (k, m)).encode())
                else:
                    parts += x.part_msg(rnd_payload(rng, 'm%d.%d' % (k, m), big and rng.random() < 0.3), rng.choice((1, 2)), rng.choice((1, 1, 2, 3)),
                                        ('q%d.%d' % (k, m)).encode() if rng.random() < 0.2 else None)
            elif r < 0.55:
                parts += x.part_ping(('p%d.%d' % (k, m)).encode() * rng.choice((1, 1, 5)))
            elif r < 0.7:
                sz = rng.choice((0, 5, 49, 50, 51, 120, 400)) if not big else rng.choice((400, 3000, 20000))
                parts += x.part_msg(b'!R%d,%d,%d' % (rng.choice((1, 2, 3)), sz, 1 + (k * 37 + m) % 900))
            elif r < 0.75:
                parts += x.part_msg(b'!Pap%d.%d' % (k, m))
            elif r < 0.95 and cross:
                if rng.random() < 0.5:
                    parts += x.part_msg(b'!B b%d.%d ' % (k, m) + b'x' * rng.choice((0, 10, 60)))
                else:
                    parts += x.part_msg(b'!T%d,t%d.%d' % (rng.choice(fds), k, m))
            else:
                parts += x.part_msg(b'!N')
        # send in groups, each cut into segments
        while parts:
            g = rng.randrange(1, len(parts) + 1)
            x.many(parts[:g], rng.choice((1, 1, 2, 3)))
            parts = parts[g:]
            if waits and rng.random() < 0.25:
                x.op('waitfr', rng.randrange(1, 4))

    def end(self, x, kinds=('close', 'appclose', 'fin', 'rst', 'half', 'bad', 'open', 'closefin', 'late')):
        k = self.rng.choice(kinds)
        if k == 'close':
            x.close(self.rng.choice((0, 1000, 1001, 3999))).op('waiteof').op('close')
        elif k == 'closefin':
            x.close(1000).op('close')
        elif k == 'late':       # data behind the close frame
            x.many(x.part_close(1001) + x.part_msg(b'late') + x.part_ping(b'late')).op('waiteof').op('close')
        elif k == 'appclose':
            x.msg(b'!X%d' % self.rng.choice((1000, 1001, 4000)))
            if self.rng.random() < 0.5:
                x.msg(b'after')
            x.op('waiteof').op('close')
        elif k == 'bad':
            x.many(x.part_bad()).op('waiteof').op('close')
        elif k == 'open':
            pass
        else:
            x.op({'fin': 'close'}.get(k, k))
        return k


def jobs_churn(g, n, sig=False, mode='mix', frames=(50, 1 << 20)):
    """clients coming and going, using all of the features"""
    rng = g.rng
    out = []
    for st in server.strategies(rng, n):
        g.ncid = 0
        cl = []
        frame = rng.choice(frames)
        nc = rng.choice((1, 2, 2, 3, 3, 4))
        for p in range(nc):
            x = server.Client(p, rng.randrange(1 << 30))
            x.limit = frame
            for rep in range(rng.choice((1, 1, 2, 3))):
                c = g.cid()
                x.conn(c)
                if rng.random() < 0.1:       # a client that goes away before its handshake is complete
                    x.raw(b'GET / HTTP/1.1\r\nHost: x\r\n')
                    x.op(rng.choice(('close', 'rst', 'half')))
                    continue
                bad = rng.random() < 0.1
                if bad:
                    x.req('/bad%d' % c, ok=False, chunks=rng.choice((1, 3)))
                    if rng.random() < 0.5:
                        x.op('close')
                        continue
                x.req('/p%d' % c, rng.choice(('', 'k=%d' % c)), chunks=rng.choice((1, 1, 2, 4)))
                if bad:
                    x.op('idle')
                g.talk(x, rng.choice((0, 1, 3, 5)), c, fds=(106, 107, 108, 109), waits=not bad)
                if rng.random() < 0.5:
                    x.op('idle')
                e = g.end(x)
                if e == 'open':
                    break
            cl.append(x)
        if sig:
            s = server.Client(60)
            s.lines = ['60 log s'] * rng.choice((0, 0, 1, 5, 10, 20, 40, 80))
            if rng.random() < 0.2:
                s.lines.append('60 idle')
            s.lines.append('60 sig INT')
            cl.append(s)
        cfg = vp.config(size={'frame': frame, 'buffer': rng.choice((16, 64, 4096))}, pool={'workers': rng.choice((1, 2, 4))},
                        subprotocols=[vp.plug(g.bdir, 'rec', 'mode=' + mode + rng.choice(('', ';greet=1')))])
        out.append((cl, st, cfg, 'signal' if sig else 'churn'))
    return out


def jobs_write(g, n, abrupt=0.0):
    """partial writes, full socket buffers, several senders; abrupt: clients
    that go away with output pending"""
    rng = g.rng
    out = []
    for st in server.strategies(rng, n):
        g.ncid = 0
        cl = []
        frame = rng.choice((20, 50, 50, 1000, 1 << 20))
        nc = rng.choice((1, 2, 3))
        for p in range(nc):
            x = server.Client(p, rng.randrange(1 << 30))
            x.limit = frame
            c = g.cid()
            x.conn(c).req('/p%d' % c)
            x.op('bar', 1, nc)
            r = rng.random()
            if r < 0.5:
                x.op('wlim', ','.join(str(rng.choice((0, 0, 1, 1, 2, 3, 5, 9, 20, 49, 52, 100))) for _ in range(rng.choice((3, 10, 40)))))
            capped = rng.random() < 0.5
            if capped:
                x.op('cap', rng.choice((0, 1, 2, 3, 10, 60, 200)))
            g.talk(x, rng.choice((2, 4, 6)), c, big=rng.random() < 0.3, waits=not capped)
            if capped and rng.random() < abrupt:
                if rng.random() < 0.8:
                    x.op('idle')
                g.end(x, ('close', 'closefin', 'fin', 'rst', 'half', 'bad'))
                cl.append(x)
                continue
            if capped:
                for _ in range(rng.choice((0, 1, 3))):
                    x.op('idle').op('drain', rng.choice((1, 2, 3, 10, 55, 100)))
                if rng.random() < 0.5:
                    x.op('idle')
                if rng.random() < 0.85:
                    x.op('drain', -1)
            x.op('idle')
            g.end(x, ('close', 'fin', 'appclose', 'open', 'open', 'bad'))
            cl.append(x)
        cfg = vp.config(size={'frame': frame, 'buffer': rng.choice((64, 4096)), 'payload': 1 << 20},
                        pool={'workers': rng.choice((1, 2, 4))}, timeouts={'read': -1, 'write': -1}, subprotocols=[vp.plug(g.bdir, 'rec', 'mode=mix')])
        out.append((cl, st, cfg, 'writes'))
    return out


def jobs_close(g, n):
    """small rings (their size counted, nothing is lost in them): closes by the
    client, by its own messages and by those of another one at any position of
    the ring, between data sent to it, with the output blocked or not"""
    rng = g.rng
    out = []
    for st in server.strategies(rng, n):
        g.ncid = 0
        cl = []
        ring = rng.choice((6, 7, 8, 11))
        nc = rng.choice((1, 1, 2))
        xs = []
        for p in range(nc):
            x = server.Client(p, rng.randrange(1 << 30))
            c = g.cid()
            x.conn(c).req('/p%d' % c)
            room = ring - 2
            xs.append(x)
            for m in range(rng.randrange(ring + 1)):
                x.msg(b'w%d.%d' % (c, m)).op('waitfr', m + 1)
            x.op('bar', 1, nc)
            blocked = rng.random() < 0.7
            if blocked:
                x.op('cap', rng.choice((0, 1, 3, 20)))
            elif rng.random() < 0.5:
                x.op('wlim', ','.join(str(rng.choice((0, 0, 1, 2, 5, 20))) for _ in range(12)))
            if p == 1:
                # the second client closes the first one, or sends to it
                room = 2
                for m in range(2):
                    if rng.random() < 0.3:
                        x.op('idle')
                    x.msg(b'!T106,t%d.%d' % (c, m) if rng.random() < 0.6 else b'!Y106,%d' % rng.choice((1000, 1001, 4000)))
            else:
                if nc == 2:
                    room -= 2
                parts, closes = [], rng.random() < 0.8
                at = rng.randrange(room) if closes else room
                m = 0
                while m < room:
                    if m == at:
                        parts += x.part_msg(b'!X%d' % rng.choice((1000, 1001, 4000)))
                        m += 1
                        continue
                    r = rng.random()
                    if r < 0.4:
                        k = rng.randrange(1, min(3, room - m) + 1)
                        if m < at < m + k:
                            k = at - m
                        parts += x.part_msg(b'!R%d,%d,%d' % (k, rng.choice((0, 5, 60)), 1 + (m * 31) % 900))
                        m += k
                    else:
                        parts += x.part_ping(b'p%d' % m) if r < 0.55 else x.part_msg(b'm%d.%d' % (c, m))
                        m += 1
                if not closes and rng.random() < 0.7:
                    parts += x.part_close(rng.choice((0, 1000, 3999))) + (x.part_msg(b'late') if rng.random() < 0.5 else [])
                x.many(parts, rng.choice((1, 1, 1, 2, 3)))
            if blocked:
                x.op('idle')
                for _ in range(rng.choice((0, 0, 1, 2))):
                    x.op('drain', rng.choice((1, 2, 3, 10))).op('idle')
                x.op('drain', -1)
            x.op('idle')
            x.op('close')
            cl.append(x)
        cfg = vp.config(size={'frame': 1000, 'buffer': 4096, 'ringbuffer': ring}, pool={'workers': rng.choice((1, 2, 4))}, timeouts={'read': -1, 'write': -1},
                        subprotocols=[vp.plug(g.bdir, 'rec', 'mode=mix')])
        out.append((cl, st, cfg, 'close'))
    return out


def jobs_bcast(g, n, sig=False):
    """the broadcast subprotocol of the repository"""
    rng = g.rng
    out = []
    for st in server.strategies(rng, n):
        g.ncid = 0
        cl = []
        frame = rng.choice((50, 1 << 20))
        nc = rng.choice((2, 3, 3, 4))
        sync = rng.random() < 0.5
        for p in range(nc):
            x = server.Client(p, rng.randrange(1 << 30))
            x.limit = frame
            for rep in range(rng.choice((1, 1, 2))):
                c = g.cid()
                x.conn(c).req('/p%d' % c, proto=b'wrap', chunks=rng.choice((1, 2)))
                if sync and rep == 0:
                    x.op('bar', 1, nc)
                capped = rng.random() < 0.25
                if capped:
                    x.op('cap', rng.choice((0, 5, 60)))
                elif rng.random() < 0.3:
                    x.op('wlim', ','.join(str(rng.choice((0, 1, 2, 5, 30))) for _ in range(10)))
                g.talk(x, rng.choice((1, 2, 4)), c, commands=False, waits=False)
                if capped:
                    x.op('idle')
                    if rng.random() < 0.7:
                        x.op('drain', -1)
                if rng.random() < 0.6:
                    x.op('idle')
                if g.end(x, ('close', 'fin', 'rst', 'half', 'open', 'bad', 'late')) == 'open':
                    break
            cl.append(x)
        if sig:
            s = server.Client(60)
            s.lines = ['60 log s'] * rng.choice((0, 5, 20, 60)) + ['60 sig INT']
            cl.append(s)
        cfg = vp.config(size={'frame': frame, 'buffer': rng.choice((32, 4096))}, pool={'workers': rng.choice((1, 2, 4))}, timeouts={'read': -1, 'write': -1},
                        subprotocols=[vp.plug(g.bdir, 'wrap', 'file=%s/broadcast.so' % g.bdir)])
        out.append((cl, st, cfg, 'broadcast'))
    return out


def jobs_crowd(g, sizes):
    """many clients of the broadcast subprotocol at once"""
    rng = g.rng
    out = []
    for nc, st in zip(sizes, server.strategies(rng, len(sizes))):
        g.ncid = 0
        cl = []
        for p in range(nc):
            x = server.Client(p, rng.randrange(1 << 30))
            c = g.cid()
            x.conn(c).req('/p%d' % c, proto=b'wrap')
            x.op('bar', 1, nc)
            if p in (0, nc // 2, nc - 1):
                x.op('idle')
                x.msg(b'hello from %d' % p, frags=rng.choice((1, 2)))
            elif p % 23 == 5:
                g.end(x, ('close', 'fin', 'rst'))
            cl.append(x)
        cfg = vp.config(size={'buffer': 4096}, pool={'workers': rng.choice((2, 4))}, timeouts={'read': -1, 'write': -1},
                        subprotocols=[vp.plug(g.bdir, 'wrap', 'file=%s/broadcast.so' % g.bdir)])
        out.append((cl, st + ['opt maxsteps 4000000'], cfg, 'crowd of %d' % nc))
    return out


def jobs_flood(g, n):
    """bursts beyond the queue, tiny pools, stalled and resetting neighbours"""
    rng = g.rng
    out = []
    for st in server.strategies(rng, n):
        g.ncid = 0
        cl = []
        frame = rng.choice((1 << 20,))
        nc = rng.choice((2, 4, 8, 12))
        for p in range(nc):
            x = server.Client(p, rng.randrange(1 << 30))
            x.limit = frame
            c = g.cid()
            x.conn(c).req('/p%d' % c, wait=rng.random() < 0.8)
            bully = p % 3 == 2
            if not x.lines[-1].endswith('waithttp'):
                x.op('waithttp')
            if bully:
                x.op('cap', rng.choice((0, 1, 40)))
            for m in range(rng.choice((2, 5, 8))):
                if rng.random() < 0.7:
                    x.msg(b'm%d.%d' % (c, m), chunks=rng.choice((1, 2)))
                elif rng.random() < 0.5:
                    x.ping(b'p%d.%d' % (c, m))
                else:
                    x.msg(b'!B b%d.%d' % (c, m))
            if bully:
                x.op(rng.choice(('rst', 'close', 'idle', 'idle')))
                if x.lines[-1].endswith('idle') and rng.random() < 0.5:
                    x.op('drain', -1)
            else:
                x.op('idle')
                x.msg(b'again%d' % c)
                x.op('idle')
                g.end(x, ('close', 'fin', 'open'))
            cl.append(x)
        cfg = vp.config(size={'buffer': rng.choice((16, 4096)), 'ringbuffer': 256}, pool={'workers': rng.choice((1, 1, 2, 3)), 'retries': rng.choice((0, 1, 5))}, timeouts={'read': -1, 'write': -1},
                        subprotocols=[vp.plug(g.bdir, 'rec', 'mode=mix')])
        out.append((cl, st, cfg, 'flood'))
    return out


def n(q, t):
    return t if vp.THOROUGH else q


def c07(chk):
    bdir = vp.build('rel')
    model(chk, 'any', 'all', scripts='(1 :> <<R, M(11)>>) @@ (2 :> <<R, M(21), CL>>)')
    if vp.THOROUGH:
        model(chk, 'any', 'all', scripts='(1 :> <<R, M(11), M(12)>>) @@ (2 :> <<R, M(21), P(22)>>)')
    g = Gen(random.Random(vp.SEED * 7919 + 7), bdir)
    server.run_all(chk, bdir, jobs_write(g, n(1500, 15000)) + jobs_churn(g, n(300, 3000)) + jobs_close(g, n(300, 3000)))


def c10(chk):
    bdir = vp.build('rel')
    model(chk, 'any', 'self', leave='2')
    g = Gen(random.Random(vp.SEED * 7919 + 10), bdir)
    server.run_all(chk, bdir, jobs_churn(g, n(1500, 15000)) + jobs_write(g, n(300, 3000), 1.0))


def c11(chk):
    bdir = vp.build('rel')
    model(chk, 'bcast', 'others', leave='')
    g = Gen(random.Random(vp.SEED * 7919 + 11), bdir)
    server.run_all(chk, bdir, jobs_crowd(g, n((18, 34, 66, 70, 70, 100), (10, 17, 18, 33, 34, 63, 64, 65, 66, 70, 70, 90, 120, 127))), app='bcast')
    server.run_all(chk, bdir, jobs_bcast(g, n(1500, 18000)), app='bcast')


def c12(chk):
    bdir = vp.build('rel')
    model(chk, 'any', 'all', leave='2', scripts='(1 :> <<R, M(11)>>) @@ (2 :> <<R, M(21)>>)')
    g = Gen(random.Random(vp.SEED * 7919 + 12), bdir)
    server.run_all(chk, bdir, jobs_flood(g, n(900, 9000)) + jobs_churn(g, n(400, 4000)) + jobs_write(g, n(300, 3000)))


def c16(chk):
    bdir = vp.build('rel')
    model(chk, 'bcast', 'others', leave='2', shut='TRUE', scripts='(1 :> <<R, M(11)>>) @@ (2 :> <<R, M(21)>>)')
    if vp.THOROUGH:
        model(chk, 'bcast', 'others', leave='2', shut='TRUE')
    g = Gen(random.Random(vp.SEED * 7919 + 16), bdir)
    server.run_all(chk, bdir, jobs_churn(g, n(1500, 15000), sig=True))
    server.run_all(chk, bdir, jobs_bcast(g, n(300, 3000), sig=True), app='bcast')
    # both servers at work
    import tls_checks
    server.run_all(chk, bdir, [tls_checks.over_tls(j, bdir, g.rng, g.rng.choice((1, .5, .5, 0))) for j in jobs_churn(g, n(400, 4000), sig=True)])
