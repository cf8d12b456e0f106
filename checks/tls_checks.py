"""C19: connections over TLS."""
import json
import random

import conn
import conn_checks
import hs
import server
import server_checks as sc
import tla
import vp
import ws

MODES = ('', '1.3', '1.3', '1.2', '1.3 TLS_CHACHA20_POLY1305_SHA256', '1.2 ECDHE-RSA-AES128-GCM-SHA256', '1.3 TLS_AES_128_GCM_SHA256')


def seg(rng):
    return rng.choice((0, 0, 0, -1400, -300, -40, 500, 64, 17))


def secure(cfg, bdir, **kw):
    return dict(cfg, setup=dict(cfg['setup'], port={'http': 80, 'https': 443}, ssl=vp.ssl(bdir, **kw)))


def over_tls(job, bdir, rng, share=1.0):
    """the same job with (part of) the clients on the port for TLS"""
    clients, opts, cfg, label = job
    for x in clients:
        L = []
        for l in x.lines:
            p = l.split(' ')
            if len(p) == 3 and p[1] == 'conn' and rng.random() < share:
                L += [l + ' 443', '%s tls %d -1 %s' % (p[0], seg(rng), rng.choice(MODES))]
            else:
                L.append(l)
        x.lines = L
    return clients, opts, secure(cfg, bdir), label + ' over TLS'


MC = '''SPECIFICATION %s
CONSTANTS
 Conns = {%s}
 Good = {%s}
 Refused = {%s}
 Silent = {%s}
 Sizes = {%s}
 MaxMsgs = %d
 MaxSteps = %d
 Least = %d
 Ends = {"wait","notify","noise","fin","rst"}
%sCHECK_DEADLOCK FALSE
'''
INV = 'INVARIANT Intact\nINVARIANT Complete\nINVARIANT Nothing\nPROPERTY Apart\nVIEW View\n'


def names(xs):
    return ','.join('"%s"' % x for x in xs)


# kinds of handshakes: what the client is told to do
GOOD = {'13': '1.3', '12': '1.2', 'chacha': '1.3 TLS_CHACHA20_POLY1305_SHA256', 'cert': '1.3 @client', 'cert12': '1.2 @client', 'aes256': '1.2 ECDHE-RSA-AES256-GCM-SHA384'}
REFUSED = {'old': '1.1', 'cipher': '1.2 ECDHE-RSA-AES128-GCM-SHA256', 'nocert': '1.3', 'nocert12': '1.2', 'stranger': '1.3 @stranger', 'stranger12': '1.2 @stranger'}
RAWS = ('http', 'junk', 'alert')


class World:
    """a configuration of the server and what it accepts"""

    def __init__(self, bdir, peer=False, only=False, **kw):
        s = {'cipher_list': 'ECDHE-RSA-AES256-GCM-SHA384'} if only else {}
        if peer:
            s['peer_cert'] = True
        self.good = ['cert', 'cert12'] if peer else ['13', 'aes256', 'chacha'] if only else ['13', '12', 'chacha', 'cert']
        self.refused = (['nocert', 'nocert12', 'stranger', 'stranger12'] if peer else ['cipher'] if only else []) + ['old'] + list(RAWS)
        self.silent = ['cut', 'cut12', 'clear']
        self.cfg = secure(vp.config(subprotocols=[vp.plug(bdir, 'rec', 'mode=mix')], **kw), bdir, **s)


SIZES = {'0': (0,), '1': (1, 2), '125': (125, 126, 127), '1400': (1300, 1400, 1500), '16k': (16383, 16384, 16385, 16370, 16380), '64k': (65535, 65536, 65600), 'big': (200000, 262144, 300001)}


def size(z, rng):
    return rng.choice(SIZES[z])


class Conc:
    """the clients of one history of spec/Tls.tla"""

    def __init__(self, case, rng, single=False, first=0, slow=False):
        self.case, self.rng, self.first, self.slow = case, rng, first, slow
        self.L = []
        self.exp = {}
        self.single = single
        st = {}
        for c, a, x in case['h']:
            x = x.strip('"')
            if a == 'open':
                s = st[c] = {'kind': x, 'asked': False, 'data': [], 'ms': [], 'echo': [], 'v13': '1.2' not in GOOD.get(x, '1.2'), 'good': case['r'][c - 1]['good']}
                self.open(c, s)
                continue
            s = st[c]
            if a == 'make':
                self.make(c, s, x)
            elif a == 'rec':
                d = b''.join(s['data'][:int(x)])
                del s['data'][:int(x)]
                if s['kind'] in GOOD or s['kind'] in REFUSED:
                    if d:
                        self.op(c, 'send', d.hex())
                    if s['good'] and not s['asked'] and not s['data']:
                        s['asked'] = True
                        self.op(c, 'waithttp')
                elif s['kind'] == 'http':
                    self.op(c, 'send', d.hex())
                if rng.random() < .3:
                    self.op(c, 'idle')
            elif a == 'update':
                if s['v13']:
                    self.op(c, 'keyupd')
            elif a == 'stall':
                self.op(c, 'cap', rng.choice((0, 1, 30, 500)))
            elif a == 'drain':
                for _ in range(rng.choice((0, 1, 2, 5))):      # not all at once
                    self.op(c, 'drain', rng.choice((1, 300, 4000, 16384, 16406, 20000, 40000)))
                    self.op(c, 'idle')
                self.op(c, 'drain', -1)
            elif a == 'end':
                self.end(c, s, x)
        for c, s in st.items():
            self.exp[c] = [None if m is None else m for m in s['ms']]

    def op(self, c, *a):
        n = self.first + c
        if self.single:
            p = self.first
            if a[0] not in ('conn', 'idle'):
                self.L.append('%d use %d' % (p, n))
        else:
            p = n
        self.L.append('%d %s' % (p, ' '.join(str(x) for x in a)))

    def open(self, c, s):
        r, k = self.rng, s['kind']
        n = self.first + c
        if k == 'clear':       # TLS where none is expected
            self.op(c, 'conn', n)
            self.op(c, 'tls', seg(r), -1, '1.3')
        else:
            self.op(c, 'conn', n, 443)
            if k in GOOD or k in REFUSED:
                self.op(c, 'tls', seg(r), -1, GOOD.get(k) or REFUSED[k])
            elif k in ('cut', 'cut12'):
                self.op(c, 'tls', seg(r), r.randrange(0, 330), '1.3' if k == 'cut' else '1.2')
            elif k == 'junk':
                self.op(c, 'send', (bytes([r.choice((0, 1, 23, 60, 255))]) + bytes(r.randrange(256) for _ in range(r.choice((30, 100, 3000))))).hex())
            elif k == 'http':
                self.op(c, 'send', r.choice((b'GET / HTTP/1.1\r\n', b'GET /chat HTTP/1.1\r\nHost: localhost\r\n\r\n')).hex())
            elif k == 'alert':
                self.op(c, 'send', '1503010002022' + r.choice('8af'))
            if s['good'] and self.slow:       # takes a record or some of it, and then nothing for a while
                self.op(c, 'wlim', ','.join(str(r.choice((0, 0, 1 << 20, 1 << 20, 100, 16406, 30000))) for _ in range(60)))
            elif s['good'] and r.random() < .4:
                self.op(c, 'wlim', ','.join(str(r.choice((0, 0, 1, 20, 1000, 1 << 20) if r.random() < .5 else (0, 1, 3, 20, 100, 1000))) for _ in range(r.choice((2, 5, 20, 60)))))
        if r.random() < .4:
            self.op(c, 'idle')

    def make(self, c, s, z):
        r = self.rng
        if z == 'req':
            d = ws.request(proto=b'rec')
            m = 'req'
        elif z == 'bye':
            d = ws.frame(8, ws.close(r.choice((1000, 1001, 3000))), mask=self.mask())
            m = 'bye'
        else:
            op = r.choice((1, 2))
            t = size(z, r)
            b = bytes(r.choice(b'abcdefghijklmnopqrstuvwxyz ') for _ in range(min(t, 977)))
            b = (b * (t // max(1, len(b)) + 1))[:t]
            m = (op, b)
            k = sorted(r.randrange(t + 1) for _ in range(r.choice((0, 0, 1, 2))))
            k = [0] + k + [t]
            d = b''.join(ws.frame(op if i == 0 else 0, b[x:y], int(i == len(k) - 2), mask=self.mask()) for i, (x, y) in enumerate(zip(k, k[1:])))
        s['ms'].append(m)
        x = r.randrange(1, len(d))
        s['data'] += [d[:x], d[x:]]

    def mask(self):
        return bytes(self.rng.randrange(256) for _ in range(4))

    def end(self, c, s, e):
        r = self.rng
        if e in ('notify', 'noise') or (s['good'] and e in ('fin', 'rst')):
            self.op(c, 'idle')
        if e == 'notify':
            self.op(c, 'tclose')
        elif e == 'noise':
            if s['kind'] in GOOD and not s['ms']:      # not before the handshake is done
                self.op(c, 'idle')
            self.op(c, 'raw', r.choice((b'\x17\x03\x03\x00\x40' + bytes(r.randrange(256) for _ in range(64)), b'GET / HTTP/1.1\r\n\r\n', bytes([r.choice((0, 9, 200))]) * 40, b'\x15\x03\x03\x00\x02\x02\x28')).hex())
        if e in ('wait', 'notify', 'noise'):
            self.op(c, 'waiteof')
            self.op(c, 'close')
        else:
            if r.random() < .3:
                self.op(c, 'idle')
            self.op(c, 'close' if e == 'fin' else 'rst')

    def verdict(self, c, run, over):
        """None or what is wrong with connection c"""
        x = self.case['r'][c - 1]
        n = self.first + c
        if x['good'] and x['a']:
            o = conn.observe(run, n)
            ms = [m for m in self.exp[c] if m not in ('req', 'bye')][:sum(1 for a in x['a'] if a > 0)]
            if not x['stalled']:
                if o['status'] != 101:
                    return 'no upgrade (%s)' % o['status']
                if isinstance(o['items'], str):
                    return o['items']
                exp = [('msg',) + m for m in ms] + ([('close', (1000, 1001, 3000))] if -1 in x['a'] else [])
                if not conn.match(o['items'], exp):
                    return 'the client got %s instead of %s' % (conn.brief(o['items']), conn.brief(exp))
            else:
                _, _, rest = ws.split_http(run.out(n))
                fr = ws.parse_frames(rest)[0]
                if not b''.join(m[1] for m in ms).startswith(b''.join(f.payload for f in fr if f.op < 8)):
                    return 'the client got other data'
            # who does not read may not be listened to
            if o['msgs'] != (ms[:len(o['msgs'])] if x['stalled'] else ms):
                return 'the application got %s instead of %s' % (conn.brief(o['msgs']), conn.brief(ms))
            if o['cbs'] != ['open', 'close']:
                return 'lifecycle callbacks %s' % o['cbs']
            if x['closed'] and not o['closed']:
                return 'the connection was not closed'
            return None
        out = run.out(n)
        while x['kind'] in RAWS and len(out) > 5 and out[0] == 21:     # alerts of the TLS
            out = out[5 + int.from_bytes(out[3:5], 'big'):]
        if out and x['kind'] != 'clear':
            return 'the client got %r' % run.out(n)[:60]
        o = conn.observe(run, n)
        if o['msgs'] or o['cbs']:
            return 'the application heard of it: %s %s' % (o['cbs'], conn.brief(o['msgs']))
        if x['closed'] and not o['closed']:
            return 'the connection was not closed'
        return None


def hist(chk, world, conns, msgs, steps, sizes, num=None, cap=None, seed=0, bad=True):
    a = (','.join(map(str, range(1, conns + 1))), names(world.good), names(world.refused if bad else ()), names(world.silent if bad else ()), names(sizes), msgs, steps, steps - 1 if num else 0, 'INVARIANT Emit\n')
    if num:
        t = tla.run('Tls', MC % (('HistSpec',) + a), workers=1, args=['-simulate', 'num=%d' % num, '-depth', str(4 + conns * (steps + 2)), '-seed', str(vp.SEED + seed)])
    else:
        t = chk.tlc(tla.must(tla.run('Tls', MC % (('HistSpec',) + a), workers=8), 'Tls histories'))
    cs = {json.dumps(c, sort_keys=True): c for c in t.cases}
    cs = [cs[k] for k in sorted(cs)]
    random.Random(vp.SEED).shuffle(cs)
    if num:      # most random walks are over soon: those in which much is said first, then some of any kind
        cs.sort(key=lambda c: -sum(len(x['a']) for x in c['r']))
        k = cap * 3 // 4
        cs = cs[:k] + random.Random(vp.SEED).sample(cs[k:], min(len(cs) - k, cap - k)) if len(cs) > k else cs
    return cs[:cap]


def describe(case):
    return ' '.join('%s:%s(%s)' % (c, a, x.strip('"')) for c, a, x in case['h'])


def replay(chk, bdir, world, cases, seed, batch=4, slow=False):
    rng = random.Random(seed)
    work = []
    for i in range(0, len(cases), batch):
        st = server.strategies(rng, 1)[0]
        work.append((cases[i:i + batch], rng.randrange(1 << 30), st))

    def build(cs, sd, st):
        r = random.Random(sd)
        ks = []
        first = 0
        L = ['opt giveup', 'opt maxwait 600000'] + st
        # one more connection at the end, that finds a server in order
        for c in cs:
            k = Conc(c, r, r.random() < .3, first, slow)
            first += len(c['r']) + 1
            ks.append(k)
            L += k.L
        L += ['400 bar 1 1', '400 idle', '400 conn 4000 443', '400 tls 0 -1 %s' % (GOOD[world.good[0]]), '400 send %s' % ws.request(proto=b'rec').hex(), '400 waithttp', '400 idle', '400 close']
        return ks, '\n'.join(L) + '\n'

    def run(w):
        ks, sc = build(*w)
        r = vp.run_sim(sc, world.cfg, bdir, timeout=120)
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end')
        bad = []
        for k in ks:
            for c in range(1, len(k.case['r']) + 1):
                v = k.verdict(c, r, None)
                if v:
                    bad.append((k, c, v))
        if not bad and ws.split_http(r.out(4000))[0] != 101:
            bad.append((ks[0], 0, 'a connection afterwards is not served'))
        if r.fatal:
            bad.append((ks[0], 0, 'server failed: %s' % conn.brief_fatal(r)))
        return bad, sc

    def one(w):
        if chk.full():
            return
        bad, sc = run(w)
        if not bad:
            chk.traces(len(w[0]))
            return
        chk.traces(len(w[0]) - len(set(id(k) for k, _, _ in bad)))
        for i, c in enumerate(w[0]):
            b1, s1 = run(([c], w[1] + i, w[2]))
            if b1:
                k, n, v = b1[0]
                chk.violation('TLS history %s: connection %d: %s' % (describe(c)[:600], n, v), {'script': s1, 'config': world.cfg, 'case': c, 'why': v})
                return
        again, sc = run(w)
        if not again:
            raise vp.MachineryError('mismatch that does not repeat: %s' % bad[0][2])
        k, n, v = again[0]
        chk.violation('%d TLS histories together, %s: connection %d: %s' % (len(w[0]), describe(k.case)[:400], n, v), {'script': sc, 'config': world.cfg, 'case': k.case, 'connection': k.first + n, 'why': v})
    vp.pmap(one, work)


def wrapper(seed):
    """a script with its connections over TLS"""
    def wrap(sc):
        rng = random.Random('%d %s' % (seed, sc[:4000]))
        L = []
        for l in sc.split('\n'):
            p = l.split(' ')
            L.append(l)
            if len(p) == 3 and p[1] == 'conn':
                L[-1] += ' 443'
                L.append('%s tls %d -1 %s' % (p[0], seg(rng), rng.choice(MODES)))
        return '\n'.join(L)
    return wrap


def c19(chk):
    t = vp.THOROUGH
    rng = random.Random(vp.SEED)
    bdir = vp.build('rel')
    # the specification
    for a in (('1', ['13', '12'], ['old'], ['cut'], ['s'], 3, 8 if t else 7), ('1,2', ['13'], ['old'], ['cut'], ['s'], 1, 3)) + ((('1,2', ['13', '12'], ['old'], ['cut'], ['s'], 1, 3),) if t else ()):
        x = chk.tlc(tla.must(tla.run('Tls', MC % ('Spec', a[0], names(a[1]), names(a[2]), names(a[3]), names(a[4]), a[5], a[6], 0, INV), workers=8, timeout=850), 'Tls'))
        chk.count('model_states', x.distinct)
    # its histories
    for i, (kw, buf) in enumerate((({}, 4096), ({'peer': True}, 1000), ({'only': True}, 16384), ({}, 64)) + ((({}, 100000), ({'peer': True}, 17)) if t else ())):
        w = World(bdir, size={'buffer': buf}, pool={'workers': (4, 1, 2)[i % 3]}, timeouts={'read': -1, 'write': -1}, **kw)
        one = hist(chk, w, 1, 2, 5, ('1', '16k'), cap=8000 if t else 500, seed=i) if i < 2 or t else []
        three = hist(chk, w, 3, 4, 10, list(SIZES) if buf >= 1000 else ['0', '1', '125', '1400', '16k'], num=60000 if t else 8000, cap=4000 if t else 250, seed=i)
        for c in (one + three)[:2]:
            chk.sample(describe(c))
        slow = hist(chk, w, 2, 4, 7, ['64k', 'big'] if buf >= 1000 else ['16k', '64k'], num=20000 if t else 4000, cap=1500 if t else 80, seed=20 + i, bad=False)
        chk.count('histories', len(one) + len(three) + len(slow))
        replay(chk, bdir, w, slow, vp.SEED + 20 + i, batch=1, slow=True)
        replay(chk, bdir, w, one, vp.SEED + i)
        replay(chk, bdir, w, three, vp.SEED + 10 + i, batch=2)
        if chk.full():
            return
    # the behaviours of one connection: every chunk a record
    C = conn_checks
    cfg = secure(conn.server_config(bdir), bdir)
    for alphabet, steps, cap in ((C.U(C.DATA, C.CTRL, C.OVER, C.APP), 3 if t else 2, 6000), (C.U(C.EMPTY, C.CTRL, C.LIM), 3 if t else 2, 6000)):
        cases = C.pick(sorted(conn.enumerate_cases(chk, alphabet, steps), key=json.dumps), cap if t else 500, vp.SEED)
        conn.replay(chk, bdir, cases, cfg, ['whole', 'frames', 'random', 'header'] if t else ['frames', 'random'], vp.SEED, 200, wrap=wrapper(vp.SEED))
        if chk.full():
            return
    cases = conn.simulate_cases(chk, C.U(C.DATA, C.EMPTY, C.CTRL, C.LIM, C.APP), 14, 2000 if t else 150, vp.SEED, frags=6)
    conn.replay(chk, bdir, cases, secure(conn.server_config(bdir, fragmented=6), bdir), ['whole', 'random'], vp.SEED, 200, 'rand', wrap=wrapper(vp.SEED + 1))
    # requests of the handshake
    for cname in ('open', 'all'):
        cs = C.pick(sorted(hs.cases(chk, cname, 2 if t else 1, 1), key=json.dumps), 4000 if t else 250, vp.SEED)
        hs.replay(chk, bdir, cs, cname, ['whole', 'random', 'lines'] if t else ['random', 'lines'], vp.SEED, wrap=wrapper(vp.SEED + 2), adapt=lambda c: secure(c, bdir))
        if chk.full():
            return
    # many clients, part of them over TLS, decided by spec/Server.tla
    g = sc.Gen(rng, bdir)
    n = 2500 if t else 200
    jobs = sc.jobs_churn(g, n) + sc.jobs_write(g, 2 * n, .3) + sc.jobs_churn(g, n, sig=True) + sc.jobs_flood(g, n // 2)
    server.run_all(chk, bdir, [over_tls(j, bdir, rng, rng.choice((1, 1, .5))) for j in jobs])
    server.run_all(chk, bdir, [over_tls(j, bdir, rng, rng.choice((1, .5))) for j in sc.jobs_bcast(g, n)], app='bcast')
    chk.assumptions.append('the server is linked with the OpenSSL installed here, the clients use it too')
