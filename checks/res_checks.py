"""C21: what connections leave behind, histories of spec/Res.tla."""
import json
import os
import random
import re
import shutil
import zlib

import conn
import conn_checks
import hs
import server
import tla
import tls_checks
import vp
import ws

MC = '''SPECIFICATION %s
CONSTANTS
 Conns = {%s}
 MaxRaw = %d
 MaxWs = %d
 Uses = %d
%sCHECK_DEADLOCK FALSE
'''
INV = 'INVARIANT NothingLeft\nINVARIANT OnceShut\nINVARIANT Bound\nVIEW View\n'
TCFG = 'SPECIFICATION Spec\nINVARIANT Report\n%sCHECK_DEADLOCK FALSE\n'
EXTS = (None, b'permessage-deflate', b'permessage-deflate; client_max_window_bits, permessage-deflate',
        b'permessage-deflate; server_no_context_takeover; client_no_context_takeover; server_max_window_bits=10',
        b'xa; ok, permessage-deflate, xb', b'xb, xa; bad, permessage-deflate; server_max_window_bits=9', b'permessage-deflate; bad, xa;ok, unknown; a=b, permessage-deflate, xa; ok=2, xb; y')
ENDS = ('fin', 'rst', 'half', 'wrerr', 'timeout', 'wait')
RAW = {
    'version': lambda r: ws.request(proto=b'rec', version=12),
    'key': lambda r: ws.request(proto=b'rec', key=b'short'),
    'method': lambda r: ws.request(proto=b'rec').replace(b'GET', b'POST', 1),
    'uri': lambda r: ws.request(b'/' + b'a' * r.randrange(600, 2000), proto=b'rec'),
    'header': lambda r: ws.request(proto=b'rec', extra=[b'X-%d: ' % i + b'y' * 190 for i in range(r.randrange(12, 40))]),
    'payload': lambda r: b'GET / HTTP/1.1\r\nHost: localhost\r\nContent-Length: 5000\r\n\r\n' + b'z' * 5000,
    'garbage': lambda r: r.choice((b'\0\1\2\r\n\r\n', b'GET\r\n\r\n', b'GET / HTTP/1.1\r\nHost localhost\r\n\r\n',
                                   b'GET / HTTP/1.1\r\nHost: localhost\r\nSec-WebSocket-Extensions: permessage-deflate\r\nSec-WebSocket-Protocol: rec\r\nCookie: a=b\r\nbroken\r\r\n\r\n')),
    'icon': lambda r: b'GET /favicon.ico HTTP/1.1\r\nHost: localhost\r\nCookie: x=1\r\n\r\n',
}


def deflated(text):
    z = zlib.compressobj(6, zlib.DEFLATED, -15)
    return (z.compress(text) + z.flush(zlib.Z_SYNC_FLUSH))[:-4]


class Prog:
    """One client program: the steps of connections, one after another."""

    def __init__(self, pid, rng):
        self.pid, self.rng, self.L = pid, rng, []

    def op(self, *a):
        self.L.append('%d %s' % (self.pid, ' '.join(str(x) for x in a)))

    def send(self, data, cut=None):
        r = self.rng
        if cut or len(data) > 1 and r.random() < .25:
            k = r.randrange(1, len(data))
            self.op('send', data[:k].hex())
            if r.random() < .5:
                self.op('idle')
            data = data[k:]
        self.op('send', data.hex())
        if r.random() < .35:
            self.op('idle')

    def step(self, a):
        r = self.rng
        if isinstance(a, bytes):
            self.send(a)
        elif a == 'line':
            self.send(b'GET /x HTTP'[:r.randrange(1, 12)])
        elif a == 'head':
            q = ws.request(proto=b'rec', ext=r.choice((None, b'permessage-deflate')), extra=[b'Cookie: abc=def', b'Origin: http://localhost'])
            self.send(q[:r.randrange(q.find(b'\r\n') + 2, len(q))])
        elif a == 'body':
            self.send(b'GET / HTTP/1.1\r\nHost: localhost\r\nContent-Length: 400\r\n\r\n' + b'z' * r.randrange(400))
        elif a in RAW:
            self.send(RAW[a](r))
        elif a in ('plain', 'ext'):
            e = None if a == 'plain' else r.choice(EXTS[1:])
            self.send(ws.request(r.choice((b'/a', b'/room7', b'/a?b=c')), proto=r.choice((b'rec', b'x, rec')), ext=e, extra=[b'Cookie: a=b'] if r.random() < .5 else []))
            if r.random() < .9:
                self.op('waithttp')
        elif a == 'msg':
            n = r.randrange(3)
            t = b'm' * r.choice((0, 1, 50, 126, 200))
            if n:
                c = sorted(r.randrange(len(t) + 1) for _ in range(n))
                self.send(b''.join(ws.frame(1 if i == 0 else 0, t[x:y], int(i == n)) for i, (x, y) in enumerate(zip([0] + c, c + [len(t)]))))
            else:
                self.send(ws.frame(r.choice((1, 2)), t))
        elif a == 'zip':
            self.send(ws.frame(1, deflated(b'text of a message ' * r.randrange(1, 9)), rsv=4))
        elif a == 'frag':
            self.send(ws.frame(1, b'f' * r.choice((0, 5, 150)), fin=0) + (ws.frame(0, b'g', fin=0) if r.random() < .3 else b''))
        elif a == 'zipfrag':
            self.send(ws.frame(1, deflated(b'some more text ' * 4)[:8], fin=0, rsv=4))
        elif a == 'rest':
            self.send(ws.frame(0, b'', fin=1))
        elif a == 'ping':
            self.send(ws.frame(9, b'p' * r.choice((0, 4, 125))))
        elif a == 'hdr':
            f = ws.frame(1, b'x' * 150)
            self.send(f[:r.randrange(1, 8)])
        elif a == 'pay':
            f = ws.frame(r.choice((1, 2, 8, 9)), b'x' * 100)
            self.send(f[:r.randrange(10, len(f))])
        elif a == 'stall':
            self.op('cap', r.choice((0, 1, 100)))
            self.send(ws.frame(1, b'!R%d,%d' % (r.randrange(1, 8), r.choice((3, 100, 190)))))
        elif a == 'drain':
            self.op('drain', -1)
        elif a == 'tell':
            self.send(ws.frame(1, b'!Bto all the others'))
        elif a == 'opcode':
            self.send(ws.frame(3, b'x'))
        elif a == 'utf8':
            self.send(ws.frame(1, b'abc\xff\xfe'))
        elif a == 'stray':
            self.send(ws.frame(0, b'x'))
        elif a == 'large':
            self.send(ws.frame(2, b'x' * 300))
        elif a == 'many':
            self.send(ws.frame(0, b'x', fin=0) * 6)
        elif a == 'rsv':
            self.send(ws.frame(1, b'x', rsv=1))
        elif a == 'appclose':
            self.send(ws.frame(1, b'!X%d' % r.choice((1000, 3000))))
        elif a == 'close':
            self.send(ws.frame(8, r.choice((b'', ws.close(1000), ws.close(3999, b'bye')))))
        elif a == 'half':
            self.op('half')
            self.op('waiteof')
            self.op('close')
        elif a == 'wrerr':
            self.op('wrerr', r.choice((32, 104)))
            self.send(ws.frame(1, b'write to nobody'))
            self.op('waiteof')
            self.op('close')
        elif a == 'timeout':
            self.op('sleep', 9000)
            self.op('waiteof')
            self.op('close')
        elif a == 'wait':
            self.op('waiteof')
            self.op('close')
        elif a == 'fin':
            self.op('close')
        elif a == 'rst':
            self.op('rst')
        else:
            raise KeyError(a)


def offering(raw, rng):
    """with an offer of extensions somewhere among the headers"""
    if rng.random() < .4:
        return raw
    head = raw.split(b'\r\n\r\n')[0].split(b'\r\n')
    if len(head) < 2:
        return raw
    k = rng.randrange(1, len(head) + 1)
    return b'\r\n'.join(head[:k] + [b'Sec-WebSocket-Extensions: ' + rng.choice((b'permessage-deflate', b'permessage-deflate; server_max_window_bits=9', b'x, permessage-deflate; bad'))] + head[k:]) + raw[len(b'\r\n'.join(head)):]


def others(bdir):
    """extensions that do nothing; one wants a parameter ok and answers p=1"""
    d = os.path.join(vp.scratch(), 'others')
    os.makedirs(d, exist_ok=True)
    for n in 'xa', 'xb':
        shutil.copy(os.path.join(bdir, 'xt.so'), os.path.join(d, n + '.so'))
    return [{'file': os.path.join(d, n + '.so'), 'config': 'n=%s;t=%s;m=none;b=0;%s' % (n, n[1], c)} for n, c in (('xa', 'd=p;a=p=1'), ('xb', 'd=y;a=%s' % ('q' * 40)))]


def config(bdir, timeouts=False):
    cfg = vp.config(hosts=['localhost'], paths=['a', 'room[0-9]+'], queries=['b=c'],
                    size={'frame': 200, 'fragmented': 3, 'buffer': 64, 'uri': 500, 'header': 2000, 'payload': 1000, 'ringbuffer': 16},
                    subprotocols=[vp.plug(bdir, 'rec', 'mode=mix'), vp.plug(bdir, 'echo')], extensions=[vp.plug(bdir, 'permessage-deflate')] + others(bdir),
                    timeouts={'poll': 500, 'client': 1000, 'pings': 1} if timeouts else {}, favicon='config.json')
    return cfg


def opts(rng, strat=None):
    return ['opt giveup', 'opt maxwait 600000', 'opt maxsteps 30000000', 'opt strat %s' % (strat or rng.choice(('seq', 'rand', 'rand', 'pct'))), 'opt seed %d' % rng.randrange(1 << 30)]


class Job:
    """Histories repeated in cycles; confirm: whether a rise has to go on."""

    def __init__(self, hists, cycles, warm, seed, progs=5, confirm=False, strat=None, ci=0, tls=False):
        self.__dict__.update(locals())

    def script(self):
        rng = random.Random(self.seed)
        L = opts(rng, self.strat)
        P = min(self.progs, len(self.hists))
        self.scripts = None
        cid = 1
        one = rng.randrange(1 << 30)
        L += prelude()
        for y in range(self.cycles):
            # every cycle does the same
            r = random.Random(one)
            progs = [Prog(i + 1, r) for i in range(P)]
            if y == 0:
                for p in progs:
                    p.op('bar', 0, P + 1)
            for i, h in enumerate(self.hists):
                progs[i % P].rng = random.Random('%d %s' % (one, hdesc(h)))
                cid = play(h, progs[i % P], cid)
            for p in progs:
                p.op('bar', 2 * y + 1, P + 1)
                p.op('bar', 2 * y + 2, P + 1)
                L += p.L
            L += ['999 bar 0 %d' % (P + 1)] * (y == 0) + ['999 bar %d %d' % (2 * y + 1, P + 1), '999 idle', '999 log cycle', '999 bar %d %d' % (2 * y + 2, P + 1)]
        return self.joined(L)

    def joined(self, L):
        return '\n'.join(secured(L, random.Random(self.seed)) if self.tls else L) + '\n'

    def trace(self, r):
        ev = []
        last = None
        for e in r.ev:
            k = e['e']
            if k == 'accept':
                ev.append({'k': 'accept', 'c': e['c'], 'fd': e['fd']})
            elif k == 'fdclose':
                ev.append({'k': 'close', 'c': e['c'], 'fd': e['fd']})
            elif k == 'idle' and 'blk' in e:
                last = e
            elif k == 'mark' and e['m'] == 'cycle':
                ev.append(level('mark', last))
            elif k == 'end':
                ev.append(dict(level('end', e), n=0))
        if r.fatal:
            ev.append({'k': 'fatal'})
        return {'warm': self.warm, 'confirm': self.confirm, 'ev': ev}


def level(k, e):
    return {'k': k, 'blk': e['blk'], 'byt': e['byt'], 'fds': e['fds'], 'rfds': e['rfds'], 'thr': e['thr']}


def prelude():
    """what is kept once and for all (states of regular expressions, ...)"""
    L = []
    for i, (path, ext) in enumerate([(p, e) for p in (b'/a', b'/room3', b'/a?b=c') for e in EXTS]):
        L += ['999 conn %d' % (4950 + i), '999 send %s' % ws.request(path, proto=b'rec', ext=ext).hex(), '999 waithttp', '999 send %s' % ws.frame(1, b'x').hex(), '999 idle', '999 close', '999 idle']
    return L


def secured(L, rng):
    """the same over TLS"""
    how = '%d -1 %s' % (tls_checks.seg(rng), rng.choice(tls_checks.MODES))
    out = []
    for l in L:
        p = l.split(' ')
        if len(p) == 3 and p[1] == 'conn':
            out += [l + ' 443', '%s tls %s' % (p[0], how)]
        else:
            out.append(l)
    return out


def play(h, prog, cid):
    """the steps of a history of one (list of names) or more connections"""
    ids = {}
    for c, a in h:
        if a == 'conn':
            ids[c] = cid
            cid += 1
            prog.op('conn', ids[c])
            continue
        if isinstance(a, str) and a.startswith('conn:'):       # what is no handshake of TLS, or not all of it
            ids[c] = cid
            cid += 1
            prog.op('conn', ids[c], 443)
            k = a[5:]
            if k == 'junk':
                prog.op('send', bytes(prog.rng.randrange(256) for _ in range(40)).hex())
            elif k == 'http':
                prog.op('send', ws.request().hex())
            else:
                prog.op('tls', 0, *k.split(','))
            prog.op('idle')
            continue
        if len(ids) > 1:
            prog.op('use', ids[c])
        prog.step(a)
    return cid


class Stop(Job):
    """Histories without their ends, n and m times, and then the server stops."""

    def __init__(self, hists, times, seed, confirm=False, strat=None, ci=0, tls=False):
        self.__dict__.update(locals())

    def scripts(self):
        out = []
        for n in self.times:
            rng = random.Random(self.seed)
            L = opts(rng, self.strat)
            settle = rng.random() < .6
            L += prelude()
            pid, cid = 1, 1
            one = rng.randrange(1 << 30)
            for _ in range(n):
                r = random.Random(one)
                for h in self.hists:
                    p = Prog(pid, random.Random('%d %s' % (one, hdesc(h))))
                    p.op('bar', 0, n * len(self.hists) + 1)
                    cid = play(h, p, cid)
                    p.op('bar', 1, n * len(self.hists) + 1)
                    L += p.L
                    pid += 1
            L += ['999 bar 0 %d' % (n * len(self.hists) + 1), '999 bar 1 %d' % (n * len(self.hists) + 1)] + (['999 idle'] if settle else []) + ['999 shutdown']
            out.append(self.joined(L))
        return out

    def trace(self, rs):
        ev = []
        for n, r in zip(self.times, rs):
            for e in r.ev:
                k = e['e']
                if k == 'accept':
                    ev.append({'k': 'accept', 'c': e['c'], 'fd': e['fd']})
                elif k == 'fdclose':
                    ev.append({'k': 'close', 'c': e['c'], 'fd': e['fd']})
                elif k == 'end':
                    ev.append(dict(level('end', e), n=n))
            if r.fatal:
                ev.append({'k': 'fatal'})
        return {'warm': 0, 'confirm': self.confirm, 'ev': ev}


def execute(j, bdir, cfgs):
    sc = j.scripts() if isinstance(j, Stop) else [j.script()]
    cfg = cfgs[j.ci]
    rs = [vp.run_sim(s, cfg, bdir, timeout=300) for s in sc]
    for r in rs:
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end')
    return j.trace(rs if isinstance(j, Stop) else rs[0]), rs


def decide(chk, traces, batch=40):
    """-> for each trace whether TLC explains it"""
    groups = [list(range(i, min(i + batch, len(traces)))) for i in range(0, len(traces), batch)]

    def one(g):
        acc, t = tla.validate('ResTrace', [traces[i] for i in g], TCFG % '', workers=1)
        chk.tlc(t)
        return [g[i] for i in acc]
    ok = set(i for x in vp.pmap(one, groups) for i in x)
    return [i in ok for i in range(len(traces))]


def stuck(tr):
    acc, t = tla.validate('ResTrace', [tr], TCFG % 'INVARIANT Stuck\n', workers=1)
    m = re.search(r'<<"STUCK", 1, (\d+)>>', t.out)
    return int(m.group(1)) if m else 0


def summary(tr):
    L = ['%s: %d blocks %d bytes %d sockets %d files %d threads' % (e['k'], e['blk'], e['byt'], e['fds'], e['rfds'], e['thr']) for e in tr['ev'] if e['k'] in ('mark', 'end')]
    return ', '.join(L) if len(L) < 8 else ', '.join(L[:2] + ['... (%d)' % len(L), L[len(L) // 2], '...'] + L[-2:])


def hdesc(h):
    two = len(set(c for c, _ in h)) > 1
    h = [(c, a if isinstance(a, str) else repr(a if len(a) < 200 else a[:150] + b'...')) for c, a in h]
    return ' '.join(('%d:%s' % (c, a) if two else a) for c, a in h)


def run_jobs(chk, bdir, cfgs, jobs):
    """Screen; look closer at what rises; report what goes on rising."""
    def ex(j):
        return execute(j, bdir, cfgs)
    res = vp.pmap(ex, jobs)
    ok = decide(chk, [x[0] for x in res])
    chk.traces(sum(len(j.hists) for j, good in zip(jobs, ok) if good))
    chk.count('events', sum(len(x[0]['ev']) for x in res))
    for j, (tr, rs), good in zip(jobs, res, ok):
        if good or chk.full():
            continue
        # which of the histories
        k = stuck(tr)
        e = tr['ev'][k - 1] if k else {'k': '?'}
        fatal = [conn.brief_fatal(r) for r in rs if r.fatal]
        if e['k'] not in ('mark', 'end') or e['fds'] != 0:
            chk.violation('%s: event %d is not allowed: %s%s' % (hdesc(j.hists[0]) if len(j.hists) == 1 else '%d histories' % len(j.hists), k, json.dumps(e), ' (%s)' % fatal[0] if fatal else ''),
                          {'scripts': [r.script for r in rs], 'config': rs[0].cfg, 'event': e, 'histories': j.hists})
            continue
        def again(hs, strat, reps):
            if isinstance(j, Stop):
                return Stop(hs, (2, min(402, 500 // len(hs))), j.seed, True, strat, j.ci, j.tls)
            reps = min(reps, 4500 // (len(hs) * 2))
            return Job(hs, reps + 30, 30, j.seed, j.progs, True, strat, j.ci, j.tls)
        cand = [again([h], st, 300) for h in j.hists for st in ('seq', 'rand')]
        tries = vp.pmap(ex, cand)
        good = decide(chk, [x[0] for x in tries])
        bad = [(c, x) for c, x, g in zip(cand, tries, good) if not g][:3]
        if not bad:      # only together
            c = again(j.hists, j.strat, 150)
            x = ex(c)
            if not decide(chk, [x[0]])[0]:
                bad = [(c, x)]
        for c, (tr, rs) in bad:
            k = stuck(tr)
            fatal = [conn.brief_fatal(r) for r in rs if r.fatal]
            chk.violation('%s %s: %s%s' % ('server stopped with' if isinstance(c, Stop) else 'repeated', hdesc(c.hists[0]) if len(c.hists) == 1 else '%d histories' % len(c.hists), summary(tr)[:1200] if len(c.hists) else '', ' (%s)' % fatal[0] if fatal else ''),
                          {'scripts': [r.script for r in rs], 'config': rs[0].cfg, 'levels': [e for e in tr['ev'] if e['k'] in ('mark', 'end')], 'event': k, 'histories': c.hists})
            if chk.full():
                return


def c21(chk):
    t = vp.THOROUGH
    rng = random.Random(vp.SEED)
    bdir = vp.build('mem')
    cfgs = [config(bdir), config(bdir, True)]
    # the specification
    for a in ((2, 1, 2, 1), (1, 2, 3, 2)) if not t else ((2, 2, 2, 2), (1, 2, 4, 2)):
        x = chk.tlc(tla.must(tla.run('Res', MC % ('Spec', ','.join(str(i + 1) for i in range(a[0])), a[1], a[2], a[3], INV), workers=8, timeout=1200), 'Res'))
        chk.count('model_states', x.distinct)
    # histories
    x = tla.must(tla.run('Res', MC % ('HistSpec', '1', 1, 3 if t else 2, 1, 'INVARIANT Emit\n'), workers=8), 'Res histories')
    H = sorted(c['h'] for c in x.cases)
    chk.tlc(x)
    rng.shuffle(H)
    S = []
    for a in ((1, 2, 6, 1), (2, 1, 4, 1)):
        x = tla.run('Res', MC % ('HistSpec', ','.join(str(i + 1) for i in range(a[0])), a[1], a[2], a[3], 'INVARIANT Emit\n'), workers=1,
                    args=['-simulate', 'num=%d' % (6000 if t else 1200), '-depth', '24', '-seed', str(vp.SEED)])
        S += [list(map(tuple, c['h'])) for c in x.cases]
    S = sorted(set(map(tuple, S)))
    rng.shuffle(S)
    S = S[:4000 if t else 600]
    H = H[:12000 if t else 2000] + [list(map(list, h)) for h in S]
    late = [h for h in H if any(a == 'timeout' for _, a in h)]
    H = [h for h in H if not any(a == 'timeout' for _, a in h)]
    late = late[:2000 if t else 150]
    for h in H[:3]:
        chk.sample(hdesc(h))
    chk.count('histories', len(H) + len(late))
    G = 30
    jobs = [Job(H[i:i + G], 4, 2, rng.randrange(1 << 30)) for i in range(0, len(H), G)]
    jobs += [Job(late[i:i + G], 4, 2, rng.randrange(1 << 30), ci=1) for i in range(0, len(late), G)]
    # stopping at every stage
    pre = list(dict.fromkeys(tuple(map(tuple, h[:-1])) if rng.random() < .8 else tuple(map(tuple, h)) for h in H + late))
    pre = [p for p in pre if not any(a == 'timeout' for _, a in p)][:3000 if t else 800]
    chk.count('stages_at_stop', len(pre))
    jobs += [Stop(pre[i:i + G], (1, 3), rng.randrange(1 << 30)) for i in range(0, len(pre), G)]
    # over TLS
    cfgs.append(tls_checks.secure(cfgs[0], bdir))
    cfgs.append(tls_checks.secure(cfgs[1], bdir))
    A = rng.sample(H, min(len(H), 3000 if t else 300))
    for k in ('junk', 'http', '-1,1.1', '-1,1.2 ECDHE-RSA-CAMELLIA128-SHA256') + tuple('%d,%s' % (n, m) for m in ('1.3', '1.2') for n in (0, 1, 5, 6, 100, 200, 250, 300)):
        A += [[(1, 'conn:' + k), (1, e)] for e in ('fin', 'rst')]
    rng.shuffle(A)
    chk.count('histories', len(A))
    jobs += [Job(A[i:i + G], 4, 2, rng.randrange(1 << 30), ci=2, tls=True) for i in range(0, len(A), G)]
    B = rng.sample(late, min(len(late), 600 if t else 60))
    jobs += [Job(B[i:i + G], 4, 2, rng.randrange(1 << 30), ci=3, tls=True) for i in range(0, len(B), G)]
    B = rng.sample(pre, min(len(pre), 1000 if t else 120)) + [tuple(x[:1]) for x in A if x[0][1].startswith('conn:')]
    rng.shuffle(B)
    jobs += [Stop(B[i:i + G], (1, 3), rng.randrange(1 << 30), ci=2, tls=True) for i in range(0, len(B), G)]
    # the requests of the handshake and the frames of the connection model
    def more(ci, hists, cap):
        hists.sort(key=repr)
        rng.shuffle(hists)
        hists = hists[:cap]
        chk.count('histories', len(hists))
        for i in range(0, len(hists), G):
            jobs.append(Job(hists[i:i + G], 4, 2, rng.randrange(1 << 30), ci=ci))
    pmd = [vp.plug(bdir, 'permessage-deflate')] + others(bdir)
    for cname in ('open', 'all'):
        cfgs.append(hs.server_config(bdir, cname, favicon=True, extensions=pmd))
        hists = []
        for x in sorted(hs.cases(chk, cname, 2 if t else 1, 1), key=json.dumps):
            raws = [r.raw for r in hs.Conc(x, rng).reqs]
            hists.append([(1, 'conn')] + [(1, offering(r, rng)) for r in raws] + [(1, rng.choice(('fin', 'fin', 'rst', 'close')))])
            if hists[-1][-1][1] == 'close':
                hists[-1] += [(1, 'wait')]
        more(len(cfgs) - 1, hists, 6000 if t else 400)
    C = conn_checks
    cfgs.append(conn.server_config(bdir, extensions=pmd))
    for alphabet, steps in ((C.U(C.DATA, C.CTRL, C.OVER, C.APP), 2), (C.U(C.EMPTY, C.CTRL, C.LIM, C.OVER), 2)):
        hists = []
        for x in sorted(conn.enumerate_cases(chk, alphabet, 3 if t else steps), key=json.dumps):
            k = conn.Conc(x, rng, 200)
            hists.append([(1, 'conn'), (1, rng.choice(('plain', 'ext')))] + [(1, c) for c in conn.chunks(k, rng.choice(('whole', 'frames', 'random')), rng)] + [(1, rng.choice(('fin', 'rst', 'half', 'wait')))])
        more(len(cfgs) - 1, hists, 8000 if t else 500)
    run_jobs(chk, bdir, cfgs, jobs)
    chk.assumptions.append('sockets, epoll, threads and time are those of the simulator; memory is counted at malloc, with the allocator of the C library in place of rpmalloc')
