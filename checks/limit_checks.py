"""C17: behaviours of spec/Limits.tla with sizes around every configured limit,
replayed on the real server."""
import random
import struct

import conn
import tla
import vp
import ws

CFG = """SPECIFICATION Spec
INVARIANT Exact
INVARIANT InOrder
INVARIANT Emit
CONSTANT ReqDeltas <- RD
CONSTANT FrameDeltas <- FD
CONSTANT MaxFragments = %d
CONSTANT MaxFrames = %d
CHECK_DEADLOCK FALSE
"""
EXTRA = 'RD == %s\nFD == %s\nEmit == Done => PrintT(<<"CASE", ToJson(Case)>>)\n'
FAR = (1 << 16, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) + 3, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 15, (1 << 64) - 5)


def cases(chk, rd, fd, frag, frames):
    t = tla.must(tla.run('Limits', CFG % (frag, frames), EXTRA % (rd, fd)), 'Limits')
    chk.tlc(t)
    return t.cases


class Setting:
    """concrete limits"""

    def __init__(self, frame=100, frag=3, uri=40, header=400, payload=30, buffer=64):
        self.frame, self.frag, self.uri, self.header, self.payload, self.buffer = frame, frag, uri, header, payload, buffer

    def config(self, bdir):
        return vp.config(size={'frame': self.frame, 'fragmented': self.frag, 'uri': self.uri, 'header': self.header, 'payload': self.payload, 'buffer': self.buffer},
                         subprotocols=[vp.plug(bdir, 'rec', 'mode=mix')])

    def request(self, r, rng):
        """bytes of a request with the given differences; a difference of 5
        stands for a lot"""
        far = lambda d: d if d < 5 else rng.choice((5, 50, 500, 5000))
        target = b'/' + bytes(rng.choice(b'abcdefgh0123456789-_') for _ in range(self.uri + far(r['u']) - 1))
        lines = [b'Host: x', b'Upgrade: websocket', b'Connection: Upgrade', b'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==', b'Sec-WebSocket-Version: 13', b'Sec-WebSocket-Protocol: rec']
        rng.shuffle(lines)
        rest = self.header + far(r['h']) - sum(map(len, lines))
        assert rest > 40
        k = 0
        while rest > 0:
            n = rest if rng.random() < 0.4 or rest < 30 else rng.randrange(8, rest - 8)
            name = b'X%d:' % k
            lines.insert(rng.randrange(len(lines) + 1), name + b'v' * (n - len(name)))
            rest -= n
            k += 1
        body = bytes(rng.choice(b'abcdef') for _ in range(max(0, self.payload + far(r['b']))))
        return b'GET ' + target + b' HTTP/1.1\r\n' + b'\r\n'.join(lines) + b'\r\n\r\n' + body


class Conc:
    def __init__(self, case, s, rng):
        self.case = case
        self.req = s.request(case['r'], rng) if not case['f'] else ws.request(proto=b'rec')
        self.frames, self.pay = [], []
        first = None
        out = []
        ok = True
        for i, f in enumerate(case['f']):
            n = s.frame + f['d']
            last = i == len(case['f']) - 1
            announced = None
            if f['k'] == 'ping' and s.frame > 125 and f['d'] <= 0:
                n = 125 + f['d']
            if f['d'] == 2:
                n = s.frame + rng.choice((2, 100))
                if f['head']:
                    announced = rng.choice([x for x in FAR if x > s.frame])
            p = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(max(0, n)))
            op = {'data': rng.choice((1, 2)), 'cont': 0, 'ping': 9}[f['k']]
            if f['k'] == 'data':
                first = op
            w = ws.frame(op, p, int(f['fin']), mask=bytes(rng.randrange(256) for _ in range(4)), lenform=None)
            if f['head']:
                hl = len(w) - len(p)
                if announced is not None:
                    w = bytes([w[0], 0x80 | 127]) + struct.pack('>Q', announced) + b'mask' + p
                    hl = 14
                if not p:
                    ok = False       # nothing is missing then
                w = w[:hl + rng.choice([0, 0, len(p) - 1, rng.randrange(0, max(1, len(p)))])]
            self.frames.append(w)
            self.pay.append(p)
            if f['k'] == 'ping' and not f['head'] and f['d'] <= 0:
                out.append((i + 1, ('pong', p)))
            f['op'] = first
        self.ok = ok
        self.msgs = [(case['f'][m[0] - 1]['op'], b''.join(self.pay[k - 1] for k in m)) for m in case['m']]
        out += [(m[-1], ('msg', o, b)) for m, (o, b) in zip(case['m'], self.msgs)]
        self.pongs = [x for _, x in sorted(out, key=lambda t: t[0]) if x[0] == 'pong']
        self.echo = [x for _, x in sorted(out, key=lambda t: t[0]) if x[0] == 'msg']


def chunks(k, seg, rng):
    if seg == 'whole':
        return [b''.join(k.frames)] if k.frames else []
    r = []
    for f in k.frames:
        if seg == 'frames' or len(f) < 2:
            r.append(f)
        else:
            cuts = sorted({rng.randrange(1, len(f)) for _ in range(rng.choice((1, 2)))} | ({1, 2} & set(range(1, len(f))) if seg == 'header' else set()))
            r += [f[a:b] for a, b in zip([0] + cuts, cuts + [len(f)])]
    return r


def verdict(k, s, run, cid):
    data = run.out(cid)
    st, _, rest = ws.split_http(data)
    want = k.case['s']
    if st not in want:
        return 'request with target %+d, header %+d, body %+d (of the limits) answered by %s instead of %s' % (k.case['r']['u'], k.case['r']['h'], k.case['r']['b'], st, want)
    if want != [101]:
        if b' 101 ' in data:
            return 'upgraded after having been refused'
        return None
    o = conn.observe(run, cid)
    if isinstance(o['items'], str):
        return o['items']
    fr, _ = ws.parse_frames(rest)
    for f in fr:
        if f.op < 3 and len(f.payload) > s.frame:
            return 'the server sent a frame of %d bytes, the limit is %d' % (len(f.payload), s.frame)
    its = o['items']
    cl = [x for x in its if x[0] == 'close']
    if k.case['p'] == 'closed':
        if cl != [('close', 1009)] or its[-1] != cl[0] or not o['closed']:
            return 'limit exceeded, but the connection was not closed with 1009: %s' % conn.brief(its)
    elif cl or o['closed']:
        return 'connection within all limits closed: %s' % conn.brief(its)
    if [x for x in its if x[0] == 'pong'] != k.pongs or [x for x in its if x[0] == 'msg'] != k.echo:
        return 'server sent %s instead of %s and %s' % (conn.brief(its), conn.brief(k.pongs), conn.brief(k.echo))
    if o['msgs'] != k.msgs:
        return 'application got %s instead of %s' % (conn.brief(o['msgs']), conn.brief(k.msgs))
    return None


def script(items, opts):
    lines = list(opts)
    for i, (k, ck) in enumerate(items):
        lines += ['%d conn %d' % (i, i), '%d send %s' % (i, k.req.hex()), '%d waithttp' % i]
        for x in ck:
            lines += ['%d send %s' % (i, x.hex()), '%d idle' % i]
        lines += ['%d idle' % i, '%d close' % i]
    return '\n'.join(lines) + '\n'


def describe(k):
    return ' '.join('%s%s%+d%s' % (f['k'], '' if f['fin'] else '/nofin', f['d'], '/header only' if f['head'] else '') for f in k.case['f']) or 'request'


def replay(chk, bdir, cs, s, segs, seed, batch=16):
    rng = random.Random(seed)
    cfg = s.config(bdir)
    work = []
    for seg in segs:
        items = []
        for c in cs:
            k = Conc({**c, 'f': [dict(f) for f in c['f']]}, s, rng)
            if k.ok:
                items.append((k, chunks(k, seg, rng)))
        for i in range(0, len(items), batch):
            work.append((seg, items[i:i + batch], ['opt strat seq', 'opt seed %d' % rng.randrange(1 << 30)]))

    def one(w):
        seg, items, opts = w
        if chk.full():
            return
        r = vp.run_sim(script(items, opts), cfg, bdir)
        bad = [i for i, (k, _) in enumerate(items) if verdict(k, s, r, i)]
        if r.fatal and not bad:
            bad = list(range(len(items)))
        chk.traces(len(items) - len(bad))
        for i in bad[:4]:
            s1 = script([items[i]], opts)
            r1 = vp.run_sim(s1, cfg, bdir)
            v = verdict(items[i][0], s, r1, 0)
            if r1.fatal:
                v = 'server failed: %s (%s)' % (conn.brief_fatal(r1), v)
            if v:
                chk.violation('limits frame %d fragments %d uri %d header %d body %d; %s, segments "%s": %s' % (s.frame, s.frag, s.uri, s.header, s.payload, describe(items[i][0]), seg, v),
                              {'script': s1, 'config': cfg, 'case': items[i][0].case, 'why': v})
                return
        if bad:
            r2 = vp.run_sim(script(items, opts), cfg, bdir)
            for i, (k, _) in enumerate(items):
                v = verdict(k, s, r2, i) or (r2.fatal and 'server failed: ' + conn.brief_fatal(r2))
                if v:
                    chk.violation('%s among others: %s' % (describe(k), v), {'script': script(items, opts), 'config': cfg, 'case': k.case, 'why': v})
                    return
            raise vp.MachineryError('mismatch that does not repeat')
    vp.pmap(one, work)


def replies(chk, bdir, s, seed):
    """messages of the application of all sizes around multiples of the limit"""
    rng = random.Random(seed)
    cfg = s.config(bdir)
    sizes = sorted({max(0, m * s.frame + d) for m in (0, 1, 2, 3, 7) for d in (-2, -1, 0, 1, 2)})
    lines = ['opt strat seq', 'opt seed %d' % seed]
    for i, n in enumerate(sizes):
        cmd = b'!R1,%d,%d' % (n, i)
        if len(cmd) > s.frame:
            return
        lines += ['%d conn %d' % (i, i), '%d send %s' % (i, ws.request(proto=b'rec').hex()), '%d waithttp' % i, '%d send %s' % (i, ws.frame(2, cmd).hex()), '%d idle' % i, '%d close' % i]
    sc = '\n'.join(lines) + '\n'
    r = vp.run_sim(sc, cfg, bdir)
    if r.fatal:
        chk.violation('server failed: ' + conn.brief_fatal(r), {'script': sc, 'config': cfg})
        return
    for i, n in enumerate(sizes):
        fr, rest = ws.parse_frames(ws.split_http(r.out(i))[2])
        want = max(1, -(-n // s.frame))
        ok = not rest and len(fr) == want and b''.join(f.payload for f in fr) == conn.pattern(n, i) and all(len(f.payload) <= s.frame for f in fr) \
            and [f.op for f in fr] == [2] + [0] * (want - 1) and [f.fin for f in fr] == [0] * (want - 1) + [1]
        if not ok:
            chk.violation('message of %d bytes with frame limit %d sent as %s' % (n, s.frame, fr[:6]), {'script': sc, 'config': cfg, 'connection': i})
            return
        chk.traces(1)


def pick(cs, n, seed):
    if n is None or len(cs) <= n:
        return cs
    return random.Random(seed).sample(cs, n)


def c17(chk):
    bdir = vp.build('rel')
    T = vp.THOROUGH
    reqs = cases(chk, '{-1,0,1,5}', '{}', 3, 0)
    chk.count('request_cases', len(reqs))
    for s in [Setting(), Setting(buffer=4096), Setting(uri=1, header=300, payload=0, buffer=16), Setting(uri=200, header=300, payload=1, buffer=1000),
              Setting(uri=4096, header=8192, payload=10, buffer=32768)]:
        rq = [c for c in reqs if not (s.payload + c['r']['b'] < 0 or s.uri + c['r']['u'] < 1)]
        for i in range(6 if T else 2):
            replay(chk, bdir, rq, s, ['whole'], vp.SEED * 100 + 7 * i + s.buffer)
    deep = cases(chk, '{0}', '{-1,0,1,2}', 3, 4 if not T else 5)
    flat = cases(chk, '{0}', '{-1,0,1,2}', 1, 3)
    two = cases(chk, '{0}', '{0,1,2}', 2, 4)
    chk.count('frame_cases', len(deep) + len(flat) + len(two))
    q = (lambda n: None) if T else (lambda n: n)
    none = [c for c in deep if all(not (f['k'] == 'ping' and f['d'] > 0) for f in c['f'])]
    z = vp.SEED * 1000
    replay(chk, bdir, pick(deep, q(2500), z + 1), Setting(frame=50, frag=3), ['whole', 'frames', 'random'], z + 1)
    replay(chk, bdir, pick(deep, q(600), z + 2), Setting(frame=124, frag=3, buffer=4096), ['whole', 'header'], z + 2)
    replay(chk, bdir, pick(none, q(600), z + 3), Setting(frame=125, frag=3), ['whole', 'random'], z + 3)
    replay(chk, bdir, pick(none, q(600), z + 4), Setting(frame=126, frag=3), ['whole', 'random'], z + 4)
    replay(chk, bdir, pick(flat, q(400), z + 5), Setting(frame=30, frag=1), ['whole', 'random'], z + 5)
    replay(chk, bdir, pick(two, q(600), z + 6), Setting(frame=1, frag=2), ['whole', 'frames'], z + 6)
    none2 = [c for c in two if all(not (f['k'] == 'ping' and f['d'] > 0) for f in c['f'])]
    replay(chk, bdir, pick(none2, 150 if not T else 1500, z + 7), Setting(frame=65535, frag=2, buffer=32768), ['whole', 'random'], z + 7, batch=6)
    replay(chk, bdir, pick(none2, 150 if not T else 1500, z + 8), Setting(frame=65536, frag=2, buffer=32768), ['whole', 'random'], z + 8, batch=6)
    for fr in (9, 50, 125, 126, 127, 1000, 65535, 65536):
        replies(chk, bdir, Setting(frame=fr), vp.SEED + fr)
    for c in (deep[0], deep[-1], reqs[0], reqs[-1]):
        chk.sample({'request': c['r'], 'frames': c['f'], 'status': c['s'], 'code': c['c']})
