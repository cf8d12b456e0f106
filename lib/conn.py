"""Replaying behaviours of spec/Conn.tla on the real server.

A case is what TLC printed: the frames of one connection (h), what the server has
to send (o), what the application has to get (d) and the final phase (p)."""
import json
import random

import tla
import vp
import ws

CFG = """SPECIFICATION Spec
INVARIANT Invariants
INVARIANT Emit
PROPERTY NothingAfterClose
CONSTANT Alphabet <- A
CONSTANT MaxFragments = %d
CONSTANT MaxSteps = %d
CONSTANT MaxAfter = %d
CHECK_DEADLOCK FALSE
"""
EMIT = 'Emit == Done => PrintT(<<"CASE", ToJson(Case)>>)\n'


def enumerate_cases(chk, alphabet, steps, after=1, frags=3, workers=4):
    t = tla.must(tla.run('Conn', CFG % (frags, steps, after), 'A == %s\n%s' % (alphabet, EMIT), workers=workers), 'Conn')
    chk.tlc(t)
    return t.cases


# Random behaviours. A random walk of Spec ends its connection within a few frames (most
# frames of a random alphabet are violations where they come), so a walk of SSpec may end it
# only after Least frames: every behaviour of SSpec is one of Spec.
SSPEC = """Least == %d
SNext == Next /\\ (phase' = "open" \\/ Len(hist') >= Least)
SSpec == Init /\\ [][SNext]_vars
"""


def simulate_cases(chk, alphabet, steps, num, seed, after=1, frags=3):
    seen, out = set(), []
    rng = random.Random(seed)
    for k, least in enumerate((0, steps // 2, steps - after)):
        t = tla.must(tla.run('Conn', (CFG % (frags, steps, after)).replace('SPECIFICATION Spec', 'SPECIFICATION SSpec'), 'A == %s\n%s%s' % (alphabet, EMIT, SSPEC % least), workers=1,
                             args=['-simulate', 'num=%d' % num, '-depth', str(steps + 1), '-seed', str(seed * 3 + k)]), 'Conn')
        ends = {}        # TLC prints every way in which a walk could have ended
        for c in t.cases:
            ends.setdefault(json.dumps(c['h'][:-1], sort_keys=True), []).append(c)
        for cs in ends.values():
            for c in rng.sample(cs, min(len(cs), 6)):
                s = json.dumps(c, sort_keys=True)
                if s not in seen:
                    seen.add(s)
                    out.append(c)
        chk.cov['states'] += sum(len(c['h']) for c in t.cases)
        chk.cov['transitions'] += sum(len(c['h']) for c in t.cases)
    return out


# ------------------------------------------------------------ concretisation
CHARS = ['\u00e9', '\u0080', '\u07ff', '\u0800', '\u20ac', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0001f600', '\U0010ffff']
BAD = [b'\xc0\x80', b'\xff', b'\xfe', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xe0\x80\x80', b'\xe0\x9f\xbf',
       b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xc1\xbf', b'\x80', b'\xbf', b'\xf8\x88\x80\x80\x80', b'\xc3(', b'\xe2\x82(', b'\xf0\x9f\x98(']


class Conc:
    """Concrete bytes of one case."""

    def __init__(self, case, rng, frame_limit, big=None):
        self.case = case
        self.frames = []         # wire bytes per frame
        self.pay = []            # payload bytes per frame
        ch = rng.choice(CHARS).encode()
        cut = rng.randrange(1, len(ch))
        self.H, self.L, self.X = ch[:cut], ch[cut:], rng.choice(BAD)
        for i, f in enumerate(case['h']):
            p = self._payload(f, i, rng, frame_limit, big)
            self.pay.append(p)
            mask = bytes(rng.randrange(256) for _ in range(4)) if f['mask'] else None
            self.frames.append(ws.frame(f['op'], p, 1 if f['fin'] else 0, f['rsv'], mask))
        self.expect_out = [self._out(o) for o in case['o']]
        self.expect_msg = [(m['op'], b''.join(self.pay[k - 1] for k in m['parts'])) for m in case['d']]
        self.late_msg = [(m['op'], b''.join(self.pay[k - 1] for k in m['parts'])) for m in case.get('l', [])]
        self.closed = case['p'] == 'closed'

    def _payload(self, f, i, rng, lim, big):
        if f.get('app'):
            a = f['app']
            if a == 'close':
                return b'!X%d' % f['code']
            return {'ping': b'!Pping%d' % i, 'reply': b'!R2,%d' % (7 + i), 'none': b'!N%d' % i}[a]
        b = b''
        for t in f['pay']:
            if t == 'len':      # a payload of exactly case['n'] bytes
                b += bytes(rng.randrange(256) for _ in range(self.case['n']))
            elif t == 'lit':    # these very bytes
                b += bytes(f['lit'])
            elif t == 'a':
                b += bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789 \x00\x7f') for _ in range(rng.choice((1, 1, 2, 5))))
            else:
                b += {'H': self.H, 'L': self.L, 'X': self.X}[t]
        if f['op'] == 8:
            if f['code'] == 0:
                h = b''
            elif f['code'] == 1:
                h = b'\x03'
            else:
                h = ws.close(f['code'])
            # nothing may follow an empty or one byte payload
            b = h + b if f['code'] > 1 else h
        elif f['pay'] and b[:1] == b'!':
            b = b'.' + b[1:]
        if f['size'] != 'n':
            n = {'lim': lim, 'over': lim + 1 + rng.choice((0, 0, 1, 57)), 'c125': 125, 'c126': 126}[f['size']]
            if f['op'] == 8 and len(b) < 2:
                b = ws.close(1000)
            b = b[:n] + b'z' * (n - len(b))
        return b

    def _out(self, o):
        if o['k'] == 'msg':
            return ('msg', o['op'], b''.join(self.pay[k - 1] for k in o['parts']))
        if o['k'] == 'gen':
            n = int(self.pay[o['parts'][-1] - 1].split(b',')[1])
            k = o['codes'][0]
            return ('msg', 2, pattern(n, k))
        if o['k'] == 'pong':
            return ('pong', self.pay[o['parts'][0] - 1])
        if o['k'] == 'ping':
            return ('ping', self.pay[o['parts'][-1] - 1][2:])
        if o['k'] == 'echo':
            c = self.case['h'][o['parts'][0] - 1]['code']
            return ('close', tuple([c] if c else [None, 1000]))
        return ('close', tuple(o['codes']))


def pattern(n, k):
    return bytes(97 + (i * 7 + k * 13 + (i >> 8)) % 26 for i in range(n))


# ------------------------------------------------------------ server output
class Bad(Exception):
    pass


def decode_out(data, ext=False):
    """Bytes the server sent after the handshake -> items; raises Bad when they
    are no well-formed sequence of server frames."""
    fr, rest = ws.parse_frames(data)
    if rest:
        raise Bad('trailing bytes that are no complete frame: %s' % rest[:40].hex())
    items, cur = [], None
    for f in fr:
        if f.masked:
            raise Bad('masked frame %r' % f)
        if f.longer:
            raise Bad('the length of %r takes more bytes than it needs' % f)
        if f.rsv and not ext:
            raise Bad('reserved bits in %r' % f)
        if f.op >= 8:
            if not f.fin or len(f.payload) > 125:
                raise Bad('fragmented or oversized control frame %r' % f)
            if f.op == 8:
                if len(f.payload) == 1:
                    raise Bad('close frame with one byte')
                code = int.from_bytes(f.payload[:2], 'big') if f.payload else None
                try:
                    f.payload[2:].decode()
                except UnicodeDecodeError:
                    raise Bad('close reason is not UTF-8 %r' % f.payload)
                items.append(('close', code))
            elif f.op == 9:
                items.append(('ping', f.payload))
            elif f.op == 10:
                items.append(('pong', f.payload))
            else:
                raise Bad('unknown opcode %r' % f)
        elif f.op == 0:
            if cur is None:
                raise Bad('continuation without a message %r' % f)
            cur[1].append(f.payload)
            if f.fin:
                items.append(('msg', cur[0], b''.join(cur[1])))
                cur = None
        elif f.op in (1, 2):
            if cur is not None:
                raise Bad('new message inside a fragmented one %r' % f)
            cur = (f.op, [f.payload])
            if f.fin:
                items.append(('msg', f.op, f.payload))
                cur = None
        else:
            raise Bad('unknown opcode %r' % f)
    if cur is not None:
        raise Bad('unfinished fragmented message')
    return items


def brief(items):
    return [tuple(('%s..(%d)' % (x[:24], len(x)) if isinstance(x, bytes) and len(x) > 40 else x) for x in it) for it in items]


def match(items, exp):
    if len(items) != len(exp):
        return False
    for a, b in zip(items, exp):
        if a[0] != b[0]:
            return False
        if a[0] == 'close':
            if a[1] not in b[1]:
                return False
        elif a != b:
            return False
    return True


# ------------------------------------------------------------ execution
SEGS = ('whole', 'frames', 'bytes', 'random', 'header')


def chunks(c, seg, rng):
    data = b''.join(c.frames)
    if seg == 'whole':
        return [data]
    if seg == 'frames':
        return list(c.frames)
    if seg == 'bytes':
        if len(data) > 200:
            return chunks(c, 'random', rng)
        return [data[i:i + 1] for i in range(len(data))]
    if seg == 'header':     # cut inside every frame header and payload
        r = []
        for f in c.frames:
            k = sorted({1, min(2, len(f)), rng.randrange(1, len(f)), len(f)})
            r += [f[a:b] for a, b in zip([0] + k, k) if b > a]
        return r
    cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.choice((1, 2, 3, 5))))) if len(data) > 1 else []
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)]) if b > a]


def script(batch, opts=()):
    """batch: list of list-of-chunks"""
    lines = list(opts)
    for i, ck in enumerate(batch):
        lines += ['%d conn %d' % (i, i), '%d send %s' % (i, ws.request(proto=b'rec').hex()), '%d waithttp' % i]
        for x in ck:
            lines += ['%d send %s' % (i, x.hex()), '%d idle' % i]
        lines += ['%d idle' % i, '%d close' % i]
    return '\n'.join(lines) + '\n'


def observe(run, cid):
    """(output items or Bad, messages, closed by server, callbacks) of one connection"""
    st, _, rest = ws.split_http(run.out(cid))
    o = {'status': st}
    try:
        o['items'] = decode_out(rest)
    except Bad as x:
        o['items'] = 'malformed: %s; raw %s' % (x, rest[:200].hex())
    fds, cur, msgs, cbs, closed, gone = {}, None, [], [], False, False
    for e in run.ev:
        k = e['e']
        if k == 'accept' and e['c'] == cid:
            cur = e['fd']
        elif k == 'fdclose' and cur is not None and e.get('fd') == cur:
            cur = None
        elif k == 'cclose' and e['c'] == cid:
            gone = True
        elif k == 'eof' and e['c'] == cid and not gone:
            closed = True
        elif cur is not None and e.get('fd') == cur:
            if k == 'msg':
                msgs.append((e['op'], bytes.fromhex(e['h'])))
            elif k in ('open', 'close'):
                cbs.append(k)
    o.update(msgs=msgs, closed=closed, cbs=cbs)
    return o


def verdict(c, o):
    """None or what is wrong"""
    if o['status'] != 101:
        return 'handshake refused (%s)' % o['status']
    if isinstance(o['items'], str):
        return o['items']
    if not match(o['items'], c.expect_out):
        return 'server sent %s instead of %s' % (brief(o['items']), brief(c.expect_out))
    n = len(c.expect_msg)
    if o['msgs'][:n] != c.expect_msg or o['msgs'][n:] != c.late_msg[:len(o['msgs']) - n]:
        return 'application got %s instead of %s' % (brief(o['msgs']), brief(c.expect_msg))
    if c.closed and not o['closed']:
        return 'connection not closed after the closing handshake'
    if c.case['p'] == 'open' and o['closed']:
        return 'connection closed by the server without a reason'
    if o['cbs'] != ['open', 'close']:
        return 'lifecycle callbacks %s' % o['cbs']
    return None


def replay(chk, bdir, cases, cfg, segs, seed, frame_limit, strat='seq', batch=16, extra=(), limit=4, wrap=None):
    """Replay every case under every segmentation; report mismatches."""
    rng = random.Random(seed)
    work = []
    wrap = wrap or (lambda x: x)
    for seg in segs:
        items = []
        for c in cases:
            k = Conc(c, rng, frame_limit)
            items.append((k, chunks(k, seg, rng)))
        for i in range(0, len(items), batch):
            opts = ['opt strat %s' % strat, 'opt seed %d' % rng.randrange(1 << 30)] + list(extra)
            work.append((seg, items[i:i + batch], opts))

    def one(w):
        seg, items, opts = w
        if chk.full():
            return
        sc = wrap(script([x[1] for x in items], opts))
        r = vp.run_sim(sc, cfg, bdir)
        bad = []
        for i, (k, ck) in enumerate(items):
            v = verdict(k, observe(r, i))
            if v or r.fatal:
                bad.append((i, v))
        if r.fatal and r.rc == -999:
            r = vp.run_sim(sc, cfg, bdir)
            if r.fatal and r.rc == -999:
                raise vp.MachineryError('simulation does not end')
            return one(w)
        chk.traces(len(items) if not bad else len(items) - len(bad))
        if not bad:
            return
        found = 0
        for i, v in bad:
            k, ck = items[i]
            s1 = wrap(script([ck], opts))
            r1 = vp.run_sim(s1, cfg, bdir)
            v1 = verdict(k, observe(r1, 0))
            if r1.fatal:
                v1 = 'server failed: %s (%s)' % (brief_fatal(r1), v1)
            if v1:
                found += 1
                chk.violation('frames %s, segments "%s": %s' % (desc(k), seg, v1),
                              {'script': s1, 'config': cfg, 'case': k.case, 'expected_out': brief(k.expect_out), 'expected_msgs': brief(k.expect_msg), 'why': v1})
                if found >= limit or chk.full():
                    return
        if not found:        # only together
            r2 = vp.run_sim(sc, cfg, bdir)
            for i, (k, ck) in enumerate(items):
                v = verdict(k, observe(r2, i))
                if r2.fatal:
                    v = 'server failed: %s (%s)' % (brief_fatal(r2), v)
                if v:
                    chk.violation('frames %s among %d connections, segments "%s": %s' % (desc(k), len(items), seg, v),
                                  {'script': sc, 'connection': i, 'config': cfg, 'case': k.case, 'why': v})
                    return
            raise vp.MachineryError('mismatch that does not repeat: %s' % bad[:2])

    vp.pmap(one, work)


def brief_fatal(r):
    f = r.fatal
    return json.dumps({k: f[k] for k in f if k in ('e', 'rc', 'sig', 'what', 'why')}) + ' ' + r.err[-300:].replace('\n', ' | ') if f else ''


def desc(k):
    s = []
    for f in k.case['h']:
        t = 'op%x' % f['op']
        t += '' if f['fin'] else '/nofin'
        t += '' if f['mask'] else '/unmasked'
        t += '/rsv%d' % f['rsv'] if f['rsv'] else ''
        t += '/' + f['size'] if f['size'] != 'n' else ''
        t += ':' + ''.join(f['pay']) if f['pay'] else ''
        t += '(%d)' % f['code'] if f['op'] == 8 else ''
        t += '<%s>' % f['app'] if f['app'] else ''
        s.append(t)
    return ' '.join(s)


def server_config(bdir, frame=200, fragmented=3, buffer=64, mode='mix', **kw):
    return vp.config(size={'frame': frame, 'fragmented': fragmented, 'buffer': buffer}, subprotocols=[vp.plug(bdir, 'rec', 'mode=' + mode)], **kw)
