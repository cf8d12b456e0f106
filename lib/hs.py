"""Replaying behaviours of spec/Handshake.tla on the real server."""
import base64
import json
import random

import conn
import tla
import vp
import ws

URI, HEADER, PAYLOAD = 100, 1000, 300
HOSTS = ['localhost', 'example.org']
ORIGINS = ['http://localhost', 'https://example.org']
PATHS = ['chat', 'room[0-9]+', 'a/b/c']
QUERIES = ['token=[a-z]+', 'lang=en']

CFG = """SPECIFICATION Spec
INVARIANT Invariants
INVARIANT Emit
CONSTANT Config <- C
CONSTANT Dom <- D
CONSTANT MaxDev = %d
CONSTANT MaxRequests = %d
CHECK_DEADLOCK FALSE
"""
DOM = {
    'method': ['POST', 'HEAD', 'OPTIONS', 'get', 'GETX'],
    'target': ['relative', 'missing', 'long', 'limit', 'http', 'https', 'favicon', 'wsabs', 'wsabsport', 'listed', 'listedre', 'unlisted', 'listedprefix',
               'query', 'query2', 'badquery', 'badquery2', 'listedquery', 'wsother', 'wsport', 'wss'],
    'httpver': ['1.0', '2.0', 'lower', 'none', 'behind'],
    'host': ['other', 'absent', 'prefix'],
    'upgrade': ['absent', 'other', 'empty', 'case', 'list', 'longer'],
    'connection': ['absent', 'other', 'keepalive', 'empty', 'list', 'case', 'longer'],
    'key': ['absent', 'short', 'long', 'garbage', 'empty', 'dup', 'tail', 'unpadded', 'chars'],
    'version': ['8', '7', 'list', 'absent', '0', '6', '12', '14', 'text', 'dup', 'like13'],
    'origin': ['other', 'absent', 'secorigin', 'prefix'],
    'proto': ['none', 'unknown', 'unknownrec', 'rececho', 'recrec', 'twoheaders', 'echo', 'echorec', 'prefix'],
    'extra': ['cookie', 'unknown', 'decoy', 'bigheader', 'manyheaders', 'hugeheader', 'fullheader', 'bigbody', 'body'],
}
# configurations: which lists are given
CONFIGS = {
    'open': dict(hosts=0, origins=0, paths=0, queries=0, echo=1, favicon=0),
    'all': dict(hosts=1, origins=1, paths=1, queries=1, echo=1, favicon=0),
    'hosts': dict(hosts=1, origins=0, paths=0, queries=0, echo=1, favicon=0),
    'origins': dict(hosts=0, origins=1, paths=0, queries=0, echo=1, favicon=1),
    'paths': dict(hosts=0, origins=0, paths=1, queries=0, echo=0, favicon=0),
    'queries': dict(hosts=0, origins=1, paths=0, queries=1, echo=0, favicon=0),
}


def tset(xs):
    return '{%s}' % ', '.join('"%s"' % x for x in xs)


def cases(chk, cname, dev, requests, dom=None, sim=None):
    c = CONFIGS[cname]
    dom = dict({k: DOM[k] for k in DOM}, **(dom or {}))
    extra = 'C == [%s]\nD == [%s]\nEmit == Done => PrintT(<<"CASE", ToJson(Case)>>)\n' % (
        ', '.join('%s |-> %s' % (k, 'TRUE' if v else 'FALSE') for k, v in c.items()),
        ', '.join('%s |-> %s' % (k, tset(v)) for k, v in dom.items()))
    args = ['-simulate', 'num=%d' % sim, '-depth', str(requests + 1), '-seed', str(vp.SEED)] if sim else []
    t = tla.must(tla.run('Handshake', CFG % (dev, requests), extra, workers=1 if sim else 4, args=args), 'Handshake')
    if sim:
        chk.cov['states'] += len(t.cases)
        chk.cov['transitions'] += len(t.cases)
        u = {}
        for x in t.cases:
            u[json.dumps(x, sort_keys=True)] = x
        return list(u.values())
    chk.tlc(t)
    return t.cases


def server_config(bdir, cname, favicon=None, **kw):
    c = CONFIGS[cname]
    subs = [vp.plug(bdir, 'rec', 'mode=mix')] + ([vp.plug(bdir, 'echo')] if c['echo'] else [])
    cfg = vp.config(hosts=HOSTS if c['hosts'] else [], origins=ORIGINS if c['origins'] else [], paths=PATHS if c['paths'] else [], queries=QUERIES if c['queries'] else [],
                    size={'uri': URI, 'header': HEADER, 'payload': PAYLOAD, 'buffer': 256, 'frame': 1000}, subprotocols=subs, **kw)
    if c['favicon']:
        cfg['setup']['favicon'] = 'config.json'      # any file will do
    return cfg


def _case(rng, s):
    return rng.choice((s, s.lower(), s.upper(), ''.join(rng.choice((x.lower(), x.upper())) for x in s)))


class Req:
    """Concrete bytes of one request of the specification."""

    def __init__(self, r, rng, tls=False):
        self.r = r
        s, port = ('wss', 443) if tls else ('ws', 80)
        self.key = base64.b64encode(bytes(rng.randrange(256) for _ in range(16)))
        self.cookie = None
        path = {
            'root': '/', 'relative': rng.choice(('chat', '*', 'ftp://localhost/', 'localhost:80')), 'missing': '', 'http': rng.choice(('http://localhost/', 'HTTP://localhost/')), 'https': 'https://localhost/',
            'favicon': '/favicon.ico', 'wsabs': rng.choice((s + '://localhost/', s + '://example.org/')), 'wsabsport': '%s://localhost:%d/' % (s, port), 'listed': rng.choice(('/chat', '/a/b/c')),
            'listedre': '/room%d' % rng.randrange(1000), 'unlisted': rng.choice(('/other', '/Chat', '/room', '/roomx1', '/a/b', '/cha')), 'listedprefix': rng.choice(('/chat/', '/chatx', '/xchat', '/chat/chat', '/a/b/cd', '//chat')),
            'query': rng.choice(('/?token=abc', '/?lang=en')), 'query2': rng.choice(('/?token=abc&lang=en', '/?lang=en&token=z')), 'badquery': rng.choice(('/?token=ABC', '/?other=1', '/?token', '/?token=abc1')),
            'badquery2': rng.choice(('/?token=abc&other=1', '/?other=1&token=abc', '/?token=abc&')), 'listedquery': rng.choice(('/chat?token=abc', '/room1?lang=en', '/a/b/c?lang=en&token=abc')),
            'wsother': s + rng.choice(('://evil.org/', '://localhost.evil.org/', '://xlocalhost/')), 'wsport': '%s://localhost:%d/' % (s, port + 1), 'wss': ('ws' if tls else 'wss') + '://localhost/',
            'limit': '/' + 'p' * (URI - 1), 'long': '/' + 'p' * (URI + rng.choice((0, 0, 7))),
        }[r['target']]
        self.path = path
        ver = {'1.1': 'HTTP/1.1', '1.0': rng.choice(('HTTP/1.0', 'HTTP/1.10', 'HTTP/1.1x')), '2.0': 'HTTP/2.0', 'lower': 'http/1.1', 'none': '', 'behind': rng.choice(('HTTP/1.1 x', 'HTTP/1.1 HTTP/1.1', 'HTTP/1.1  1'))}[r['httpver']]
        self.line = ' '.join(x for x in (r['method'], path, ver) if x)
        h = []

        def add(name, val):
            sp = rng.choice((' ', ' ', ' ', '', '  ', '\t'))
            h.append('%s:%s%s%s' % (_case(rng, name), sp, val, rng.choice(('', '', '', ' ', '\t'))))
        v = {'ok': rng.choice(HOSTS), 'other': rng.choice(('evil.org', 'localhos', 'localhostx')), 'prefix': 'localhost.evil.org'}.get(r['host'])
        if v is not None:
            add('Host', v)
        v = {'ok': 'websocket', 'case': rng.choice(('WebSocket', 'WEBSOCKET', 'webSocket')), 'other': rng.choice(('h2c', 'websocke', 'TLS/1.0')), 'empty': '',
             'list': rng.choice(('websocket, h2c', 'h2c, websocket', 'h2c,WebSocket,TLS/1.0')), 'longer': rng.choice(('websockets', 'websocket/13', 'websocket2, h2c', 'xwebsocket', 'websocket h2c'))}.get(r['upgrade'])
        if v is not None:
            add('Upgrade', v)
        v = {'ok': 'Upgrade', 'case': rng.choice(('upgrade', 'UPGRADE')), 'list': rng.choice(('keep-alive, Upgrade', 'Upgrade, keep-alive', 'keep-alive,Upgrade', 'foo, upgrade ,bar')),
             'other': rng.choice(('close', 'upgrad')), 'keepalive': 'keep-alive', 'empty': '', 'longer': rng.choice(('Upgrades', 'upgrade-insecure', 'keep-alive, Upgrade2', 'xupgrade'))}.get(r['connection'])
        if v is not None:
            add('Connection', v)
        rb = lambda n: base64.b64encode(bytes(rng.randrange(256) for _ in range(n))).decode()
        odd, n = list(self.key.decode()), rng.choice((1, 1, 2, 6))     # as long as a key
        for i in rng.sample(range(22), n):
            odd[i] = rng.choice('=-_!. ,*@\x7f')
        v = {'chars': ''.join(odd), 'ok': self.key.decode(), 'dup': self.key.decode(), 'short': rb(rng.choice((1, 12, 15))), 'long': rb(rng.choice((17, 18, 32))), 'garbage': rng.choice(('!!!!', '****************', '-')), 'empty': '',
             'tail': self.key.decode() + rng.choice(('=', '!', 'AAAA', ' x', self.key.decode())), 'unpadded': self.key.decode()[:rng.choice((22, 23))]}.get(r['key'])
        if v is not None:
            add('Sec-WebSocket-Key', v)
            if r['key'] == 'dup':
                add('Sec-WebSocket-Key', rng.choice((v, rb(16))))
        v = {'list': '8, 13', 'dup': '13', 'text': rng.choice(('abc', 'thirteen')), 'absent': None, 'like13': rng.choice(('13abc', '013', '+13', '13.0', '13;', '13 8', '4294967309', '0x0d'))}.get(r['version'], r['version'])
        if v is not None:
            add('Sec-WebSocket-Version', v)
            if r['version'] == 'dup':
                add('Sec-WebSocket-Version', rng.choice(('13', '8')))
        v = {'ok': rng.choice(ORIGINS), 'secorigin': ORIGINS[0], 'other': rng.choice(('http://evil.org', 'http://localhos', 'localhost')), 'prefix': 'http://localhost.evil.org'}.get(r['origin'])
        if v is not None:
            add('Sec-WebSocket-Origin' if r['origin'] == 'secorigin' else 'Origin', v)
        for v in {'none': [], 'rec': ['rec'], 'unknown': ['bogus'], 'unknownrec': [rng.choice(('bogus, rec', 'bogus,rec', 'Rec, rec', 'bogus , foo,rec'))], 'rececho': ['rec, echo'], 'recrec': ['rec, rec'],
                  'twoheaders': ['bogus', 'rec'], 'echo': ['echo'], 'echorec': ['echo, rec'], 'prefix': [rng.choice(('re', 'recc', 'rec.so', 'REC'))]}[r['proto']]:
            add('Sec-WebSocket-Protocol', v)
        x = r['extra']
        self.body = ''
        if x == 'cookie':
            self.cookie = rng.choice(('a=b', 'session=0123456789abcdef; theme=dark'))
            add('Cookie', self.cookie)
        elif x == 'unknown':
            add('X-Forwarded-For', '10.0.0.1')
            add('User-Agent', 'test (a: b; c)')
        elif x == 'decoy':
            for n, v in rng.sample((('Sec-WebSocket-Keyx', 'abc'), ('Sec-WebSocket-Versio', '12'), ('Upgrades', 'h2c'), ('Connectio', 'close'), ('Hosts', 'evil.org'), ('Origi', 'http://evil.org'), ('X-Sec-WebSocket-Key', 'abc'),
                                    ('Cookie2', 'x=y')), 4):
                add(n, v)
        elif x == 'hugeheader':
            add('X-Huge', 'b' * (HEADER + URI + PAYLOAD + rng.choice((1, 300, 5000))))
        elif x == 'bigbody':
            self.body = 'B' * (PAYLOAD + rng.choice((1, 2, 50)))
        elif x == 'body':
            self.body = 'B' * PAYLOAD
        rng.shuffle(h)
        if x in ('fullheader', 'bigheader', 'manyheaders'):       # exactly the limit, or a little more
            k = 6 if x == 'manyheaders' else 1
            n = HEADER - sum(len(y) for y in h) - len('X-Pad: ') * k + (0 if x == 'fullheader' else rng.choice((1, 1, 2, 40)))
            for i in range(k):
                h.insert(rng.randrange(len(h) + 1), 'X-Pad: ' + 'f' * (n // k if i else n - (k - 1) * (n // k)))
        self.raw = ('\r\n'.join([self.line] + h) + '\r\n\r\n' + self.body).encode()


class Conc:
    def __init__(self, case, rng, tls=False):
        self.case = case
        self.reqs = [Req(r, rng, tls) for r in case['h']]
        self.whole_only = any(r['extra'] in ('bigbody', 'body') for r in case['h'])


def http_responses(data):
    """-> list of (status, headers[(name, value)], body), rest; raises conn.Bad"""
    out = []
    while data:
        k = data.find(b'\r\n\r\n')
        if k < 0:
            raise conn.Bad('incomplete HTTP response %r' % data[:80])
        lines = data[:k].split(b'\r\n')
        p = lines[0].split(b' ', 2)
        if len(p) < 3 or p[0] not in (b'HTTP/1.1', b'HTTP/1.0') or not p[1].isdigit():
            raise conn.Bad('malformed status line %r' % lines[0])
        hd = []
        for l in lines[1:]:
            n, sep, v = l.partition(b':')
            if not sep or not n or n.strip() != n or b'\0' in l:
                raise conn.Bad('malformed header line %r' % l)
            hd.append((n.lower().decode('latin1'), v.strip()))
        st = int(p[1])
        data = data[k + 4:]
        if st == 101:
            out.append((st, hd, b''))
            return out, data
        n = [v for a, v in hd if a == 'content-length']
        if len(n) != 1 or not n[0].isdigit():
            raise conn.Bad('no content length: %r' % lines)
        n = int(n[0])
        if len(data) < n:
            raise conn.Bad('body shorter than its content length (%d of %d)' % (len(data), n))
        out.append((st, hd, data[:n]))
        data = data[n:]
    return out, b''


HELLO = ws.frame(1, b'hello after upgrade') + ws.frame(9, b'ping')


def chunks(raw, seg, rng):
    if seg == 'whole':
        return [raw]
    if seg == 'bytes':
        return [raw[i:i + 1] for i in range(len(raw))]
    if seg == 'lines':
        p = raw.split(b'\n')
        return [x + b'\n' for x in p[:-1]] + ([p[-1]] if p[-1] else [])
    k = rng.choice((1, 2, 4))
    cuts = sorted(rng.sample(range(1, len(raw)), k))
    return [raw[a:b] for a, b in zip([0] + cuts, cuts + [len(raw)])]


def script(items, opts=(), hello=HELLO):
    """items: per connection, list of requests, each a list of chunks"""
    L = list(opts)
    for i, reqs in enumerate(items):
        L.append('%d conn %d' % (i, i))
        for ck in reqs:
            for x in ck:
                L += ['%d send %s' % (i, x.hex()), '%d idle' % i]
        L += ['%d send %s' % (i, hello.hex()), '%d idle' % i, '%d close' % i] if hello else ['%d close' % i]
    return '\n'.join(L) + '\n'


def observe(run, cid):
    o = {}
    try:
        o['http'], rest = http_responses(run.out(cid))
        o['items'] = conn.decode_out(rest)
    except conn.Bad as x:
        o['bad'] = str(x)
        return o
    cur, o['cb'] = None, []
    for e in run.ev:
        if e['e'] == 'accept' and e['c'] == cid:
            cur = e['fd']
        elif e['e'] == 'fdclose' and e.get('fd') == cur:
            cur = None
        elif cur is not None and e.get('fd') == cur and e['e'] in ('open', 'close', 'msg'):
            o['cb'].append((e['e'], e.get('path'), e.get('cookies')) if e['e'] == 'open' else (e['e'],))
    return o


def verdict(k, o, hello=True):
    if 'bad' in o:
        return o['bad']
    got = [h[0] for h in o['http']]
    ans = k.case['a']
    if len(got) < len(ans) or any(g not in a['status'] for g, a in zip(got, ans)):
        return 'answered %s instead of %s' % (got, [a['status'] for a in ans])
    up = k.case['u']
    if len(got) > len(ans) and not (k.whole_only or any(r.r['extra'] in ('hugeheader',) for r in k.reqs)) or (101 in got[len(ans):]):
        return 'more responses than requests: %s' % got
    if 101 in got and not up or up and got[-1] != 101:
        return 'upgraded without a valid request: %s' % got
    if up:
        r, hd = k.reqs[-1], o['http'][-1][1]
        names = [n for n, _ in hd]
        d = dict(hd)
        if any(names.count(n) > 1 for n in ('upgrade', 'connection', 'sec-websocket-accept', 'sec-websocket-protocol', 'sec-websocket-extensions')):
            return 'repeated header in %s' % names
        if d.get('upgrade', b'').lower() != b'websocket' or b'upgrade' not in d.get('connection', b'').lower():
            return 'upgrade headers missing: %s' % hd
        if d.get('sec-websocket-accept') != ws.accept_key(r.key):
            return 'accept key %s for key %s' % (d.get('sec-websocket-accept'), r.key)
        p = ans[-1]['proto']
        if d.get('sec-websocket-protocol', b'').decode('latin1') != p:
            return 'subprotocol %s instead of %r' % (d.get('sec-websocket-protocol'), p)
        if 'sec-websocket-extensions' in d:
            return 'extension not offered: %s' % d['sec-websocket-extensions']
        if hello and o['items'] != [('msg', 1, b'hello after upgrade'), ('pong', b'ping')]:
            return 'connection unusable after the upgrade: %s' % o['items']
        want = [('open', r.path, r.cookie or '(null)'), ('msg',), ('close',)] if p == 'rec' else []
        if not hello:
            want = [w for w in want if w[0] != 'msg']
        if o['cb'] != want:
            return 'callbacks %s instead of %s' % (o['cb'], want)
    else:
        if o['cb'] or o['items']:
            return 'callbacks %s without an upgrade' % o['cb']
        for st, hd, body in o['http']:
            if st == 426 and not any(n == 'upgrade' for n, _ in hd):
                return '426 without an upgrade header'
    return None


def desc(k):
    good = {'method': 'GET', 'target': 'root', 'httpver': '1.1', 'host': 'ok', 'upgrade': 'ok', 'connection': 'ok', 'key': 'ok', 'version': '13', 'origin': 'ok', 'proto': 'rec', 'extra': 'none'}
    return ' then '.join('{%s}' % ', '.join('%s=%s' % (a, r[a]) for a in sorted(r) if r[a] != good[a]) for r in k.case['h'])


def replay(chk, bdir, cs, cname, segs, seed, batch=20, strat='seq', extra=(), wrap=None, adapt=None, **kw):
    cfg = server_config(bdir, cname, **kw)
    cfg = adapt(cfg) if adapt else cfg
    wrap = wrap or (lambda x: x)
    rng = random.Random(seed)
    work = []
    for seg in segs:
        items = []
        for c in cs:
            k = Conc(c, rng, adapt is not None)
            if k.whole_only and seg != 'whole':
                continue
            items.append((k, [chunks(r.raw, seg, rng) for r in k.reqs]))
        for i in range(0, len(items), batch):
            work.append((seg, items[i:i + batch], ['opt strat %s' % strat, 'opt seed %d' % rng.randrange(1 << 30)] + list(extra)))

    def one(w):
        seg, items, opts = w
        if chk.full():
            return
        sc = wrap(script([x[1] for x in items], opts))
        r = vp.run_sim(sc, cfg, bdir)
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end')
        bad = [(i, verdict(k, observe(r, i))) for i, (k, _) in enumerate(items)]
        bad = [(i, v) for i, v in bad if v or r.fatal]
        chk.traces(len(items) - len(bad))
        n = 0
        for i, v in bad:
            k, ck = items[i]
            s1 = wrap(script([ck], opts))
            r1 = vp.run_sim(s1, cfg, bdir)
            v1 = verdict(k, observe(r1, 0))
            if r1.fatal:
                v1 = 'server failed: %s (%s)' % (conn.brief_fatal(r1), v1)
            if v1:
                n += 1
                chk.violation('config "%s", request %s, segments "%s": %s' % (cname, desc(k), seg, v1), {'script': s1, 'config': cfg, 'case': k.case, 'requests': [x.raw.decode('latin1') for x in k.reqs], 'why': v1})
                if n >= 2 or chk.full():
                    return
        if bad and not n:
            r2 = vp.run_sim(sc, cfg, bdir)
            for i, (k, ck) in enumerate(items):
                v = verdict(k, observe(r2, i))
                if r2.fatal:
                    v = 'server failed: %s (%s)' % (conn.brief_fatal(r2), v)
                if v:
                    chk.violation('config "%s", request %s among others: %s' % (cname, desc(k), v), {'script': sc, 'connection': i, 'config': cfg, 'case': k.case, 'why': v})
                    return
            raise vp.MachineryError('mismatch that does not repeat: %s' % bad[:2])

    vp.pmap(one, work)


# ---------------------------------------------------------------- spec/Http.tla
HCFG = """SPECIFICATION Spec
INVARIANT Invariants
INVARIANT Emit
PROPERTY AllAnswered
CONSTANT First <- F
CONSTANT Lines <- L
CONSTANT MaxLines = %d
CONSTANT Answer <- Ans
CHECK_DEADLOCK FALSE
"""
FIRST = ['get', 'ws', 'badmethod', 'nover', 'spaces', 'junk', 'nul', 'lonecr', 'favicon', 'colons']
LINES = ['host', 'wshdrs', 'nocolon', 'emptyname', 'emptyval', 'nul', 'lonecr', 'lonelf', 'high', 'dupkey', 'ext', 'long', 'cont', 'commas', 'huge']


def http_cases(chk, lines, first=FIRST, more=LINES):
    t = tla.must(tla.run('Http', HCFG % lines, 'F == %s\nL == %s\nAns(r) == "status"\nEmit == Done => PrintT(<<"CASE", ToJson(Case)>>)\n' % (tset(first), tset(more))), 'Http')
    chk.tlc(t)
    return t.cases


def http_raw(case, rng):
    out = []
    for i, l in enumerate(case['r']):
        if i == 0:
            out.append({
                'get': b'GET / HTTP/1.1', 'ws': b'GET ws://localhost/ HTTP/1.1', 'badmethod': rng.choice((b'PUT / HTTP/1.1', b'G / HTTP/1.1', b'GETGETGET')), 'nover': rng.choice((b'GET /', b'GET', b'GET / ')),
                'spaces': rng.choice((b'GET  /  HTTP/1.1', b' GET / HTTP/1.1', b'GET / HTTP/1.1 ', b'GET\t/\tHTTP/1.1', b'GET / x HTTP/1.1')),
                'junk': bytes(rng.choice(b'\x01\x16\x03abc:;%&\x7f\xff ') for _ in range(rng.randrange(1, 30))), 'nul': rng.choice((b'GET /\0 HTTP/1.1', b'\0', b'GET / HTTP/1.1\0')),
                'lonecr': rng.choice((b'GET /\r HTTP/1.1', b'\rGET / HTTP/1.1', b'GET / HTTP/1.1\r')), 'favicon': b'GET /favicon.ico HTTP/1.1', 'colons': b'GET /:::: HTTP/1.1'}[l])
            continue
        out.append({
            'host': b'Host: localhost', 'wshdrs': b'Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: ' + ws.KEY + b'\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: rec',
            'nocolon': rng.choice((b'nocolon', b'Sec-WebSocket-Key', b'Upgrade', b'Host', b'Sec-WebSocket-Extensions', b'Sec-WebSocket-Protocol', b'Connection')),
            'emptyname': rng.choice((b':', b': x', b'::', b' : ')), 'emptyval': rng.choice((b'Host:', b'Upgrade: ', b'Connection:,', b'Sec-WebSocket-Protocol:', b'Sec-WebSocket-Protocol: ,', b'Sec-WebSocket-Version:',
                                                                                              b'Sec-WebSocket-Version: ,', b'Sec-WebSocket-Extensions:', b'Cookie:', b'Origin:', b'Sec-WebSocket-Key:', b'Sec-WebSocket-Key1:', b'WebSocket-Protocol:')),
            'nul': rng.choice((b'X: a\0b', b'\0', b'Host\0: x')), 'lonecr': rng.choice((b'X: a\rb', b'\r')), 'lonelf': rng.choice((b'X: a\nY: b', b'\n', b'X:\n')),
            'high': rng.choice((b'X: \xff\xfe\x80', b'\x80\x81: x', b'Host: \xc3\xa9', b'Connection: \xe9, Upgrade')), 'dupkey': b'Sec-WebSocket-Key: ' + ws.KEY,
            'ext': rng.choice((b'Sec-WebSocket-Extensions: permessage-deflate', b'Sec-WebSocket-Extensions: ;', b'Sec-WebSocket-Extensions: ,;,=', b'Sec-WebSocket-Extensions: foo; bar="baz"; x=1', b'Sec-WebSocket-Extensions: ' + b'a' * 200)),
            'long': b'X-Long: ' + b'l' * rng.choice((200, 254, 255, 256, 257, 500)), 'cont': rng.choice((b' folded', b'\tfolded: x')), 'commas': rng.choice((b'Connection: ,,,', b'Sec-WebSocket-Protocol: ,,,,rec', b'Sec-WebSocket-Version: ,,13', b'Connection: , Upgrade')),
            'huge': b'X-Huge: ' + b'h' * rng.choice((1500, 4000))}[l])
    return b'\r\n'.join(out) + (b'\r\n\r\n' if case['complete'] else rng.choice((b'', b'\r', b'\r\n', b'\r\n\r')))


def mutate(raw, rng):
    b = bytearray(raw)
    for _ in range(rng.choice((1, 1, 2, 4))):
        i = rng.randrange(len(b) - 4)
        k = rng.randrange(6)
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            del b[i:i + rng.choice((1, 2, 10))]
        elif k == 2:
            b[i:i] = bytes(rng.choice(b' :;,=\r\n\t\0\xff/?') for _ in range(rng.choice((1, 2, 5))))
        elif k == 3:
            j = rng.randrange(len(b) - 4)
            b[i:i] = b[j:j + rng.randrange(1, 30)]
        elif k == 4:
            b[i] = rng.choice(b' :;,=\r\n\t\0\xff/?')
        else:
            p = bytes(b).split(b'\r\n')
            j = rng.randrange(len(p))
            p.insert(rng.randrange(len(p)), p[j])
            b = bytearray(b'\r\n'.join(p))
        if len(b) < 8:
            b = bytearray(raw)
    return bytes(b)


CANARY = ws.request(proto=b'rec', extra=[b'Origin: http://localhost'])


def differential(chk, bdir, reqs, cname, seed, segs=('whole', 'bytes', 'lines', 'random'), batch=12, config=None):
    """reqs: list of (description, raw bytes, expected number of answers or None,
    compare all answers).  Under every segmentation the answers are the same,
    well-formed, and the server goes on serving a canary connection."""
    cfg = config or server_config(bdir, cname)
    rng = random.Random(seed)

    def outcome(run, i):
        try:
            rs, rest = http_responses(run.out(i))
        except conn.Bad as x:
            return ('malformed', str(x))
        return tuple(x[0] for x in rs)

    def runit(items, cks):
        L = ['opt seed %d' % rng.randrange(1 << 30)]
        for i, ck in enumerate(cks):
            L.append('%d conn %d' % (i, i))
            for x in ck:
                L += ['%d send %s' % (i, x.hex()), '%d idle' % i]
            L += ['%d idle' % i, '%d close' % i]
        n = len(cks)
        L += ['%d conn %d' % (n, n), '%d idle' % n, '%d send %s' % (n, CANARY.hex()), '%d waithttp' % n, '%d send %s' % (n, HELLO.hex()), '%d idle' % n, '%d close' % n]
        sc = '\n'.join(L) + '\n'
        r = vp.run_sim(sc, cfg, bdir)
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end')
        res = [outcome(r, i) for i in range(n)]
        can = ws.split_http(r.out(n))
        ok = None
        if r.fatal:
            ok = 'server failed: ' + conn.brief_fatal(r)
        else:
            try:
                if can[0] != 101 or conn.decode_out(can[2]) != [('msg', 1, b'hello after upgrade'), ('pong', b'ping')]:
                    ok = 'another connection is not served any more'
            except conn.Bad as x:
                ok = 'another connection is broken: %s' % x
        return res, ok, sc

    def judge(item, by):
        d, raw, n, full = item
        vals = list(by.items())
        for seg, o in vals:
            if o and o[0] == 'malformed':
                return 'malformed response under segmentation "%s": %s' % (seg, o[1])
            if n is not None and len(o) != n:
                return '%d answers instead of %d under segmentation "%s"' % (len(o), n, seg)
        if full is None:
            return None
        base = vals[0]
        for seg, o in vals[1:]:
            if (o if full else o[:1]) != (base[1] if full else base[1][:1]):
                return 'answered %s under segmentation "%s" but %s under "%s"' % (list(base[1]), base[0], list(o), seg)
        return None

    def one(items):
        if chk.full():
            return
        rows = [dict() for _ in items]
        for seg in segs:
            cks = [chunks(x[1], seg, rng) for x in items]
            res, ok, sc = runit(items, cks)
            if ok:
                for i, x in enumerate(items):
                    r1, ok1, sc1 = runit([x], [cks[i]])
                    if ok1:
                        chk.violation('request %s, segments "%s": %s' % (x[0], seg, ok1), {'script': sc1, 'config': cfg, 'request': x[1].decode('latin1')})
                        return
                chk.violation('requests %s, segments "%s": %s' % ([x[0] for x in items], seg, ok), {'script': sc, 'config': cfg})
                return
            for row, o in zip(rows, res):
                row[seg] = o
        for x, row in zip(items, rows):
            v = judge(x, row)
            if v:
                row2 = {}
                for seg in segs:
                    for rep in range(3 if seg == 'random' else 1):
                        res, ok, sc = runit([x], [chunks(x[1], seg, rng)])
                        row2['%s%s' % (seg, rep or '')] = res[0]
                v2 = judge(x, row2)
                if v2:
                    chk.violation('request %s: %s' % (x[0], v2), {'request': x[1].decode('latin1'), 'hex': x[1].hex(), 'config': cfg, 'answers': {k: list(map(str, o)) for k, o in row2.items()}})
                else:
                    chk.violation('request %s (among others): %s' % (x[0], v), {'request': x[1].decode('latin1'), 'hex': x[1].hex(), 'config': cfg, 'answers': {k: list(map(str, o)) for k, o in row.items()}})
            else:
                chk.traces(len(segs))

    vp.pmap(one, [reqs[i:i + batch] for i in range(0, len(reqs), batch)])
