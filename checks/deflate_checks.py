"""C14: spec/Offer.tla and spec/Deflate.tla against the real extension on the real server."""
import itertools
import random
import re

import conn
import pmd
import tla
import vp
import ws

NAME = b'permessage-deflate'
BITS = range(8, 16)
PARAMS = ('PP == {[n |-> x, v |-> 0] : x \\in {"snct", "cnct", "smwb", "cmwb", "junk"}} \\cup {[n |-> x, v |-> 99] : x \\in {"snct", "cnct", "smwb", "cmwb"}}'
          ' \\cup {[n |-> x, v |-> b] : x \\in {"smwb", "cmwb"}, b \\in %s}\n')
LONG = {'snct': b'server_no_context_takeover', 'cnct': b'client_no_context_takeover', 'smwb': b'server_max_window_bits', 'cmwb': b'client_max_window_bits'}
BADBITS = (b'7', b'16', b'08', b'', b'abc', b'10x', b'-9', b'+10', b'255', b'1e1', b'0', b'3000000000', b'09', b'010', b'9.', b'0x9', b'10 10', b'=', b'99999999999999999999', b'150', b'1', b'\xb2')
JUNK = (b'foo', b'foo=1', b'server_max_windowbits=10', b'client_max_window_bit', b'server_no_context_takeover1', b'x-webkit', b'servernocontexttakeover', b'memory_level=3')


def offer_bytes(o, rng):
    r = NAME
    for p in o:
        r += rng.choice((b';', b'; ', b' ; ', b';\t', b';  '))
        n = LONG.get(p['n'])
        if p['n'] == 'junk':
            r += rng.choice(JUNK)
        elif p['v'] == 0:
            r += n
        elif p['v'] == 99:
            r += n + b'=' + (rng.choice(BADBITS) if p['n'] in ('smwb', 'cmwb') else rng.choice((b'1', b'true', b'', b'0')))
        else:
            r += n + b'=%d' % p['v']
    return r


def offers_headers(os_, rng):
    """header lines; other offers may be in between"""
    l = [offer_bytes(o, rng) for o in os_]
    if rng.random() < 0.3:
        l.insert(rng.randrange(len(l) + 1), rng.choice((b'x-other', b'x-webkit-deflate-frame; x=1', b'foo')))
    H = b'Sec-WebSocket-Extensions: '
    if len(l) > 1 and rng.random() < 0.4:
        k = rng.randrange(1, len(l))
        return [H + b','.join(l[:k]), H + b', '.join(l[k:])]
    return [H + rng.choice((b',', b', ', b' , ')).join(l)] if l else []


def parse_answer(head):
    """-> list of answers as records, or a string saying what is wrong"""
    v = [x.split(b':', 1)[1].strip() for x in head[1:] if x.lower().startswith(b'sec-websocket-extensions:')]
    if not v:
        return []
    if len(v) > 1:
        return 'several headers'
    es = [x.strip() for x in v[0].split(b',')]
    out = []
    for e in es:
        ps = [x.strip() for x in e.split(b';')]
        if ps[0] != NAME:
            return 'extension %r that was not offered' % ps[0]
        r = {'snct': False, 'cnct': False, 'smwb': 0, 'cmwb': 0}
        seen = set()
        for p in ps[1:]:
            n, eq, val = p.partition(b'=')
            k = [a for a, b in LONG.items() if b == n]
            if not k or k[0] in seen:
                return 'unknown or repeated parameter %r' % p
            seen.add(k[0])
            if k[0] in ('snct', 'cnct'):
                if eq:
                    return 'parameter %r with a value' % p
                r[k[0]] = True
            else:
                if not re.fullmatch(rb'"?(8|9|1[0-5])"?', val):
                    return 'parameter %r' % p
                r[k[0]] = int(val.strip(b'"'))
        out.append(r)
    return out


def ext_config(bdir, cfg=''):
    return [{'file': bdir + '/permessage-deflate.so', 'config': cfg}]


EXTCFG = ('', '', '', 'server_no_context_takeover', 'server_max_window_bits=10', 'client_max_window_bits=9', 'chunk_size=17', 'memory_level=1', 'server_max_window_bits=8;client_max_window_bits=8;',
          'chunk_size=1; memory_level=9', 'nonsense', 'server_no_context_takeover; server_max_window_bits=12; client_max_window_bits=11; memory_level=8; chunk_size=64')


def offers(chk, bdir, cases, seed, extcfgs):
    rng = random.Random(seed)
    work = []
    for i in range(0, len(cases), 24):
        cs = cases[i:i + 24]
        ext = rng.choice(extcfgs)
        lines = ['opt strat seq', 'opt seed %d' % rng.randrange(1 << 30)]
        heads = []
        for k, os_ in enumerate(cs):
            hs = offers_headers(os_, rng)
            heads.append(hs)
            lines += ['%d conn %d' % (k, k), '%d send %s' % (k, ws.request(proto=b'rec', extra=hs).hex()), '%d waithttp' % k, '%d send %s' % (k, ws.frame(1, b'hi').hex()), '%d waitfr 1' % k, '%d close' % k]
        work.append((cs, '\n'.join(lines) + '\n', vp.config(subprotocols=[vp.plug(bdir, 'rec', 'mode=echo')], extensions=ext_config(bdir, ext)), heads))

    def one(w):
        cs, sc, cfg, heads = w
        r = vp.run_sim(sc, cfg, bdir)
        res = []
        for k, os_ in enumerate(cs):
            st, head, rest = ws.split_http(r.out(k))
            why = None
            a = None
            if r.fatal:
                why = 'server failed: ' + conn.brief_fatal(r)
            elif st != 101:
                why = 'answered with %s' % st
            else:
                a = parse_answer(head)
                if isinstance(a, str):
                    why = a
                else:
                    fr, _ = ws.parse_frames(rest)
                    ok = fr and fr[0].op == 1 and (fr[0].rsv == 4) == bool(a)
                    t = fr[0].payload if fr else b''
                    if ok and a:
                        t, _ = pmd.inflate(t + b'\0\0\xff\xff', b'', 1 << (a[0]['smwb'] or 15))
                    if not ok or t != b'hi':
                        why = 'echo after the answer %s is %s' % (a, fr[:1])
            res.append((a, why))
        return res
    res = vp.pmap(one, work)
    tr, where = [], []
    for (cs, sc, cfg, heads), rs in zip(work, res):
        for k, (os_, (a, why)) in enumerate(zip(cs, rs)):
            if why:
                chk.violation('extension configuration %r, offer %s: %s' % (cfg['setup']['extensions'][0]['config'], heads[k], why), {'script': sc, 'config': cfg, 'connection': k, 'offers': os_, 'header': str(heads[k])})
                if chk.full():
                    return
            else:
                tr.append({'o': os_, 'a': a})
                where.append((heads[k], sc, cfg, k))
    acc, t = tla.validate('OfferTrace', tr, 'SPECIFICATION TSpec\nINVARIANT Report\nCONSTANT Params = {}\nCONSTANT MaxParams = 0\nCONSTANT MaxOffers = 0\nCHECK_DEADLOCK FALSE\n', workers=4)
    chk.tlc(t)
    chk.traces(len(acc))
    for i in range(len(tr)):
        if i not in acc:
            hd, sc, cfg, k = where[i]
            chk.violation('extension configuration %r, offer %s answered by %s' % (cfg['setup']['extensions'][0]['config'], hd, tr[i]['a']), {'script': sc, 'config': cfg, 'connection': k, 'trace': tr[i]})
            if chk.full():
                return


# ------------------------------------------------------------------ messages
OTHERS = bytes(x for x in range(128) if x != 33)     # ! starts a command of the application


class Peer:
    """a client with its compressor, and what it has to get"""

    def __init__(self, rng, agreed, wide):
        self.rng = rng
        self.snct, self.cnct = agreed['snct'], agreed['cnct']
        self.sw, self.cw = agreed['smwb'] or 15, agreed['cmwb'] or 15
        self.hist = b''          # text compressed so far, of the present context
        self.total = 0
        self.shist = b''
        self.wide = wide

    def word(self, n=None):
        rng = self.rng
        n = n if n is not None else rng.choice((0, 1, 2, 3, 10, 100, 255, 256, 257, 300, 511, 512, 513, 700, 1500) + ((5000, 33000, 40000, 70000) if self.wide else ()))
        k = rng.random()
        if k < 0.4:
            return bytes(rng.choice(b'abc ') for _ in range(n))
        if k < 0.7:
            return (b'0123456789abcdefghij' * (n // 20 + 1))[:n]
        return bytes(rng.randrange(34, 128) for _ in range(n)) if rng.random() < 0.5 else bytes(rng.choice(OTHERS) for _ in range(n))

    def compress(self, kind):
        """-> (payload, text)"""
        rng = self.rng
        W = 1 << self.cw
        ctx = self.hist[-W:]
        b = pmd.Bits()
        form = rng.choice(('fixed', 'final', 'blocks'))
        if kind == 'empty':
            r = rng.choice((b'\x00', b'\x02\x00', b'\x00\x00\x00\xff\xff\x00'))
            return r, b''
        if kind == 'lits' or kind == 'near':
            t = self.word()
            f = rng.choice(('fixed', 'stored', 'final', 'blocks', 'zlib', 'zlib', 'zlib', 'zlibfinal'))
            if f.startswith('zlib') and (self.cw == 8 or rng.random() < 0.1):
                f = 'stored'
            h = ctx if kind == 'near' else b''
            if kind == 'near' and f != 'zlib':
                f = 'fixed' if f == 'stored' else f
            if f == 'zlib' or f == 'zlibfinal':
                z = pmd.deflate(t, h, self.cw, rng.randrange(0, 10), rng.choice((0, 0, 1, 2, 3, 4)), rng.choice((1, 8, 9)), pmd.zlib.Z_FINISH if f == 'zlibfinal' else rng.choice((pmd.zlib.Z_SYNC_FLUSH, pmd.zlib.Z_FULL_FLUSH)))
                if f == 'zlibfinal':
                    return z + b'\0', t
                if not z.endswith(b'\0\0\xff\xff'):
                    raise vp.MachineryError('zlib')
                return z[:-4] or b'\0', t
            if f == 'stored':
                for i in range(0, len(t), 65535):
                    pmd.stored(b, t[i:i + 65535], final=rng.randrange(2))
                return pmd.tail(b), t
            toks = list(t[:600])
            if kind == 'near':
                toks = [65, (rng.choice((3, 4, 10, 257, 258)), 1)] + toks
        elif kind == 'far':
            toks = [66]
            for L in (rng.choice((3, 5, 258)), 7, rng.choice((3, 100))):
                n = len(pmd.apply(toks, ctx)) + len(ctx)
                toks.append((L, min(n, W)))
        return self.blocks(toks, form), pmd.apply(toks, ctx)

    def blocks(self, toks, form):
        rng, b = self.rng, pmd.Bits()
        if form == 'fixed':
            pmd.fixed(b, toks)
        elif form == 'final':
            pmd.fixed(b, toks, 1)
        else:
            k = rng.randrange(len(toks) + 1)
            pmd.fixed(b, toks[:k], rng.randrange(2) if rng.random() < 0.3 else 0)
            if rng.random() < 0.5:
                pmd.stored(b, b'')
            pmd.fixed(b, toks[k:])
        return pmd.tail(b)

    def invalid(self, kind):
        rng, b = self.rng, pmd.Bits()
        start = [67] * rng.choice((0, 1, 30))
        if kind == 'over':
            # beyond the text of all messages so far, whether or not it is in the context
            n = self.total + len(start) + rng.choice((1, 2, 100))
            pmd.fixed(b, start + ([(3, n)] if n <= 32768 else [(3, 1), 286]))
            return pmd.tail(b)
        if kind == 'bad':
            k = rng.randrange(4)
            if start:
                pmd.fixed(b, start)
            if k == 0:
                b.put(6, 3)
                b.align()
                return bytes(b.out) + b'abc'
            if k == 1:
                pmd.stored(b, b'hello')
                b.out[-7] ^= 1
                return pmd.tail(b)
            if k == 2:
                b.put(4, 3)          # dynamic block with an impossible header
                b.put(0x3fff, 14)
                b.align()
                return bytes(b.out) + b'\xff' * 20
            b.put(2, 3)
            pmd.lit(b, 286)
            b.put(0, 20)
            b.align()
            return bytes(b.out)
        # cut: the message ends inside of a block
        t = self.word(rng.choice((20, 100, 300))) + b'the end'
        k = rng.randrange(3)
        if k == 0:
            pmd.fixed(b, list(t))
            n = len(b.out) - rng.choice((2, 3, 10))
            z = bytes(b.out[:n])
        elif k == 1:
            pmd.stored(b, t)
            z = bytes(b.out[:len(b.out) - rng.choice((5, 6, 15))])
        else:
            return b''
        return z

    def send(self, kind):
        """-> (payload, rsv1, text or None)"""
        if kind == 'plain':
            t = self.word(self.rng.choice((0, 1, 5, 100, 126, 500)))
            return t, 0, t
        if kind in ('over', 'bad', 'cut'):
            return self.invalid(kind), 4, None
        p, t = self.compress(kind)
        x, _ = pmd.inflate(p + b'\0\0\xff\xff', b'' if self.cnct else self.hist[-32768:], 1 << self.cw)
        if x != t:
            raise vp.MachineryError('own encoder: %s %r %r' % (kind, x if isinstance(x, int) else x[:80], t[:80]))
        self.total += len(t)
        self.hist = b'' if self.cnct else (self.hist + t)[-70000:]
        return p, 4, t

    def decode(self, frames):
        """text of a message of the server, or a string saying what is wrong"""
        data = b''.join(f.payload for f in frames)
        if not frames[0].rsv:
            return data
        x, reach = pmd.inflate(data + b'\0\0\xff\xff', b'' if self.snct else self.shist, 1 << self.sw)
        if isinstance(x, int):
            return 'message %s' % pmd.ERR[x]
        self.shist = (self.shist + x)[-40000:]
        self.reach = reach
        return x


def frames_of(p, rsv, op, rng, whole):
    cuts = [] if whole else sorted(rng.randrange(len(p) + 1) for _ in range(rng.choice((0, 0, 1, 1, 2, 5))))
    parts = [p[a:b] for a, b in zip([0] + cuts, cuts + [len(p)])]
    out = []
    for i, x in enumerate(parts):
        out.append(ws.frame(op if i == 0 else 0, x, int(i == len(parts) - 1), rsv if i == 0 else 0, mask=bytes(rng.randrange(256) for _ in range(4))))
        if i + 1 < len(parts) and rng.random() < 0.2:
            out.append(ws.frame(9, b'p', mask=b'abcd'))
    return out


class Talk:
    """one history of spec/Deflate.tla made concrete"""

    def __init__(self, case, setting, seed):
        rng = self.rng = random.Random(seed)
        self.case, self.setting = case, setting
        self.agreed = setting['agreed']
        self.peers = {}
        self.lines, self.want, self.dead = [], {}, {}
        cids = sorted({m['c'] for m in case})
        for c in cids:
            self.peers[c] = Peer(rng, self.agreed, setting.get('wide'))
            self.want[c] = []
            self.lines += ['0 conn %d' % c, '0 send %s' % ws.request(proto=b'rec', extra=[b'Sec-WebSocket-Extensions: ' + setting['offer']]).hex(), '0 waithttp']
        for m in case:
            c = m['c']
            pe = self.peers[c]
            p, rsv, t = pe.send(m['k'])
            text = t is not None and all(x < 128 for x in t) and rng.random() < 0.5
            if t is not None and t[:1] == b'!':
                text = False
            self.lines.append('0 use %d' % c)
            if t is None:
                self.dead[c] = m['k']
            else:
                self.want[c].append((1 if text else 2, t))
            fr = frames_of(p, rsv, 1 if text else 2, rng, rng.random() < 0.4)
            data = b''.join(fr)
            cut = sorted(rng.randrange(1, len(data)) for _ in range(rng.choice((0, 0, 1, 3))))
            for a, b in zip([0] + cut, cut + [len(data)]):
                if b > a:
                    self.lines.append('0 send %s' % data[a:b].hex())
                    if rng.random() < 0.5:
                        self.lines.append('0 idle')
            if rng.random() < 0.25 and t is not None:
                # replies of the application of other sizes
                n = rng.choice((0, 1, 100, 257, 512, 513, 1000) + ((33000, 100000) if setting.get('wide') else ()))
                k = rng.randrange(1, 4)
                first = rng.randrange(26)
                self.want[c].append((2, b'!R%d,%d,%d' % (k, n, first), [conn.pattern(n, first + i) for i in range(k)]))
                self.lines.append('0 send %s' % ws.frame(2, b'!R%d,%d,%d' % (k, n, first), mask=b'abcd').hex())
        self.lines.append('0 idle')
        for c in cids:
            self.lines += ['0 use %d' % c, '0 close']
        opts = ['opt strat %s' % rng.choice(('seq', 'seq', 'rand')), 'opt seed %d' % rng.randrange(1 << 30)]
        self.script = '\n'.join(opts + self.lines) + '\n'

    def verdict(self, r):
        if r.fatal:
            return 'server failed: ' + conn.brief_fatal(r)
        fds = {}
        got = {}
        for e in r.ev:
            if e['e'] == 'accept':
                fds[e['fd']] = e['c']
                got[e['c']] = []
            elif e['e'] == 'msg':
                got[fds[e['fd']]].append((e['op'], bytes.fromhex(e['h'])))
        for c, pe in self.peers.items():
            st, head, rest = ws.split_http(r.out(c))
            a = parse_answer(head) if st == 101 else None
            if a != [self.agreed]:
                return 'handshake on connection %d: %s, %s' % (c, st, a)
            want = [(w[0], w[1]) for w in self.want[c]]
            if got[c] != want:
                i = next((i for i, (x, y) in enumerate(zip(got[c], want)) if x != y), min(len(got[c]), len(want)))
                return 'connection %d: application got %s as message %d instead of %s' % (c, brief(got[c][i:i + 1]), i, brief(want[i:i + 1]))
            fr, left = ws.parse_frames(rest)
            if left:
                return 'connection %d: trailing bytes' % c
            exp = []
            for w in self.want[c]:
                exp += [(2, x) for x in w[2]] if len(w) > 2 else [(w[0], w[1])]
            cur = []
            k = 0
            closed = None
            for f in fr:
                if f.op == 10:
                    continue
                if f.op == 8:
                    closed = int.from_bytes(f.payload[:2], 'big')
                    continue
                if f.op > 2 or closed is not None or f.rsv & 3 or (f.rsv and f.op == 0):
                    return 'connection %d: unexpected %s' % (c, f)
                cur.append(f)
                if f.fin:
                    x = pe.decode(cur)
                    if isinstance(x, str):
                        return 'connection %d: server message %d %s' % (c, k, x)
                    if k >= len(exp) or (cur[0].op, x) != exp[k]:
                        return 'connection %d: server message %d is %s instead of %s' % (c, k, brief([(cur[0].op, x)]), brief(exp[k:k + 1]))
                    k += 1
                    cur = []
            if k != len(exp) or cur:
                return 'connection %d: %d messages from the server instead of %d' % (c, k, len(exp))
            if (c in self.dead) != (closed is not None) or (c in self.dead and closed not in (1002, 1003, 1007, 1011)):
                return 'connection %d: %s, close status %s' % (c, 'invalid compressed data (%s)' % self.dead[c] if c in self.dead else 'valid messages only', closed)
        return None


def brief(l):
    return [(o, '%r..(%d)' % (b[:30], len(b)) if len(b) > 30 else b) for o, b in l]


def settings(thorough):
    out = []
    for snct, cnct, sw, cw in itertools.product((0, 1), (0, 1), (0, 9, 10, 12, 15), (None, 0, 8, 9, 12, 15)):
        if not thorough and (snct, cnct, sw, cw) not in [(0, 0, 0, None), (0, 0, 9, 9), (0, 0, 9, 8), (1, 1, 0, 0), (1, 0, 9, 15), (0, 1, 12, 9), (1, 0, 10, 8), (0, 0, 15, 15), (0, 0, 10, 12), (1, 1, 9, 8)]:
            continue
        o = NAME + (b'; server_no_context_takeover' if snct else b'') + (b'; client_no_context_takeover' if cnct else b'') + (b'; server_max_window_bits=%d' % sw if sw else b'') \
            + (b'' if cw is None else b'; client_max_window_bits' if cw == 0 else b'; client_max_window_bits=%d' % cw)
        out.append({'offer': o})
    return out


def c14(chk):
    bdir = vp.build('rel')
    pmd.lib()
    T = vp.THOROUGH
    OC = 'INVARIANT %s\nCONSTANT Params <- PP\nCONSTANT MaxParams = %d\nCONSTANT MaxOffers = %d\nCHECK_DEADLOCK FALSE\n'
    t = tla.must(tla.run('Offer', 'SPECIFICATION Spec\nINVARIANT Agreement\n' + OC % ('Possible', 3 if T else 2, 1), PARAMS % '{8, 9, 12, 15}', workers=8), 'Offer')
    chk.tlc(t)
    chk.count('offer_states', t.distinct)
    EM = 'Emit == PrintT(<<"CASE", ToJson(offers)>>)\n'
    one = tla.must(tla.run('Offer', 'SPECIFICATION MakeOffers\n' + OC % ('Emit', 3, 1), PARAMS % '{8, 9, 12, 15}' + EM, workers=8), 'Offer')
    all_ = tla.must(tla.run('Offer', 'SPECIFICATION MakeOffers\n' + OC % ('Emit', 2, 1), PARAMS % '8..15' + EM, workers=8), 'Offer')
    two = tla.must(tla.run('Offer', 'SPECIFICATION MakeOffers\n' + OC % ('Emit', 1, 3), PARAMS % '{8, 9, 15}' + EM, workers=8), 'Offer')
    for x in (one, all_, two):
        chk.tlc(x)
    rng = random.Random(vp.SEED * 31 + 14)
    pick = lambda l, n: l if T or len(l) <= n else rng.sample(l, n)
    cs = pick(one.cases, 2500) + all_.cases + pick(two.cases, 1500)
    # all four parameters in any order
    for _ in range(400 if not T else 4000):
        l = [{'n': n, 'v': rng.choice((0, 99) if n[1:] == 'nct' and rng.random() < 0.1 else (0,) if n[1:] == 'nct' else (0, 9, 10, 11, 13, 14, 15) if n == 'cmwb' else (9, 10, 11, 13, 14, 15))} for n in rng.sample(['snct', 'cnct', 'smwb', 'cmwb'], 4)]
        cs.append([l] if rng.random() < 0.7 else [l, [], rng.choice(one.cases)[0] if one.cases[0] else []])
    chk.count('offers', len(cs))
    offers(chk, bdir, cs, vp.SEED, EXTCFG)
    if chk.full():
        return
    # the two windows and contexts
    for s, c in (('TRUE', 'FALSE'), ('FALSE', 'FALSE'), ('FALSE', 'TRUE'), ('TRUE', 'TRUE')):
        for sw, cw in ((4, 3), (2, 5)) + (((5, 8),) if T else ()):
            t = tla.must(tla.run('Deflate', 'SPECIFICATION Spec\nINVARIANT Intact\nINVARIANT InWindow\nINVARIANT NoneKnown\nCONSTANT Conns = {1}\nCONSTANT Kinds <- KK\nCONSTANT SWin = %d\nCONSTANT CWin = %d\nCONSTANT SNct = %s\nCONSTANT CNct = %s\nCONSTANT MaxMsgs = %d\nCHECK_DEADLOCK FALSE\n' % (sw, cw, s, c, 4 if not T else 5),
                                 'KK == {"plain", "lits", "near", "far", "empty", "over"}\n', workers=8, heap='8g'), 'Deflate')
            chk.tlc(t)
            chk.count('model_states', t.distinct)
    HC = 'SPECIFICATION HSpec\nINVARIANT Emit\nCONSTANT Conns = {%s}\nCONSTANT Kinds <- KK\nCONSTANT SWin = 1\nCONSTANT CWin = 1\nCONSTANT SNct = TRUE\nCONSTANT CNct = TRUE\nCONSTANT MaxMsgs = %d\nCHECK_DEADLOCK FALSE\n'
    KK = 'KK == {"plain", "lits", "near", "far", "empty", "over", "bad", "cut"}\nEmit == Done => PrintT(<<"CASE", ToJson(h)>>)\n'
    h1 = tla.must(tla.run('Deflate', HC % ('1', 4), KK, workers=8), 'Deflate')
    h2 = tla.must(tla.run('Deflate', HC % ('1,2', 3), KK, workers=8), 'Deflate')
    chk.tlc(h1)
    chk.tlc(h2)
    hist = h1.cases + h2.cases
    chk.count('histories', len(hist))
    base = []
    for s in settings(T):
        cfg = vp.config(subprotocols=[vp.plug(bdir, 'rec', 'mode=mix')], extensions=ext_config(bdir, ''))
        r = vp.run_sim('0 conn 0\n0 send %s\n0 waithttp\n0 close\n' % ws.request(proto=b'rec', extra=[b'Sec-WebSocket-Extensions: ' + s['offer']]).hex(), cfg, bdir)
        a = parse_answer(ws.split_http(r.out(0))[1])
        if isinstance(a, str) or not a:
            chk.violation('offer %r is not accepted: %s' % (s['offer'], a), {'offer': str(s['offer']), 'config': cfg})
            return
        base.append({**s, 'agreed': a[0]})
    work = []
    n = 320 if not T else 1500
    for s in base:
        for k, case in enumerate(rng.sample(hist, min(n, len(hist)))):
            ext = rng.choice(('', '', 'chunk_size=1', 'chunk_size=17', 'chunk_size=100', 'chunk_size=256;memory_level=9', 'memory_level=1', 'chunk_size=1000'))
            work.append((case, {**s, 'wide': rng.random() < 0.15}, rng.randrange(1 << 30), ext, rng.choice((1, 10, 100, 1 << 20)) if rng.random() < 0.3 else 1 << 20))

    def play(w):
        case, s, seed, ext, _ = w
        if chk.full():
            return
        k = Talk(case, s, seed)
        cfg = vp.config(subprotocols=[vp.plug(bdir, 'rec', 'mode=mix')], extensions=ext_config(bdir, ext), size={'buffer': random.Random(seed).choice((16, 1000, 32768))}, pool={'workers': 2})
        r = vp.run_sim(k.script, cfg, bdir)
        v = k.verdict(r)
        if v:
            chk.violation('offer %s, extension configuration %r, messages %s: %s' % (s['offer'].decode(), ext, ' '.join('%d:%s' % (m['c'], m['k']) for m in case), v), {'script': k.script, 'config': cfg, 'why': v, 'case': case})
        else:
            chk.traces(1)
            chk.count('messages', len(case))
    vp.pmap(play, work)
    for c in (h2.cases[0], h2.cases[-1]):
        chk.sample(c)
