"""C22: what the server does with its extensions, validated against spec/Ext.tla."""
import itertools
import json
import os
import random
import re
import shutil

import conn
import server
import tla
import vp
import ws

MC = '''SPECIFICATION MCSpec
CONSTANT Loads <- LL
CONSTANT Offs <- OO
CONSTANT Kinds <- KK
CONSTANT MaxMsgs = %d
%sCHECK_DEADLOCK FALSE
'''
INV = 'INVARIANT Meant\nINVARIANT Heard\nINVARIANT Asked\nINVARIANT Strict\n'
TCFG = 'SPECIFICATION TSpec\nINVARIANT Report\n%sCHECK_DEADLOCK FALSE\n'
NAMES = ('one', 'two', 'three')
MODES = ('frame', 'msg', 'head', 'none')


def tl(x):
    """TLA+ text of a value"""
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, (int,)):
        return str(x)
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tl(v)) for k, v in x.items()) + ']'
    if isinstance(x, set):
        return '{' + ', '.join(map(tl, x)) + '}'
    return '<<' + ', '.join(map(tl, x)) + '>>'


def defs(loads, offs, kinds):
    return 'LL == {%s}\nOO == {%s}\nKK == {%s}\nEM == Emit\n' % tuple(',\n'.join(dict.fromkeys(map(tl, x))) for x in (loads, offs, kinds))


def X(n, m, b, d='y', a=''):
    return {'n': n, 't': 'ABC'[NAMES.index(n)], 'm': m, 'b': b, 'd': d, 'a': a}


def O(n, ok, p=None):
    return {'n': n, 'p': ('ok' if ok else '') if p is None else p, 'ok': ok}


def K(k, *w, o=1):
    return {'k': k, 'o': o, 'w': [list(x) for x in w]}


# ------------------------------------------------------------------ real runs
class Scene:
    """several clients of a server with the same extensions"""

    def __init__(self, bdir, xdir, loaded, cases, seed):
        rng = self.rng = random.Random(seed)
        self.loaded = loaded
        self.peers = {}
        self.lines = []
        cid = 0
        longest = 1
        for p, case in enumerate(cases):
            for rnd in range(rng.choice((1, 1, 1, 2))):      # reconnects: the descriptor is used again
                pe = {'offers': case['offers'], 'msgs': [], 'end': '', 'hs': 'ok', 'bits': 0}
                self.peers[cid] = pe
                L = []
                L.append('conn %d' % cid)
                hs = pe['hs'] = rng.choice(('ok',) * 9 + ('version', 'favicon', 'proto', 'key', 'host', 'drop'))
                L.append('send %s' % self.request(case['offers'], hs).hex() if hs != 'drop' else 'send %s' % self.request(case['offers'], 'ok')[:-2].hex())
                if hs == 'drop':
                    L.append(rng.choice(('close', 'rst')))
                    pe['end'] = 'drop'
                elif hs != 'ok':
                    L += ['waithttp'] + rng.choice((['waiteof', 'close'], ['close'], ['rst']))
                    pe['end'] = 'refused'
                else:
                    L.append('waithttp')
                    data = []
                    for m in case['h']:
                        fs = m['f']
                        pe['msgs'].append(fs)
                        for i, f in enumerate(fs):
                            longest = max(longest, len(f['b']))
                            data.append(self.frame(f))
                            if i + 1 < len(fs) and rng.random() < 0.2:
                                data.append(ws.frame(9, b'p', mask=b'wxyz'))
                    end = pe['end'] = rng.choice(('close', 'close', 'open', 'open', 'rst', 'fin', 'appclose', 'closebits'))
                    if end == 'appclose':
                        f = {'fin': True, 'op': 1, 'rsv': [], 'x': [], 'b': list('!X%d' % rng.choice((1000, 1001, 4000)))}
                        pe['msgs'].append([f])
                        data.append(self.frame(f))
                    if end == 'close':
                        data.append(ws.frame(8, ws.close(1000), mask=b'wxyz'))
                    if end == 'closebits':
                        f = {'fin': True, 'op': 8, 'rsv': [rng.choice((1, 2, 3))], 'x': [], 'b': []}
                        pe['msgs'].append([f])
                        data.append(self.frame(f))
                    d = b''.join(data)
                    if d and rng.random() < 0.4:
                        segs, k = [], 0
                        while k < len(d):
                            j = k + rng.choice((1, 2, 3, 5, 10, 40, 200))
                            segs.append(d[k:j])
                            k = j
                    else:
                        segs = [x for x in data]
                    for s in segs:
                        L.append('send %s' % s.hex())
                        if rng.random() < 0.1:
                            L.append('idle')
                    if end in ('close', 'appclose', 'closebits'):
                        L += ['waiteof', 'close']
                    elif end in ('rst', 'fin'):
                        if rng.random() < 0.5:
                            L.append('idle')
                        L.append('rst' if end == 'rst' else 'close')
                    elif end == 'open':
                        pass
                self.lines += ['%d %s' % (p, x) for x in L]
                cid += 1
                if pe['end'] == 'open':
                    break
        opts = ['opt seed %d' % rng.randrange(1, 1 << 30)] + server.strategies(rng, 1)[0]
        if rng.random() < 0.2:
            opts.append('opt strat seq')
        self.script = '\n'.join(['opt giveup'] + opts + self.lines) + '\n'
        self.cfg = vp.config(subprotocols=[vp.plug(bdir, 'rec', 'mode=mix')],
                             extensions=[{'file': os.path.join(xdir, e['n'] + '.so'), 'config': self.econf(e)} for e in loaded],
                             size={'buffer': rng.choice((16, 64, 32768)), 'frame': max(longest, rng.choice((5, 20, 1 << 20)))}, pool={'workers': rng.choice((1, 2, 4))})

    @staticmethod
    def econf(e):
        return 'n=%s;t=%s;m=%s;b=%d;d=%s;a=%s' % (e['n'], e['t'], e['m'], e['b'], e['d'], e['a'])

    @staticmethod
    def frame(f):
        return ws.frame(f['op'], ''.join(f['x'] + f['b']).encode(), int(f['fin']), sum(8 >> b for b in f['rsv']), mask=b'wxyz')

    def request(self, offers, hs):
        rng = self.rng
        lines = []
        cur = []
        for i, o in enumerate(offers):
            cur.append(o['n'] + (rng.choice(('; ', ';', ' ; ')) + o['p'] if o['p'] else ''))
            if rng.random() < 0.3 or i == len(offers) - 1:
                lines.append(b'Sec-WebSocket-Extensions: ' + rng.choice((', ', ',', ' , ')).join(cur).encode())
                cur = []
        kw = {'proto': b'rec'}
        if hs == 'version':
            kw['version'] = 12
        if hs == 'proto':
            kw['proto'] = b'nosuch'
        path = b'/favicon.ico' if hs == 'favicon' else b'/'
        r = ws.request(path, extra=lines, **kw)
        if hs == 'key':
            r = re.sub(rb'Sec-WebSocket-Key: [^\r]*\r\n', b'', r)
        if hs == 'host':
            r = r.replace(b'Upgrade: websocket\r\n', b'')
        return r

    # ------------------------------------------------------------ projection
    def project(self, r):
        T = {c: [] for c in self.peers}
        S = {c: {'fd': None, 'open': False, 'ans': None, 'over': False, 'out': b'', 'http': False, 'bye': 0, 'cur': None} for c in self.peers}
        life = []
        by = {}
        pending = []      # sends under way: (to, op, b)
        nframes = {}
        acc = {}
        for c in self.peers:
            st, head, _ = ws.split_http(r.out(c))
            acc[c] = []
            if st == 101:
                for l in head:
                    if l.lower().startswith(b'sec-websocket-extensions:'):
                        for x in l.split(b':', 1)[1].decode('latin1').split(','):
                            n, _, a = x.strip().partition(';')
                            acc[c].append({'n': n.strip(), 'a': a.strip()})
            S[c]['st'] = st

        def answer(c):
            if S[c]['ans'] is None and S[c]['st'] == 101:
                S[c]['ans'] = True
                T[c].append({'k': 'answer', 'l': acc[c]})

        def fr(f):
            p = [chr(x) for x in bytes.fromhex(f['h'])]
            n = f['ext']
            return {'fin': f['fin'], 'op': f['op'], 'rsv': [b for b in (1, 2, 3) if f['rsv'] & (8 >> b)], 'x': p[:n], 'b': p[n:]}
        ev = r.ev
        for i, e in enumerate(ev):
            k = e['e']
            if k == 'accept':
                c = e['c']
                S[c]['fd'] = e['fd']
                by[e['fd']] = c
                life.append({'k': 'accept', 'n': '', 'c': ''})
                for to, op, b in pending:
                    if to == e['fd']:
                        T[c].append({'k': 'snd', 'op': op, 'b': b, 'must': False})
            elif k == 'x':
                life.append({'k': e['k'] if e['k'] in ('init', 'destroy') else 'use', 'n': e['n'], 'c': e.get('cfg', '').replace('%22', '"')})
                if e['k'] in ('init', 'destroy'):
                    continue
                c = by.get(e['fd'])
                if c is None:
                    life.append({'k': 'call for no connection', 'n': e['n'], 'c': ''})
                    continue
                s = S[c]
                if e['k'] == 'open':
                    T[c].append({'k': 'open', 'n': e['n'], 'p': re.sub(r'\s', '', e['p'])})
                elif e['k'] == 'close':
                    T[c].append({'k': 'close', 'n': e['n']})
                else:
                    if e['f'] and e['f'][0]['op'] >= 8:
                        continue
                    answer(c)
                    x = {'k': e['k'], 'n': e['n'], 'f': [fr(f) for f in e['f']]}
                    if not x['f'] or not all(f['ok'] for f in e['f']):
                        x['k'] = 'lengths do not match'
                    elif e['k'] in ('out', 'outs'):
                        if s['cur'] is None:      # a message starts
                            cut = x['f']
                            if e['k'] == 'out':
                                for g in ev[i + 1:]:
                                    if cut[-1]['fin']:
                                        break
                                    if g['e'] == 'x' and g['k'] == 'out' and g['n'] == e['n'] and g['fd'] == e['fd'] and g['f'][0]['op'] < 8:
                                        cut = cut + [fr(g['f'][0])]
                            x.update(k='first', cut=cut, kind='frame' if e['k'] == 'out' else 'whole')
                            s['cur'] = len(acc[c]) * (len(cut) + 1)
                        s['cur'] -= 1
                        if s['cur'] <= 0:
                            s['cur'] = None
                    T[c].append(x)
            elif k == 'open':
                c = by.get(e['fd'])
                if c is not None:
                    answer(c)
            elif k == 'msg':
                c = by.get(e['fd'])
                if c is not None and acc[c]:
                    T[c].append({'k': 'msg', 'op': e['op'], 'b': [chr(x) for x in bytes.fromhex(e['h'])]})
            elif k == 'snd' and e['op'] < 8:
                b = [chr(x) for x in bytes.fromhex(e['h'])]
                pending.append((e['to'], e['op'], b))
                c = by.get(e['to'])
                if c is not None and acc[c] and not S[c]['over']:
                    T[c].append({'k': 'snd', 'op': e['op'], 'b': b, 'must': e['fd'] == e['to']})
            elif k == 'sndend':
                for x in pending:
                    if x[0] == e['to']:
                        pending.remove(x)
                        break
            elif k == 'out':
                c = e['c']
                s = S[c]
                s['out'] += bytes.fromhex(e['h'])
                if not s['http']:
                    st, head, rest = ws.split_http(s['out'])
                    if st is None:
                        continue
                    s['http'] = True
                    if st != 101:
                        T[c].append({'k': 'refuse'})
                        continue
                    answer(c)
                    s['out'] = rest
                if s['st'] == 101:
                    fs, s['out'] = ws.parse_frames(s['out'])
                    for f in fs:
                        if f.op == 8:
                            s['bye'] = int.from_bytes(f.payload[:2], 'big') if f.payload else 0
                        if f.op < 8 and acc[c]:
                            T[c].append({'k': 'wire', 'f': {'fin': bool(f.fin), 'op': f.op, 'rsv': [b for b in (1, 2, 3) if f.rsv & (8 >> b)], 'b': [chr(x) for x in f.payload]}})
            elif k == 'fdclose':
                c = e['c']
                s = S[c]
                by.pop(s['fd'], None)
                s['over'] = True
                T[c].append({'k': 'over', 'all': self.peers[c]['end'] in ('close', 'closebits') and s['bye'] != 0, 'bye': s['bye'] if acc[c] else 0})
            elif k == 'quiet':
                for c, s in S.items():
                    if not s['over'] and s['fd'] is not None and acc[c]:
                        T[c].append({'k': 'quiet', 'bye': s['bye'] if acc[c] else 0})
        life.append({'k': 'end', 'n': '', 'c': ''})
        out = []
        for c, pe in self.peers.items():
            if S[c]['fd'] is None:
                continue
            strip = lambda fs: [{'fin': f['fin'], 'op': f['op'], 'rsv': list(f['rsv']), 'x': list(f['x']), 'b': list(f['b'])} for f in fs]
            out.append((c, {'loaded': self.loaded, 'offers': [dict(o, p=re.sub(r'\s', '', o['p'])) for o in pe['offers']] if pe['hs'] != 'drop' else [],
                            'msgs': [strip(m) for m in pe['msgs']] if acc[c] else [], 'ev': T[c]}))
        return out, {'loaded': [{'n': e['n'], 'c': self.econf(e)} for e in self.loaded], 'ev': life}


def explain(T, n):
    ev = T['ev']
    return 'event %d is not allowed: %s (before: %s)' % (n, brief(ev[n]) if n < len(ev) else 'end', '; '.join(brief(x) for x in ev[max(0, n - 6):n]))


def brief(e):
    def s(f):
        return '%s%d%s[%s|%s]' % ('' if f['fin'] else '~', f['op'], ''.join('r%d' % b for b in f['rsv']), ''.join(f.get('x', [])), ''.join(f['b']))
    out = []
    for k, v in e.items():
        if k in ('cut', 'kind'):
            continue
        if k == 'f':
            v = ' '.join(map(s, v)) if isinstance(v, list) else s(v)
        elif k == 'b':
            v = ''.join(v)
        out.append(str(v))
    return ' '.join(out)


def play(chk, scenes, bdir):
    """run, project, decide"""
    def one(s):
        r = vp.run_sim(s.script, s.cfg, bdir)
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end')
        if r.fatal:
            return s, r, None, None
        return (s, r) + s.project(r)
    done = vp.pmap(one, scenes)
    conns = []
    lives = []
    for s, r, cs, life in done:
        if cs is None:
            chk.violation('server failed: %s' % conn.brief_fatal(r), {'script': s.script, 'config': s.cfg, 'stderr': r.err[-500:]})
            continue
        conns += [(s, r, c, t) for c, t in cs]
        lives.append((s, r, life))
    if chk.full():
        return

    def batch(job):
        mod, part, cfg = job
        acc, t = tla.validate(mod, [x[-1] for x in part], cfg, workers=1, timeout=800)
        return [i for i in range(len(part)) if i not in acc], t
    groups = [('ExtTrace', conns[i:i + 400], TCFG % '') for i in range(0, len(conns), 400)] + [('ExtLife', lives[i:i + 400], 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n') for i in range(0, len(lives), 400)]
    for (mod, part, _), (rej, t) in zip(groups, vp.pmap(batch, groups, 6)):
        chk.tlc(t)
        chk.traces(len(part) - len(rej))
        chk.count('events', sum(len(x[-1]['ev']) for x in part))
        for i in rej[:5]:
            x = part[i]
            s, r, T = x[0], x[1], x[-1]
            if mod == 'ExtTrace':
                acc, t2 = tla.validate(mod, [T], TCFG % 'INVARIANT Reach\n', workers=1)
                if acc:
                    raise vp.MachineryError('trace rejected and accepted')
                at = max([int(v) for v in re.findall(r'<<"REACH", 1, (\d+)>>', t2.out)] + [1]) - 1
                what = 'connection %d (%s, %s), extensions %s, offered %s: %s' % (x[2], s.peers[x[2]]['hs'], s.peers[x[2]]['end'], [s.econf(e) for e in s.loaded], ['%s;%s' % (o['n'], o['p']) for o in T['offers']], explain(T, at))
            else:
                what = 'start and end of the extensions: %s' % [(e['k'], e['n'], e['c']) for e in T['ev'] if e['k'] != 'use']
            chk.violation(what, {'script': s.script, 'config': s.cfg, 'trace': T})
            if chk.full():
                return


def scenes(bdir, xdir, cases, rng, n):
    """n scenes of cases put together by their extensions"""
    by = {}
    for c in cases:
        by.setdefault(json.dumps(c['loaded']), []).append(c)
    keys = sorted(by)
    out = []
    for i in range(n):
        k = keys[i % len(keys)] if n >= len(keys) else rng.choice(keys)
        out.append(Scene(bdir, xdir, json.loads(k), [rng.choice(by[k]) for _ in range(rng.choice((1, 1, 2, 3)))], rng.randrange(1 << 30)))
    return out


def c22(chk):
    T = vp.THOROUGH
    rng = random.Random(vp.SEED * 77 + 22)
    kinds = [K(k, *w) for k in ('right', 'bare', 'swap', 'bits') for w in (('',), ('m',), ('m', 'n'))] + [K('tail', 'm', ''), K('part', 'm'), K('part', 'm', 'n'), K('ping', 'm'), K('pong', 'm')]
    offs = [[O('one', True), O('two', False)], [O('two', False), O('one', False), O('zzz', True), O('one', True)], [O('one', True)]]
    loads = [[X('one', m1, b1, d1), X('two', m2, b2)] for m1, m2, b1, b2, d1 in itertools.product(MODES, MODES, (0, 2), (0, 3), ('y', 'p'))]
    t = tla.must(tla.run('ExtMC', MC % (1, INV), defs(loads, offs, kinds), workers=8, heap='8g'), 'ExtMC')
    chk.tlc(t)
    chk.count('model_states', t.distinct)
    # two messages, and what the server makes of them
    less = [[X('one', m1, b1), X('two', m2, b2)] for m1, m2, b1, b2 in itertools.product(MODES[:3], MODES[:3], (0, 2), (0, 2))]
    few = [K('right', 'm'), K('right', 'm', 'n'), K('bare', 'm'), K('swap', 'm', ''), K('bits', 'n'), K('ping', 'm')]
    t = tla.must(tla.run('ExtMC', MC % (2, INV + 'INVARIANT EM\n'), defs(less if T else rng.sample(less, 8), offs[:2], few), workers=8, heap='12g', timeout=800), 'ExtMC')
    chk.tlc(t)
    chk.count('model_states', t.distinct)
    cases = list({json.dumps(c, sort_keys=True): c for c in t.cases}.values())
    # three of them in every order, commands of the application, longer histories
    words = kinds + [K('right', '!R2,9,4'), K('right', '!R3,', '30,1'), K('bare', '!R1,21,3'), K('right', '!B b', 'cd', o=2), K('right', '!B', o=1), K('right', '!Pq'), K('right', 'a', '', 'b', o=2), K('right', 'abcdefghij', 'klm', 'nopq', 'r')]
    for rnd in range(6 if not T else 30):
        ld, of = [], []
        for _ in range(40):
            ns = rng.sample(NAMES, rng.choice((1, 2, 2, 3, 3)))
            ld.append([X(n, rng.choice(MODES), rng.choice((0, 0, 1, 2, 3)), rng.choice('yyyypn'), rng.choice(('', '', 'x=1', 'some="2 3"'))) for n in ns])
        for _ in range(60):
            l = [O(rng.choice(NAMES), ok, rng.choice(('ok', 'ok; v=1', 'a=1; ok')) if ok else rng.choice(('', '', 'w=2', 'zz; w'))) for ok in [rng.random() < 0.5 for _ in range(rng.choice((1, 2, 3, 3, 4)))]]
            if rng.random() < 0.3:
                l.insert(rng.randrange(len(l) + 1), O(rng.choice(('zzz', 'on', 'onee', 'permessage-deflate')), True))
            of.append(l)
        t = tla.run('ExtMC', MC % (rng.choice((1, 2, 3, 4)), INV + 'INVARIANT EM\n'), defs(ld, of, words), workers=1, args=['-simulate', 'num=%d' % 150, '-depth', '200', '-seed', str(rng.randrange(1 << 30))], timeout=600)
        tla.must(t, 'ExtMC simulation')
        cases += list({json.dumps(c, sort_keys=True): c for c in t.cases}.values())
    chk.count('histories', len(cases))
    bdir = vp.build('rel')
    xdir = os.path.join(vp.scratch(), 'ext')
    os.makedirs(xdir, exist_ok=True)
    for n in NAMES:
        shutil.copy(os.path.join(bdir, 'xt.so'), os.path.join(xdir, n + '.so'))
    n = 3000 if not T else 20000
    for k in range(0, n, 1500):
        play(chk, scenes(bdir, xdir, cases, rng, 1500), bdir)
        if chk.full():
            return
    for c in cases[:1] + cases[-1:]:
        chk.sample(c)
