"""Scenarios with several clients on the real server; the recorded executions
are projected to the events of spec/Server.tla and checked against it."""
import hashlib
import ipaddress
import json
import random

import conn
import tla
import vp
import ws


class Client:
    """One client program; knows which item of the specification every send
    completes."""

    def __init__(self, pid, seed=0):
        self.pid, self.lines, self.cid = pid, [], None
        self.items = {}      # cid -> list (per send op) of items completed by it
        self.rng = random.Random(seed)
        self.buf, self.pend = b'', []
        self.limit = 1 << 30

    def op(self, *a):
        self.lines.append('%d %s' % (self.pid, ' '.join(str(x) for x in a)))
        return self

    def conn(self, cid, port=80):
        self.cid = cid
        self.items[cid] = []
        return self.op('conn', cid, port) if port != 80 else self.op('conn', cid)

    def raw(self, data, items=(), chunks=None):
        """data completing items at its end (items: [(end offset, item)] or items)"""
        its = [x if isinstance(x, tuple) else (len(data), x) for x in items]
        n = chunks or 1
        cuts = sorted(set([len(data)] + (self.rng.sample(range(1, len(data)), min(n - 1, len(data) - 1)) if len(data) > 1 else [])))
        a = 0
        for b in cuts:
            self.op('send', data[a:b].hex())
            self.items[self.cid].append([x for e, x in its if a < e <= b])
            a = b
        return self

    def many(self, parts, chunks=1):
        """parts: [(bytes, [items])] sent back to back in `chunks` segments"""
        data, its = b'', []
        for d, i in parts:
            data += d
            its += [(len(data), x) for x in i]
        return self.raw(data, its, chunks)

    def req(self, path='/', ck='', ok=True, proto=b'rec', chunks=1, ext=None, wait=True):
        extra = [b'Cookie: ' + ck.encode()] if ck else []
        if ok:
            d = ws.request(path.encode(), proto=proto, extra=extra, ext=ext)
        else:
            d = ws.request(path.encode(), proto=proto, extra=extra, version=12)
        self.raw(d, [{'k': 'req', 'ok': bool(ok), 'path': path, 'ck': ck}], chunks)
        if wait:
            self.op('waithttp')
        return self

    def part_msg(self, payload, op=1, frags=1, ping=None):
        p = []
        cuts = sorted(self.rng.randrange(0, len(payload) + 1) for _ in range(frags - 1))
        segs = []
        for a, b in zip([0] + cuts, cuts + [len(payload)]):      # no frame above the limit
            segs += [payload[k:min(b, k + self.limit)] for k in range(a, b, self.limit)] or [b'']
        for i, s in enumerate(segs):
            if ping is not None and i == len(segs) - 1 and i:
                p += self.part_ping(ping)
            p.append((ws.frame(op if i == 0 else 0, s, int(i == len(segs) - 1), mask=self.mask()), [{'k': 'msg', 'op': op, 'id': payload}] if i == len(segs) - 1 else []))
        return p

    def mask(self):
        return bytes(self.rng.randrange(256) for _ in range(4))

    def part_ping(self, payload):
        payload = payload[:self.limit]
        return [(ws.frame(9, payload, mask=self.mask()), [{'k': 'ping', 'op': 10, 'id': payload}])]

    def part_close(self, code=1000):
        return [(ws.frame(8, ws.close(code) if code else b'', mask=self.mask()), [{'k': 'close', 'op': 8, 'id': code}])]

    def part_bad(self):
        f = self.rng.choice([ws.frame(3, b'x'), ws.frame(0, b'x'), ws.frame(1, b'x', rsv=4), ws.frame(1, b'abc', mask=None), ws.frame(9, b'x', fin=0), ws.frame(1, b'\xff\xfe')])
        return [(f, [{'k': 'bad', 'op': 8, 'id': 0}])]

    def msg(self, payload, op=1, frags=1, chunks=1, ping=None):
        return self.many(self.part_msg(payload, op, frags, ping), chunks)

    def ping(self, payload, chunks=1):
        return self.many(self.part_ping(payload), chunks)

    def close(self, code=1000):
        return self.many(self.part_close(code))


def script(clients, opts):
    return '\n'.join(['opt giveup'] + list(opts) + [l for c in clients for l in c.lines]) + '\n'


# ------------------------------------------------------------- projection
def addr(s):
    try:
        a = ipaddress.ip_address(s)
        return str(getattr(a, 'ipv4_mapped', None) or a)
    except ValueError:
        return s


def project(run, clients, protos=1):
    """Events of a run in the vocabulary of ServerTrace."""
    items = {}
    for c in clients:
        items.update(c.items)
    ids = {}

    def mid(b):
        return ids.setdefault(bytes(b), len(ids) + 1)

    def conv(x):
        y = dict(x)
        if y['k'] == 'req':
            y.update(op=0, id=0)
        elif y['k'] in ('msg', 'ping'):
            y.update(id=mid(y['id']))
        y.setdefault('ok', True)
        y.setdefault('path', '')
        y.setdefault('ck', '')
        return y
    T = []
    nsend = {}
    out = {}      # c -> [http done, bytes, partial message]
    gone = set()
    destroyed = 0
    for e in run.ev:
        k = e['e']
        if k == 'conn':
            if e['ok']:
                T.append({'e': 'connect', 'c': e['c']})
            else:
                gone.add(e['c'])
        elif k == 'accept':
            T.append({'e': 'accept', 'c': e['c'], 'fd': e['fd'], 'addr': '%s %d' % (addr(e['ip']), 10000 + e['c'])})
        elif k == 'send':
            n = nsend.get(e['c'], 0)
            nsend[e['c']] = n + 1
            if e['c'] in items and n < len(items[e['c']]) and e['c'] not in gone:
                for x in items[e['c']][n]:
                    T.append({'e': 'csend', 'c': e['c'], 'item': conv(x)})
        elif k in ('cclose', 'chalf', 'crst'):
            if e['c'] not in gone:
                if k != 'chalf':
                    T.append({'e': 'stall', 'c': e['c'], 'b': False})
                T.append({'e': 'away', 'c': e['c']})
            gone.add(e['c'])
        elif k in ('cap', 'drain') and e['c'] not in gone:
            T.append({'e': 'stall', 'c': e['c'], 'b': e['n'] >= 0})
        elif k == 'sig':
            T.append({'e': 'sig'})
        elif k == 'open':
            T.append({'e': 'open', 'addr': '%s %d' % (addr(e['ip']), e['port']), 'fd': e['fd'], 'path': e['path'], 'ck': '' if e['cookies'] == '(null)' else e['cookies']})
        elif k in ('opened', 'msgend', 'close'):
            T.append({'e': k, 'fd': e['fd']})
        elif k == 'msg':
            T.append({'e': 'msg', 'fd': e['fd'], 'op': e['op'], 'id': mid(bytes.fromhex(e['h']))})
        elif k == 'snd':
            b = bytes.fromhex(e['h'])
            T.append({'e': 'snd', 'fd': e['fd'], 'to': e['to'], 'op': e['op'], 'id': (int.from_bytes(b[:2], 'big') if b else 0) if e['op'] == 8 else mid(b)})
        elif k == 'sndend':
            T.append({'e': 'sndend', 'fd': e['fd'], 'to': e['to']})
        elif k == 'fdclose':
            T.append({'e': 'fdclose', 'c': e['c'], 'fd': e['fd']})
        elif k in ('idle', 'quiet'):
            T.append({'e': 'quiet'})
        elif k == 'destroy':
            destroyed += 1
            T.append({'e': 'destroy'})
        elif k == 'ub' and not str(e.get('what')).startswith('destroy-locked'):
            T.append({'e': 'ub ' + str(e.get('what'))})
        elif k in ('crash', 'stuck', 'stuck-shutdown', 'livelock', 'hang'):
            T.append({'e': k})
        elif k == 'out':
            o = out.setdefault(e['c'], [False, b'', None])
            o[1] += bytes.fromhex(e['h'])
            while not o[0] and b'\r\n\r\n' in o[1]:
                j = o[1].find(b'\r\n\r\n')
                head, o[1] = o[1][:j], o[1][j + 4:]
                try:
                    st = int(head.split(b' ')[1])
                except Exception:
                    st = 0
                if st == 101:
                    o[0] = True
                elif st >= 200:
                    n = [int(l.split(b':')[1]) for l in head.split(b'\r\n') if l.lower().startswith(b'content-length:')]
                    o[1] = o[1][n[0] if n else 0:]
                if st < 100:
                    T.append({'e': 'garbage', 'c': e['c'], 'x': head[:40].hex()})
                T.append({'e': 'http', 'c': e['c'], 'ok': st == 101})
            if o[0]:
                fr, o[1] = ws.parse_frames(o[1])
                for f in fr:
                    bad = f.masked or f.rsv or f.longer or (f.op >= 8 and (not f.fin or len(f.payload) > 125)) or f.op in (3, 4, 5, 6, 7) or f.op > 10
                    if bad:
                        T.append({'e': 'garbage', 'c': e['c'], 'x': repr(f)})
                    elif f.op >= 8:
                        T.append({'e': 'wire', 'c': e['c'], 'op': f.op, 'id': (int.from_bytes(f.payload[:2], 'big') if f.payload else 0) if f.op == 8 else mid(f.payload)})
                    else:
                        if (f.op == 0) != (o[2] is not None):
                            T.append({'e': 'garbage', 'c': e['c'], 'x': 'fragments out of place: %r' % f})
                            o[2] = None
                            continue
                        o[2] = (f.op, f.payload) if o[2] is None else (o[2][0], o[2][1] + f.payload)
                        if f.fin:
                            T.append({'e': 'wire', 'c': e['c'], 'op': o[2][0], 'id': mid(o[2][1])})
                            o[2] = None
    if run.find('end') and run.rc == 0:
        T.append({'e': 'exit'})
    else:
        T.append({'e': 'died rc %s' % run.rc})
    return T, {v: k for k, v in ids.items()}


CFG = """SPECIFICATION TraceSpec
INVARIANT Report
%s
CONSTANT Conns = {%s}
CONSTANT App = "%s"
CHECK_DEADLOCK FALSE
"""


def validate(chk, traces, app='any', batch=150, workers=1):
    """traces: list of event lists. -> {index of rejected trace: number of events explained}"""
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    groups = [order[i::max(1, (len(order) + batch - 1) // batch)] for i in range(max(1, (len(order) + batch - 1) // batch))] if order else []

    def one(g):
        ncon = max([e['c'] for i in g for e in traces[i] if 'c' in e] + [0])
        cfg = CFG % ('', ', '.join(map(str, range(ncon + 1))), app)
        acc, t = tla.validate('ServerTrace', [traces[i] for i in g], cfg, workers=workers, timeout=800)
        chk.tlc(t)
        return [g[k] for k in range(len(g)) if k not in acc]
    rej = [i for r in vp.pmap(one, groups, 6) for i in r]
    out = {}
    for i in rej[:6]:
        ncon = max([e['c'] for e in traces[i] if 'c' in e] + [0])
        cfg = CFG % ('INVARIANT Where', ', '.join(map(str, range(ncon + 1))), app)
        acc, t = tla.validate('ServerTrace', [traces[i]], cfg, workers=1)
        import re
        at = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', t.out)]
        if 0 in acc:
            raise vp.MachineryError('trace rejected and accepted')
        out[i] = (max(at) if at else 1) - 1
    return out


# ------------------------------------------------------------- workloads
def run_all(chk, bdir, jobs, app='any', keep_lost=()):
    """jobs: [(clients, opts, cfg, label)]; run, project, validate, report."""
    def one(j):
        clients, opts, cfg, label = j
        sc = script(clients, opts)
        r = vp.run_sim(sc, cfg, bdir)
        if r.rc == -999:
            raise vp.MachineryError('simulation does not end: %s' % label)
        T, names = project(r, clients)
        return T, names, sc, r
    done = []
    traces = []
    step = 1200
    for k in range(0, len(jobs), step):
        part = vp.pmap(one, jobs[k:k + step])
        rej = validate(chk, [p[0] for p in part], app)
        chk.traces(len(part) - len(rej))
        chk.count('events', sum(len(p[0]) for p in part))
        for i, n in sorted(rej.items()):
            T, names, sc, r = part[i]
            ev = T[n] if n < len(T) else {'e': 'end of trace'}
            ctx = T[max(0, n - 12):n + 1]
            what = '%s: event %d is not allowed: %s%s' % (jobs[k + i][3], n, show(ev, names), ' (%s)' % conn.brief_fatal(r) if r.fatal else '')
            chk.violation(what, {'script': sc, 'config': jobs[k + i][2], 'event': show(ev, names), 'before': [show(x, names) for x in ctx[:-1]], 'stderr': r.err[-500:], 'trace': T, 'app': app})
            if chk.full():
                return


def show(e, names):
    d = {}
    for k, v in e.items():
        if k == 'id' and v in names and e.get('op') != 8:
            v = '%r' % names[v][:30]
        if k == 'item':
            v = {a: b for a, b in v.items() if a in ('k', 'op', 'id')}
        d[k] = v
    return json.dumps(d, default=str)


def strategies(rng, n):
    """n schedule strategies"""
    out = []
    for i in range(n):
        s = ['opt seed %d' % rng.randrange(1, 1 << 30)]
        k = rng.random()
        if k < 0.55:
            s += ['opt strat rand', 'opt p %s' % rng.choice(('0.03', '0.1', '0.25', '0.5', '0.9'))]
        elif k < 0.95:
            s += ['opt strat pct', 'opt pct %d %d' % (rng.choice((1, 2, 3, 5, 10)), rng.choice((300, 800, 2000, 4000)))]
        else:
            s += ['opt strat seq']
        if rng.random() < 0.3:
            s.append('opt spurious 0.1')
        if rng.random() < 0.3:
            s.append('opt eintr 0.05')
        out.append(s)
    return out
