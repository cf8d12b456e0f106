"""Checks decided with spec/Handshake.tla: C05 (and parts of C06, C17)."""
import hs
import vp
from conn_checks import pick


def c05(c):
    t = vp.THOROUGH
    b = vp.build('rel')
    for cname in hs.CONFIGS:
        cs = hs.cases(c, cname, 2, 1)
        c.count('behaviours', len(cs))
        if cname in ('open', 'all') or t:
            one = cs
        else:
            one = pick(cs, 1500, vp.SEED)
        for x in cs[:: max(1, len(cs) // 2)][:1]:
            c.sample({'config': cname, 'requests': x['h'], 'answers': x['a']})
        hs.replay(c, b, one, cname, ['whole', 'random'] if t else ['whole'], vp.SEED)
        if c.full():
            return
    # several requests on one connection until one upgrades it
    for cname in ('open', 'all'):
        cs = pick(hs.cases(c, cname, 1, 2, {'extra': [x for x in hs.DOM['extra'] if x not in ('hugeheader', 'bigbody', 'body')]}), None if t else 700, vp.SEED)
        c.count('behaviours', len(cs))
        hs.replay(c, b, cs, cname, ['whole', 'random'], vp.SEED + 1)
    if t:
        for cname in ('open', 'all'):
            cs = hs.cases(c, cname, 3, 1)
            c.count('behaviours', len(cs))
            hs.replay(c, b, pick(cs, 30000, vp.SEED), cname, ['whole'], vp.SEED + 2)


def c06(c):
    import random
    t = vp.THOROUGH
    rel, asan = vp.build('rel'), vp.build('asan')
    rng = random.Random(vp.SEED)
    # requests of every class of the handshake model: the expected answer under every segmentation
    for cname in ('open', 'all'):
        cs = hs.cases(c, cname, 1, 1)
        c.count('behaviours', len(cs))
        hs.replay(c, rel, cs, cname, ['whole', 'lines', 'random', 'bytes'], vp.SEED, batch=10)
    cs = hs.cases(c, 'open', 2, 1)
    hs.replay(c, rel, pick(cs, 8000 if t else 800, vp.SEED), 'open', ['random', 'lines'], vp.SEED + 1)
    # malformed requests line by line
    cs = pick(hs.http_cases(c, 4 if t else 3), 30000 if t else 1500, vp.SEED)
    c.count('behaviours', len(cs))
    reqs = []
    for x in cs:
        raw = hs.http_raw(x, rng)
        term = raw.find(b'\r\n\r\n') >= 0
        early = x['early']
        # a terminator in the middle of a line class starts another request
        exact = not early and (raw.find(b'\r\n\r\n') == len(raw) - 4 or not term)
        reqs.append(('%s%s' % (x['r'], '' if x['complete'] else ' (incomplete)'), raw, (1 if term else 0) if exact else None, None if {'nul', 'huge'} <= set(x['r']) else exact))
    for x in cs[:: max(1, len(cs) // 2)][:2]:
        c.sample({'lines': x['r'], 'complete': x['complete']})
    hs.differential(c, asan if t else rel, reqs, 'open', vp.SEED)
    hs.differential(c, asan, pick(reqs, 400, vp.SEED), 'all', vp.SEED, segs=('whole', 'random'))
    # mutated requests
    base = [x for x in hs.cases(c, 'all', 1, 1) if x['h'][0]['extra'] not in ('body', 'bigbody', 'hugeheader')]
    reqs = []
    for i in range(20000 if t else 500):
        raw = hs.mutate(hs.Req(rng.choice(base)['h'][0], rng).raw, rng)
        reqs.append(('mutated #%d' % i, raw, None, b'\0' not in raw if raw.find(b'\r\n\r\n') == len(raw) - 4 and len(raw) < 1000 else None))
    hs.differential(c, asan, reqs, 'all', vp.SEED, segs=('whole', 'random', 'lines'))
