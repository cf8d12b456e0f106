"""C15: the automaton of spec/Utf8.tla (model checked against the definition of
UTF-8) compared with every build variant of the validator, and the behaviours of
spec/Text.tla replayed on the real server."""
import json
import os
import random
import re
import subprocess

import conn
import tla
import vp

U = '''SPECIFICATION USpec
CONSTANT Bytes <- B
CONSTANT MaxLen = %d
INVARIANT Agree
INVARIANT Hopeless
INVARIANT Hopeful
INVARIANT Cut
CHECK_DEADLOCK FALSE
'''
T = '''SPECIFICATION TSpec
CONSTANT Bytes <- B
CONSTANT MaxLen = %d
CONSTANT MaxFrags = %d
CONSTANT Wrong = %s
INVARIANT Whole
INVARIANT Padding
INVARIANT Tear
INVARIANT Verdict
INVARIANT Emit
CHECK_DEADLOCK FALSE
'''
EMIT = 'B == %s\nEmit == done => PrintT(<<"CASE", ToJson(Case)>>)\n'
ALL = '0..255'
REPS = '{0,127,128,143,144,159,160,191,192,193,194,223,224,225,236,237,238,239,240,241,243,244,245,255}'
FEW = '{97,128,144,160,191,193,195,224,226,237,240,244,245}'


def table(chk):
    rows = {}
    for b, n in ((ALL, 2), (REPS, 4 if vp.THOROUGH else 3)):
        x = 'B == %s\n' % b
        if b == ALL:
            x += 'ASSUME \\A q \\in States : PrintT("ROW " \\o ToString(q) \\o " " \\o ToJson(Row(q)))\n'
        t = tla.must(tla.run('Utf8', U % n, x, workers=8, heap='6g'), 'Utf8')
        chk.tlc(t)
        for q, l in re.findall(r'ROW (\d) (\[[0-9, ]*\])', t.out):
            rows[int(q)] = json.loads(l)
    if sorted(rows) != list(range(9)) or any(len(r) != 256 for r in rows.values()):
        raise vp.MachineryError('no table')
    p = os.path.join(vp.scratch(), 'utf8.tab')
    with open(p, 'w') as f:
        f.write('\n'.join(' '.join(map(str, rows[q])) for q in range(9)) + '\n')
    return p


def variants():
    v = [('avx2', []), ('sse2', ['-march=x86-64-v2']),
         ('generic', ['-include', os.path.join(vp.VERIF, 'sim', 'drv', 'nosimd.h')]),
         ('noopt', ['-O0'])]
    try:
        if 'avx512_vbmi' in open('/proc/cpuinfo').read() or 'avx512vbmi' in open('/proc/cpuinfo').read():
            v.append(('avx512', ['-march=x86-64-v4', '-mavx512vbmi']))
    except OSError:
        pass
    return v


def validator(chk, tab):
    work = []
    for name, fl in variants():
        exe = vp.driver('utf8-' + name, 'utf8_drv.c', ['src/utf8.c'], flags=['-O2'], obj_flags=['-std=gnu11', '-O3' if '-O0' not in fl else '-O0', '-g', '-DNDEBUG'] + fl)
        slow = name == 'noopt'
        if not slow or vp.THOROUGH:
            work.append((name, [exe, tab, 'short', '1', '14' if vp.THOROUGH else '5']))
        for k in range(4 if vp.THOROUGH else 2):
            work.append((name, [exe, tab, 'class', str(vp.SEED * 100 + k), '2' if slow else '1000' if vp.THOROUGH and not k else '40']))
        if not slow or vp.THOROUGH:
            work.append((name, [exe, tab, 'torn', '1', '2' if vp.THOROUGH else '1']))
        work.append((name, [exe, tab, 'random', str(vp.SEED), '20000' if slow else '3000000' if vp.THOROUGH else '150000']))

    def one(w):
        name, cmd = w
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            raise vp.MachineryError('%r does not end' % cmd)
        bad = re.findall(r'^BAD (\S*) (-?\d+) (\d+) at (\d+)', r.stdout, re.M)
        m = re.search(r'^DONE (\d+)', r.stdout, re.M)
        if not bad and (r.returncode or not m):
            if r.returncode == 2:
                raise vp.MachineryError('%r: %s' % (cmd, r.stdout[-300:]))
            bad = [('?', '-1', str(r.returncode), '0')]
        if m:
            chk.count('validator_calls', int(m.group(1)))
        return name, bad
    seen = set()
    for name, bad in vp.pmap(one, work):
        for h, want, got, at in bad:
            if name in seen:
                break
            seen.add(name)
            what = 'fails with signal %s' % got if want == '-1' else 'is %s' % ('accepted' if got == '1' else 'refused')
            chk.violation('utf8_check (%s build): text %s at address %s mod 64 %s%s' % (name, h, at, what, '' if want == '-1' else ' although it is %svalid' % ('' if want == '1' else 'in')),
                          {'build': name, 'text': h, 'alignment': at})
    chk.count('validator_builds', len(set(w[0] for w in work)))


def frame(op, fin, lit, code=0):
    return {'op': op, 'fin': fin, 'mask': True, 'rsv': 0, 'size': 'n', 'pay': ['lit'], 'lit': lit, 'code': code, 'app': ''}


def conv(c, rng, pad):
    """The conversation of a case: some text around it, control frames between the
    fragments, and a message after it."""
    fr = [list(x) for x in c['frags']]
    ch = rng.choice(['a', 'a', '\u00e9', '\u20ac', '\U0001f600']).encode()
    x = rng.choice((b'x', b'\0', b'x\0\x7f \n'))
    a = list(b'.' + bytes(rng.choice(x) for _ in range(rng.choice(pad))) + ch * rng.choice((0, 0, 1, 5, 20)))
    z = [] if rng.random() < 0.4 else [120] * rng.choice(pad)
    if c['kind'] == 'reason':
        a, z = a[rng.choice((0, 1)):rng.choice((0, 2, 5, 16, 40))], z[:50]
        while a and not _ok(a):
            a.pop()
    fr[0] = a + fr[0]
    fr[-1] = fr[-1] + z
    ok = c['ok']
    if rng.random() < 0.25 and c['kind'] != 'reason':     # text in the middle: see Tear in spec/Text.tla
        i = rng.randrange(len(fr))
        j = rng.randrange(len(fr[i]) + 1)
        if c['kind'] == 'text':
            ok = ok and _ok(sum(fr[:i], []) + fr[i][:j])
        fr[i][j:j] = [121] * rng.choice((1, 16, 32, 64, 96, 128))
    h, o, d = [], [], []

    def add(f):
        h.append(f)
        return len(h)

    def msg(op, parts):
        o.append({'k': 'msg', 'op': op, 'parts': parts, 'codes': []})
        d.append({'op': op, 'parts': parts})
    if rng.random() < 0.3:
        msg(1, [add(frame(1, True, list('.\u20ac'.encode())))])
    p = 'open'
    if c['kind'] == 'reason':
        k = add(frame(8, True, fr[0], 1000))
        o.append({'k': 'echo', 'op': 8, 'parts': [k], 'codes': []} if ok else {'k': 'close', 'op': 8, 'parts': [], 'codes': [1007]})
        p = 'closed'
    else:
        op = 1 if c['kind'] == 'text' else 2
        parts = []
        for i, x in enumerate(fr):
            parts.append(add(frame(op if i == 0 else 0, i == len(fr) - 1, x)))
            if i < len(fr) - 1 and rng.random() < 0.15:
                o.append({'k': 'pong', 'op': 10, 'parts': [add(frame(9, True, [255, 128]))], 'codes': []})
        if ok:
            msg(op, parts)
        else:
            o.append({'k': 'close', 'op': 8, 'parts': [], 'codes': [1007]})
            p = 'closed'
    if p == 'open' and rng.random() < 0.5:
        msg(1, [add(frame(1, True, list('.\u00e9'.encode())))])
    return {'h': h, 'o': o, 'd': d, 'p': p}


def _ok(a):
    try:
        bytes(a).decode()
        return True
    except UnicodeDecodeError:
        return False


def server(chk):
    t = vp.THOROUGH
    rng = random.Random(vp.SEED * 7919 + 15)
    b = vp.build('rel')
    cases = []
    x = tla.must(tla.run('Text', T % (3, 3, 'TRUE'), EMIT % FEW, workers=8, heap='6g'), 'Text')
    chk.tlc(x)
    ex = x.cases
    if not t:      # all valid ones, some of the others
        ex = [c for c in ex if c['ok'] and c['kind'] != 'binary'] + rng.sample([c for c in ex if not c['ok']], 1500) + rng.sample([c for c in ex if c['kind'] == 'binary'], 300)
    cases += ex
    for n, fr, w, num in ((4, 3, 'TRUE', 4000), (12, 4, 'FALSE', 1500), (12, 4, 'TRUE', 500)):
        y = tla.must(tla.run('Text', T % (n, fr, w), EMIT % REPS.replace('0,', '97,', 1), workers=1, args=['-simulate', 'num=%d' % (num * (8 if t else 1)), '-depth', '20', '-seed', str(vp.SEED + n)]), 'Text')
        seen = {json.dumps(c, sort_keys=True): c for c in y.cases}
        ok = [c for c in seen.values() if c['ok']]
        no = [c for c in seen.values() if not c['ok']]
        cases += ok[:400 * (10 if t else 1)] + no[:400 * (10 if t else 1)]
    for c in cases[:: max(1, len(cases) // 4)][:4]:
        chk.sample(c)
    chk.count('behaviours', len(cases))
    cfg = conn.server_config(b, frame=4096, fragmented=6, buffer=256)
    rng.shuffle(cases)
    h = len(cases) // 2
    pads = [0, 0, 1, 2, 3, 5, 11, 12, 13, 14, 15, 16, 26, 28, 29, 30, 31, 32, 33, 45, 61, 62, 63, 64, 65, 95, 120, 300]
    conn.replay(chk, b, [conv(c, rng, pads) for c in cases[:h]], cfg, ['whole'] + (['random'] if t else []), vp.SEED, 4096, batch=40)
    conn.replay(chk, b, [conv(c, rng, pads) for c in cases[h:]], cfg, ['random'] + (['frames'] if t else []), vp.SEED + 1, 4096, batch=40)


def c15(chk):
    validator(chk, table(chk))
    server(chk)
