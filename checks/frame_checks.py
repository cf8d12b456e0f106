"""C20: the codec of src/frame.c against the tables of spec/Frame.tla."""
import os
import random
import re
import subprocess

import tla
import vp

MC = '''SPECIFICATION FSpec
CONSTANT Small <- S
CONSTANT MaxFrames = %d
INVARIANT Prefix
INVARIANT Rest
INVARIANT Prompt
INVARIANT AllThere
CHECK_DEADLOCK FALSE
'''
SMALL = '''S == {[fin |-> f, rsv |-> r, op |-> o, form |-> IF l > 125 THEN 16 ELSE 7, len |-> l, key |-> k] : f \\in BOOLEAN, r \\in {0,4}, o \\in {1,10}, l \\in {0,1,3}, k \\in {<<>>,<<1,128,126,0>>}}
 \\cup {[fin |-> TRUE, rsv |-> 0, op |-> 2, form |-> fo, len |-> l, key |-> k] : fo \\in {16,64}, l \\in {0,2}, k \\in {<<>>,<<255,127,126,1>>}}
'''
L7 = '{0,1,2,3,7,8,15,16,17,31,32,33,47,48,63,64,65,95,96,97,124,125}'
L16 = '{0,1,125,126,127,128,129,191,192,193,255,256,257,1000,32767,32768,65534,65535}'
L64 = '{0,125,126,65535,65536,65537,70001,131072}'
TAB = '''S == {}
HF == {[fin |-> f, rsv |-> r, op |-> o, form |-> x[1], len |-> x[2], key |-> k] : f \\in BOOLEAN, r \\in 0..7, o \\in 0..15, k \\in {<<>>, <<1,128,126,0>>},
       x \\in {<<7, l>> : l \\in %s} \\cup {<<16, l>> : l \\in %s} \\cup {<<64, l>> : l \\in %s}}
ASSUME \\A f \\in HF : HeaderOk(f)
ASSUME \\A f \\in HF : PrintT(<<"CASE", ToJson([k |-> "D", f |-> f, h |-> Header(f)])>>)
EF == {[fin |-> f, rsv |-> r, op |-> o, form |-> Form(l), len |-> l, key |-> <<>>] : f \\in BOOLEAN, r \\in {0,1,2,4,7}, o \\in {0,1,2,8,9,10}, l \\in {0,1,2,125,126,300,65535,65536}}
ASSUME \\A f \\in EF : PrintT(<<"CASE", ToJson([k |-> "X", f |-> f, h |-> Header(f)])>>)
LI == {1,2,3,7,100,125,126,127,1000,65535,65536,1048576}
Sizes(l) == {n \\in {0,1,2,3,5,124,125,126,127,128,250,251,252,999,1000,1001,2000,65534,65535,65536,65537,131070,131071,200000} : n <= 40 * l}
ASSUME \\A o \\in {1,2}, l \\in LI : \\A n \\in Sizes(l) : CutOk(o, n, l)
Js(o, n, l) == [k |-> "C", op |-> o, n |-> n, lim |-> l, c |-> [i \\in 1..Parts(n, l) |-> [h |-> Header(Cut(o, n, l)[i]), len |-> Cut(o, n, l)[i].len]]]
ASSUME \\A o \\in {1,2}, l \\in LI : \\A n \\in Sizes(l) : PrintT(<<"CASE", ToJson(Js(o, n, l))>>)
Ctl(o, n, l) == [k |-> "C", op |-> o, n |-> n, lim |-> l, c |-> [i \\in 1..Control(o, n) |-> [h |-> Header([fin |-> TRUE, rsv |-> 0, op |-> o, form |-> 7, len |-> n, key |-> <<>>]), len |-> n]]]
ASSUME \\A o \\in {9,10}, l \\in {1,100,1000}, n \\in {0,1,50,100,101,124,125,126,127,200,65536} : PrintT(<<"CASE", ToJson(Ctl(o, n, l))>>)
'''
KNOWN = set(range(1000, 1004)) | set(range(1005, 1016))


def hx(l):
    return bytes(l).hex() or '-'


def dec(f, h):
    return '%s %d %d %d %d %d' % (hx(h), f['len'], f['fin'], f['rsv'], f['op'], 1 if f['key'] else 0)


def plan(chk):
    chk.tlc(tla.must(tla.run('Frame', MC % (3 if vp.THOROUGH else 2), SMALL, workers=8, heap='10g', timeout=800), 'Frame'))
    t = tla.must(tla.run('Frame', MC % 0, TAB % (L7, L16, L64), workers=1, heap='6g', timeout=800), 'Frame tables')
    chk.count('table_rows', len(t.cases))
    rng = random.Random(vp.SEED * 31 + 20)
    rk = lambda f, h: h[:-4] + [rng.randrange(256) for _ in range(4)] if f['key'] else h
    D = [c for c in t.cases if c['k'] == 'D']
    lines = []
    for c in D:
        big = c['f']['len'] > 2000
        if big and not vp.THOROUGH and rng.random() > 0.05:
            continue
        lines.append('D ' + dec(c['f'], rk(c['f'], c['h'])))
    small = [c for c in D if c['f']['len'] <= 300]
    for _ in range(20000 if vp.THOROUGH else 1500):
        k = rng.choice((2, 2, 3, 4, 6))
        p = [rng.choice(small if rng.random() < 0.97 else D) for _ in range(k)]
        lines.append('S %d ' % k + ' '.join(dec(c['f'], rk(c['f'], c['h'])) for c in p))
    # lengths beyond anything: the top half of the 8 bytes is not empty, or the sum with the offset wraps
    for top in [[0x80, 0, 0, 0, 0, 0, 0, 0], [255] * 8, [0x7f] + [255] * 7, [0, 0, 0, 1, 0, 0, 0, 0], [0, 0, 0, 0, 128, 0, 0, 0], [255] * 7 + [200], [255] * 7 + [0xf1], [255] * 7 + [0xf2], [255] * 7 + [0xf0], [255, 255, 255, 255, 255, 255, 254, 1]] + \
            [[255] * 7 + [k] for k in range(224, 256)] + [[rng.randrange(256) for _ in range(4)] + [255, rng.randrange(256), 1, 2] for _ in range(20)]:
        if not any(top[:4]) and top[4] < 128:
            continue
        lines.append('H ' + hx([130, 127] + top))
        lines.append('H ' + hx([130, 255] + top + [1, 2, 3, 4]))
    for c in t.cases:
        if c['k'] == 'C':
            lines.append('C %d %d %d %d ' % (c['op'], c['n'], c['lim'], len(c['c'])) + ' '.join('%s %d' % (hx(x['h']), x['len']) for x in c['c']))
        elif c['k'] == 'X':
            f = c['f']
            for e in {0, 1, f['len'] // 2, f['len']}:
                if e <= f['len']:
                    lines.append('X %s %d %d %d %d %d' % (hx(c['h']), f['fin'], f['rsv'], f['op'], e, f['len'] - e))
        elif c['k'] == 'D' and c['f']['op'] == 9 and c['f']['form'] == 7 and c['f']['key']:
            lines.append('P ' + dec(c['f'], rk(c['f'], c['h'])))
    for code in list(range(990, 1030)) + [2999, 3000, 4000, 4999, 5000]:
        lines.append('K %d %d' % (code, code in KNOWN))
    lines.append('Q')
    chars = ['a', 'a', '\u00e9', '\u20ac', '\U0001f600']
    for n in list(range(0, 135)) + [200, 1000]:
        for ch in ('a', '\u00e9', '\u20ac', '\U0001f600', '*'):
            r = ''
            while len(r.encode()) < n:
                r += rng.choice(chars) if ch == '*' else ch
            lines.append('M %d %s' % (rng.choice((1000, 1001, 3000, 4999, 1008)), hx(r.encode())))
            lines.append('M %d %s' % (1000, hx(b'x' * rng.randrange(4) + r.encode())))
    lines += ['M -1 -', 'M -1 41', 'M 1000 ' + hx(b'ab\0cd'), 'M 1001 ' + hx(b'\xff' * 130), 'M 1001 ' + hx(b'\x80' * 130)]
    for _ in range(300000 if vp.THOROUGH else 20000):
        b = [rng.choice((0, 1, 2, 125, 126, 127, 128, 129, 130, 253, 254, 255, rng.randrange(256))) for _ in range(rng.randrange(1, 40))]
        lines.append('Z ' + hx(b))
    for c in D[:: max(1, len(D) // 3)][:3]:
        chk.sample(c)
    return lines


def variants():
    v = [('avx2', []), ('sse2', ['-march=x86-64-v2']), ('generic', ['-include', os.path.join(vp.VERIF, 'sim', 'drv', 'nosimd.h')])]
    try:
        if 'avx512f' in open('/proc/cpuinfo').read():
            v.append(('avx512', ['-march=x86-64-v4']))
    except OSError:
        pass
    return v


def c20(chk):
    lines = plan(chk)
    n = 4
    work = []
    for name, fl in variants():
        # address sanitizer: what is read beyond the bytes given is seen
        exe = vp.driver('frame-' + name, 'frame_drv.c', ['src/frame.c'], flags=['-O1', '-g', '-fsanitize=address'] + [x for x in fl if 'march' in x],
                        obj_flags=['-std=gnu11', '-O2', '-g', '-DNDEBUG', '-fsanitize=address'] + fl, libs=['-lm'] + vp.LIBS)
        for k in range(n):
            p = os.path.join(vp.scratch(), 'plan-%s-%d' % (name, k))
            with open(p, 'w') as f:
                f.write('\n'.join(lines[k::n]) + '\n')
            work.append((name, k, exe, p))

    def one(a):
        name, k, exe, p = a
        try:
            r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=800, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            raise vp.MachineryError('%s does not end' % exe)
        bad = [(lines[k::n][int(i) - 1], w) for i, w in re.findall(r'^BAD (\d+) (.*)', r.stdout, re.M)]
        m = re.search(r'^DONE (\d+) (\d+)', r.stdout, re.M)
        if m:
            chk.count('codec_calls', int(m.group(1)))
            chk.traces(int(m.group(2)))
        elif not bad:
            e = re.search(r'ERROR: AddressSanitizer: .*', r.stderr)
            bad = [('?', 'codec fails: exit %s %s' % (r.returncode, (e.group(0) if e else r.stderr[-300:])))]
        return name, bad
    for name, bad in vp.pmap(one, work):
        seen = set()
        for l, w in bad:
            key = (l[0], re.sub(r'\d+', 'N', w))
            if key in seen or chk.full():
                continue
            seen.add(key)
            chk.violation('frame codec (%s build): %s: %s' % (name, l[:200], w), {'build': name, 'plan': l, 'what': w})
