"""C18: spec/Config.tla against the real loading of configuration files."""
import json
import os
import random
import shutil
import subprocess

import conn
import tla
import vp
import ws

NAMES = ('port.http port.https log_level size.payload size.header size.uri size.buffer size.thread size.ringbuffer size.frame size.fragmented pool.workers pool.retries'
         ' timeouts.pings timeouts.poll timeouts.read timeouts.write timeouts.client').split()
INTS = ['setup.' + n for n in NAMES]
BOOLS = ['setup.ssl.compression', 'setup.ssl.peer_cert']
STRS = ['setup.ssl.' + n for n in 'key cert ca_file ca_path dhparam cipher_list cipher_suites'.split()] + ['setup.favicon']
LISTS = ['hosts', 'origins', 'paths', 'queries']
PLUGS = ['setup.subprotocols', 'setup.extensions']

VALUES = '''
Big(n, h, l) == [t |-> "int", i |-> <<n, h, l>>]
Nums == {Num(0), Num(1), Num(9), Num(10), Num(65535), Num(65536), Num(75000), Num(2147483647), Big(0, 1, 0), Big(0, 1, 2147483647), Big(0, 2, 0), Big(0, 2, 80), Neg(1), Neg(80), Neg(2147483647), Big(1, 1, 0), Big(1, 1, 5), Big(1, 2, 0), Big(1, 2, 7)}
Wrong == {Str("x"), Str(""), Str("80"), Bool(TRUE), Bool(FALSE), Null, [t |-> "float"], [t |-> "huge"], Arr(<<>>), Obj(<<>>), Arr(<<Str("a")>>), Arr(<<Num(1)>>), Obj(<<[k |-> "x", v |-> Num(1)]>>), Obj(<<[k |-> "http", v |-> Num(7)]>>)}
P(f, c) == Obj(<<[k |-> "file", v |-> f], [k |-> "config", v |-> c]>>)
Lsts == {Arr(<<Str("a"), Str("b.example")>>), Arr(<<Str("a"), Str("a"), Str("")>>), Arr(<<Str("a"), Num(1)>>), Arr(<<Null, Str("a")>>), Arr(<<Str("a"), Str("b"), Str("c"), Arr(<<>>)>>)}
Plgs == {Arr(<<P(Str("x.so"), Str("c=1"))>>), Arr(<<Obj(<<[k |-> "file", v |-> Str("y.so")]>>), P(Str("x.so"), Str(""))>>), Arr(<<Obj(<<[k |-> "config", v |-> Str("q")], [k |-> "file", v |-> Str("z.so")]>>), P(Str("x.so"), Num(5)), P(Str("w.so"), Null)>>),
         Arr(<<P(Num(1), Str("c"))>>), Arr(<<P(Str("x.so"), Str("c")), Str("x")>>), Arr(<<P(Null, Null)>>)}
Junk == {<<"hostsx">>, <<"origins_old">>, <<"pathsx">>, <<"note">>, <<"setup", "size", "bufferx">>, <<"setup", "x", "port", "http">>, <<"setup", "pool", "size", "buffer">>, <<"setup", "timeouts", "ssl", "key">>, <<"setup_old", "size", "uri">>, <<"setup", "port", "favicon">>, <<"setup", "hosts">>, <<"size", "uri">>, <<"origins ">>}
Inner == {<<"setup">>, <<"setup", "size">>, <<"setup", "port">>, <<"setup", "timeouts">>, <<"setup", "ssl">>, <<"setup", "pool">>}
All == {[p |-> p, v |-> v] : p \\in Ints \\cup Bools \\cup Strs, v \\in Nums \\cup Wrong} \\cup {[p |-> p, v |-> v] : p \\in Lists, v \\in Wrong \\cup Lsts \\cup {Num(5)}} \\cup {[p |-> p, v |-> v] : p \\in Plugins, v \\in (Wrong \\ {Arr(<<Num(1)>>), Arr(<<Str("a")>>)}) \\cup Plgs \\cup {Num(5), Arr(<<Num(1)>>)}}
       \\cup {[p |-> p, v |-> v] : p \\in Junk, v \\in {Num(80), Str("a"), Arr(<<Str("a")>>), Obj(<<>>)}} \\cup {[p |-> p, v |-> v] : p \\in Inner, v \\in {w \\in Wrong : ~(w.t = "obj" /\\ w.o # <<>>)}}
Few == {[p |-> p, v |-> Num(n)] : p \\in Ints, n \\in {0, 77}} \\cup {[p |-> p, v |-> Str("w")] : p \\in Strs} \\cup {[p |-> p, v |-> Bool(TRUE)] : p \\in Bools} \\cup {[p |-> p, v |-> Arr(<<Str("a"), Str("b")>>)] : p \\in Lists}
       \\cup {[p |-> p, v |-> Arr(<<P(Str("x.so"), Str("c")), P(Str("y.so"), Null)>>)] : p \\in Plugins} \\cup {[p |-> p, v |-> v] : p \\in Junk, v \\in {Num(5), Arr(<<Str("z")>>)}} \\cup {[p |-> p, v |-> Arr(<<Str("a"), Null>>)] : p \\in Lists} \\cup {[p |-> p, v |-> Arr(<<P(Num(1), Null)>>)] : p \\in Plugins}
Tiny == {[p |-> p, v |-> v] : p \\in {S(<<"port", "http">>), S(<<"port", "https">>)}, v \\in {Num(0), Num(5)}} \\cup {[p |-> S(<<"size", "uri">>), v |-> v] : v \\in {Num(9), Str("x")}} \\cup {[p |-> <<"hosts">>, v |-> v] : v \\in {Arr(<<Str("a")>>), Arr(<<Null>>)}} \\cup {[p |-> <<"hostsx">>, v |-> Num(1)], [p |-> S(<<"pool", "size", "uri">>), v |-> Num(3)]}
       \\cup {[p |-> S(<<"extensions">>), v |-> Arr(<<P(Str("x.so"), Str("c"))>>)], [p |-> S(<<"ssl", "key">>), v |-> Str("k")], [p |-> S(<<"timeouts", "read">>), v |-> Neg(4)]}
Emit == PrintT(<<"CASE", ToJson(file)>>)
'''


def build(leaves):
    """the document of the leaves: members in the order of first mention"""
    root = []
    for l in leaves:
        ms = root
        for k in l['p'][:-1]:
            m = next((m for m in ms if m['k'] == k), None)
            if m is None:
                m = {'k': k, 'v': {'t': 'obj', 'o': []}}
                ms.append(m)
            ms = m['v']['o']
        ms.append({'k': l['p'][-1], 'v': l['v']})
    return {'t': 'obj', 'o': root}


def num(i):
    return (-1 if i[0] else 1) * (i[1] * (1 << 31) + i[2])


def unnum(n):
    a = abs(n)
    return {'t': 'int', 'i': [int(n < 0), a >> 31, a & 0x7fffffff]}


def text(v, rng, plain=False):
    """JSON text of a value, written in one of the possible ways"""
    w = (lambda: '') if plain else (lambda: rng.choice(('', '', '', ' ', '\n', '\t', '  ', '/* c */', '// c\n', '\r\n', '/**/', '/* { "port" : 1 } */')))
    # the parser has no comments right after a value
    a = (lambda: '') if plain else (lambda: rng.choice(('', '', ' ', '\n', '\t', '\r\n')))
    t = v['t']
    if t == 'huge':
        return rng.choice('9223372036854775808 18446744073709551696 18446744073709552059 -18446744073709551536 36893488147419103312 92233720368547758080 340282366920938463463374607431768211536'.split())
    if t == 'int':
        return str(num(v['i']))
    if t == 'str':
        s = json.dumps(v['s'], ensure_ascii=rng.random() < 0.5)
        if not plain and rng.random() < 0.2:
            s = '"' + ''.join('\\u%04x' % ord(c) if ord(c) < 0x10000 and rng.random() < 0.5 else json.dumps(c)[1:-1] for c in v['s']) + '"'
        return s.replace('/', rng.choice(('/', '\\/')))
    if t == 'bool':
        return 'true' if v['b'] else 'false'
    if t == 'null':
        return 'null'
    if t == 'float':
        return rng.choice(('80.0', '1.5', '1e2', '-0.5', '8E1', '9.0e-1', '0.0'))
    if t == 'arr':
        return '[' + w() + ','.join(w() + text(x, rng, plain) + a() for x in v['a']) + a() + ']'
    return '{' + w() + ','.join(w() + json.dumps(m['k']) + a() + ':' + w() + text(m['v'], rng, plain) + a() for m in v['o']) + a() + '}'


def result(r):
    """the driver's line -> record for the specification (or a string: failure)"""
    if r['sig'] or r['rc'] == 77:
        return 'crashed (%s)' % (('signal %d' % r['sig']) if r['sig'] else 'memory error')
    c = r['cfg']
    if r['rc'] and c is None:
        return {'refused': True, 'set': []}
    if r['rc'] or c is None:
        return 'ended with status %d' % r['rc']
    u = lambda h: {'t': 'null'} if h is None else {'t': 'str', 's': bytes.fromhex(h).decode('utf-8', 'replace')}
    out = []
    add = lambda n, v: out.append({'p': n.split('.'), 'v': v})
    for n in INTS:
        add(n, unnum(c[n]))
    for n in BOOLS:
        add(n, {'t': 'bool', 'b': bool(c[n])})
    for n in STRS:
        add(n, u(c[n]))
    for n in LISTS:
        if any(x['s'] is None for x in c[n]):
            return 'list %s has a hole' % n
        add(n, [u(x['s'])['s'] for x in c[n]])
    for n, f, g in (('setup.subprotocols', 'sf', 'sc'), ('setup.extensions', 'ef', 'ec')):
        add(n, [{'f': u(x['s']), 'c': u(y['s'])} for x, y in zip(c[f], c[g])])
    return {'refused': False, 'set': out}


def driver():
    return vp.driver('config-asan', 'config_drv.c', ['src/main.c', 'src/config.c', 'src/json.c', 'src/str.c', 'src/alloc.c', 'src/log.c'], flags=['-O1', '-g', '-fsanitize=address'],
                     obj_flags=['-O1', '-g', '-DNDEBUG', '-fsanitize=address', '-Dmain=wss_main'], libs=['-lm', '-lpthread'])


def load(exe, texts):
    """-> results of loading files with these contents (None: no file is given; str starting with a slash: that path)"""
    base = os.path.join(vp.scratch(), 'cfg')
    n = (len(texts) + vp.JOBS - 1) // vp.JOBS

    def some(k):
        part = texts[k * n:(k + 1) * n]
        d = '%s%d' % (base, k)
        os.makedirs(d + '/log', exist_ok=True)
        lines = []
        for i, t in enumerate(part):
            if t is None or isinstance(t, str):
                lines.append(t or '-')
                continue
            lines.append('%s/%d.json' % (d, i))
            with open(lines[-1], 'wb') as f:
                f.write(t)
        p = subprocess.run([exe], input='\n'.join(lines + ['']).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, timeout=800,
                           env={**os.environ, 'ASAN_OPTIONS': 'exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'})
        rs = [json.loads(l) for l in p.stdout.decode().split('\n') if l]
        if p.returncode or len(rs) != len(part):
            raise vp.MachineryError('configuration driver: %d results of %d' % (len(rs), len(part)))
        return rs
    return [r for l in vp.pmap(some, range(vp.JOBS)) for r in l]


def exact(chk, exe, docs, seed):
    rng = random.Random(seed)
    texts = []
    for d in docs:
        b = text(d, rng, rng.random() < 0.3).encode()
        texts.append((b'\xef\xbb\xbf' if rng.random() < 0.03 else b'') + b)
    rs = load(exe, texts)
    tr, at = [], []
    for d, b, r in zip(docs, texts, rs):
        o = result(r)
        if isinstance(o, str):
            chk.violation('file %s: %s' % (brief(b), o), {'file': b.decode('utf-8', 'replace'), 'result': r})
            if chk.full():
                return
        else:
            tr.append({'d': d, 'huge': '"huge"' in json.dumps(d), 'out': o})
            at.append((b, r))
    acc, t = tla.validate('ConfigTrace', tr, 'SPECIFICATION TSpec\nINVARIANT Report\nCONSTANT Leaves = {}\nCONSTANT MaxLeaves = 0\nCHECK_DEADLOCK FALSE\n', workers=8, chunk=4000)
    chk.tlc(t)
    chk.traces(len(acc))
    for i in range(len(tr)):
        if i not in acc:
            b, r = at[i]
            chk.violation('file %s: %s' % (brief(b), differs(tr[i])), {'file': b.decode('utf-8', 'replace'), 'result': r})
            if chk.full():
                return


def brief(b):
    return b.decode('utf-8', 'replace')[:240] + ('...' if len(b) > 240 else '')


def differs(tr):
    if tr['out']['refused']:
        return 'refused'
    return 'loaded as %s' % {'.'.join(e['p']): (num(e['v']['i']) if isinstance(e['v'], dict) and e['v']['t'] == 'int' else e['v']) for e in tr['out']['set'] if mentioned(tr['d'], e['p'])}


def mentioned(d, p):
    for k in p:
        if d['t'] != 'obj':
            return False
        m = [m for m in d['o'] if m['k'] == k]
        if not m:
            return k in ('port', 'http', 'https')
        d = m[0]['v']
    return True


def random_doc(rng):
    """a file with many settings in any order"""
    L = []
    st = lambda: {'t': 'str', 's': ''.join(rng.choice('abz/.-_: \u00e9\u20ac"\\\n\U0001f600\U00010000\U00020bb7\U0010ffff') for _ in range(rng.choice((0, 1, 5, 40))))}
    for n in rng.sample(INTS, rng.randrange(len(INTS) + 1)):
        v = unnum(rng.choice((1, 2, 3, 79, 80, 443, 1000, 4096, 9010, 65535) if 'port' in n else (1, 2, 1000, 123456, 2 ** 31 - 1)))
        if 'timeouts' in n and rng.random() < 0.3 and 'pings' not in n:
            v = unnum(-rng.randrange(1, 100))
        L.append((n.split('.'), v))
    for n in rng.sample(STRS, rng.randrange(len(STRS) + 1)):
        L.append((n.split('.'), st()))
    for n in rng.sample(BOOLS, rng.randrange(3)):
        L.append((n.split('.'), {'t': 'bool', 'b': rng.random() < 0.5}))
    for n in rng.sample(LISTS, rng.randrange(5)):
        L.append(([n], {'t': 'arr', 'a': [st() for _ in range(rng.choice((0, 1, 2, 3, 20)))]}))
    for n in rng.sample(PLUGS, rng.randrange(3)):
        es = []
        for _ in range(rng.randrange(4)):
            e = [{'k': 'file', 'v': st()}]
            if rng.random() < 0.7:
                e.append({'k': 'config', 'v': st() if rng.random() < 0.8 else {'t': 'null'}})
            rng.shuffle(e)
            es.append({'t': 'obj', 'o': e})
        L.append((n.split('.'), {'t': 'arr', 'a': es}))
    for _ in range(rng.choice((0, 0, 1, 3))):
        L.append((rng.choice((['comment%d' % rng.randrange(9)], ['setup', 'xyz%d' % rng.randrange(9)], ['setup', 'size', 'q%d' % rng.randrange(9)], ['setup', 'a%d' % rng.randrange(9), 'size', 'uri'], ['other%d' % rng.randrange(9), 'setup', 'port', 'http'])),
                  rng.choice((unnum(5), st(), {'t': 'null'}, {'t': 'float'}))))
    # a random order with the members of an object apart from each other in it
    seen, out = set(), []
    rng.shuffle(L)
    for p, v in L:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            out.append({'p': p, 'v': v})
    return build(out)


def broken(chk, exe, docs, seed):
    """files that are no JSON, or not even files"""
    rng = random.Random(seed)
    bs, must = [], []

    def add(b, m):
        bs.append(b)
        must.append(m)
    for d in docs:
        b = text(d, rng, True).encode()
        for k in (range(len(b)) if len(b) < 120 else sorted(rng.sample(range(len(b)), 60))):
            add(b[:k], True)
        for _ in range(40):
            m = bytearray(b)
            for _ in range(rng.choice((1, 1, 2, 5))):
                i = rng.randrange(len(m))
                k = rng.randrange(4)
                if k == 0:
                    m[i] = rng.randrange(256)
                elif k == 1:
                    del m[i:i + rng.randrange(1, 9)]
                    m = m or bytearray(b'{')
                elif k == 2:
                    m[i:i] = rng.choice((b'{', b'}', b'[', b']', b'"', b',', b':', b'/*', b'//', b'\\', b'\\u12', b'\\ud800', b'\0', b'-', b'1e999', b'99999999999999999999999', b'nul', b'\xff\xfe', b'1.', b'e', b'[' * 2000))
                else:
                    m[i:i] = m[max(0, i - 30):i]
            add(bytes(m), None)
    for x in (b'[]', b'5', b'"x"', b'null', b'true', b'', b' ', b'\n', b'{', b'}', b'{}}', b'{"a"}', b'{"a":}', b'{,}', b'{"a":1 "b":2}', b"{'a':1}", b'{"setup":{"port":{"http":0,"https":0}}}', b'[{}]', b'\x00', b'/* only a comment */'):
        add(x, True)
    for x in ('/', '/dev/null', '/nonexistent/file', '/proc/self/status', vp.scratch(), '/dev/shm', '/verif', '/proc', '/sys', '/etc', '/dev', '/proc/self', '/proc/self/fd'):
        add(x, True)
    rs = load(exe, bs)
    for b, m, r in zip(bs, must, rs):
        o = result(r)
        w = None
        if isinstance(o, str) and 'hole' not in o:
            w = o
        elif m and not (isinstance(o, dict) and o['refused']):
            w = 'accepted'
        if w:
            chk.violation('file %s: %s' % (brief(b) if isinstance(b, bytes) else b, w), {'file': b.decode('latin-1') if isinstance(b, bytes) else b, 'result': r})
            if chk.full():
                return
        else:
            chk.count('unusable_files' if m else 'damaged_files')
            chk.traces(1)


def c18(chk):
    exe = driver()
    T = vp.THOROUGH
    CF = 'CONSTANT Leaves <- %s\nCONSTANT MaxLeaves = %d\nCHECK_DEADLOCK FALSE\n'
    t = tla.must(tla.run('Config', 'SPECIFICATION Spec\nINVARIANT Meaning\nINVARIANT OrderFree\nINVARIANT Separate\n' + CF % ('Tiny', 4 if T else 3), VALUES, workers=8, heap='6g'), 'Config')
    chk.tlc(t)
    chk.count('model_states', t.distinct)
    one = tla.must(tla.run('Config', 'SPECIFICATION Spec\nINVARIANT Meaning\nINVARIANT Emit\n' + CF % ('All', 1), VALUES, workers=8), 'Config')
    two = tla.must(tla.run('Config', 'SPECIFICATION Spec\nINVARIANT Meaning\nINVARIANT Emit\n' + CF % ('Few', 2), VALUES, workers=8), 'Config')
    chk.tlc(one)
    chk.tlc(two)
    key = lambda c: json.dumps(c, sort_keys=True)
    rng = random.Random(vp.SEED * 7 + 18)
    cs = list({key(c): c for c in one.cases + two.cases}.values())
    docs = [build(c) for c in cs]
    docs += [random_doc(rng) for _ in range(1500 if not T else 20000)]
    chk.count('files', len(docs))
    for d in docs[:2]:
        chk.sample(d)
    # with no file at all
    o = result(load(exe, [None])[0])
    if isinstance(o, str):
        chk.violation('without a configuration file: ' + o, {})
        return
    acc, t = tla.validate('ConfigTrace', [{'d': {'t': 'obj', 'o': []}, 'huge': False, 'out': o}], 'SPECIFICATION TSpec\nINVARIANT Report\nCONSTANT Leaves = {}\nCONSTANT MaxLeaves = 0\nCHECK_DEADLOCK FALSE\n')
    if not acc:
        chk.violation('without a configuration file: %s' % o, {'result': o})
    exact(chk, exe, docs, vp.SEED)
    if chk.full():
        return
    broken(chk, exe, [build(c) for c in rng.sample(cs, 25)] + [random_doc(rng) for _ in range(25 if not T else 300)], vp.SEED)
    if not chk.full():
        use(chk)


# ---------------------------------------------------------------- in use
def unplain(d):
    """plain JSON value -> value of the specification"""
    if isinstance(d, bool):
        return {'t': 'bool', 'b': d}
    if d is None:
        return {'t': 'null'}
    if isinstance(d, int):
        return unnum(d)
    if isinstance(d, float):
        return {'t': 'float'}
    if isinstance(d, str):
        return {'t': 'str', 's': d}
    if isinstance(d, list):
        return {'t': 'arr', 'a': [unplain(x) for x in d]}
    return {'t': 'obj', 'o': [{'k': k, 'v': unplain(v)} for k, v in d.items()]}


def use_cases(b, rng):
    """-> (name, configuration, full): full, if everything seen is decided, else only that nothing crashes"""
    d = os.path.join(vp.scratch(), 'use')
    os.makedirs(d, exist_ok=True)
    files = {'text.so': b'no shared object', 'empty.ico': b'', 'a.ico': b'\0\1icon', 'big.ico': bytes(range(256)) * 300}
    for n, c in files.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(c)
    rec = []
    for n in ('one', 'two', 'rec'):
        rec.append(os.path.join(d, n + '.so'))
        shutil.copy(os.path.join(b, 'rec.so'), rec[-1])
    good = {'file': rec[2], 'config': 'mode=echo'}
    out = []

    def add(name, f, full=False, **kw):
        c = vp.config(subprotocols=[good], **kw)
        if f:
            f(c)
        out.append((name, c, full))

    def put(*path):
        def g(c):
            for k in path[:-2]:
                c = c.setdefault(k, {})
            c[path[-2]] = path[-1]
        return g
    # every number at its borders
    for g, ks in (('size', 'payload header uri buffer frame fragmented ringbuffer thread'.split()), ('pool', ['workers', 'retries']), ('timeouts', 'pings poll read write client'.split())):
        for k in ks:
            for v in (0, 1, 2, 7) + (() if k in ('ringbuffer', 'thread', 'workers', 'buffer') else (65536, 2147483647, 2147483648, 4294967295)) + (-1, -2147483648, 4294967296, 1 << 62):
                if k == 'workers' and v > 9:
                    continue
                add('%s.%s=%d' % (g, k, v), put('setup', g, k, v))
    for v in (0, 1, 2, 3, 4, 5, 6, 7, 100, 4294967295, -1):
        add('log_level=%d' % v, put('setup', 'log_level', v), full=True)
    for v in (0, 1, 79, 80, 8080, 65535, 65536, -1, 1 << 33):
        add('http=%d' % v, put('setup', 'port', 'http', v), full=True)
        add('http=%d, https=0' % v, put('setup', 'port', {'https': 0, 'http': v}), full=True)
    # plugins that cannot be used among those that can
    wrong = ['', '/', d, os.path.join(d, 'text.so'), os.path.join(d, 'missing.so'), 'libm.so.6', os.path.join(b, 'permessage-deflate.so'), 'x' * 5000]
    right = [{'file': rec[0], 'config': 'c=1 mode=sink'}, {'file': rec[1]}, good]
    for w in wrong:
        for c in ('x', None):
            e = {'file': w} if c is None else {'file': w, 'config': c}
            add('subprotocol %.60s first' % w, put('setup', 'subprotocols', [e] + right), full=True)
            add('subprotocol %.60s last' % w, put('setup', 'subprotocols', right + [e]), full=True)
            add('only subprotocol %.60s' % w, put('setup', 'subprotocols', [e]), full=True)
            add('extension %.60s' % w, put('setup', 'extensions', [e if 'deflate' not in w else {'file': rec[0], 'config': c}]), full=True)
    pmd = {'file': os.path.join(b, 'permessage-deflate.so')}
    for k in ('', 'x', 'server_max_window_bits=0', 'server_max_window_bits=8', 'server_max_window_bits=99999999999', 'client_max_window_bits=-1', 'memory_level=0', 'memory_level=99', ';;;===', '=' * 3000, 'server_no_context_takeover=', 'server_max_window_bits'):
        add('permessage-deflate "%.40s"' % k, put('setup', 'extensions', [dict(pmd, config=k)]), full=True)
    add('permessage-deflate twice', put('setup', 'extensions', [pmd, pmd]), full=True)
    for _ in range(12):
        es = right + [{'file': rng.choice(wrong), 'config': rng.choice(('', 'q'))} for _ in range(rng.randrange(3))]
        rng.shuffle(es)
        add('%d plugins' % len(es), put('setup', 'subprotocols', es[:rng.randrange(1, 6)]), full=True)
    # icons
    for n in ('a.ico', 'big.ico', 'empty.ico', 'missing.ico', '', '/', '.', 'text.so', '/nonexistent', '/dev/shm', '/proc', '/proc/self', '/proc/self/fd', '/etc', '/verif', vp.scratch(), 'z' * 5000):
        add('favicon %.40s' % n, put('setup', 'favicon', os.path.join(d, n) if n in files or n == 'missing.ico' else n), full=True)
    for n in (5, None, True, [], {}, ['a']):
        add('favicon %r' % n, put('setup', 'favicon', n), full=True)
    # hosts
    for hs in ([], ['localhost'], ['a'], ['a', 'localhost'], ['LOCALHOST'], ['localhost:80'], ['localhost:81'], ['localhos', 'ocalhost'], ['localhost '], ['x' * 300, 'localhost', 'y'], ['.*'], ['local.ost'], ['localhost'] * 30, ['']):
        for pt in (80, 8080):
            add('hosts %s on %d' % (hs[:3], pt), lambda c, hs=hs, pt=pt: (put('hosts', hs)(c), put('setup', 'port', 'http', pt)(c)), full=True)
    # patterns that are none
    for k in ('paths', 'queries', 'origins'):
        for x in ('', '(', '[', '*', ')', '\\', '[[:x:]]', 'a{1000000}', 'a{2', '(((((a*)*)*)*)*)*', 'x' * 9000, '\\(', 'a{0}', '[z-a]', '\n'):
            add('%s %.30s' % (k, x), put(k, [x]))
            add('%s %.30s behind another' % (k, x), put(k, ['abc', x, 'def']))
    return out, d, files, rec


def use(chk):
    b = vp.build('asan')
    rng = random.Random(vp.SEED * 3 + 1)
    cases, d, files, rec = use_cases(b, rng)
    icons = [os.path.join(d, n) for n in files]

    def one(c):
        name, cfg, full = c
        pt = cfg['setup']['port'].get('http', 80)
        pt = pt if isinstance(pt, int) and 0 < pt < 65536 else 0
        host = rng.choice((b'localhost', b'localhost:%d' % pt)) if pt else b'localhost'
        sc = 'opt maxsteps 200000\n0 conn 0 %d\n0 send %s\n0 waithttp\n0 send %s\n0 idle\n0 close\n1 conn 1 %d\n1 send %s\n1 idle\n1 idle\n1 close\n' % (
            pt, ws.request(proto=b'rec', ext=b'permessage-deflate' if rng.random() < 0.5 else None, host=host).hex(), ws.frame(1, b'hi').hex(), pt, b'GET /favicon.ico HTTP/1.1\r\nHost: x\r\n\r\n'.hex())
        r = vp.run_sim(sc, cfg, b)
        lis = [e['port'] for e in r.find('listen')]
        o = {'crashed': False, 'ran': bool(lis), 'full': full, 'listens': lis, 'inits': [e['cfg'] for e in r.find('init')], 'icon': 'none', 'host': '', 'taken': False}
        f = r.fatal
        if f and (f['e'] in ('crash', 'hang') or r.rc < 0 or r.rc in (134, 139, 132, 136, 135) or 'AddressSanitizer' in r.err):
            o['crashed'] = True
        if f and not o['crashed'] and lis:
            o['full'] = False
        if full and lis and not f:
            st, h, rest = ws.split_http(r.out(1))
            if st == 200:
                fav = cfg['setup'].get('favicon')
                o['icon'] = 'same' if fav in icons and rest == files[os.path.basename(fav)] else 'empty' if rest == b'' else 'other'
            st, h, rest = ws.split_http(r.out(0))
            if st is not None:
                o['host'] = host.decode()
                o['taken'] = st == 101
        return r, {'d': unplain(cfg), 'plugins': rec, 'icons': icons, 'mayexit': not full or pt == 0, 'out': o}
    rs = vp.pmap(one, cases)
    tr = [t for _, t in rs]
    acc, t = tla.validate('ConfigUse', tr, 'SPECIFICATION TSpec\nINVARIANT Report\nCONSTANT Leaves = {}\nCONSTANT MaxLeaves = 0\nCHECK_DEADLOCK FALSE\n', workers=8, chunk=4000)
    chk.tlc(t)
    chk.traces(len(acc))
    chk.count('servers_started', sum(x['out']['ran'] for x in tr))
    for i, (name, cfg, full) in enumerate(cases):
        if i not in acc:
            r, x = rs[i]
            chk.violation('server configured with %s: %s %s' % (name, json.dumps(x['out']), conn.brief_fatal(r)), {'config': cfg, 'script': r.script, 'err': r.err[-2000:]})
            if chk.full():
                return
