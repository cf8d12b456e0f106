"""Common machinery: building the code under test from /repo's working tree,
running it inside the simulator, running TLC, reporting."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = min(8, os.cpu_count() or 8)
CC = 'gcc'
BASE = ['-march=x86-64-v3', '-w', '-std=c11', '-pthread', '-DUSE_OPENSSL', '-D_DEFAULT_SOURCE',
        '-DWSS_SERVER_VERSION="v2.0.0"', '-DFIPS_mode_set(x)=(0)']
INC = ['-I%s/%s' % (REPO, d) for d in ('include', 'src', 'extensions', 'subprotocols')]
LIBS = ['-lm', '-ldl', '-lssl', '-lcrypto', '-lpthread', '-lz']


class MachineryError(Exception):
    """The check itself could not do its work (never reported as a violation)."""


class BuildError(MachineryError):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def _digest(kind):
    h = hashlib.sha256(kind.encode())
    files = []
    for d in ('src', 'include', 'extensions', 'subprotocols'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith(('.c', '.h')) or f == 'Makefile']
    for d in ('sim', 'lib'):
        for root, _, fs in os.walk(os.path.join(VERIF, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith(('.c', '.h', 'vp.py'))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


def srcs(skip=()):
    return [f for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))) if os.path.basename(f) not in skip]


def build(kind='rel'):
    """Compile the server (from the working tree), its plugins, our plugins and
    the simulator.  kind: rel (rpmalloc, -O2), asan (system malloc, ASan+UBSan)."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, kind + '-' + _digest(kind))
    lockf = open(os.path.join(BUILD, '.lock-' + kind), 'w')
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        for old in glob.glob(os.path.join(BUILD, kind + '-*')):
            if time.time() - os.path.getmtime(old) > 1800:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        san = ['-fsanitize=address', '-fno-sanitize-recover=address', '-O1', '-g', '-fno-omit-frame-pointer'] if kind == 'asan' else ['-O2', '-g', '-DNDEBUG']
        mem = [] if kind in ('asan', 'mem') else ['-DUSE_RPMALLOC']
        jobs = []
        objs = []
        for f in srcs():
            o = os.path.join(out, os.path.basename(f)[:-2] + '.o')
            objs.append(o)
            jobs.append([CC] + BASE + INC + san + mem + ['-c', f, '-o', o])
        for p in ('subprotocols/echo', 'subprotocols/broadcast', 'extensions/permessage-deflate'):
            n = os.path.basename(p)
            cs = sorted(glob.glob(os.path.join(REPO, p, '*.c')))
            jobs.append([CC] + BASE + INC + ['-I' + os.path.join(REPO, p)] + san + mem + ['-fPIC', '-fvisibility=hidden', '-shared'] + cs + ['-o', os.path.join(out, n + '.so'), '-lz'])
        for p in sorted(glob.glob(os.path.join(VERIF, 'sim', 'plugins', '*.c'))):
            n = os.path.basename(p)[:-2]
            jobs.append([CC] + BASE + INC + ['-O2', '-g', '-fPIC', '-shared', p, '-o', os.path.join(out, n + '.so'), '-ldl'])
        jobs.append([CC, '-O2', '-g', '-w', '-fPIC', '-shared', '-fvisibility=hidden', '-U_FORTIFY_SOURCE',
                     os.path.join(VERIF, 'sim', 'simshim.c'), '-o', os.path.join(out, 'simshim.so'), '-ldl', '-lpthread'])
        jobs.append([CC, '-O2', '-w', os.path.join(VERIF, 'sim', 'tlspeer.c'), '-o', os.path.join(out, 'tlspeer'), '-lssl', '-lcrypto'])
        if kind == 'mem':
            jobs.append([CC, '-O2', '-g', '-w', '-fPIC', '-shared', '-fvisibility=hidden', os.path.join(VERIF, 'sim', 'memshim.c'), '-o', os.path.join(out, 'memshim.so')])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(_sh, jobs))
        _sh([CC] + san + ['-pthread', '-rdynamic'] + objs + LIBS + ['-o', os.path.join(out, 'WSServer')])
        open(os.path.join(out, 'ok'), 'w').close()
        return out
    finally:
        lockf.close()


# ----------------------------------------------------------------- simulator
def config(**kw):
    """A server configuration; timeouts/size/... override the defaults."""
    c = {
        'hosts': kw.pop('hosts', []), 'origins': kw.pop('origins', []), 'paths': kw.pop('paths', []), 'queries': kw.pop('queries', []),
        'setup': {
            'timeouts': {'poll': -1, 'read': 1000, 'write': 1000, 'client': -1, 'pings': 0},
            'port': {'http': 80},
            'size': {'payload': 1 << 20, 'header': 8192, 'uri': 4096, 'buffer': 32768, 'thread': 262144,
                     'ringbuffer': 128, 'frame': 1 << 20, 'fragmented': 1 << 20},
            'pool': {'workers': 4, 'retries': 5}, 'subprotocols': [], 'extensions': [],
        },

    }
    s = c['setup']
    for k in list(kw):
        if k in ('timeouts', 'size', 'pool', 'port'):
            s[k].update(kw.pop(k))
    s['log_level'] = kw.pop('log_level', 1)
    for k, v in kw.items():
        s[k] = v
    return c


def driver(name, main, sources, cc='gcc', flags=(), obj_cc=None, obj_flags=(), libs=()):
    """Compile the driver sim/drv/<main> with sources of the repository (objects
    compiled with obj_cc obj_flags); -> path of the program."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'drv-%s-%s' % (name, _digest(' '.join(['drv', name, main, cc] + list(flags) + list(obj_flags) + list(sources)))))
    lockf = open(os.path.join(BUILD, '.lock-drv-' + name), 'w')
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        exe = os.path.join(out, name)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, 'drv-%s-*' % name)):
            if time.time() - os.path.getmtime(old) > 1800:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        objs = []
        for f in sources:
            o = os.path.join(out, os.path.basename(f)[:-2] + '.o')
            objs.append(o)
            _sh([obj_cc or cc] + BASE + INC + list(obj_flags) + ['-c', os.path.join(REPO, f), '-o', o])
        link = lambda more: _sh([cc] + BASE + INC + ['-I' + os.path.join(VERIF, 'sim', 'drv'), '-std=gnu11'] + list(flags) + [os.path.join(VERIF, 'sim', 'drv', main)] + objs + more + list(libs) + ['-o', exe + '.tmp'])
        try:
            link([])
        except BuildError as x:
            if 'undefined reference' not in str(x) and 'undefined symbol' not in str(x):
                raise
            # the sources need others (now): offer all of them
            def one(f):
                o = os.path.join(out, 'x-' + os.path.basename(f)[:-2] + '.o')
                _sh([obj_cc or cc] + BASE + INC + list(obj_flags) + ['-c', f, '-o', o])
                return o
            os_ = pmap(one, srcs(['main.c'] + [os.path.basename(f) for f in sources]))
            ar = os.path.join(out, 'rest.a')
            _sh(['ar', 'rcs', ar] + os_)
            link([ar] + LIBS)
        os.rename(exe + '.tmp', exe)
        return exe
    finally:
        lockf.close()


class Run:
    """One finished execution: ordered events and the exit status."""
    def __init__(self, ev, rc, err, script, cfg):
        self.ev, self.rc, self.err, self.script, self.cfg = ev, rc, err, script, cfg

    def out(self, c):
        return b''.join(bytes.fromhex(e['h']) for e in self.ev if e['e'] == 'out' and e['c'] == c)

    def find(self, *kinds):
        return [e for e in self.ev if e['e'] in kinds]

    @property
    def fatal(self):
        for e in self.ev:
            if e['e'] in ('crash', 'stuck', 'stuck-shutdown', 'livelock', 'hang'):
                return e
        if self.rc not in (0,):
            return {'e': 'exit', 'rc': self.rc}
        return None


def run_sim(script, cfg, bdir, keep=None, timeout=90, env=None):
    d = tempfile.mkdtemp(prefix='vpsim', dir=scratch())
    try:
        os.mkdir(os.path.join(d, 'log'))
        with open(os.path.join(d, 'config.json'), 'w') as f:
            json.dump(cfg, f)
        with open(os.path.join(d, 'script'), 'w') as f:
            f.write(script)
        e = dict(os.environ, LD_PRELOAD=os.path.join(bdir, 'simshim.so'), SIM_SCRIPT=os.path.join(d, 'script'),
                 SIM_LOG=os.path.join(d, 'ev'), LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:verify_asan_link_order=0:use_sigaltstack=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:detect_stack_use_after_return=0')
        if os.path.basename(bdir).startswith('asan'):
            e['SIM_ASAN'] = '1'
            e['LD_PRELOAD'] = _libasan() + ':' + e['LD_PRELOAD']
        if os.path.basename(bdir).startswith('mem'):
            e['LD_PRELOAD'] += ':' + os.path.join(bdir, 'memshim.so')
        if ' tls ' in script:
            e.update(SIM_TLS=os.path.join(bdir, 'tlspeer'), SIM_TLSCERT=certs(bdir))
        if env:
            e.update(env)
        try:
            r = subprocess.run([os.path.join(bdir, 'WSServer'), '-c', 'config.json'], cwd=d, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, err = r.returncode, r.stdout.decode('latin1')
        except subprocess.TimeoutExpired as x:
            rc, err = -999, (x.stdout or b'').decode('latin1')
        ev = []
        try:
            with open(os.path.join(d, 'ev')) as f:
                for line in f:
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        pass
        except OSError:
            pass
        if keep:
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(d, keep)
        return Run(ev, rc, err, script, cfg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


_la = None


def _libasan():
    global _la
    if _la is None:
        _la = subprocess.run([CC, '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.realpath(_la)


_scr = None


def scratch():
    global _scr
    if _scr is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scr = tempfile.mkdtemp(prefix='vpcheck', dir=base)
        import atexit
        atexit.register(shutil.rmtree, _scr, True)
    return _scr


_certs = None
_certlock = threading.Lock()


def certs(bdir):
    """a directory with a CA, a server, a client and a stranger"""
    global _certs
    with _certlock:
        if _certs is None:
            d = os.path.join(scratch(), 'certs')
            os.mkdir(d)
            _sh([os.path.join(bdir, 'tlspeer'), 'gen', d])
            _certs = d
    return _certs


def ssl(bdir, **kw):
    """the ssl settings of a configuration"""
    d = certs(bdir)
    return dict({'key': d + '/server.key', 'cert': d + '/server.crt', 'ca_file': d + '/ca.crt'}, **kw)


def pmap(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def plug(bdir, name, cfg=''):
    return {'file': os.path.join(bdir, name + '.so'), 'config': cfg}
