"""Helper of the demonstrations: the built server on loopback, and a client."""
import base64, json, os, shutil, socket, struct, subprocess, sys, tempfile, time

ROOT = os.getcwd()
SRV = os.path.join(ROOT, '_build/bin/release/WSServer')
ECHO = os.path.join(ROOT, 'subprotocols/echo/echo.so')
BCAST = os.path.join(ROOT, 'subprotocols/broadcast/broadcast.so')
PMD = os.path.join(ROOT, 'extensions/permessage-deflate/permessage-deflate.so')


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def plugin(src, name='plug', extra=()):
    """compiles a plugin; returns its path"""
    d = tempfile.mkdtemp(prefix='plug')
    c = os.path.join(d, name + '.c')
    open(c, 'w').write(src)
    so = os.path.join(d, name + '.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + ROOT + '/include', '-I' + ROOT + '/subprotocols', '-o', so, c, *extra])
    return so


def cprog(src, sources, extra=(), timeout=200):
    """compiles a program with sources of the repository and runs it"""
    d = tempfile.mkdtemp(prefix='cprog')
    try:
        open(os.path.join(d, 'm.c'), 'w').write(src)
        e = os.path.join(d, 'm')
        subprocess.check_call(['gcc', '-O2', '-w', '-std=gnu11', '-march=x86-64-v3', '-DNDEBUG', '-I' + ROOT + '/include', '-o', e, os.path.join(d, 'm.c')] + [os.path.join(ROOT, f) for f in sources] + ['-lpthread', '-lm', *extra])
        return subprocess.call([e], timeout=timeout, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Server:
    def __init__(self, setup=None, hosts=(), paths=(), queries=(), origins=(), subprotocols=None, extensions=(), env=None, ssl=None, raw=None):
        self.d = tempfile.mkdtemp(prefix='demo')
        self.port = free_port()
        self.tls = free_port()
        st = {'log_level': 0, 'port': {'http': self.port, 'https': self.tls},
              'subprotocols': [{'file': f, 'config': c} for f, c in (subprotocols or [(ECHO, '')])],
              'extensions': [{'file': f, 'config': c} for f, c in extensions],
              'pool': {'workers': 4}, 'timeouts': {'poll': -1, 'read': -1, 'write': -1, 'client': -1, 'pings': 0}}
        for k, v in (setup or {}).items():
            if isinstance(v, dict) and isinstance(st.get(k), dict):
                st[k].update(v)
            else:
                st[k] = v
        if ssl:
            st['ssl'] = ssl
        cfg = {'setup': st}
        for k, v in (('hosts', hosts), ('paths', paths), ('queries', queries), ('origins', origins)):
            if v:
                cfg[k] = list(v)
        os.mkdir(os.path.join(self.d, 'log'))
        f = os.path.join(self.d, 'c.json')
        open(f, 'w').write(raw(self) if raw else json.dumps(cfg))
        self.log = open(os.path.join(self.d, 'server.out'), 'wb')
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen([SRV, '-c', f], cwd=self.d, stdout=self.log, stderr=self.log, env=e)
        for _ in range(200):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                break
            except OSError:
                if self.p.poll() is not None:
                    break
                time.sleep(0.03)

    def alive(self):
        return self.p.poll() is None

    def stop(self, timeout=10):
        """interrupts the server; its exit status, or None if it does not end"""
        if self.p.poll() is None:
            self.p.send_signal(2)
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            return None

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        shutil.rmtree(self.d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


def frame(op, payload=b'', fin=1, rsv=0, mask=b'\x11\x22\x33\x44', form=None):
    b = bytes([(fin << 7) | (rsv << 4) | op])
    n = len(payload)
    m = 0x80 if mask else 0
    if form == 8 or (form is None and n > 65535):
        b += bytes([m | 127]) + struct.pack('>Q', n)
    elif form == 2 or (form is None and n > 125):
        b += bytes([m | 126]) + struct.pack('>H', n)
    else:
        b += bytes([m | n])
    if mask:
        k = (mask * (n // 4 + 1))[:n]
        b += mask + (int.from_bytes(payload, 'big') ^ int.from_bytes(k, 'big')).to_bytes(n, 'big') if n else mask
    return b + (b'' if mask else payload)


def close(code, reason=b''):
    return struct.pack('>H', code) + reason


KEY = base64.b64encode(b'0123456789abcdef')


def request(path='/', proto=b'echo', ext=None, extra=(), host=b'localhost', version=b'13', method=b'GET'):
    h = [method + b' ' + (path if isinstance(path, bytes) else path.encode()) + b' HTTP/1.1', b'Host: ' + host, b'Upgrade: websocket', b'Connection: Upgrade',
         b'Sec-WebSocket-Key: ' + KEY, b'Sec-WebSocket-Version: ' + version]
    if proto:
        h.append(b'Sec-WebSocket-Protocol: ' + proto)
    if ext:
        h.append(b'Sec-WebSocket-Extensions: ' + ext)
    return b'\r\n'.join(h + list(extra)) + b'\r\n\r\n'


class Client:
    def __init__(self, port, sock=None, rcvbuf=None, timeout=5):
        if sock is None:
            sock = socket.socket()
            if rcvbuf:
                sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            sock.settimeout(timeout)
            sock.connect(('127.0.0.1', port))
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = sock
        self.s.settimeout(timeout)
        self.b = b''
        self.eof = False

    def send(self, *parts, gap=0.0):
        for p in parts:
            self.s.sendall(p)
            if gap:
                time.sleep(gap)

    def more(self):
        if self.eof:
            return False
        try:
            d = self.s.recv(65536)
        except (socket.timeout, TimeoutError):
            return None
        except OSError:
            d = b''
        if not d:
            self.eof = True
            return False
        self.b += d
        return True

    def http(self):
        """(status, headers dict, raw head) of the next response, None if there is none"""
        while b'\r\n\r\n' not in self.b:
            if not self.more():
                return None
        head, self.b = self.b.split(b'\r\n\r\n', 1)
        ls = head.split(b'\r\n')
        return int(ls[0].split()[1]), {l.split(b':', 1)[0].lower(): l.split(b':', 1)[1].strip() for l in ls[1:]}, head

    def open(self, *a, **k):
        self.send(request(*a, **k))
        r = self.http()
        if not r or r[0] != 101:
            raise SystemExit('handshake: %r' % (r,))
        return r

    def frame(self):
        """(fin, rsv, op, payload) of the next frame; None: end of the stream; 'timeout'"""
        while True:
            b = self.b
            if len(b) >= 2:
                n, o = b[1] & 127, 2
                if n == 126 and len(b) >= 4:
                    n, o = struct.unpack('>H', b[2:4])[0], 4
                elif n == 127 and len(b) >= 10:
                    n, o = struct.unpack('>Q', b[2:10])[0], 10
                elif n >= 126:
                    n = None
                if n is not None and len(b) >= o + n:
                    self.b = b[o + n:]
                    return b[0] >> 7, (b[0] >> 4) & 7, b[0] & 15, b[o:o + n]
            r = self.more()
            if r is None:
                return 'timeout'
            if not r:
                return None

    def message(self):
        """(op, payload) of the next message or control frame"""
        op, data = None, b''
        while True:
            f = self.frame()
            if f is None or f == 'timeout':
                return f
            if f[2] >= 8:
                return f[2], f[3]
            if op is None:
                op = f[2]
            data += f[3]
            if f[0]:
                return op, data

    def close(self):
        self.s.close()

    def rst(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()


def check(ok, what):
    if not ok:
        print('FAIL: ' + what)
        sys.exit(1)


def certs(d):
    """a key and a certificate for the server, signed by itself"""
    subprocess.check_call(['openssl', 'req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-keyout', d + '/k.pem', '-out', d + '/c.pem', '-days', '3650', '-subj', '/CN=localhost'],
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return {'key': d + '/k.pem', 'cert': d + '/c.pem', 'ca_file': d + '/c.pem'}


def tcp(port, timeout=5):
    for i in range(100):
        try:
            return socket.create_connection(('127.0.0.1', port), timeout)
        except ConnectionRefusedError:
            time.sleep(.05)       # the server has not opened it yet
    raise SystemExit('nothing listens at %d' % port)


def tls(port, version=None, ciphers=None, timeout=5, cert=None):
    """a client over TLS"""
    import ssl
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
    if version:
        c.minimum_version = c.maximum_version = getattr(ssl.TLSVersion, version)
    if ciphers:
        c.set_ciphers(ciphers)
    if cert:
        c.load_cert_chain(*cert)
    s = tcp(port, timeout)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return Client(port, c.wrap_socket(s), timeout=timeout)
