"""RFC 6455 wire helpers used to build scenarios and decode recorded output."""
import base64
import hashlib
import struct

GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
KEY = b'dGhlIHNhbXBsZSBub25jZQ=='
MASK = bytes([0x37, 0xfa, 0x21, 0x3d])


def accept_key(key):
    return base64.b64encode(hashlib.sha1(key + GUID).digest())


def request(path=b'/', key=KEY, version=13, proto=None, ext=None, extra=(), host=b'localhost', order=None):
    lines = [b'GET ' + path + b' HTTP/1.1', b'Host: ' + host, b'Upgrade: websocket', b'Connection: Upgrade',
             b'Sec-WebSocket-Key: ' + key, b'Sec-WebSocket-Version: %d' % version]
    if proto:
        lines.append(b'Sec-WebSocket-Protocol: ' + proto)
    if ext:
        lines.append(b'Sec-WebSocket-Extensions: ' + ext)
    lines += list(extra)
    return b'\r\n'.join(lines) + b'\r\n\r\n'


def frame(op, payload=b'', fin=1, rsv=0, mask=MASK, lenform=None):
    """A client frame; mask=None sends it unmasked; lenform forces 7/16/64-bit length."""
    n = len(payload)
    b0 = (0x80 if fin else 0) | (rsv << 4) | op
    if lenform is None:
        lenform = 7 if n < 126 else 16 if n < 65536 else 64
    m = 0x80 if mask is not None else 0
    if lenform == 7:
        h = bytes([b0, m | n])
    elif lenform == 16:
        h = bytes([b0, m | 126]) + struct.pack('>H', n)
    else:
        h = bytes([b0, m | 127]) + struct.pack('>Q', n)
    if mask is None:
        return h + payload
    return h + mask + xor(payload, mask)


def xor(p, mask):
    if not p:
        return b''
    k = (mask * (len(p) // 4 + 1))[:len(p)]
    return (int.from_bytes(p, 'big') ^ int.from_bytes(k, 'big')).to_bytes(len(p), 'big')


def close(code=None, reason=b''):
    return b'' if code is None else struct.pack('>H', code) + reason


class Frame:
    __slots__ = ('fin', 'rsv', 'op', 'masked', 'payload', 'raw')

    @property
    def longer(self):
        """whether its length takes more bytes than it needs"""
        n, m = len(self.payload), self.raw[1] & 127 if len(self.raw) > 1 else 0
        return (m == 126 and n < 126) or (m == 127 and n < 65536)

    def __init__(self, fin, rsv, op, masked, payload, raw=b''):
        self.fin, self.rsv, self.op, self.masked, self.payload, self.raw = fin, rsv, op, masked, payload, raw

    def key(self):
        return (self.fin, self.rsv, self.op, self.masked, bytes(self.payload))

    def __repr__(self):
        p = self.payload
        return 'F(fin=%d rsv=%d op=%x%s len=%d %r%s)' % (self.fin, self.rsv, self.op, ' MASKED' if self.masked else '', len(p), bytes(p[:24]), '..' if len(p) > 24 else '')


def parse_frames(b):
    """-> (frames, leftover bytes)"""
    out = []
    i = 0
    while True:
        if len(b) - i < 2:
            break
        b0, b1 = b[i], b[i + 1]
        j = i + 2
        n = b1 & 127
        if n == 126:
            if len(b) < j + 2:
                break
            n = struct.unpack('>H', b[j:j + 2])[0]
            j += 2
        elif n == 127:
            if len(b) < j + 8:
                break
            n = struct.unpack('>Q', b[j:j + 8])[0]
            j += 8
        mk = None
        if b1 & 128:
            mk = b[j:j + 4]
            j += 4
        if len(b) < j + n:
            break
        p = b[j:j + n]
        if mk:
            p = xor(p, mk)
        out.append(Frame(b0 >> 7, (b0 >> 4) & 7, b0 & 15, bool(mk), p, b[i:j + n]))
        i = j + n
    return out, b[i:]


def split_http(b):
    """-> (status int or None, header lines, rest)"""
    k = b.find(b'\r\n\r\n')
    if k < 0:
        return None, [], b
    lines = b[:k].split(b'\r\n')
    try:
        st = int(lines[0].split(b' ')[1])
    except Exception:
        st = -1
    return st, lines, b[k + 4:]
