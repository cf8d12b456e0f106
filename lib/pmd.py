"""permessage-deflate seen from the client: an encoder that controls every block
and match, and a strict decoder (sim/drv/strictinf.c)."""
import ctypes
import zlib

import vp

_lib = None


def lib():
    global _lib
    if _lib is None:
        so = vp.driver('strictinf', 'strictinf.c', [], flags=('-O2', '-w', '-shared', '-fPIC'))
        _lib = ctypes.CDLL(so)
        _lib.strict_inflate.restype = ctypes.c_long
        _lib.strict_inflate.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_size_t)]
    return _lib


def inflate(data, hist=b'', maxdist=32768, cap=1 << 23):
    """-> (bytes, reach) or (error, None)"""
    out = ctypes.create_string_buffer(cap)
    reach = ctypes.c_size_t()
    n = lib().strict_inflate(data, len(data), hist, len(hist), out, cap, maxdist, ctypes.byref(reach))
    return (out.raw[:n] if cap < 1 << 16 else ctypes.string_at(out, n), reach.value) if n >= 0 else (n, None)


ERR = {-1: 'is malformed', -2: 'ends inside a block', -3: 'refers to data before the context', -4: 'needs a larger window than agreed', -5: 'is too large'}


class Bits:
    def __init__(self):
        self.v, self.n, self.out = 0, 0, bytearray()

    def put(self, v, n):
        self.v |= v << self.n
        self.n += n
        while self.n >= 8:
            self.out.append(self.v & 255)
            self.v >>= 8
            self.n -= 8

    def huff(self, c, n):
        self.put(int(bin(c)[2:].zfill(n)[::-1], 2), n)

    def align(self):
        if self.n:
            self.put(0, 8 - self.n)


LB = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LE = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DB = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DE = [0, 0, 0, 0] + [k // 2 for k in range(2, 28)]


def lit(b, c):
    if c < 144:
        b.huff(0x30 + c, 8)
    elif c < 256:
        b.huff(0x190 + c - 144, 9)
    elif c < 280:
        b.huff(c - 256, 7)
    else:
        b.huff(0xc0 + c - 280, 8)


def match(b, length, dist):
    i = max(k for k in range(29) if LB[k] <= length)
    lit(b, 257 + i)
    b.put(length - LB[i], LE[i])
    j = max(k for k in range(30) if DB[k] <= dist)
    b.huff(j, 5)
    b.put(dist - DB[j], DE[j])


def fixed(b, tokens, final=0):
    b.put(final, 1)
    b.put(1, 2)
    for t in tokens:
        if isinstance(t, int):
            lit(b, t)
        else:
            match(b, *t)
    lit(b, 256)
    if final:
        b.align()


def stored(b, data, final=0):
    b.put(final, 1)
    b.put(0, 2)
    b.align()
    b.out += len(data).to_bytes(2, 'little') + (len(data) ^ 0xffff).to_bytes(2, 'little') + data


def apply(tokens, hist):
    """what the tokens stand for"""
    o = bytearray(hist)
    for t in tokens:
        if isinstance(t, int):
            o.append(t)
        else:
            for _ in range(t[0]):
                o.append(o[-t[1]])
    return bytes(o[len(hist):])


def tail(b):
    """ends a message: the empty stored block without its last four bytes"""
    b.put(0, 3)
    b.align()
    return bytes(b.out)


def deflate(data, hist=b'', bits=15, level=6, strategy=0, mem=8, flush=None):
    """a message compressed by zlib with the given context"""
    d = hist[-(1 << bits):]
    w = max(9, bits)
    c = zlib.compressobj(level, zlib.DEFLATED, -w, mem, strategy, d) if d else zlib.compressobj(level, zlib.DEFLATED, -w, mem, strategy)
    r = c.compress(data) + c.flush(zlib.Z_SYNC_FLUSH if flush is None else flush)
    return r
