"""Reference hash function, written from RFC 6986 (GOST R 34.11-2012).

Blocks are byte strings as they appear in memory: byte 0 of a block is the least
significant byte of the 512-bit number of the standard.
"""
from spec.data import A, C, PI


def _l_tables():
    tabs = []
    for k in range(8):
        tab = []
        for x in range(256):
            n = 0
            for b in range(8):
                if (x >> b) & 1:
                    n ^= A[63 - (8 * k + b)]
            tab.append(n)
        tabs.append(tuple(tab))
    return tuple(tabs)


L_TAB = _l_tables()
C_LE = tuple(tuple(bytes.fromhex(c)[::-1]) for c in C)


def _xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def lps(v):
    v = [PI[x] for x in v]
    v = [v[8 * (i % 8) + i // 8] for i in range(64)]
    out = []
    for i in range(8):
        n = 0
        for k in range(8):
            n = n ^ L_TAB[k][v[8 * i + k]]
        out.extend(n.to_bytes(8, 'little'))
    return out


def g(n, h, m):
    k = lps(_xor(h, n))
    v = list(m)
    for i in range(12):
        v = lps(_xor(k, v))
        k = lps(_xor(k, C_LE[i]))
    v = _xor(k, v)
    return _xor(_xor(v, h), m)


def add512(a, b):
    s = int.from_bytes(bytes(a), 'little') + int.from_bytes(bytes(b), 'little')
    return list((s & ((1 << 512) - 1)).to_bytes(64, 'little'))


class State:
    def __init__(self, size):
        self.size = size
        self.h = [1 if size == 32 else 0] * 64
        self.n = [0] * 64
        self.sigma = [0] * 64

    def block(self, m, nbits):
        self.h = g(self.n, self.h, m)
        self.n = add512(self.n, list(nbits.to_bytes(64, 'little')))
        self.sigma = add512(self.sigma, m)

    def finish(self, tail):
        m = list(tail) + [1] + [0] * (63 - len(tail))
        self.block(m, 8 * len(tail))
        h = g([0] * 64, self.h, self.n)
        h = g([0] * 64, h, self.sigma)
        return bytes(h[64 - self.size:])


def streebog(data, size):
    st = State(size)
    data = bytes(data)
    while len(data) >= 64:
        st.block(list(data[:64]), 512)
        data = data[64:]
    return st.finish(data)


def hmac(key, data, size):
    key = bytes(key)
    if len(key) > 64:
        key = streebog(key, size)
    key = key + bytes(64 - len(key))
    inner = streebog(bytes([x ^ 0x36 for x in key]) + bytes(data), size)
    return streebog(bytes([x ^ 0x5c for x in key]) + inner, size)


def pbkdf2(password, salt, count, length):
    out = b''
    i = 1
    while len(out) < length:
        u = hmac(password, bytes(salt) + i.to_bytes(4, 'big'), 64)
        t = u
        for _ in range(count - 1):
            u = hmac(password, u, 64)
            t = bytes([x ^ y for x, y in zip(t, u)])
        out = out + t
        i += 1
    return out[:length]
