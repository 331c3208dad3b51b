"""Reference block ciphers, written from RFC 7801 and RFC 8891."""
from spec.data import PI

LVEC = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)


def gf_mul(a, b):
    """Multiplication modulo x^8 + x^7 + x^6 + x + 1 (concrete bytes)."""
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1c3
        b >>= 1
    return r


_MUL = {c: tuple(gf_mul(c, x) for x in range(256)) for c in set(LVEC)}


def _r(v):
    """R on a list of 16 bytes, most significant first (concrete)."""
    t = 0
    for c, x in zip(LVEC, v):
        t ^= _MUL[c][x]
    return [t] + v[:15]


def _r_inv(v):
    """w with R(w) = v: w[:15] = v[1:], and w[15] from l(w) = v[0] (coefficient 1)."""
    w = v[1:]
    t = v[0]
    for c, x in zip(LVEC[:15], w):
        t ^= _MUL[c][x]
    return w + [t]


def _columns(step):
    """For each byte position, the 128-bit image of every byte value."""
    tabs = []
    for pos in range(16):
        basis = []
        for bit in range(8):
            v = [0] * 16
            v[pos] = 1 << bit
            for _ in range(16):
                v = step(v)
            n = 0
            for x in v:
                n = (n << 8) | x
            basis.append(n)
        tab = []
        for x in range(256):
            n = 0
            for bit in range(8):
                if (x >> bit) & 1:
                    n ^= basis[bit]
            tab.append(n)
        tabs.append(tuple(tab))
    return tuple(tabs)


L_TAB = _columns(_r)
L_INV_TAB = _columns(_r_inv)
PI_INV = tuple(PI.index(i) for i in range(256))


def _linear(tabs, v):
    n = 0
    for tab, x in zip(tabs, v):
        n = n ^ tab[x]
    return list(n.to_bytes(16, 'big'))


def _xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def _lsx(k, a):
    return _linear(L_TAB, [PI[x] for x in _xor(k, a)])


KUZ_C = tuple(tuple(_linear(L_TAB, [0] * 15 + [i])) for i in range(1, 33))


def kuz_keys(key):
    a1, a0 = list(key[:16]), list(key[16:32])
    keys = [a1, a0]
    for i in range(4):
        for j in range(8):
            a1, a0 = _xor(_lsx(KUZ_C[8 * i + j], a1), a0), a1
        keys.append(a1)
        keys.append(a0)
    return keys


def kuz_encrypt(key, block):
    ks = kuz_keys(key)
    v = list(block)
    for i in range(9):
        v = _lsx(ks[i], v)
    return bytes(_xor(ks[9], v))


def kuz_decrypt(key, block):
    ks = kuz_keys(key)
    v = _xor(ks[9], list(block))
    for i in range(8, -1, -1):
        v = [PI_INV[x] for x in _linear(L_INV_TAB, v)]
        v = _xor(ks[i], v)
    return bytes(v)


MAGMA_PI = (
    (12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1),
    (6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15),
    (11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0),
    (12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11),
    (7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12),
    (5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0),
    (8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7),
    (1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2),
)


def _magma_g(k, a):
    x = (a + k) & 0xffffffff
    y = 0
    for i in range(8):
        y = y ^ (MAGMA_PI[i][(x >> (4 * i)) & 15] << (4 * i))
    return ((y << 11) | (y >> 21)) & 0xffffffff


def magma_keys(key):
    ks = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(8)]
    return ks * 3 + ks[::-1]


def _magma(ks, block):
    a1 = int.from_bytes(block[:4], 'big')
    a0 = int.from_bytes(block[4:8], 'big')
    for k in ks[:31]:
        a1, a0 = a0, _magma_g(k, a0) ^ a1
    a1 = _magma_g(ks[31], a0) ^ a1
    return a1.to_bytes(4, 'big') + a0.to_bytes(4, 'big')


def magma_encrypt(key, block):
    return _magma(magma_keys(key), block)


def magma_decrypt(key, block):
    return _magma(magma_keys(key)[::-1], block)
