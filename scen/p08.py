"""Message authentication code of GOST R 34.13-2015."""
import gostcrypto
from spec import modes

ENCODED = ('gost_34_13_2015.GOST34132015mac (constructor, update, digest, hexdigest, subkeys), '
           'gost_34_12_2015 ciphers, utils')
BOUNDS = {
    'quick': 'all keys and message contents; every length 0..3 blocks+1 in one piece; every '
             'division of up to 2 blocks+1 bytes into two pieces, boundary divisions into three',
    'thorough': 'all keys and message contents; every length 0..5 blocks; every division of up '
                'to 3 blocks+1 bytes into two pieces and of boundary lengths into three',
}


def _new(alg, key, data=None):
    kw = {} if data is None else {'data': data}
    return gostcrypto.gostcipher.new(alg, key, gostcrypto.gostcipher.MODE_MAC, **kw)


def whole(env, alg, n, via):
    """One piece, all sizes."""
    bs = modes.SIZES[alg]
    key = env.bytearray('key', 32)
    data = env.bytearray('m', n)
    if via == 'new':
        m = _new(alg, key, data)
    else:
        m = _new(alg, key)
        if via == 'update':
            m.update(data)
    ref = modes.mac(alg, key, data if via != 'none' else b'')
    env.eq('full-size MAC', m.digest(bs), ref)
    for s in (1, 4, bs // 2, bs - 1):
        env.eq('MAC of size %d' % s, m.digest(s), ref[:s])
    env.eq('hexadecimal MAC', m.hexdigest(bs), ref.hex())


def pieces(env, alg, divs, first_in_new=False):
    """Divisions of one message: each entry of divs lists the lengths of the pieces."""
    bs = modes.SIZES[alg]
    key = env.bytearray('key', 32)
    n = sum(divs[0])
    data = env.bytearray('m', n)
    ref = None
    for cuts in divs:
        m = None
        pos = 0
        for c in cuts:
            part = data[pos:pos + c]
            pos += c
            if m is None and first_in_new:
                m = _new(alg, key, part)
                continue
            if m is None:
                m = _new(alg, key)
            m.update(part)
        if ref is None:
            ref = modes.mac(alg, key, data)
        env.eq('MAC of a divided message %s' % cuts, m.digest(bs), ref)


def sizes(env, alg, n, lo, hi):
    """The accepted sizes, for a fixed key and message."""
    bs = modes.SIZES[alg]
    key = bytearray(range(3, 35))
    data = bytearray(range(n))
    s = env.int('s', lo, hi)
    m = _new(alg, key)
    m.update(data)
    err = gostcrypto.gostcipher.GOSTCipherError
    if 1 <= s <= bs:
        got, hexa = m.digest(s), m.hexdigest(s)
        ref = modes.mac(alg, key, data)
        env.eq('accepted size', got, ref[:s])
        env.eq('accepted size, hexadecimal', hexa, ref[:s].hex())
    else:
        env.raises('size refused', err, lambda: m.digest(s))
        env.raises('size refused (hexadecimal)', err, lambda: m.hexdigest(s))


def scenarios(tier):
    out = []
    big = tier == 'thorough'
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        for n in range(0, (5 if big else 3) * bs + 2):
            if not big and bs == 16 and n > 2 and n % 16 not in (0, 1, 5, 14, 15):
                continue
            out.append(('whole', {'alg': alg, 'n': n, 'via': ('update', 'new')[n % 2]}))
            if big:
                out.append(('whole', {'alg': alg, 'n': n, 'via': ('new', 'update')[n % 2]}))
        out.append(('whole', {'alg': alg, 'n': 0, 'via': 'none'}))
        for lo, hi in ((-20, 40), (-1 << 70, 1 << 70)):
            out.append(('sizes', {'alg': alg, 'n': bs + 3, 'lo': lo, 'hi': hi}))
        top = 3 * bs + 1 if big else 2 * bs + 1
        if big or bs == 8:
            lens = range(0, top + 1)
        else:
            lens = [1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs]
        for n in lens:
            divs = [[i, n - i] for i in range(0, n + 1)]
            if not big and bs == 16 and n > bs:
                divs = [d for d in divs if d[0] in (0, 1, 2, bs - 1, bs, bs + 1, n - 1, n)]
            for k in range(0, len(divs), 8):
                out.append(('pieces', {'alg': alg, 'divs': divs[k:k + 8]}))
        by = {}
        for a in (0, 1, bs - 1, bs, bs + 1, 2 * bs):
            for b in (0, 1, bs - 1, bs, bs + 1):
                for c in (0, 1, bs - 1, bs):
                    if big or (a + b) % bs == 0 or (b + c) % bs == 0:
                        if big or bs == 8 or a <= bs:
                            by.setdefault(a + b + c, []).append([a, b, c])
        for n, divs in sorted(by.items()):
            for k in range(0, len(divs), 8):
                out.append(('pieces', {'alg': alg, 'divs': divs[k:k + 8],
                                       'first_in_new': (n + k) % 2 == 1}))
        for cuts in ([1] * (bs + 1), [3] * 7, [bs] * 4, [bs - 1] * 4, [bs + 1] * 4,
                     [1, 2 * bs, 1, 2 * bs - 1]):
            out.append(('pieces', {'alg': alg, 'divs': [list(cuts)]}))
    return out
