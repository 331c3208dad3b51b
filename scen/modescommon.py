"""Shared driver of the scenarios of the encryption modes."""
import gostcrypto
from spec import modes

G = gostcrypto.gostcipher
MODE = {'ecb': G.MODE_ECB, 'cbc': G.MODE_CBC, 'cfb': G.MODE_CFB, 'ofb': G.MODE_OFB,
        'ctr': G.MODE_CTR}
PAD = {1: G.PAD_MODE_1, 2: G.PAD_MODE_2}


def make(mode, alg, key, iv=None, pad=None):
    kw = {}
    if iv is not None:
        kw['init_vect'] = iv
    if pad is not None:
        kw['pad_mode'] = PAD[pad]
    return G.new(alg, key, MODE[mode], **kw)


class Ecb:
    def __init__(self, alg, key, pad):
        self.alg, self.key, self.mode = alg, bytes(key), pad

    def e(self, data):
        return modes.ecb(self.alg, self.key, data, self.mode)

    def d(self, data):
        return modes.ecb(self.alg, self.key, data, decrypt=True)


def reference(mode, alg, key, iv, pad):
    """(encrypt, decrypt, exposed state or None)"""
    if mode == 'ecb':
        r = Ecb(alg, key, pad)
        return r.e, r.d, None
    if mode == 'ctr':
        r = modes.Counter(alg, key, iv)
        return r.crypt, r.crypt, lambda: r.ctr
    r = modes.Feedback(alg, key, iv, pad)
    if mode == 'cbc':
        return r.cbc_encrypt, r.cbc_decrypt, r.last
    if mode == 'cfb':
        return r.cfb, lambda d: r.cfb(d, True), r.last
    return r.ofb, r.ofb, r.last


def calls(env, mode, alg, ops, nb=1, pad=1, kind='bytearray', given=True, fixed='',
          prefix=0):
    """A sequence of calls on one object.

    ops: [['e' or 'd', length], ...]; nb: number of blocks in the vector; fixed: letters of
    the inputs (k, i, d) that are fixed instead of symbolic; prefix: number of leading
    bytes of each piece of data that are fixed."""
    bs = modes.SIZES[alg]
    ivlen = {'ecb': 0, 'ctr': bs // 2}.get(mode, nb * bs)
    make_bytes = getattr(env, kind)
    conv = bytes if kind == 'bytes' else bytearray
    key = conv(range(7, 39)) if 'k' in fixed else make_bytes('key', 32)
    iv = conv([(x * x + 3 * x + 1) & 255 for x in range(ivlen)]) if 'i' in fixed \
        else make_bytes('iv', ivlen)
    data = []
    for i, (_, n) in enumerate(ops):
        lead = n if 'd' in fixed else min(prefix, n)
        head = conv([(x * 5 + i + (x >> 8)) & 255 for x in range(lead)])
        data.append(head + make_bytes('d%d' % i, n - lead) if lead < n else head)
    obj = make(mode, alg, key, iv if mode != 'ecb' else None,
               (pad if given else None) if mode in ('ecb', 'cbc') else None)
    state = (lambda: obj.counter) if mode == 'ctr' else (lambda: obj.iv)
    got = [bytes(state()) if mode != 'ecb' else b'']
    for (op, n), d in zip(ops, data):
        out = obj.encrypt(d) if op == 'e' else obj.decrypt(d)
        got.append(out)
        got.append(bytes(state()) if mode != 'ecb' else b'')
    enc, dec, st = reference(mode, alg, key, iv, pad)
    if st:
        env.eq('exposed vector or counter at creation', got[0], st())
    for i, (op, n) in enumerate(ops):
        ref = enc(data[i]) if op == 'e' else dec(data[i])
        env.eq('%s of %d bytes, call %d' % ('encryption' if op == 'e' else 'decryption', n, i),
               got[2 * i + 1], ref)
        if st:
            env.eq('exposed vector or counter after call %d' % i, got[2 * i + 2], st())


def roundtrip(env, mode, alg, cuts, back, nb=1, pad=1):
    """Decrypting the ciphertext (cut anywhere) gives the padded plaintext."""
    bs = modes.SIZES[alg]
    ivlen = {'ecb': 0, 'ctr': bs // 2}.get(mode, nb * bs)
    key, iv = env.bytearray('key', 32), env.bytearray('iv', ivlen)
    n = sum(cuts)
    data = env.bytearray('m', n)
    padded = mode in ('ecb', 'cbc')
    a = make(mode, alg, key, iv if mode != 'ecb' else None, pad if padded else None)
    b = make(mode, alg, key, iv if mode != 'ecb' else None, pad if padded else None)
    ct, pos = b'', 0
    for c in cuts:
        ct = ct + bytes(a.encrypt(data[pos:pos + c]))
        pos += c
    if padded and pad == 2:
        expect, pos = b'', 0
        for c in cuts:
            expect = expect + modes.pad(data[pos:pos + c], bs, 2)
            pos += c
    elif padded:
        expect, pos = b'', 0
        for c in cuts:
            expect = expect + modes.pad(data[pos:pos + c], bs, 1)
            pos += c
    else:
        expect = bytes(data)
    env.eq('ciphertext length', len(ct), len(expect))
    out, pos = b'', 0
    for c in back:
        out = out + bytes(b.decrypt(ct[pos:pos + c]))
        pos += c
    out = out + bytes(b.decrypt(ct[pos:]))
    env.eq('decryption of the ciphertext', out, expect)


def partial(mode, n, bs):
    """Lengths allowed in decryption of the padding modes: complete blocks."""
    return n // bs * bs if mode in ('ecb', 'cbc') else n


def build(mode, tier):
    out = []
    big = tier == 'thorough'
    padded = mode in ('ecb', 'cbc')
    feedback = mode in ('cbc', 'cfb', 'ofb')
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        pads = (1, 2) if padded else (1,)
        top = (6 if big else 2) * bs + 1
        for pad in pads:
            for n in range(0, top + 1):
                if not big and bs == 16 and n > 18 and n % 16 not in (0, 1, 8, 15):
                    continue
                nb = 1 + n % 3 if feedback else 1
                kind = 'bytes' if n % 4 == 3 else 'bytearray'
                ops = [['e', n]]
                if padded:
                    if n % bs == 0:
                        ops = [['e', n], ['e', n]]
                    if n % bs == 0:
                        out.append(('calls', {'mode': mode, 'alg': alg, 'nb': nb, 'pad': pad,
                                              'ops': [['d', n], ['d', n]], 'kind': kind}))
                else:
                    if n % bs == 0 or mode == 'ctr':
                        ops = [['e', n], ['e', (n * 7) % (bs + 2)]]
                    out.append(('calls', {'mode': mode, 'alg': alg, 'nb': nb, 'pad': pad,
                                          'ops': [['d', n]], 'kind': kind}))
                out.append(('calls', {'mode': mode, 'alg': alg, 'nb': nb, 'pad': pad,
                                      'ops': ops, 'kind': kind}))
        # several calls on one object
        for nb in ((1, 2, 3, 4, 5) if big else (1, 2, 3)) if feedback else (1,):
            for pad in pads:
                seqs = [[bs, 2 * bs, bs], [0, bs, 0, bs], [3 * bs, bs + 3]]
                if mode == 'ctr':
                    seqs += [[1, bs, bs - 1, 2 * bs + 1, 3], [bs + 1] * 3]
                if padded:
                    seqs += [[1, bs, bs - 1, 3]]
                if big:
                    seqs += [[bs] * 6, [2 * bs, 0, 3 * bs, 5], [4 * bs, 4 * bs, 1]]
                for k, s in enumerate(seqs):
                    if not big and bs == 16 and nb > 1 and k > 0:
                        continue
                    base = {'mode': mode, 'alg': alg, 'nb': nb, 'pad': pad}
                    out.append(('calls', dict(base, ops=[['e', n] for n in s])))
                    out.append(('calls', dict(base, ops=[['d', partial(mode, n, bs)]
                                                         for n in s])))
                full = [n // bs * bs for n in seqs[0]]
                out.append(('calls', dict(base, ops=[['ed'[i % 2], n]
                                                     for i, n in enumerate(full)])))
                rt = [bs, 2 * bs, 0 if not padded else bs, 3]
                out.append(('roundtrip', dict(base, cuts=rt, back=[2 * bs, bs])))
                if big:
                    out.append(('roundtrip', dict(base, cuts=[bs * 3, bs, 1],
                                                  back=[bs, bs, 2 * bs])))
        # longer vectors
        for nb in ((4, 5, 6, 9) if big else (4, 7)) if feedback else ():
            for op in 'ed':
                out.append(('calls', {'mode': mode, 'alg': alg, 'nb': nb,
                                      'fixed': '' if bs == 8 and nb < 6 else 'k',
                                      'ops': [[op, (nb + 1) * bs], [op, 2 * bs], [op, bs]]}))
        # longer data, with a fixed key
        for n in ((17 * bs, 40 * bs + 1) if big else (17 * bs + (0 if padded else 1),)):
            nb = 2 if feedback else 1
            fixed = 'ki' if mode in ('ctr', 'ofb') else 'k'
            for op in 'ed':
                out.append(('calls', {'mode': mode, 'alg': alg, 'nb': nb,
                                      'ops': [[op, partial(mode, n, bs) if op == 'd' else n]],
                                      'fixed': fixed}))
        # long data of which only the end is symbolic
        for n in ((300 * bs + 5, 1030 * bs + 5) if big else (300 * bs + 5,)):
            for op in 'ed':
                nn = partial(mode, n, bs) if op == 'd' else n
                for first in ([], [bs]) if mode != 'ecb' else ([],):
                    out.append(('calls', {'mode': mode, 'alg': alg, 'nb': 3 if feedback else 1,
                                          'ops': [[op, k] for k in first + [nn]],
                                          'fixed': 'ki', 'prefix': nn - 2 * bs}))
    if padded:
        for alg in ('magma', 'kuznechik'):
            out.append(('calls', {'mode': mode, 'alg': alg, 'ops': [['e', 3]], 'given': False}))
    return out


