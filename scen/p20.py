"""Refusal of invalid arguments and acceptance of the documented ones."""
import gostcrypto
from scen import ciphercommon as cc, hashcommon as hc
from spec import modes

ENCODED = ('new and __init__ of gost_34_13_2015, gost_34_11_2012, r_50_1_113_2016, '
           'r_50_1_111_2016, r_1323565_1_006_2017, gost_34_10_2012; encrypt, decrypt, update, '
           'digest, derive, sign, verify, public_key_generate up to their argument checks; '
           'utils.check_value')
BOUNDS = {
    'quick': 'all contents of keys, vectors, data, seeds, digests and signatures of every length '
             '0..70 (selected lengths beyond, up to 257); all texts of the length of a valid name '
             '(and shorter) as names, all integers -300..70000 as modes and around the padding '
             'constants; 9 wrong types for every argument; every combination of mode, algorithm '
             'and padding',
    'thorough': 'as quick with every length 0..260 and names up to two characters longer',
}
ASSUMPTIONS = ('Accepted arguments of the signature module are covered by P23..P27.',)
G = gostcrypto
C = G.gostcipher
CE, HE = C.GOSTCipherError, G.gosthash.GOSTHashError
ME, PE = G.gosthmac.GOSTHMACError, G.gostpbkdf.GOSTPBKDFError
RE, SE = G.gostrandom.GOSTRandomError, G.gostsignature.GOSTSignatureError
MODES = {'ecb': C.MODE_ECB, 'cbc': C.MODE_CBC, 'cfb': C.MODE_CFB, 'ofb': C.MODE_OFB,
         'ctr': C.MODE_CTR, 'mac': C.MODE_MAC}
PADS = {1: C.PAD_MODE_1, 2: C.PAD_MODE_2}
NAMES = {'cipher': ('magma', 'kuznechik'), 'hash': ('streebog256', 'streebog512'),
         'hmac': ('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512')}


class Other:
    """An object that is not a byte string but has a length and items."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError
        return i & 255


def wrong(n):
    """Values that are not byte strings; those with a length have length n."""
    return {'str': 'k' * n, 'none': None, 'int': 7, 'list': [1] * n, 'tuple': (1,) * n,
            'float': 1.5, 'range': range(n), 'set': set(range(n)), 'object': Other(n)}


def kinds(n, limit):
    """Both types of byte string around a limit, alternating elsewhere."""
    if abs(n - limit) < 2 or n == 0:
        return 'bytes', 'bytearray'
    return ('bytearray',) if n % 2 else ('bytes',)


def iv_args(mode, alg, nb=1):
    bs = modes.SIZES[alg]
    if mode in ('ecb', 'mac'):
        return {}
    return {'init_vect': bytearray(bs // 2 if mode == 'ctr' else nb * bs)}


def cipher_key(env, alg, mode, lens):
    for kind in ('bytes', 'bytearray'):
        for n in lens:
            if n != 32:
                key = getattr(env, kind)('k%d' % n, n)
                env.raises('key of %d bytes (%s)' % (n, kind), CE,
                           lambda: C.new(alg, key, MODES[mode], **iv_args(mode, alg)))
    for what, v in wrong(32).items():
        env.raises('key of type %s' % what, CE,
                   lambda: C.new(alg, v, MODES[mode], **iv_args(mode, alg)))


def cipher_iv(env, alg, mode, lens):
    with cc.Abstract(env):
        _cipher_iv(env, alg, mode, lens)


def _cipher_iv(env, alg, mode, lens):
    bs = modes.SIZES[alg]
    key = env.bytes('key', 32)
    for n in lens:
        iv = env.bytearray('iv%d' % n, n)
        iv = bytes(iv) if n % 3 == 0 else iv
        if n == bs // 2 if mode == 'ctr' else n and n % bs == 0:
            o = C.new(alg, key, MODES[mode], init_vect=iv)
            env.eq('accepted vector of %d bytes' % n, len(o.encrypt(bytes(bs))), bs)
        else:
            env.raises('vector of %d bytes' % n, CE,
                       lambda: C.new(alg, key, MODES[mode], init_vect=iv))
    for what, v in wrong(bs // 2 if mode == 'ctr' else bs).items():
        env.raises('vector of type %s' % what, CE,
                   lambda: C.new(alg, key, MODES[mode], init_vect=v))


def cipher_mode(env, alg, lo, hi):
    """Every number as a mode; the documented ones are accepted."""
    m = env.int('mode', lo, hi)
    key = bytes(range(32))
    if m == MODES['ecb'] or m == MODES['cbc'] or m == MODES['cfb'] or m == MODES['ofb'] or \
            m == MODES['ctr'] or m == MODES['mac']:
        o = C.new(alg, key, m)
        env.eq('block size', o.block_size, modes.SIZES[alg])
    else:
        env.raises('mode', CE, lambda: C.new(alg, key, m))
        env.raises('mode with a vector', CE, lambda: C.new(alg, key, m, init_vect=bytes(16)))


def cipher_pad(env, alg, mode, base):
    """Every number around the constants as a padding mode."""
    p = base + env.int('pad', 0, 255)
    key = env.bytes('key', 32)
    if p == PADS[1] or p == PADS[2]:
        o = C.new(alg, key, MODES[mode], pad_mode=p)
        env.true('accepted', len(o.encrypt(bytes(5))) >= modes.SIZES[alg])
    else:
        env.raises('padding mode', CE, lambda: C.new(alg, key, MODES[mode], pad_mode=p))


def misc(env, alg):
    key = env.bytes('key', 32)
    for what, v in list(wrong(1).items()) + [('bytes', b'\x01'), ('dict', {})]:
        if what != 'int':
            env.raises('mode of type %s' % what, CE, lambda: C.new(alg, key, v))
            for m in ('ecb', 'cbc'):
                env.raises('padding of type %s' % what, CE,
                           lambda: C.new(alg, key, MODES[m], pad_mode=v))
        env.raises('algorithm of type %s' % what, CE, lambda: C.new(v, key, MODES['cbc']))
    for m in MODES:
        env.raises('everything wrong', CE, lambda: C.new('des', b'', MODES[m], init_vect=b'',
                                                         pad_mode=0))


def names(env, module, pattern, like):
    """Every text of a form; like: the valid names of that length."""
    name = env.string('n', pattern)
    valid = False
    for v in like:
        if name == v:
            valid = True
    key = env.bytes('key', 32)
    if module == 'cipher':
        for m in ('ecb', 'ctr', 'mac'):
            if valid:
                env.true('accepted', C.new(name, key, MODES[m]).block_size in (8, 16))
            else:
                env.raises('algorithm', CE, lambda: C.new(name, key, MODES[m]))
    elif module == 'hash':
        if valid:
            env.true('accepted', G.gosthash.new(name).digest_size in (32, 64))
        else:
            env.raises('hash name', HE, lambda: G.gosthash.new(name))
            env.raises('hash name with data', HE, lambda: G.gosthash.new(name, data=b'abc'))
    elif valid:
        env.true('accepted', G.gosthmac.new(name, key).digest_size in (32, 64))
    else:
        env.raises('HMAC name', ME, lambda: G.gosthmac.new(name, key))


def accepted(env, alg, mode, pad, nb, given, kind):
    """Every documented combination works, with data of any length and both types."""
    with cc.Abstract(env, mode != 'mac'):
        _accepted(env, alg, mode, pad, nb, given, kind)


def _accepted(env, alg, mode, pad, nb, given, kind):
    bs = modes.SIZES[alg]
    key = getattr(env, kind)('key', 32)
    if mode == 'mac':
        key = bytearray(range(32)) if kind == 'bytearray' else bytes(range(32))
    kw = iv_args(mode, alg, nb) if given else {}
    if pad:
        kw['pad_mode'] = PADS[pad]
    for n in (0, 1, bs - 1, bs, bs + 1):
        d = getattr(env, kind)('d%d' % n, n)
        o = C.new(alg, key, MODES[mode], **kw)
        if mode == 'mac':
            o.update(d)
            env.eq('size of the MAC', len(o.digest(bs)), bs)
            o = C.new(alg, key, MODES[mode], data=d)
            env.eq('size of the MAC of the data given at creation', len(o.digest(1)), 1)
            continue
        out = o.encrypt(d)
        full = bs * max(1, -(-n // bs))
        if mode not in ('ecb', 'cbc'):
            env.eq('size of the ciphertext of %d bytes' % n, len(out), n)
        elif pad != 2:
            env.eq('size of the ciphertext of %d bytes' % n, len(out), full)
        env.eq('size of the decryption', len(o.decrypt(out)), len(out))


def data(env, alg, mode):
    """Data that is not a byte string."""
    bs = modes.SIZES[alg]
    key = env.bytes('key', 32) if mode != 'mac' else bytes(range(32))
    for n in (0, bs):
        for what, v in wrong(n).items():
            if mode == 'mac':
                env.raises('update with %s of size %d' % (what, n), CE,
                           lambda: C.new(alg, key, MODES[mode]).update(v))
                env.raises('creation with %s of size %d' % (what, n), CE,
                           lambda: C.new(alg, key, MODES[mode], data=v))
                o = C.new(alg, key, MODES[mode], data=b'abc')
                env.raises('later update with %s of size %d' % (what, n), CE,
                           lambda: o.update(v))
            else:
                o = C.new(alg, key, MODES[mode], **iv_args(mode, alg))
                env.raises('encryption of %s of size %d' % (what, n), CE, lambda: o.encrypt(v))
                o = C.new(alg, key, MODES[mode], **iv_args(mode, alg))
                o.encrypt(bytes(bs))
                env.raises('decryption of %s of size %d' % (what, n), CE, lambda: o.decrypt(v))


def hashes(env, size):
    name = hc.NAME[size]
    for n in (0, 5):
        for what, v in wrong(n).items():
            env.raises('hash data %s' % what, HE, lambda: G.gosthash.new(name, data=v))
            env.raises('hash update %s' % what, HE, lambda: G.gosthash.new(name).update(v))
    for what, v in list(wrong(1).items()) + [('bytes', b'streebog256')]:
        env.raises('hash name %s' % what, HE, lambda: G.gosthash.new(v))


def hmacs(env, name, lens):
    with hc.Abstract(env, fast=True):
        for n in lens:
            for kind in kinds(n, 64):
                key = getattr(env, kind)('k%d' % n, n)
                if n <= 64:
                    env.true('key of %d bytes accepted' % n,
                             len(G.gosthmac.new(name, key, data=b'').digest()) > 0)
                else:
                    env.raises('key of %d bytes' % n, ME, lambda: G.gosthmac.new(name, key))
        for what, v in wrong(32).items():
            env.raises('key %s' % what, ME, lambda: G.gosthmac.new(name, v))
            env.raises('name %s' % what, ME, lambda: G.gosthmac.new(v, bytes(32)))
        for n in (0, 5):
            for what, v in wrong(n).items():
                env.raises('data %s' % what, ME, lambda: G.gosthmac.new(name, bytes(32), data=v))
                env.raises('update %s' % what, ME,
                           lambda: G.gosthmac.new(name, bytes(32)).update(v))
                h = G.gosthmac.new(name, bytes(32), data=b'abc')
                env.raises('later update %s' % what, ME, lambda: h.update(v))


def pbkdfs(env, lens):
    with hc.Abstract(env, fast=True):
        for n in lens:
            for kind in kinds(n, 64):
                pw = getattr(env, kind)('p%d' % n, n)
                if n <= 64:
                    o = G.gostpbkdf.new(pw, salt=b'salt', counter=1)
                    env.eq('password of %d bytes accepted' % n, len(o.derive(3)), 3)
                else:
                    env.raises('password of %d bytes' % n, PE,
                               lambda: G.gostpbkdf.new(pw, salt=b'salt'))
        for what, v in wrong(8).items():
            env.raises('password %s' % what, PE, lambda: G.gostpbkdf.new(v, salt=b'salt'))
            env.raises('salt %s' % what, PE, lambda: G.gostpbkdf.new(b'pw', salt=v))
        env.raises('salt list of size 0', PE, lambda: G.gostpbkdf.new(b'pw', salt=[]))
        o = G.gostpbkdf.new(b'pw', salt=b'salt', counter=1)
        over = (2 ** 32 - 1) * 64 + 1 + env.int('n', 0, 2 ** 20)
        env.raises('size of the derived key', PE, lambda: o.derive(over))
        env.raises('size of the derived key in hexadecimal', PE, lambda: o.hexderive(over))


def randoms(env, seed, lens):
    with hc.Abstract(env, fast=True):
        for n in lens:
            for kind in ('bytes', 'bytearray'):
                k = getattr(env, kind)('k%d' % n, n)
                if n == 0:
                    continue
                if n == seed:
                    env.assume(k[0] == 1)
                    o = G.gostrandom.new(9, rand_k=k, size_s=seed)
                    env.eq('seed of %d bytes accepted' % n, len(o.random()), 9)
                    o.reset(k)
                    env.eq('reset with it accepted', len(o.random()), 9)
                    continue
                env.raises('seed of %d bytes' % n, RE,
                           lambda: G.gostrandom.new(9, rand_k=k, size_s=seed))
                o = G.gostrandom.new(9, rand_k=bytes([1] * seed), size_s=seed)
                env.raises('reset with %d bytes' % n, RE, lambda: o.reset(k))
                if seed == 48:
                    env.raises('default size, seed of %d bytes' % n, RE,
                               lambda: G.gostrandom.new(9, rand_k=k))
        for what, v in wrong(seed).items():
            env.raises('seed %s' % what, RE, lambda: G.gostrandom.new(9, rand_k=v, size_s=seed))
            o = G.gostrandom.new(9, rand_k=bytes([1] * seed), size_s=seed)
            env.raises('reset with %s' % what, RE, lambda: o.reset(v))


def signatures(env, size, lens):
    S = G.gostsignature
    cname = 'id-tc26-gost-3410-2012-%d-paramSet%s' % (size * 8, 'B' if size == 32 else 'A')
    cname = cname if size == 32 else 'id-tc26-gost-3410-12-512-paramSetA'
    curve = S.CURVES_R_1323565_1_024_2019[cname]
    s = S.new(S.MODE_256 if size == 32 else S.MODE_512, curve)
    d, e, k = bytes([3] * size), bytes([5] * size), bytes([7] * size)
    for n in lens:
        for kind in ('bytes', 'bytearray'):
            v = getattr(env, kind)('v%d' % n, n)
            if n != size:
                env.raises('private key of %d bytes' % n, SE, lambda: s.sign(v, e, k))
                env.raises('digest of %d bytes' % n, SE, lambda: s.sign(d, v, k))
                env.raises('private key of %d bytes for the public key' % n, SE,
                           lambda: s.public_key_generate(v))
                env.raises('digest of %d bytes in verification' % n, SE,
                           lambda: s.verify(d + d, v, e + e))
            if n != 2 * size:
                env.raises('public key of %d bytes' % n, SE, lambda: s.verify(v, e, e + e))
                env.raises('signature of %d bytes' % n, SE, lambda: s.verify(d + d, e, v))
    for what, v in wrong(size).items():
        env.raises('private key %s' % what, SE, lambda: s.sign(v, e, k))
        env.raises('digest %s' % what, SE, lambda: s.sign(d, v, k))
        env.raises('random value %s' % what, SE, lambda: s.sign(d, e, v))
        env.raises('private key %s for the public key' % what, SE,
                   lambda: s.public_key_generate(v))
        env.raises('digest %s in verification' % what, SE, lambda: s.verify(d + d, v, e + e))
    for what, v in wrong(2 * size).items():
        env.raises('public key %s' % what, SE, lambda: s.verify(v, e, e + e))
        env.raises('signature %s' % what, SE, lambda: s.verify(d + d, e, v))
    m = env.int('mode', -5, 1000)
    if m == S.MODE_256 or m == S.MODE_512:
        return
    env.raises('mode', SE, lambda: S.new(m, curve))
    for what, v in wrong(1).items():
        if what != 'int':
            env.raises('mode %s' % what, SE, lambda: S.new(v, curve))


def scenarios(tier):
    deep = tier == 'thorough'
    lens = list(range(261)) if deep else list(range(71)) + [95, 96, 97, 127, 128, 129, 192,
                                                           256, 257]
    out = []
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        for mode in MODES:
            out.append(('cipher_key', {'alg': alg, 'mode': mode, 'lens': lens}))
            if mode not in ('ecb', 'mac'):
                out.append(('cipher_iv', {'alg': alg, 'mode': mode, 'lens': lens}))
            out.append(('data', {'alg': alg, 'mode': mode}))
            for pad in (None, 1, 2) if mode in ('ecb', 'cbc') else (None,):
                for nb in (1, 2, 3) if mode in ('cbc', 'cfb', 'ofb') else (1,):
                    for given in (True, False) if nb == 1 else (True,):
                        for kind in ('bytes', 'bytearray'):
                            out.append(('accepted', {'alg': alg, 'mode': mode, 'pad': pad,
                                                     'nb': nb, 'given': given, 'kind': kind}))
        out.append(('cipher_mode', {'alg': alg, 'lo': -300, 'hi': 70000}))
        for mode in ('ecb', 'cbc'):
            for base in (0, 0x7fffff80, 0x80000000, 0x800000f0, 0x80000100):
                out.append(('cipher_pad', {'alg': alg, 'mode': mode, 'base': base}))
        out.append(('misc', {'alg': alg}))
    for module, valid in NAMES.items():
        for n in sorted({len(v) for v in valid} | {1, 0} | ({6, 10, 12, 13} if deep else {6})):
            like = [v for v in valid if len(v) == n]
            if n == 0:
                out.append(('names', {'module': module, 'pattern': [], 'like': []}))
                continue
            out.append(('names', {'module': module, 'pattern': ['?%d' % n], 'like': like}))
        for v in valid:
            for t in (v.upper(), v.capitalize(), v + ' ', ' ' + v, v[:-1], v + '\x00'):
                if t not in valid:
                    out.append(('names', {'module': module, 'pattern': [t], 'like': []}))
    for size in (32, 64):
        out.append(('hashes', {'size': size}))
        out.append(('signatures', {'size': size, 'lens': lens}))
    for i in range(0, len(lens), 12):
        for name in NAMES['hmac']:
            out.append(('hmacs', {'name': name, 'lens': lens[i:i + 12]}))
        out.append(('pbkdfs', {'lens': lens[i:i + 12]}))
    for seed in (32, 40, 48):
        out.append(('randoms', {'seed': seed, 'lens': lens}))
    return out
