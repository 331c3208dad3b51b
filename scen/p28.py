"""Objects after a refused call."""
import gostcrypto
from scen import hashcommon as hc
from scen import modescommon as mc
from scen import sigcommon as sc
from scen.p20 import wrong
from spec import modes

ENCODED = ('gost_34_13_2015 (encrypt, decrypt, update, digest, clear), gost_34_12_2015 (clear), '
           'gost_34_11_2012, r_50_1_113_2016, r_50_1_111_2016, r_1323565_1_006_2017, '
           'gost_34_10_2012 (public methods and everything below them), utils')
BOUNDS = {
    'quick': 'all keys, vectors, data, passwords, salts, seeds and private keys; calls refused at '
             'every position (symbolic) among up to 4 calls, for each of 9 wrong types and for '
             'byte strings of wrong length; data up to 2 blocks for modes and MACs '
             'with the real ciphers, up to 130 bytes for hashes; MAC sizes -300..0 and above the '
             'block size up to 70000, derived sizes up to 65536 above the limit; two published '
             'curves and a small one',
    'thorough': 'as quick with the real compression function, more lengths and every published '
                'curve',
}
ASSUMPTIONS = ('Hash scenarios use an uninterpreted compression function (as in P11) unless noted; '
               'scalar multiplication on published curves is a function of the scalar (as in '
               'P23).',
               'A random object whose counter is exhausted is the subject of P16.')
G = gostcrypto
NAME = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}
ERRORS = {'cipher': G.gostcipher.GOSTCipherError, 'hash': G.gosthash.GOSTHashError,
          'hmac': G.gosthmac.GOSTHMACError, 'pbkdf': G.gostpbkdf.GOSTPBKDFError,
          'random': G.gostrandom.GOSTRandomError,
          'signature': G.gostsignature.GOSTSignatureError}


def refuse(env, when, error, call, values):
    """Calls that have to be refused, one after the other."""
    for what, v in values.items():
        env.raises('%s refused, %s' % (what, when), ERRORS[error], lambda: call(v))


def cipher(env, alg, mode, pad, nb, ops):
    """An object that has refused data goes on like one that was cleared at that point."""
    bs = modes.SIZES[alg]
    iv = env.bytearray('iv', {'ecb': 0, 'ctr': bs // 2}.get(mode, nb * bs))
    iv = None if mode == 'ecb' else iv
    key = env.bytes('key', 32)
    a, b = (mc.make(mode, alg, key, iv, pad) for _ in 'ab')
    at = env.choice('at', len(ops))
    for i, (op, n) in enumerate(ops):
        if at == i:
            refuse(env, 'call %d' % i, 'cipher', a.encrypt if op == 'e' else a.decrypt,
                   wrong(bs))
            b.clear()
        d = env.bytearray('d%d' % i, n)
        if op == 'e':
            env.eq('result %d' % i, a.encrypt(d), b.encrypt(d))
        else:
            env.eq('result %d' % i, a.decrypt(d), b.decrypt(d))
        if mode != 'ecb':
            env.eq('state %d' % i, a.counter if mode == 'ctr' else a.iv,
                   b.counter if mode == 'ctr' else b.iv)


def keyless(env, alg, mode, pad, ops, which='str'):
    """After a refusal nothing depends on the key: all keys behave like a given one."""
    bs = modes.SIZES[alg]
    iv = None if mode == 'ecb' else env.bytes('iv', bs // 2 if mode == 'ctr' else bs)
    objs = []
    for k in (env.bytearray('key', 32), bytearray(range(32))):
        o = (G.gostcipher.new(alg, k, G.gostcipher.MODE_MAC) if mode == 'mac' else
             mc.make(mode, alg, k, iv, pad))
        call = o.update if mode == 'mac' else o.encrypt if ops[0][0] == 'e' else o.decrypt
        env.raises('refused', ERRORS['cipher'], lambda: call(wrong(bs)[which]))
        objs.append(o)
    for i, (op, n) in enumerate(ops):
        d = env.bytearray('d%d' % i, n)
        if mode == 'mac':
            objs[0].update(d)
            objs[1].update(d)
            env.eq('value %d' % i, objs[0].digest(bs), objs[1].digest(bs))
        elif op == 'e':
            env.eq('result %d' % i, objs[0].encrypt(d), objs[1].encrypt(d))
        else:
            env.eq('result %d' % i, objs[0].decrypt(d), objs[1].decrypt(d))


def mac(env, alg, lens, data):
    """A refused size changes nothing; refused data is like a clear."""
    bs = modes.SIZES[alg]
    key = env.bytes('key', 32)
    a, b = (G.gostcipher.new(alg, key, G.gostcipher.MODE_MAC) for _ in 'ab')
    at = env.choice('at', len(lens))
    if not data:
        low, high = env.int('low', -300, 0), bs + 1 + env.int('high', 0, 65535)
    for i, n in enumerate(lens):
        if at == i:
            if data:
                refuse(env, 'call %d' % i, 'cipher', a.update, wrong(bs))
                b.clear()
            else:
                for size in (low, high):
                    for call in (a.digest, a.hexdigest):
                        env.raises('size refused', ERRORS['cipher'], lambda: call(size))
        d = env.bytearray('d%d' % i, n)
        a.update(d)
        b.update(d)
        if i != 1:
            env.eq('value %d' % i, a.digest(bs), b.digest(bs))


def hashes(env, size, lens, real=False):
    with hc.Abstract(env, not real):
        a, b = (G.gosthash.new(hc.NAME[size]) for _ in 'ab')
        at = env.choice('at', len(lens) + 1)
        for i, n in enumerate(list(lens) + [None]):
            if at == i:
                refuse(env, 'call %d' % i, 'hash', a.update, wrong(5))
            if n is None:
                break
            if n == 'reset':
                a.reset()
                b.reset()
            elif n == 'copy':
                a, b = a.copy(), b.copy()
            else:
                d = env.bytearray('d%d' % i, n)
                a.update(d)
                b.update(d)
        env.eq('hash', a.digest(), b.digest())
        env.eq('hexadecimal form', a.hexdigest(), b.hexdigest())


def hmac(env, size, klen, lens):
    with hc.Abstract(env):
        key = env.bytes('key', klen)
        a, b = (G.gosthmac.new(NAME[size], key) for _ in 'ab')
        at = env.choice('at', len(lens) + 1)
        for i, n in enumerate(list(lens) + [None]):
            if at == i:
                refuse(env, 'call %d' % i, 'hmac', a.update, wrong(5))
            if n is None:
                break
            if n == 'reset':
                a.reset()
                b.reset()
            elif n == 'copy':
                a, b = a.copy(), b.copy()
            elif n == 'digest':
                env.eq('value %d' % i, a.digest(), b.digest())
            else:
                d = env.bytearray('d%d' % i, n)
                a.update(d)
                b.update(d)
        env.eq('value', a.digest(), b.digest())


def pbkdf(env, plen, slen, count, sizes):
    with hc.Abstract(env):
        pw, salt = env.bytes('pw', plen), env.bytes('salt', slen)
        a, b = (G.gostpbkdf.new(pw, salt=salt, counter=count) for _ in 'ab')
        at = env.choice('at', len(sizes) + 1)
        big = (2 ** 32 - 1) * 64 + 1 + env.int('over', 0, 65535)
        for i, n in enumerate(list(sizes) + [None]):
            if at == i:
                for call in (a.derive, a.hexderive):
                    env.raises('refused before call %d' % i, ERRORS['pbkdf'], lambda: call(big))
            if n is not None:
                env.eq('derived key %d' % i, a.derive(n), b.derive(n))
        env.eq('salt', a.salt, b.salt)


def rand(env, seed, size, lens):
    """Refused seeds; lens: lengths of byte strings refused."""
    with hc.Abstract(env):
        k = env.bytes('k', seed)
        env.assume(k != bytes(seed))
        a, b = (G.gostrandom.new(size, rand_k=k, size_s=seed) for _ in 'ab')
        at = env.choice('at', 3)
        for i in range(3):
            if at == i:
                bad = {'%d bytes' % n: env.bytearray('b%d' % n, n) for n in lens}
                refuse(env, 'call %d' % i, 'random', a.reset, dict(wrong(seed), **bad))
            env.eq('output %d' % i, a.random(), b.random())
        a.reset(bytes(seed))
        for _ in range(2):
            env.raises('zero seed', ERRORS['random'], a.random)
        a.reset(k)
        b.reset(k)
        env.eq('output after a reset', a.random(), b.random())


def refusals(env, o, n):
    """Calls of a signature object that are refused."""
    ok, two = bytes(range(1, n + 1)), bytes(range(1, 2 * n + 1))
    short = bytes(n - 1)
    calls = [lambda: o.sign(bytes(n), ok, ok), lambda: o.sign(short, ok, ok),
            lambda: o.sign('d' * n, ok, ok), lambda: o.sign(ok, short, ok),
            lambda: o.sign(ok, None, ok), lambda: o.sign(ok, ok, bytes(n)),
            lambda: o.sign(ok, ok, b'\xff' * n), lambda: o.public_key_generate(bytes(n)),
            lambda: o.public_key_generate(two), lambda: o.public_key_generate(5),
            lambda: o.verify(ok, ok, two), lambda: o.verify(two, short, two),
            lambda: o.verify(two, ok, two[1:]), lambda: o.verify(two, ok, None)]
    for i, call in enumerate(calls):
        env.raises('call %d refused' % i, ERRORS['signature'], call)


def signature(env, name):
    """All keys, digests and random values on a published curve."""
    n = sc.SIZES[name]
    d, e, k = (env.bytes(v, n) for v in 'dek')
    a, b = sc.make(name), sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        refusals(env, a, n)
        want = None
        try:
            want = b.sign(d, e, k)
        except sc.SE:
            pass
        try:
            got = a.sign(d, e, k)
        except sc.SE:
            got = None
        env.true('refused or not', (got is None) == (want is None))
        if got is not None and want is not None:
            env.eq('signature', got, want)
        try:
            env.eq('public key', a.public_key_generate(d), b.public_key_generate(d))
        except sc.SE:
            pass


def tiny(env, name, base, size, bits=3):
    """On a small curve: a signature refused because r or s is zero, then another one."""
    t, u = sc.tiny(size, name, base), sc.tiny(size, name, base)
    if t is None or u is None:
        return
    a, b = t[0], u[0]
    d, db = sc.small(env, 'd', size, bits)
    e, eb = sc.small(env, 'e', size, bits)
    k, kb = sc.small(env, 'k', size, bits)
    try:
        a.sign(db, eb, kb)
        return
    except sc.SE:
        pass
    for i in range(1, 4):
        x, y, z = (sc.octets(v, size) for v in (i, i + 1, 4 - i))
        try:
            want = b.sign(x, y, z)
        except sc.SE:
            want = None
        try:
            got = a.sign(x, y, z)
        except sc.SE:
            got = None
        env.true('refused or not, %d' % i, (got is None) == (want is None))
        if got is not None and want is not None:
            env.eq('signature %d' % i, got, want)


def oid(env, pattern):
    """An identifier whose encoding is refused stays as it is."""
    s = env.string('s', pattern)
    o = G.gostoid.ObjectIdentifier(s)
    for _ in range(2):
        for what in ('digit', 'octet'):
            try:
                getattr(o, what)
            except G.gostoid.GOSTOIDError:
                pass
        env.eq('text', str(o), s)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            for pad in (1, 2) if mode in ('ecb', 'cbc') else (None,):
                for nb in (1, 2) if mode in ('cbc', 'cfb', 'ofb') else (1,):
                    for ops in ([['e', bs], ['d', bs], ['e', bs + 3]], [['d', bs], ['e', 2]]):
                        out.append(('cipher', {'alg': alg, 'mode': mode, 'pad': pad, 'nb': nb,
                                               'ops': ops}))
                for ops in ([['e', 2 * bs], ['d', bs]], [['d', bs], ['e', 3]]):
                    for which in wrong(1) if deep else ('str', 'none', 'list'):
                        out.append(('keyless', {'alg': alg, 'mode': mode, 'pad': pad, 'ops': ops,
                                                'which': which}))
        for which in wrong(1) if deep or bs == 8 else ('str', 'none'):
            out.append(('keyless', {'alg': alg, 'mode': 'mac', 'pad': None, 'which': which,
                                    'ops': [['u', bs + 1], ['u', bs - 1]][:2 if bs == 8 else 1]}))
        lens = [[3, bs, 1], [bs, bs, bs]] if bs == 8 else [[3, bs], [bs, 2]]
        for lens in lens + ([[bs - 1, 1, 2], [0, 0, 5]] if deep else []):
            for data in (True, False):
                out.append(('mac', {'alg': alg, 'lens': lens, 'data': data}))
    for size in (32, 64):
        for lens in [[0, 64], [10, 54, 1], [65, 'copy', 63], [5, 'reset', 70], [128]]:
            out.append(('hashes', {'size': size, 'lens': lens}))
        if deep:
            out.append(('hashes', {'size': size, 'lens': [64, 3], 'real': True}))
        for klen in (0, 20, 64):
            for lens in [[5, 64], [64, 'digest', 1], ['digest', 3], [7, 'reset', 7],
                         [7, 'copy', 60]]:
                out.append(('hmac', {'size': size, 'klen': klen, 'lens': lens}))
    for plen, slen in ((0, 1), (20, 64), (64, 5)):
        out.append(('pbkdf', {'plen': plen, 'slen': slen, 'count': 2, 'sizes': [70, 3, 64]}))
    for seed in (32, 40, 48):
        for size in (10, 64, 130):
            out.append(('rand', {'seed': seed, 'size': size,
                                 'lens': [1, seed - 1, seed + 1, 63, 64]}))
    for name, n in sc.SIZES.items():
        if deep or name.endswith('256-paramSetB'):
            out.append(('signature', {'name': name}, {'weight': n, 'time': 400}))
    for name, base, size in (('p7q5', 0, 32), ('p11q7', 0, 64))[:2 if deep else 1]:
        out.append(('tiny', {'name': name, 'base': base, 'size': size}, {'weight': 20}))
    return out
