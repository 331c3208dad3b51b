"""Arguments are left alone, and nothing is shared between caller and object."""
import gostcrypto
from scen import hashcommon as hc
from scen import modescommon as mc
from scen import sigcommon as sc
from spec import modes

ENCODED = ('gost_34_12_2015, gost_34_13_2015, gost_34_11_2012, r_50_1_113_2016, r_50_1_111_2016, '
           'r_1323565_1_006_2017, gost_34_10_2012 (public methods and everything below them), '
           'utils')
BOUNDS = {
    'quick': 'all keys, vectors, data, passwords, salts and seeds; every mode of both ciphers, '
             'both hash sizes, HMAC, PBKDF, random; three calls of up to 3 blocks (130 bytes for '
             'hashes); every argument and every result overwritten and extended after each call; '
             'arguments watched through uses, refused calls, clear '
             'and destruction; bytes against bytearray; default vectors and constants before and '
             'after; the arguments of the signature methods on two published curves (scalar '
             'multiplication uninterpreted) and a small one, and the dictionary of parameters',
    'thorough': 'as quick, with more lengths (every residue of the block size) and the real '
                'compression function',
}
ASSUMPTIONS = ('Some hash scenarios use an uninterpreted compression function (as in P11); the '
               'others execute the real one.',
               'The effect of sharing is observed through later results of the object.')
G = gostcrypto
NAME = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}


def scramble(*bufs):
    """What a caller may do with its own buffers."""
    for b in bufs:
        if isinstance(b, bytearray):
            for i in range(len(b)):
                b[i] = b[i] ^ 0xa5
            b.extend(b'\x5a\xa5\x5a')


class Watch:
    """Buffers that must not change until they are scrambled."""

    def __init__(self, env):
        self.env = env
        self.bufs = []

    def add(self, name, buf):
        self.bufs.append((name, buf, bytes(buf)))
        return buf

    def check(self, when):
        for name, buf, was in self.bufs:
            self.env.eq('%s unchanged %s' % (name, when), bytes(buf), was)

    def drop(self, *names):
        for name, buf, _ in self.bufs:
            if not names or name in names:
                scramble(buf)
        self.bufs = [x for x in self.bufs if names and x[0] not in names]


def cipher(env, alg, mode, pad, nb, ops):
    """ops: [['e' or 'd', length], ...] on an object with mutable arguments and one with
    read-only arguments."""
    bs = modes.SIZES[alg]
    ivlen = {'ecb': 0, 'ctr': bs // 2}.get(mode, nb * bs)
    w = Watch(env)
    key = w.add('key', env.bytearray('key', 32))
    iv = w.add('vector', env.bytearray('iv', ivlen))
    b = mc.make(mode, alg, bytes(key), bytes(iv) if ivlen else None, pad)
    a = mc.make(mode, alg, key, iv if ivlen else None, pad)
    w.check('by creation')
    w.drop()
    for i, (op, n) in enumerate(ops):
        d = w.add('data', env.bytearray('d%d' % i, n))
        keep = bytes(d)
        ra = a.encrypt(d) if op == 'e' else a.decrypt(d)
        rb = b.encrypt(keep) if op == 'e' else b.decrypt(keep)
        w.check('by call %d' % i)
        env.eq('bytes and bytearray give the same result, call %d' % i, ra, rb)
        was = bytes(ra)
        if mode not in ('ecb',):
            sa = a.counter if mode == 'ctr' else a.iv
            scramble(sa)
            env.eq('exposed state is a copy, call %d' % i,
                   a.counter if mode == 'ctr' else a.iv, b.counter if mode == 'ctr' else b.iv)
        w.drop()
        env.eq('result does not follow the data, call %d' % i, bytes(ra), was)
        scramble(ra)


def retained(env, alg, mode, pad, n):
    """A result stays what it was while the object goes on."""
    bs = modes.SIZES[alg]
    key = env.bytearray('key', 32)
    iv = bytearray(range(3, 3 + {'ctr': bs // 2}.get(mode, bs)))
    a = mc.make(mode, alg, key, iv if mode != 'ecb' else None, pad)
    r1 = a.encrypt(env.bytearray('d0', n))
    s1 = None if mode == 'ecb' else a.counter if mode == 'ctr' else a.iv
    was = (bytes(r1), None if s1 is None else bytes(s1))
    r2 = a.decrypt(env.bytearray('d1', n))
    was2 = bytes(r2)
    a.encrypt(env.bytearray('d2', n))
    a.clear()
    env.eq('first result kept', bytes(r1), was[0])
    env.eq('second result kept', bytes(r2), was2)
    if s1 is not None:
        env.eq('exposed state kept', bytes(s1), was[1])


def mac(env, alg, lens):
    w = Watch(env)
    key = w.add('key', env.bytearray('key', 32))
    d0 = w.add('data', env.bytearray('d0', lens[0]))
    g = G.gostcipher
    b = g.new(alg, bytes(key), g.MODE_MAC, data=bytes(d0))
    a = g.new(alg, key, g.MODE_MAC, data=d0)
    w.check('by creation')
    w.drop()
    bs = modes.SIZES[alg]
    for i, n in enumerate(lens[1:]):
        d = w.add('data', env.bytearray('d%d' % (i + 1), n))
        keep = bytes(d)
        a.update(d)
        b.update(keep)
        w.check('by update %d' % i)
        w.drop()
        ra = a.digest(bs)
        rb = b.digest(bs)
        env.eq('bytes and bytearray give the same value, %d' % i, ra, rb)
        scramble(ra)
        env.eq('value after overwriting the returned one, %d' % i, a.digest(bs), rb)


def hashes(env, size, lens, real=False):
    with hc.Abstract(env, not real):
        w = Watch(env)
        d0 = w.add('data', env.bytearray('d0', lens[0]))
        name = hc.NAME[size]
        b = G.gosthash.new(name, data=bytes(d0))
        a = G.gosthash.new(name, data=d0)
        w.check('by creation')
        w.drop()
        for i, n in enumerate(lens[1:]):
            d = w.add('data', env.bytearray('d%d' % (i + 1), n))
            keep = bytes(d)
            a.update(d)
            b.update(keep)
            w.check('by update %d' % i)
            w.drop()
        ra, rb = a.digest(), b.digest()
        env.eq('bytes and bytearray give the same value', ra, rb)
        scramble(ra)
        c = a.copy()
        env.eq('value after overwriting the returned one', a.digest(), rb)
        x = env.bytearray('x', 7)
        keep = bytes(x)
        c.update(x)
        scramble(x)
        env.eq('original after the update of a copy', a.digest(), rb)
        a.update(keep)
        env.eq('copy and original with the same data', a.digest(), c.digest())
        a.reset()
        env.eq('earlier value after reset', bytes(rb), bytes(b.digest()))


def hmac(env, size, klen, lens):
    with hc.Abstract(env):
        w = Watch(env)
        key = w.add('key', env.bytearray('key', klen))
        d0 = w.add('data', env.bytearray('d0', lens[0]))
        b = G.gosthmac.new(NAME[size], bytes(key), data=bytes(d0))
        a = G.gosthmac.new(NAME[size], key, data=d0)
        w.check('by creation')
        w.drop()
        for i, n in enumerate(lens[1:]):
            d = w.add('data', env.bytearray('d%d' % (i + 1), n))
            keep = bytes(d)
            a.update(d)
            b.update(keep)
            w.check('by update %d' % i)
            w.drop()
        ra, rb = a.digest(), b.digest()
        env.eq('bytes and bytearray give the same value', ra, rb)
        scramble(ra)
        env.eq('value after overwriting the returned one', a.digest(), rb)
        c = a.copy()
        a.clear()
        env.eq('value of the copy after clearing the original', c.digest(), rb)
        c.reset()
        b.reset()
        env.eq('value after reset', c.digest(), b.digest())


def pbkdf(env, plen, slen, count, n):
    with hc.Abstract(env):
        w = Watch(env)
        pw = w.add('password', env.bytearray('pw', plen))
        salt = w.add('salt', env.bytearray('salt', slen))
        keep = bytes(salt)
        b = G.gostpbkdf.new(bytes(pw), salt=bytes(salt), counter=count)
        a = G.gostpbkdf.new(pw, salt=salt, counter=count)
        w.check('by creation')
        w.drop('password')
        ra, rb = a.derive(n), b.derive(n)
        w.check('by derivation')
        env.eq('bytes and bytearray give the same key', ra, rb)
        w.drop()
        scramble(ra)
        s = a.salt
        env.eq('reported salt', s, keep)
        scramble(s)
        env.eq('reported salt after overwriting it', a.salt, keep)
        env.eq('key derived after overwriting everything', a.derive(n), rb)
        kept = a.derive(n)
        a.clear()
        env.eq('derived key kept after clear', kept, rb)


def rand(env, seed, size):
    with hc.Abstract(env):
        w = Watch(env)
        k = w.add('seed', env.bytearray('k', seed))
        env.assume(k != bytes(seed))
        keep = bytes(k)
        b = G.gostrandom.new(size, rand_k=bytes(k), size_s=seed)
        a = G.gostrandom.new(size, rand_k=k, size_s=seed)
        w.check('by creation')
        w.drop()
        for i in range(2):
            ra, rb = a.random(), b.random()
            env.eq('bytes and bytearray give the same output %d' % i, ra, rb)
            scramble(ra)
        k = w.add('seed', bytearray(keep))
        a.reset(k)
        b.reset(bytes(k))
        w.check('by reset')
        w.drop()
        ra = a.random()
        was = bytes(ra)
        env.eq('bytes and bytearray give the same output after reset', ra, b.random())
        a.random()
        a.clear()
        env.eq('earlier output kept', bytes(ra), was)


def signature(env, name, base, size):
    """On a small curve; every argument of every method."""
    t = sc.tiny(size, name, base)
    if t is None:
        return
    o, _ = t
    w = Watch(env)
    d = w.add('private key', bytearray(sc.small(env, 'd', size, 3)[1]))
    e = w.add('digest', bytearray(sc.octets(3, size)))
    k = w.add('random value', bytearray(sc.small(env, 'k', size, 2)[1]))

    def call(*a):
        try:
            return o.sign(*a)
        except sc.SE:
            return None
    s1 = call(d, e, k)
    w.check('by signing')
    s2 = call(bytes(d), bytes(e), bytes(k))
    env.eq('bytes and bytearray give the same signature', s1, s2)
    try:
        pub = o.public_key_generate(d)
    except sc.SE:
        pub = None
    w.check('by making the public key')
    if pub is None or s1 is None:
        return
    was = bytes(pub), bytes(s1)
    pub, s1 = w.add('public key', pub), w.add('signature', s1)
    v = o.verify(pub, e, s1)
    w.check('by verification')
    env.eq('verdict', v, o.verify(was[0], bytes(e), was[1]))
    keep = bytes(d), bytes(e), bytes(k)
    scramble(s2)
    w.drop()
    env.eq('signature afterwards', call(*keep), was[1])
    env.eq('public key afterwards', o.public_key_generate(keep[0]), was[0])


def published(env, name, kind):
    """The buffers of a caller on a published curve, symbolic."""
    n = sc.SIZES[name]
    d, e, k = (env.bytearray(v, n) for v in 'dek')
    o = sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        w = Watch(env)
        for v, b in (('private key', d), ('digest', e), ('random value', k)):
            w.add(v, b)
        try:
            if kind == 'sign':
                r = o.sign(d, e, k)
            elif kind == 'draw':
                env.randomness('ur', lambda i, n: drawn(i, env.bytes('ur%d' % i, n)))
                r = o.sign(d, e)
            elif kind == 'public':
                r = o.public_key_generate(d)
            else:
                f = w.add('public key', env.bytearray('f', 2 * n))
                g = w.add('signature', env.bytearray('g', 2 * n))
                r = o.verify(f, e, g)
            if isinstance(r, bytearray):
                env.true('a new object', not any(r is b for b in (d, e, k)))
        except (sc.SE, Enough):
            pass
        w.check('by ' + kind)


class Enough(Exception):
    pass


def drawn(i, v):
    if i:
        raise Enough()
    return v


def curve_dict(env, name, other):
    """The dictionary of parameters belongs to the caller."""
    src = sc.S.CURVES_R_1323565_1_024_2019[name]
    c = dict(src)
    n = sc.SIZES[name]
    o = sc.S.new(sc.mode(n), c)
    env.eq('parameters unchanged by creation', sorted(c.items()), sorted(src.items()))
    d, e, k = (bytes(range(i, i + n)) for i in (1, 2, 3))
    was = bytes(o.sign(d, e, k))
    env.eq('parameters unchanged by use', sorted(c.items()), sorted(src.items()))
    for key in list(c):
        c[key] = 7
    c.update(sc.S.CURVES_R_1323565_1_024_2019[other])
    env.eq('signature after the caller changes the parameters', o.sign(d, e, k), was)
    env.eq('published parameters', sorted(src.items()),
           sorted(sc.S.CURVES_R_1323565_1_024_2019[name].items()))
    env.eq('signature of a later object',
           sc.S.new(sc.mode(n), sc.S.CURVES_R_1323565_1_024_2019[name]).sign(d, e, k), was)


def attempt(call):
    """A call that may be refused."""
    try:
        return call()
    except Exception:
        return None


def lifetime(env, what, alg=None, mode=None, pad=None, keylen=32):
    """The buffers given to an object stay as they are until it is cleared and destroyed."""
    with hc.Abstract(env, what != 'cipher'):
        w = Watch(env)
        key = w.add('key, password or seed', env.bytearray('key', keylen))
        d = w.add('data', env.bytearray('d', 24))
        if what == 'cipher':
            bs = modes.SIZES[alg]
            if mode == 'mac':
                o = G.gostcipher.new(alg, key, G.gostcipher.MODE_MAC, data=d)
                w.check('by creation')
                uses = [lambda: o.update(d), lambda: o.digest(bs), lambda: o.digest(bs + 1),
                        lambda: o.hexdigest(0), lambda: o.update('x')]
            else:
                iv = w.add('vector', env.bytearray('iv', bs // 2 if mode == 'ctr' else 2 * bs))
                o = mc.make(mode, alg, key, iv if mode != 'ecb' else None, pad)
                w.check('by creation')
                uses = [lambda: o.encrypt(d), lambda: o.decrypt(d), lambda: o.encrypt('x'),
                        lambda: o.decrypt(None)]
        elif what == 'hash':
            o = G.gosthash.new(hc.NAME[keylen], data=d)
            uses = [lambda: o.update(key), lambda: o.digest(), lambda: o.update('x'),
                    lambda: o.copy().update(d), lambda: o.reset()]
        elif what == 'hmac':
            o = G.gosthmac.new(NAME[alg], key, data=d)
            uses = [lambda: o.update(d), lambda: o.digest(), lambda: o.copy().clear(),
                    lambda: o.update('x'), lambda: o.reset(), lambda: o.update(d)]
        elif what == 'pbkdf':
            o = G.gostpbkdf.new(key, salt=d, counter=2)
            uses = [lambda: o.derive(3), lambda: o.hexderive(65), lambda: o.derive(2 ** 40)]
        else:
            env.assume(key[0] == 1)
            o = G.gostrandom.new(20, rand_k=key, size_s=keylen)
            uses = [lambda: o.random(), lambda: o.reset(d), lambda: o.reset(key),
                    lambda: o.random()]
        for i, use in enumerate(uses):
            attempt(use)
            w.check('by use %d' % i)
        if what != 'hash':
            attempt(lambda: o.clear())
            w.check('by clear')
            attempt(uses[0])
            w.check('by use after clear')
        del uses, use, o
        w.check('by destruction')


def refused(env, what, alg=None, mode=None):
    """Refused creations leave the other arguments as they are."""
    w = Watch(env)
    key = w.add('key', env.bytearray('key', 32))
    d = w.add('data', env.bytearray('d', 9))
    if what == 'cipher':
        m = getattr(G.gostcipher, 'MODE_' + mode.upper())
        bad = [lambda: G.gostcipher.new('des', key, m), lambda: G.gostcipher.new(alg, key, 99),
               lambda: G.gostcipher.new(alg, d, m),
               lambda: G.gostcipher.new(alg, key, m, init_vect=d, data='x', pad_mode=5),
               lambda: G.gostcipher.new(alg, key, m, init_vect='x')]
    elif what == 'other':
        bad = [lambda: G.gosthash.new('md5', data=d), lambda: G.gosthmac.new('md5', key, data=d),
               lambda: G.gosthmac.new(NAME[64], key, data='x'),
               lambda: G.gosthmac.new(NAME[64], 'x', data=d),
               lambda: G.gostpbkdf.new(key, salt=5), lambda: G.gostpbkdf.new('x', salt=d),
               lambda: G.gostrandom.new(5, rand_k=d),
               lambda: G.gostrandom.new(5, rand_k=key, size_s=40)]
    for i, call in enumerate(bad):
        attempt(call)
        w.check('by refused creation %d' % i)


def defaults(env, alg, mode, n):
    """Default vectors are the same after an object that used them has been used."""
    key = env.bytearray('key', 32)
    d = env.bytearray('d', n)
    before = mc.make(mode, alg, key).encrypt(d)
    first = mc.make(mode, alg, key)
    for i in range(3):
        x = first.encrypt(d)
        st = first.counter if mode == 'ctr' else first.iv
        scramble(x, st)
    first.clear()
    env.eq('first result with the default vector', mc.make(mode, alg, key).encrypt(d), before)


def shared_default(env):
    """Default arguments of the other modules."""
    with hc.Abstract(env):
        d = env.bytearray('d', 70)
        key = env.bytearray('key', 20)
        h0 = G.gosthash.new('streebog512').digest()
        m0 = G.gosthmac.new(NAME[64], key).digest()
        h = G.gosthash.new('streebog512')
        h.update(d)
        m = G.gosthmac.new(NAME[64], key)
        m.update(d)
        scramble(h.digest(), m.digest())
        env.eq('hash of nothing afterwards', G.gosthash.new('streebog512').digest(), h0)
        env.eq('HMAC of nothing afterwards', G.gosthmac.new(NAME[64], key).digest(), m0)
        env.eq('hash constants afterwards', G.gosthash.new('streebog512', data=d).digest(),
               h.digest())
        k1, k2 = env.bytearray('k1', 20), env.bytearray('k2', 20)
        before = bytes(G.gosthmac.new(NAME[32], k1, data=d).digest())
        G.gosthmac.new(NAME[32], k2, data=d).digest()
        env.eq('HMAC pads afterwards', G.gosthmac.new(NAME[32], k1, data=d).digest(), before)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            pads = (1, 2) if mode in ('ecb', 'cbc') else (None,)
            for pad in pads:
                for nb in ((1, 2) if mode in ('cbc', 'cfb', 'ofb') else (1,)):
                    ops = [[['e', 2 * bs], ['e', bs], ['d', 2 * bs]],
                           [['d', bs], ['e', bs], ['e', bs + 3]]]
                    if deep:
                        ops += [[['e', bs], ['d', 3 * bs], ['e', n]]
                                for n in range(0, 2 * bs + 1, 1 if alg == 'magma' else 3)]
                    for o in ops:
                        out.append(('cipher', {'alg': alg, 'mode': mode, 'pad': pad, 'nb': nb,
                                               'ops': o}))
                out.append(('retained', {'alg': alg, 'mode': mode, 'pad': pad, 'n': 2 * bs}))
            if mode != 'ecb':
                out.append(('defaults', {'alg': alg, 'mode': mode, 'n': 2 * bs}))
        for lens in [[0, bs], [bs, bs], [3, 4, 2], [bs + 1, bs - 1, 1], [2 * bs, 0, 3],
                     [bs // 2, bs // 2, bs]]:
            out.append(('mac', {'alg': alg, 'lens': lens}))
    for size in (32, 64):
        for lens in [[0, 64], [64, 64], [10, 54, 1], [65, 63, 64], [0, 0, 5, 128], [128, 3, 70]]:
            out.append(('hashes', {'size': size, 'lens': lens}))
        out.append(('hashes', {'size': size, 'lens': [64, 64], 'real': True}))
        if deep:
            for lens in [[130], [10, 60], [64, 1, 63], [0, 128]]:
                out.append(('hashes', {'size': size, 'lens': lens, 'real': True}))
            for a in range(0, 68, 3):
                out.append(('hashes', {'size': size, 'lens': [a, 64, 70 - a]}))
        for klen in (0, 1, 32, 63, 64):
            out.append(('hmac', {'size': size, 'klen': klen, 'lens': [0, 64, 7]}))
            out.append(('hmac', {'size': size, 'klen': klen, 'lens': [65, 63]}))
    for plen, slen in [(0, 1), (10, 20), (64, 64), (63, 32), (64, 5)]:
        out.append(('pbkdf', {'plen': plen, 'slen': slen, 'count': 2, 'n': 70}))
    for name, base, size in (('p7q5', 0, 32), ('p11q7', 0, 64))[:2 if deep else 1]:
        out.append(('signature', {'name': name, 'base': base, 'size': size}))
    for name, n in sc.SIZES.items():
        if deep or name.endswith('256-paramSetC') or name.endswith('512-paramSetB'):
            for kind in ('sign', 'public', 'verify', 'draw'):
                if kind == 'verify' and n == 64 and not deep:
                    continue
                out.append(('published', {'name': name, 'kind': kind}))
    sets = list(sc.SIZES)
    for i in range(len(sets)) if deep else (0, 1, 6):
        out.append(('curve_dict', {'name': sets[i], 'other': sets[i - 3]}))
    for seed in (32, 40, 48):
        for size in (10, 64, 130):
            out.append(('rand', {'seed': seed, 'size': size}))
    out.append(('shared_default', {}))
    for alg in ('magma', 'kuznechik'):
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr', 'mac'):
            for pad in (1, 2) if mode in ('ecb', 'cbc') else (None,):
                out.append(('lifetime', {'what': 'cipher', 'alg': alg, 'mode': mode, 'pad': pad}))
            out.append(('refused', {'what': 'cipher', 'alg': alg, 'mode': mode}))
    out.append(('refused', {'what': 'other'}))
    for size in (32, 64):
        out.append(('lifetime', {'what': 'hash', 'keylen': size}))
        for klen in (0, 20, 64):
            out.append(('lifetime', {'what': 'hmac', 'alg': size, 'keylen': klen}))
    for klen in (0, 10, 64):
        out.append(('lifetime', {'what': 'pbkdf', 'keylen': klen}))
    for klen in (32, 40, 48):
        out.append(('lifetime', {'what': 'rand', 'keylen': klen}))
    return out
