"""An object does not depend on other objects."""
import gostcrypto
from scen import ciphercommon as cc
from scen import hashcommon as hc
from scen import modescommon as mc
from scen import sigcommon as sc
from spec import ec
from spec import modes

ENCODED = ('gost_34_12_2015, gost_34_13_2015, gost_34_11_2012, r_50_1_113_2016, r_50_1_111_2016, '
           'r_1323565_1_006_2017, gost_34_10_2012 (public methods and everything below them), '
           'utils')
BOUNDS = {
    'quick': 'all keys, vectors and data; every kind of object against objects of the same kind '
             '(same key, other key, other algorithm, other vector size) and against objects of '
             'other kinds; three uses of the object among creations, uses, clears and deletions '
             'of up to three others; for the objects based on the hash every schedule of 4 '
             'events (3 for HMAC and PBKDF); default and explicit arguments; signature objects on '
             'curves of order 5 to 11 (private keys below 4) and, with '
             'fixed values, on the published ones',
    'thorough': 'as quick, with every pair of kinds, and every schedule of 5 events (4 for HMAC and '
                'PBKDF) of the objects based on the hash',
}
ASSUMPTIONS = ('The schedules of hash-based objects use an uninterpreted compression function; '
               'the ciphers are the real ones except in the pairs with a MAC object.',
               'Results are compared with those of an identical object used when the module-level '
               'state is that of a new process.')
G = gostcrypto
HM = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}


class Mode:
    def __init__(self, env, tag, key, mode, alg, nb=1, pad=None):
        self.bs = modes.SIZES[alg]
        n = {'ecb': 0, 'ctr': self.bs // 2}.get(mode, nb * self.bs)
        if nb == 0:         # the default vector
            n = 0
        self.iv = env.bytes('iv' + tag, n) if n else None
        self.alg, self.mode, self.pad, self.key = alg, mode, pad, key
        self.data = [env.bytes('d%s%d' % (tag, i), m)
                     for i, m in enumerate((self.bs, 2 * self.bs, self.bs + 1))]

    def make(self):
        return mc.make(self.mode, self.alg, bytearray(self.key),
                       bytearray(self.iv) if self.iv is not None else None, self.pad)

    def use(self, obj, i):
        out = obj.encrypt(bytearray(self.data[i]))
        if i == 1:
            out = out + obj.decrypt(self.data[i])
        return bytes(out)


class Mac:
    def __init__(self, env, tag, key, alg):
        self.alg, self.key = alg, key
        self.bs = modes.SIZES[alg]
        self.data = [env.bytes('d%s%d' % (tag, i), m)
                     for i, m in enumerate((self.bs + 1, 3, 2 * self.bs))]

    def make(self):
        return G.gostcipher.new(self.alg, bytearray(self.key), G.gostcipher.MODE_MAC)

    def use(self, obj, i):
        obj.update(bytearray(self.data[i]))
        return bytes(obj.digest(self.bs))


class Hash:
    def __init__(self, env, tag, key, size):
        self.size = size
        self.data = [key] + [env.bytes('d%s%d' % (tag, i), m) for i, m in enumerate((64, 70))]

    def make(self):
        return G.gosthash.new(hc.NAME[self.size])

    def use(self, obj, i):
        obj.update(bytearray(self.data[i]))
        return bytes(obj.digest())


class Hmac(Hash):
    def __init__(self, env, tag, key, size):
        self.size, self.key = size, key
        self.data = [env.bytes('d%s%d' % (tag, i), m) for i, m in enumerate((5, 64, 70))]

    def make(self):
        return G.gosthmac.new(HM[self.size], bytearray(self.key))


class Pbkdf:
    def __init__(self, env, tag, key, count):
        self.key, self.count = key, count
        self.salt = env.bytes('s' + tag, 9)

    def make(self):
        return G.gostpbkdf.new(bytearray(self.key), salt=bytearray(self.salt),
                               counter=self.count)

    def use(self, obj, i):
        return bytes(obj.derive((10, 64, 70)[i]))


class Rand:
    def __init__(self, env, tag, key, size):
        self.key, self.size = key, size
        env.assume(key[0] != 0)

    def make(self):
        return G.gostrandom.new(self.size, rand_k=bytearray(self.key), size_s=32)

    def use(self, obj, i):
        return bytes(obj.random())


class Signature:
    """On a small curve."""

    def __init__(self, env, tag, key, name, base, size):
        self.args, self.size = (size, name, base), size
        d = key[0] & 3
        self.d = sc.octets(d, size)
        self.k = sc.octets(3, size)
        self.e = sc.octets(5, size)
        c = sc.tiny_curve(name, base)
        pub = ec.mul(c, 3, (c['x'], c['y']))
        sig = next(v for v in (ec.sign(c, 3, 5, k) for k in range(1, c['q'])) if v)
        self.pub = sc.octets(pub[0], size) + sc.octets(pub[1], size)
        self.r = sc.octets(sig[0], size)
        self.s = sc.octets(sig[1], size)

    def make(self):
        return (sc.tiny(*self.args) or (None,))[0]

    def use(self, obj, i):
        if obj is None:
            return b''
        try:
            if i == 0:
                return bytes(obj.public_key_generate(self.d))
            if i == 1:
                return bytes(obj.sign(self.d, self.e, self.k))
        except sc.SE:
            return b'refused'
        return bytes([obj.verify(self.pub, self.e, self.r + self.s)])


class Published(Signature):
    """On a published curve, with fixed values."""

    def __init__(self, env, tag, key, name):
        self.name, self.size = name, sc.SIZES[name]
        n = self.size
        self.d, self.e, self.k = (bytes(range(i, i + n)) for i in (1, 2, 3))
        c = sc.curve(name)
        pub = ec.mul(c, sc.num(self.d), (c['x'], c['y']))
        sig = ec.sign(c, sc.num(self.d), sc.num(self.e), sc.num(self.k))
        self.pub = sc.octets(pub[0], n) + sc.octets(pub[1], n)
        self.r, self.s = (sc.octets(v, n) for v in sig)

    def make(self):
        return sc.make(self.name)


KINDS = {'hash32': (Hash, 32), 'hash64': (Hash, 64), 'hmac32': (Hmac, 32), 'hmac64': (Hmac, 64),
         'pbkdf1': (Pbkdf, 1), 'pbkdf3': (Pbkdf, 3), 'rand20': (Rand, 20), 'rand70': (Rand, 70)}
for _a in ('kuznechik', 'magma'):
    KINDS['mac-' + _a] = (Mac, _a)
    for _m in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
        KINDS['%s-%s' % (_m, _a)] = (Mode, _m, _a)
        if _m in ('cbc', 'cfb', 'ofb'):
            KINDS['%s2-%s' % (_m, _a)] = (Mode, _m, _a, 2)
        if _m in ('ecb', 'cbc'):
            KINDS['%sp-%s' % (_m, _a)] = (Mode, _m, _a, 1, 2)
        if _m != 'ecb':
            KINDS['%s0-%s' % (_m, _a)] = (Mode, _m, _a, 0)
for _n, _a in (('sig5', ('p7q5', 0, 32)), ('sig5b', ('p7q5', 2, 32)), ('sig7', ('p11q7', 0, 64)),
               ('sig11', ('p7q11', 1, 32))):
    KINDS[_n] = (Signature,) + _a
for _n in sc.SIZES:
    KINDS['sig-' + _n] = (Published, _n)
HASHED = ('hash32', 'hash64', 'hmac32', 'hmac64', 'pbkdf1', 'pbkdf3', 'rand20', 'rand70')


def kind(env, name, tag, key):
    k = KINDS[name]
    return k[0](env, tag, key, *k[1:])


def clear(obj):
    if hasattr(obj, 'clear'):
        obj.clear()
    elif hasattr(obj, 'reset'):
        obj.reset()


def alone(env, k):
    """The results of an object as the only one in a new process."""
    env.pristine()
    obj = k.make()
    want = [k.use(obj, i) for i in range(3)]
    clear(obj)
    del obj
    env.pristine()
    return want


def pair(env, a, b, same):
    """One object of kind a among objects of kind b (with the same or another key)."""
    mac = 'mac' in (a[:3], b[:3])
    with hc.Abstract(env, a in HASHED or b in HASHED), cc.Abstract(env, mac):
        key = env.bytes('key', 32)
        other = key if same else env.bytes('other', 32)
        ka, kb = kind(env, a, 'a', key), kind(env, b, 'b', other)
        kc = kind(env, a, 'c', env.bytes('third', 32))
        want, bwant = alone(env, ka), alone(env, kb)
        # the same again, among others
        b0 = kb.make()
        kb.use(b0, 0)
        x = ka.make()
        b1 = kb.make()
        g0 = ka.use(x, 0)
        q0 = kb.use(b1, 0)
        kb.use(b0, 1)
        c1 = kc.make()
        kc.use(c1, 0)
        clear(b0)
        g1 = ka.use(x, 1)
        clear(c1)
        del b0
        y = ka.make()
        q1 = kb.use(b1, 1)
        h0 = ka.use(y, 0)
        del c1
        g2 = ka.use(x, 2)
        clear(x)
        q2 = kb.use(b1, 2)
        del x
        h1 = ka.use(y, 1)
        clear(b1)
        h2 = ka.use(y, 2)
        z = kb.make()
        z0 = kb.use(z, 0)
        for i, got in enumerate((g0, g1, g2)):
            env.eq('result %d among other objects' % i, got, want[i])
        for i, got in enumerate((h0, h1, h2)):
            env.eq('result %d of a later object' % i, got, want[i])
        for i, got in enumerate((q0, q1, q2)):
            env.eq('result %d of the other object' % i, got, bwant[i])
        env.eq('first result of the last object', z0, bwant[0])


def schedules(env, a, b, first, steps, second=None):
    """Every schedule of creating, using, clearing and deleting two objects."""
    with hc.Abstract(env, True, True):
        kinds = [kind(env, a, 'a', env.bytes('ka', 32)), kind(env, b, 'b', env.bytes('kb', 32))]
        objs = [None, None]
        used = [0, 0]
        log = []
        for s in range(steps + 1):
            op = first if s == 0 else second if s == 1 and second is not None else \
                env.choice('o%d' % s, 8)
            i, what = op % 2, op // 2
            if what == 0 or objs[i] is None:
                objs[i] = kinds[i].make()
                used[i] = 0
            elif what == 1 and used[i] < 3:
                log.append((i, used[i], kinds[i].use(objs[i], used[i])))
                used[i] += 1
            elif what == 2:
                clear(objs[i])
                objs[i] = None
            else:
                objs[i] = None
        for i in range(2):
            if objs[i] is not None and used[i] < 3:
                log.append((i, used[i], kinds[i].use(objs[i], used[i])))
        want = {}
        del objs
        for i in range(2):
            env.pristine()
            o = kinds[i].make()
            for j in range(3):
                if any(x[0] == i and x[1] >= j for x in log):
                    want[i, j] = kinds[i].use(o, j)
            del o
        for i, j, got in log:
            env.eq('result %d of object %d' % (j, i), got, want[i, j])


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    names = [n for n in KINDS if n[:3] != 'sig']
    for a in names:
        variant = a[3] in '2p0' and a not in HASHED
        for same in (False, True) if deep or not variant else (True,):
            out.append(('pair', {'a': a, 'b': a, 'same': same}))
        if a[-5:] == 'magma':
            out.append(('pair', {'a': a, 'b': a[:-5] + 'kuznechik', 'same': True}))
    cross = [('ecb-magma', 'mac-magma'), ('cbc-magma', 'cbc2-magma'), ('cbc0-magma', 'cfb0-magma'),
             ('ofb0-magma', 'cfb0-magma'), ('cbc0-kuznechik', 'ofb0-kuznechik'),
             ('cfb0-kuznechik', 'cbc0-kuznechik'), ('ctr0-kuznechik', 'cfb0-kuznechik'),
             ('ofb-magma', 'ofb2-magma'), ('ctr0-magma', 'ctr-magma'), ('ecbp-magma', 'ecb-magma'),
             ('cbcp-kuznechik', 'cbc-kuznechik'), ('mac-kuznechik', 'ctr-kuznechik'),
             ('hash32', 'hash64'), ('hmac32', 'hash32'), ('hmac64', 'hmac32'),
             ('pbkdf1', 'pbkdf3'), ('pbkdf3', 'hmac64'), ('rand20', 'rand70'),
             ('rand70', 'hash64'), ('hmac64', 'rand20'), ('hash64', 'mac-magma')]
    small = ('sig5', 'sig5b', 'sig7', 'sig11')
    for a in small:
        for b in small:
            if deep or a == 'sig5' or b == 'sig5':
                out.append(('pair', {'a': a, 'b': b, 'same': True}))
    sets = ['sig-' + n for n in sc.SIZES]
    for i, a in enumerate(sets):
        for j, b in enumerate(sets):
            if deep or (i, j) in ((1, 0), (0, 4), (4, 6), (3, 2)):
                out.append(('pair', {'a': a, 'b': b, 'same': True}))
    out.append(('pair', {'a': sets[1], 'b': 'sig5', 'same': True}))
    if deep:
        cross += [(a, b) for a in names for b in names if a != b and (a, b) not in cross
                  and (a in HASHED) == (b in HASHED) and a[-4:] == b[-4:]]
    for a, b in cross:
        out.append(('pair', {'a': a, 'b': b, 'same': True}))
    for a, b in [('hash32', 'hash64'), ('hash64', 'hash64'), ('hmac32', 'hmac64'),
                 ('hmac64', 'hmac64'), ('hmac64', 'hash64'), ('rand20', 'rand20'),
                 ('rand70', 'hash64'), ('pbkdf1', 'pbkdf1'), ('pbkdf3', 'hmac64')]:
        light = b[:4] == 'hash' and a[:4] != 'hmac'
        for first in (0, 1) if a != b else (0,):
            if not deep:
                out.append(('schedules', {'a': a, 'b': b, 'first': first,
                                          'steps': 3 if light else 2}))
                continue
            for op in range(8):
                out.append(('schedules', {'a': a, 'b': b, 'first': first, 'second': op,
                                          'steps': 4 if light else 3}))
    return out
