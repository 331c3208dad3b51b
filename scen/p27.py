"""Random values for signing."""
from scen import sigcommon as sc
from spec import ec

ENCODED = ('gostsignature.gost_34_10_2012 (sign, _get_rand_k, _next_rand_k, _set_e, _add, '
           '_mul_point, _invert), utils.utils')
BOUNDS = {
    'quick': 'published curves: every value of the system generator, in sequences of 1 (2 on two of '
             'the curves), one key and digest, with scalar multiplication uninterpreted; '
             'curves of order 5 to 13 with all the arithmetic: every sequence of up to 3 values '
             'below 2q, or the same plus 1 in the first byte, one or two keys and digests, and '
             'all keys and digests below 8 for sequences of 1; every supplied value of 1, size '
             '- 1, size, size + 1 and 2 size bytes of that form',
    'thorough': 'as quick, with sequences of 1 and all keys and digests, and of up to 3, on the '
                'published curves, and more keys, digests, curves and base points on the '
                'small ones',
}
ASSUMPTIONS = ('on the published curves scalar multiplication is a function of the scalar modulo '
               'q; P25 decides what it computes',
               'the generator is read through os.urandom, random or secrets')


class Enough(BaseException):
    pass


def check(env, o, size, limit, draw, value, d, e):
    """Signs with at most limit values draw(i) from the generator; value(k) is the signature
    for the random value k, or None."""
    drawn, sizes = [], []

    def make(i, n):
        sizes.append(n)
        if len(drawn) == limit or n != size:
            raise Enough()
        drawn.append(draw(i))
        return drawn[-1]
    env.randomness('ur', make)
    try:
        got = o.sign(d, e)
    except Enough:
        got = None
    except sc.SE:
        got = False
    for n in sizes:
        env.eq('bytes drawn', n, size)
    want = None
    used = 0
    for i, k in enumerate(drawn):
        want = value(sc.num(k))
        if want is not None:
            used = i + 1
            break
    if want is None:
        env.true('draws again', got is None)
    else:
        env.true('a valid value is used', got is not None and got is not False)
        env.true('number of values drawn', len(sizes) == used)
        if got is not None and got is not False:
            env.eq('signature', got, want)


def tiny(env, name, base, size, limit=3, bits=2, d=None, e=None):
    """On a small curve, where some values lead to a zero r or s."""
    t = sc.tiny(size, name, base)
    if t is None:
        return
    o, c = t
    q = c['q']
    if d is None:
        d, db = sc.small(env, 'd', size, bits)
        e, eb = sc.small(env, 'e', size, bits)
        env.assume(d % q != 0)
    else:
        db, eb = sc.octets(d, size), sc.octets(e, size)

    def draw(i):
        k = env.int('k%d' % i, 0, 2 * q - 1)
        high = env.choice('high%d' % i, 2)
        return bytes([high] + [0] * (size - 3) + [k >> 8, k & 255])

    def value(k):
        v = ec.sign(c, d, e, k)
        return None if v is None else sc.octets(v[0], size) + sc.octets(v[1], size)
    check(env, o, size, limit, draw, value, db, eb)


def full(env, name, limit=3, fixed=True):
    """On a published curve."""
    n = sc.SIZES[name]
    if fixed:
        d, e = (bytes((i * m + 3) & 255 for i in range(n)) for m in (7, 13))
    else:
        d, e = env.bytes('d', n), env.bytes('e', n)
    o = sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        q = ab.c['q']
        nd, ne = sc.num(d), sc.num(e)
        env.assume(nd % q != 0)

        def value(k):
            if k == 0 or k >= q:
                return None
            r = ab.mul(k, (ab.c['x'], ab.c['y']))[0] % q
            if r == 0:
                return None
            h = ne % q
            if h == 0:
                h = 1
            s = (r * nd + k * h) % q
            if s == 0:
                return None
            return sc.octets(r, n) + sc.octets(s, n)
        check(env, o, n, limit, lambda i: env.bytes('k%d' % i, n), value, d, e)


def supplied(env, name, base, size, length, kind='bytes', bits=2):
    """Any value given; the generator is not used."""
    t = sc.tiny(size, name, base)
    if t is None:
        return
    o, c = t
    d, db = sc.small(env, 'd', size, bits)
    e, eb = sc.small(env, 'e', size, bits)
    env.assume(d % c['q'] != 0)
    k = env.int('k', 0, 2 * c['q'] - 1)
    kb = [k]
    if length > 1:
        kb = [env.choice('high', 2)] + [0] * (length - 2) + [k]
    kb = (bytes if kind == 'bytes' else bytearray)(kb)
    nk = sc.num(kb)
    sizes = []

    def make(i, n):
        sizes.append(n)
        raise Enough()
    env.randomness('ur', make)
    try:
        got = o.sign(db, eb, kb)
    except sc.SE:
        got = None
    except Enough:
        got = 'draws'
    env.true('the value given is used', not sizes)
    want = ec.sign(c, d, e, nk)
    env.true('refused or not', (got is None) == (want is None))
    if got is not None and want is not None:
        env.eq('signature', got, sc.octets(want[0], size) + sc.octets(want[1], size))


def scenarios(tier):
    quick = tier == 'quick'
    out = []
    for name, n in sc.SIZES.items():
        wide = n == 64
        if quick:
            out.append(('full', {'name': name, 'limit': 1, 'fixed': True}, {'weight': n}))
            if name.endswith('256-paramSetC') or name.endswith('256-paramSetD'):
                out.append(('full', {'name': name, 'limit': 2, 'fixed': True}, {'weight': n}))
        else:
            long = {'weight': 2 * n, 'time': 600}
            out.append(('full', {'name': name, 'limit': 2, 'fixed': True}, long))
            out.append(('full', {'name': name, 'limit': 1, 'fixed': False}, long))
            if not wide:
                out.append(('full', {'name': name, 'limit': 3, 'fixed': True}, long))
    curves = [('p7q5', 0, 32), ('p7q5', 2, 64), ('p11q7', 0, 32), ('p17q13', 0, 32)]
    if not quick:
        curves += [('p7q5', 1, 32), ('p11q7', 3, 64), ('p7q11', 1, 32), ('p13q7', 2, 32),
                   ('p17q13', 5, 64), ('p17q11', 1, 32)]
    for name, base, size in curves:
        big = sc.TINY[name][1] > 10
        at = {'name': name, 'base': base, 'size': size}
        for d, e in ((1, 0), (2, 3), (4, 1))[:2 if quick else 3]:
            limit = 2 if quick and (big or d == 2) else 3
            out.append(('tiny', dict(at, d=d, e=e, limit=limit), {'weight': 60, 'time': 400}))
        if not quick or not big:
            out.append(('tiny', dict(at, limit=1 if quick else 2, bits=2 if big else 3),
                        {'weight': 60, 'time': 400}))
        for length in (size, 1, size - 1, size + 1, 2 * size):
            out.append(('supplied', dict(at, length=length,
                                         kind='bytes' if length % 2 else 'bytearray')))
    return out
