"""Verification of signatures against GOST R 34.10-2012."""
from scen import sigcommon as sc
from spec import ec

ENCODED = ('gostsignature.gost_34_10_2012 (verify, _verify_step_1, _get_r_s, _set_e, _add, '
           '_mul_point, _invert, sign, public_key_generate), utils.utils')
BOUNDS = {
    'quick': 'published curves: all public keys, digests and signatures, with scalar '
             'multiplication (of the scalar modulo q), point addition and modular inversion '
             'uninterpreted; curves of order 5 to 13 over fields of 7 to 17 elements, with all '
             'the arithmetic: every public key or some of them, r, s and e up to 7 or 15 (e '
             'fixed on the larger ones), sizes 32 and 64; sign then verify on them for d and e '
             'below 8 and every k',
    'thorough': 'as quick, for every public key, more base points, curves and digests',
}
ASSUMPTIONS = ('on the published curves the three operations are functions of their arguments; '
               'P25 decides what they compute',)


def tiny(env, name, base, size, bits=3, kind='bytes', pub=None, digest=None):
    """All signatures and digests on a small curve, with the real arithmetic, for all public
    keys or the given one."""
    t = sc.tiny(size, name, base)
    if t is None:
        return
    o, c = t
    pts = ec.points(c)
    if pub is None:
        i = env.int('Q', 0, len(pts) - 1)
        pub = [p[0] for p in pts][i], [p[1] for p in pts][i]
    else:
        pub = pts[pub]
    pb = sc.octets(pub[0], size) + sc.octets(pub[1], size)
    if digest is None:
        e, eb = sc.small(env, 'e', size, bits, kind)
    else:
        e, eb = digest, sc.octets(digest, size)
    r, rb = sc.small(env, 'r', size, bits, kind)
    s, sb = sc.small(env, 's', size, bits, kind)
    got = o.verify(pb if kind == 'bytes' else bytearray(pb), eb, rb + sb)
    want = ec.verify(c, pub, e, r, s)
    env.true('verdict', got == want)


def trip(env, name, base, size, bits=3):
    """Signing and then verifying, on a small curve."""
    t = sc.tiny(size, name, base)
    if t is None:
        return
    o, c = t
    d, db = sc.small(env, 'd', size, bits)
    e, eb = sc.small(env, 'e', size, bits)
    k, kb = sc.small(env, 'k', size, bits)
    q = c['q']
    env.assume(k > 0)
    env.assume(k < q)
    env.assume(d % q != 0)
    try:
        sig = o.sign(db, eb, kb)
    except sc.SE:
        env.true('r or s is zero', ec.sign(c, d, e, k) is None)
        return
    env.true('verifies', o.verify(o.public_key_generate(db), eb, sig) == True)


def full(env, name, kind):
    """All signatures, digests and public keys on a published curve."""
    n = sc.SIZES[name]
    x, y, e, r, s = (getattr(env, kind)(v, n) for v in ('x', 'y', 'e', 'r', 's'))
    o = sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        p, q = ab.c['p'], ab.c['q']
        nx, ny, ne, nr, ns = (sc.num(v) for v in (x, y, e, r, s))
        inside = 0 < nr < q and 0 < ns < q
        got = o.verify(x + y, e, r + s)
        want = False
        if inside:
            ne = ne % q
            if ne == 0:
                ne = 1
            v = ab.inv(ne, q)
            p1 = ab.mul(ns * v % q, (ab.c['x'], ab.c['y']))
            p2 = ab.mul((-nr) * v % q, (nx, ny))
            if not ((p1[0] - p2[0]) % p == 0 and (p1[1] + p2[1]) % p == 0):
                want = ab.add(p1, p2)[0] % q == nr
        env.true('verdict', got == want)


def scenarios(tier):
    out = []
    for name, n in sc.SIZES.items():
        out.append(('full', {'name': name, 'kind': 'bytes'}, {'weight': n, 'time': 240}))
    more = list(sc.SIZES) if tier != 'quick' else ['id-tc26-gost-3410-2012-256-paramSetA']
    for name in more:
        out.append(('full', {'name': name, 'kind': 'bytearray'}, {'weight': sc.SIZES[name], 'time': 240}))

    def tiny(name, base, size, pubs, bits, digests=(None,), kind='bytes'):
        for i in pubs:
            for e in digests:
                # small ones first: a violation ends the run
                out.append(('tiny', {'name': name, 'base': base, 'size': size, 'pub': i,
                                     'bits': bits, 'digest': e, 'kind': kind},
                            {'weight': 200 if name in ('p7q5', 'p11q7') and i < 2 else 20}))

    def trip(name, base, size, bits=3):
        out.append(('trip', {'name': name, 'base': base, 'size': size, 'bits': bits}))
    if tier == 'quick':
        tiny('p7q5', 0, 32, (0, 1, 2, 3), 3)
        tiny('p7q5', 2, 64, (1, 2), 3, kind='bytearray')
        tiny('p11q7', 0, 32, range(6), 4, (1,))
        tiny('p7q11', 3, 32, (2, 7), 4, (11, 5))
        tiny('p17q13', 0, 64, (0, 6), 4, (3,))
        for args in (('p7q5', 0, 32), ('p7q5', 2, 64), ('p11q7', 0, 32), ('p17q13', 0, 32)):
            trip(*args)
    else:
        for base in range(4):
            tiny('p7q5', base, 32, range(4), 4)
            tiny('p7q5', base, 64, range(4), 3, kind='bytearray')
        for base in range(2):
            tiny('p11q7', base, 32, range(6), 4, (0, 1, 2, 3, 4, 5, 6))
        tiny('p7q11', 3, 32, range(10), 4, (11, 5, 7))
        tiny('p17q13', 0, 64, range(12), 4, (3, 13))
        tiny('p13q7', 1, 32, range(6), 4, (1, 4))
        tiny('p19q13', 1, 32, (0, 5), 4, (4,))
        for args in (('p7q5', 0, 32, 8), ('p7q5', 2, 64, 4), ('p11q7', 0, 32), ('p7q11', 0, 32),
                     ('p17q13', 0, 32), ('p13q7', 0, 64), ('p17q11', 0, 32)):
            trip(*args)
    return out
