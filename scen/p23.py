"""Signatures against GOST R 34.10-2012."""
from scen import sigcommon as sc
from spec import ec

ENCODED = ('gostsignature.gost_34_10_2012 (sign, _set_e, _next_rand_k, _add, _mul_point, '
           '_invert), utils.utils')
BOUNDS = {
    'quick': 'published curves: all private keys, digests and random values, with scalar '
             'multiplication (of the scalar modulo q) uninterpreted; curves of order 5 to 13 over '
             'fields of 7 to 17 elements, with all the arithmetic: private keys and digests below '
             '256 (32 on the larger ones), random values below 2q, sizes 32 and 64',
    'thorough': 'as quick, with more base points and curves of order up to 19',
}
ASSUMPTIONS = ('on the published curves scalar multiplication is a function of the scalar modulo '
               'q; P25 decides what it computes',)


def attempt(call):
    try:
        return call()
    except sc.SE:
        return None


def full(env, name, kind, fixed=''):
    """All keys, digests and random values on a published curve."""
    n = sc.SIZES[name]
    d, e, k = (getattr(env, kind)(v, n) for v in 'dek')
    o = sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        q = ab.c['q']
        got = attempt(lambda: o.sign(d, e, k))
        nd, ne, nk = sc.num(d), sc.num(e), sc.num(k)
        want = None
        if not (nd % q == 0 or nk == 0 or nk >= q):
            r = ab.mul(nk, (ab.c['x'], ab.c['y']))[0] % q
            if r != 0:
                ne = ne % q
                if ne == 0:
                    ne = 1
                s = (r * nd + nk * ne) % q
                if s != 0:
                    want = sc.octets(r, n) + sc.octets(s, n)
        if want is None:
            env.true('refused', got is None)
        else:
            env.true('accepted', got is not None)
            if got is not None:
                env.eq('signature', got, want)


def tiny(env, name, base, size, bits=8):
    """All keys, digests and random values on a small curve, with the real point arithmetic."""
    t = sc.tiny(size, name, base)
    if t is None:
        return
    o, c = t
    d, db = sc.small(env, 'd', size, bits)
    e, eb = sc.small(env, 'e', size, bits)
    k, kb = sc.small(env, 'k', size, bits)
    env.assume(k < 2 * c['q'])
    got = attempt(lambda: o.sign(db, eb, kb))
    want = ec.sign(c, d, e, k)
    env.true('refused or not', (got is None) == (want is None))
    if got is not None and want is not None:
        env.eq('signature', got, sc.octets(want[0], size) + sc.octets(want[1], size))


def window(env, name, which, pos, bits, rest):
    """Some symbolic bits in the key, the digest or the random value; exact on a published
    curve."""
    n = sc.SIZES[name]
    q = sc.curve(name)['q']
    v = {'d': sc.fill(n, 5), 'e': sc.fill(n, 7), 'k': sc.fill(n, 11)}
    w = env.int('w', 0, (1 << bits) - 1)
    v[which] = sc.place(n, w, pos, bits, rest)
    o = sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        c = ab.c
        d, e, k = (v[i] for i in 'dek')
        got = attempt(lambda: o.sign(d, e, k))
        nd, ne, nk = sc.num(d), sc.num(e), sc.num(k)
        want = None
        if not (nd % q == 0 or nk == 0 or nk >= q):
            r = ab.mul(nk, (c['x'], c['y']))[0] % q
            ne = ne % q
            if ne == 0:
                ne = 1
            s = (r * nd + nk * ne) % q
            if r != 0 and s != 0:
                want = sc.octets(r, n) + sc.octets(s, n)
        env.true('refused or not', (got is None) == (want is None))
        if got is not None and want is not None:
            env.eq('signature', got, want)


def scenarios(tier):
    out = []
    for name, n in sc.SIZES.items():
        for kind in ('bytes', 'bytearray')[:1 if tier == 'quick' and n == 64 else 2]:
            out.append(('full', {'name': name, 'kind': kind}, {'weight': n}))
    curves = [('p7q5', 0, 32), ('p7q5', 2, 64), ('p11q7', 0, 32), ('p17q13', 0, 32)]
    if tier != 'quick':
        curves += [('p7q5', 1, 32), ('p11q7', 3, 64), ('p7q11', 1, 32), ('p13q7', 2, 32),
                   ('p17q13', 5, 64), ('p17q11', 1, 32), ('p11q17', 0, 32), ('p13q19', 0, 32),
                   ('p23q17', 0, 32)]
    for name, base, size in curves:
        out.append(('tiny', {'name': name, 'base': base, 'size': size,
                             'bits': 8 if sc.TINY[name][1] < 10 else 5}, {'weight': 40}))
    b, c = (list(sc.SIZES)[i] for i in (1, 4))
    for name in (b, c) if tier == 'quick' else sc.SIZES:
        n = sc.SIZES[name]
        for which in 'edk':
            for pos, rest in ((0, 'zeros'), (4, 'mixed'), (8 * n - 20, 'mixed')):
                if tier != 'quick' or n == 32 or which == 'e' or pos == 0:
                    out.append(('window', {'name': name, 'which': which, 'pos': pos, 'bits': 8,
                                           'rest': rest}, {'weight': 20}))
    return out
