"""Public keys: scalar multiples of the base point."""
from scen import sigcommon as sc
from spec import ec

ENCODED = ('gostsignature.gost_34_10_2012 (public_key_generate, _mul_point, _bits, _add, _invert, '
           '_check_curve), utils.utils')
BOUNDS = {
    'quick': 'published curves: all private keys, with scalar multiplication uninterpreted; '
             'base points and coefficients a symbolic over the published fields, with scalars '
             'up to 9 and modular inversion uninterpreted; scalars with 5 symbolic bits anywhere '
             'in 256 (512) bits, with point addition replaced by addition of logarithms; '
             'curves over fields of 7 to 61 elements with all the arithmetic, symbolic base '
             'points and private keys below 32',
    'thorough': 'as quick, with scalars up to 40, windows of 7 bits, all windows at 512 bits, '
                'and more curves',
}
ASSUMPTIONS = ('modular inversion at the published sizes is a function of its arguments; it is '
               'decided for moduli up to 61',
               'the formulas are compared where no two different points added have the same x, '
               'which holds for scalars below the order')


def reduced(env, name, kind):
    """All private keys on a published curve: reduction modulo q and refusal."""
    n = sc.SIZES[name]
    d = getattr(env, kind)('d', n)
    o = sc.make(name)
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        q = ab.c['q']
        nd = sc.num(d)
        try:
            got = o.public_key_generate(d)
        except sc.SE:
            env.true('refused', nd % q == 0)
            try:
                o.sign(d, bytes(n), sc.octets(1, n))
                env.fail('signing accepts a key that is zero modulo q')
            except sc.SE:
                pass
            return
        env.true('accepted', nd % q != 0)
        x, y = ab.mul(nd % q, (ab.c['x'], ab.c['y']))
        env.eq('public key', got, sc.octets(x, n) + sc.octets(y, n))


def general_add(env, c, p1, p2, inv):
    """Addition of points that are the same or have a different x."""
    p = c['p']
    if p1 is p2:
        env.assume(p1[1] != 0)
        lam = (3 * p1[0] * p1[0] + c['a']) * inv((2 * p1[1]) % p, p) % p
    else:
        env.assume(p1[0] != p2[0])
        lam = (p2[1] - p1[1]) * inv((p2[0] - p1[0]) % p, p) % p
    x = (lam * lam - p1[0] - p2[0]) % p
    return x, (lam * (p1[0] - x) - p1[1]) % p


def formula(env, name, d):
    """A given multiple of any point of any curve over a published field."""
    n = sc.SIZES[name]
    pub = sc.curve(name)
    p, q = pub['p'], pub['q']
    x, y, a = (env.int(v, 0, p - 1) for v in 'xya')
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        ab.restore('_mul_point', '_add')
        b = (y * y - x * x * x - a * x) % p
        env.assume(x != 0)
        env.assume(a != 0)
        o = sc.S.new(sc.mode(n), dict(p=p, a=a, b=b, m=q, q=q, x=x, y=y))
        got = o.public_key_generate(sc.octets(d, n))
        c = dict(p=p, a=a)
        r, pt, k = None, (x, y), d
        while k:
            if k & 1:
                r = pt if r is None else general_add(env, c, r, pt, ab.inv)
            k >>= 1
            if k:
                pt = general_add(env, c, pt, pt, ab.inv)
        env.eq('x', got[:n], sc.octets(r[0], n))
        env.eq('y', got[n:], sc.octets(r[1], n))


def _other(q, which):
    """The bits around the symbolic ones (below, above)."""
    ones = (1 << 512) - 1
    mix = 0x5b1d34e6cf0872a99e3779b97f4a7c15f39cc0605cedc834a1b2c3d4e5f60718
    mix = mix * (1 + (1 << 256)) & ((1 << (q.bit_length() - 1)) - 1)
    return {'zeros': (0, 0), 'ones': (ones, 0), 'mixed': (mix, mix)}[which]


def ladder(env, name, pos, bits, rest):
    """Private keys with some symbolic bits; points are represented by their logarithms."""
    n = sc.SIZES[name]
    c = sc.curve(name)
    q = c['q']
    w = env.int('w', 0, (1 << bits) - 1)
    low, high = _other(q, rest)
    rest = (low & ((1 << pos) - 1)) | (high >> (pos + bits) << (pos + bits))
    d = rest + (w << pos)
    env.assume(d != 0)
    env.assume(d < q)
    o = sc.make(name)
    if not env.sym:
        pt = ec.mul(c, d, (c['x'], c['y']))
        env.true('public key', o.public_key_generate(sc.octets(d, n)) ==
                 sc.octets(pt[0], n) + sc.octets(pt[1], n))
        return
    with sc.Abstract(env, name) as ab:
        if not ab.ok or not ab.logarithms(o):
            return
        got = o.public_key_generate(sc.octets(d, n))
        env.true('public key', got == sc.octets(d, n) * 2)


def tiny(env, name, size, bits, base=None):
    """All private keys and all base points, or a given one, on a small curve."""
    c = sc.tiny_curve(name, 0)
    pts = ec.points(c)
    t = sc.tiny(size, name, 0 if base is None else base)
    if t is None:
        return
    o, c = t
    d, db = sc.small(env, 'd', size, bits)
    if base is None:
        i = env.int('P', 0, len(pts) - 1)
        x, y = [p[0] for p in pts][i], [p[1] for p in pts][i]
        if not sc.rebase(o, c, x, y):
            return
        c = dict(c, x=x, y=y)
    try:
        got = o.public_key_generate(db)
    except sc.SE:
        env.true('refused', d % c['q'] == 0)
        return
    env.true('accepted', d % c['q'] != 0)
    pt = ec.mul(c, d % c['q'], (c['x'], c['y']))
    env.true('a point', pt is not None)
    if pt is not None:
        env.eq('public key', got, sc.octets(pt[0], size) + sc.octets(pt[1], size))


def scenarios(tier):
    quick = tier == 'quick'
    out = []
    names = list(sc.SIZES)
    for name in names:
        for kind in ('bytes', 'bytearray')[:1 if quick and sc.SIZES[name] == 64 else 2]:
            out.append(('reduced', {'name': name, 'kind': kind}))
    b256, a512 = 'id-tc26-gost-3410-2012-256-paramSetB', 'id-tc26-gost-3410-12-512-paramSetA'
    if quick:
        for d in range(1, 10):
            out.append(('formula', {'name': b256, 'd': d}, {'weight': 9 + d}))
        for d in (2, 3):
            out.append(('formula', {'name': a512, 'd': d}, {'weight': 9 + d}))
        for name in names[2:4]:
            out.append(('formula', {'name': name, 'd': 3}))
    else:
        for name in names:
            for d in range(1, 18 if sc.SIZES[name] == 32 else 10):
                out.append(('formula', {'name': name, 'd': d}))
    for name, bits in ((b256, 5), (a512, 5)) if quick else ((b256, 7), (a512, 7)):
        n = 8 * sc.SIZES[name]
        q = sc.curve(name)['q']
        step = bits if quick and n == 256 or not quick else 4 * bits + 1
        top = q.bit_length() - bits
        for pos in sorted({*range(0, top, step), top}):
            for rest in ('zeros', 'ones', 'mixed'):
                out.append(('ladder', {'name': name, 'pos': pos, 'bits': bits, 'rest': rest}))
    small = [('p7q5', 32, 5, None), ('p11q7', 32, 4, None), ('p13q7', 64, 4, None),
             ('p17q13', 32, 5, 3), ('p31q23', 32, 5, 0), ('p61q47', 64, 6, 2)]
    if not quick:
        small += [('p7q11', 32, 4, None), ('p11q17', 32, 5, None), ('p13q19', 32, 5, None),
                  ('p17q13', 32, 5, None), ('p31q37', 32, 6, 1), ('p61q47', 32, 7, 0)]
    for name, size, bits, base in small:
        out.append(('tiny', {'name': name, 'size': size, 'bits': bits, 'base': base}))
    return out
