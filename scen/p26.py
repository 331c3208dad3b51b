"""Acceptance of curve parameters."""
from scen import sigcommon as sc
from spec import curves, ec

ENCODED = ('gostsignature.gost_34_10_2012 (new, GOST34102012.__init__, _set_size, _check_curve, '
           '_check_p_m, _check_x_y, _check_p, _check_q, _edvards_to_canonical), '
           'CURVES_R_1323565_1_024_2019')
BOUNDS = {
    'quick': 'x, y, a, b and m symbolic over each published field, with multiplication and '
             'remainder as polynomials with uninterpreted remainders; q symbolic with 4 bits '
             'more than the key size, for p with no small order modulo q and with each of the '
             'orders 1..34 (at 512 bits 1, 2, 3, 31..33, 64, 100, 101, 129..133); Edwards '
             'parameters e, d, u, v symbolic over the published fields with uninterpreted '
             'inverses; the published sets',
    'thorough': 'as quick with each order from 1 to 134 at 512 bits',
}
ASSUMPTIONS = ('x is not zero in the scenarios on points (all of a, b, x, y zero selects the '
               'Edwards form)',
               'a power of p modulo a symbolic q is represented by its exponent and the order',
               'a disagreement between the remainders of congruent polynomials that are not '
               'recognised as such is reported only if a concrete curve shows it')
P = {32: 'id-tc26-gost-3410-2012-256-paramSetB', 64: 'id-tc26-gost-3410-12-512-paramSetA'}
BOUND = {32: 31, 64: 131}


def accepts(size, c):
    try:
        return sc.S.new(sc.mode(size), c)
    except sc.SE:
        return None


class Order:
    """A symbolic modulus q: comparisons are those of the number; a power of p modulo q is
    known by its exponent, and is 1 when the order divides that."""

    def __init__(self, v, p, order):
        self.v = v
        self.order = order
        self.powers = {p ** i: i for i in range(140)}

    def __lt__(self, o):
        return self.v < o

    def __le__(self, o):
        return self.v <= o

    def __gt__(self, o):
        return self.v > o

    def __ge__(self, o):
        return self.v >= o

    def __eq__(self, o):
        return self.v == o

    def __ne__(self, o):
        return self.v != o

    def __rmod__(self, o):
        return Power(self, self.powers[o])


class Power:
    def __init__(self, q, i):
        self.q = q
        self.i = i

    def __mod__(self, q):
        return self

    def __mul__(self, o):
        return Power(self.q, self.i + (o.i if isinstance(o, Power) else self.q.powers[o]))

    __rmul__ = __mul__

    def __eq__(self, o):
        i = o.i if isinstance(o, Power) else self.q.powers[o]
        i = self.i - i
        return i % self.q.order == 0 if self.q.order else i == 0

    def __ne__(self, o):
        return not self == o


def orders(env, size, order):
    """All q; order is the order of p modulo q if it is small."""
    n = 8 * size
    base = curves.CURVES[P[size]]
    p = _with_order(size, order)[0] if order else base['p']
    q = env.int('q', 2, (1 << (n + 4)) - 1)
    x, y, a = 3, base['y'] % p, base['a'] % p
    b = (y * y - x * x * x - a * x) % p
    bound = BOUND[size]
    if env.sym:
        small = 0 < order <= bound
        given = Order(q, p, order)
    else:
        small = any(pow(p, i, q) == 1 for i in range(1, bound + 1))
        given = q
    want = not small and (1 << (254 if size == 32 else 508)) <= q <= 1 << n
    got = accepts(size, dict(p=p, a=a, b=b, m=p + 2, q=given, x=x, y=y))
    env.true('accepted', (got is not None) == want)


def _prime(v):
    return pow(2, v - 1, v) == 1


def _with_order(size, order):
    """(p, q) with q prime and p of the given order modulo q."""
    q = ((1 << (8 * size - 1)) // order + 12345) * order + 1
    while q % 2 == 0 or not _prime(q):
        q += order
    if order == 1:
        return 2 * q + 1, q
    g = 2
    while True:
        p = pow(g, (q - 1) // order, q)
        if all(pow(p, order // r, q) != 1 for r in range(2, order + 1) if order % r == 0):
            return p, q
        g += 1


def q_hints(size, order):
    n = 8 * size
    if order:
        return [dict(q=_with_order(size, order)[1] - 2)]
    lo = 1 << (254 if size == 32 else 508)
    return [dict(q=q - 2) for q in (lo - 1, lo, lo + 1, (1 << n) - 1, 1 << n, (1 << n) + 1)]


def point(env, name):
    """Base points, coefficients and group orders over a published field."""
    n = sc.SIZES[name]
    c = sc.curve(name)
    p, q = c['p'], c['q']
    env.wide_arithmetic()
    x, y, a, b = (env.int(v, 0, p - 1) for v in 'xyab')
    m = env.int('m', 1, (1 << (8 * n + 1)) - 1)
    env.assume(x != 0)
    got = accepts(n, dict(p=p, a=a, b=b, m=m, q=q, x=x, y=y))
    want = m != p and y * y % p == (x ** 3 + x * a + b) % p
    env.true('accepted', (got is not None) == want)


def point_hints(name):
    c = curves.CURVES[name]
    p = c['p']
    out = []
    for x, y, a in ((c['x'] or 5, c['y'], c['a']), (7, 11, 13)):
        b = (y * y - x * x * x - a * x) % p
        for m in (c['m'] - 1, p - 1):
            out += [dict(x=x, y=y, a=a, b=b, m=m), dict(x=x, y=y, a=a, b=b ^ 1, m=m)]
    return out


def edwards(env, name):
    """Twisted Edwards parameters over a published field."""
    n = sc.SIZES[name]
    c = sc.curve(name)
    p, q = c['p'], c['q']
    e, d, u, v = (env.int(i, 0, p - 1) for i in 'eduv')
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        ab.restore('_mul_point', '_add')
        s = (e - d) * ab.inv(4, p) % p
        t = (e + d) * ab.inv(6, p) % p
        a = (s ** 2 - 3 * t ** 2) % p
        b = (2 * t ** 3 - t * s ** 2) % p
        x = (s * (1 + v) * ab.inv(1 - v, p) + t) % p
        y = s * (1 + v) * ab.inv((1 - v) * u, p) % p
        got = accepts(n, dict(p=p, m=q, q=q, e=e, d=d, u=u, v=v))
        want = y * y % p == (x ** 3 + x * a + b) % p
        env.true('accepted', (got is not None) == want)
        if want and got is not None:
            pub = got.public_key_generate(sc.octets(1, n))
            env.eq('base point', pub, sc.octets(x, n) + sc.octets(y, n))
            env.assume(y != 0)
            lam = (3 * x * x + a) * ab.inv(2 * y, p) % p
            x2 = (lam * lam - x - x) % p
            y2 = (lam * (x - x2) - y) % p
            pub = got.public_key_generate(sc.octets(2, n))
            env.eq('twice the base point', pub, sc.octets(x2, n) + sc.octets(y2, n))


def edwards_hints(name):
    """Points of published and other Edwards curves."""
    p = curves.CURVES[name]['p']
    out = []
    for k in (3, 5, 7):
        u, v = 2 + k, k * k + 1
        # e u^2 + v^2 = 1 + d u^2 v^2 with e chosen, d derived
        for e in (1, k):
            d = (e * u * u + v * v - 1) * ec.inv(u * u * v * v, p) % p
            out.append(dict(e=e, d=d, u=u, v=v))
    return out


def published(env, name):
    """The published sets have the values of the standard and are accepted."""
    n = sc.SIZES[name]
    want = curves.CURVES[name]
    got = sc.S.CURVES_R_1323565_1_024_2019[name]
    forms = [[k for k in want if k in 'pqmabxy'], [k for k in want if k in 'pqmeduv']]
    d = env.int('d', 1, 3)
    for keys in forms[:2 if 'u' in want else 1]:
        o = accepts(n, {k: want[k] for k in keys})
        env.true('accepted', o is not None)
        if o is not None:
            pub = o.public_key_generate(sc.octets(d, n))
            pt = ec.mul(want, d, (want['x'], want['y']))
            env.eq('public key', pub, sc.octets(pt[0], n) + sc.octets(pt[1], n))
    env.true('accepted', accepts(n, got) is not None)
    for k in want:
        if k in 'pqmabxy' and 'a' in got or k in 'eduv' and k in got:
            env.true('value of ' + k, got[k] == want[k])


def scenarios(tier):
    out = []
    for name in sc.SIZES:
        out.append(('published', {'name': name}))
        out.append(('point', {'name': name}, {'hints': point_hints(name)}))
        out.append(('edwards', {'name': name}, {'hints': edwards_hints(name), 'time': 200}))
    few = (1, 2, 3, 31, 32, 33, 64, 100, 101, 129, 130, 131, 132, 133)
    for size, small in ((32, range(1, 35)), (64, few if tier == 'quick' else range(1, 135))):
        for order in (0, *small):
            out.append(('orders', {'size': size, 'order': order},
                        {'hints': q_hints(size, order)}))
    return out
