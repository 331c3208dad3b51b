"""Elliptic curves and GOST R 34.10-2012, written from the standard for plain integers."""


_INV = {}


def inv(v, m):
    """Inverse modulo a prime; 0 for 0."""
    if m < 256:
        if m not in _INV:
            _INV[m] = [pow(i, -1, m) if i else 0 for i in range(m)]
        return _INV[m][v % m]
    return pow(v, -1, m) if v % m else 0


def points(c):
    """The affine points of a small curve."""
    p = c['p']
    return [(x, y) for x in range(p) for y in range(p)
            if (y * y - x * x * x - c['a'] * x - c['b']) % p == 0]


def add(c, p1, p2):
    """Sum of two points of y^2 = x^3 + a x + b over GF(p); None is the point at infinity."""
    if p1 is None:
        return p2
    if p2 is None:
        return p1
    p = c['p']
    if (p1[0] - p2[0]) % p == 0:
        if (p1[1] + p2[1]) % p == 0:
            return None
        lam = (3 * p1[0] * p1[0] + c['a']) * inv(2 * p1[1], p) % p
    else:
        lam = (p2[1] - p1[1]) * inv(p2[0] - p1[0], p) % p
    x = (lam * lam - p1[0] - p2[0]) % p
    return x, (lam * (p1[0] - x) - p1[1]) % p


def mul(c, k, pt):
    r = None
    while k > 0:
        if k & 1:
            r = add(c, r, pt)
        pt = add(c, pt, pt)
        k >>= 1
    return r


def digest_number(c, e):
    e %= c['q']
    return e if e else 1


def sign(c, d, e, k):
    """(r, s), or None when k or d is not usable."""
    q = c['q']
    if d % q == 0 or not 0 < k < q:
        return None
    pt = mul(c, k, (c['x'], c['y']))
    r = pt[0] % q
    if r == 0:
        return None
    s = (r * d + k * digest_number(c, e)) % q
    return (r, s) if s else None


def verify(c, pub, e, r, s):
    q = c['q']
    if not (0 < r < q and 0 < s < q):
        return False
    v = inv(digest_number(c, e), q)
    pt = add(c, mul(c, s * v % q, (c['x'], c['y'])), mul(c, -r * v % q, pub))
    return pt is not None and pt[0] % q == r


def edwards(c):
    """The Weierstrass form of e u^2 + v^2 = 1 + d u^2 v^2."""
    p, e, d, u, v = c['p'], c['e'], c['d'], c['u'], c['v']
    s = (e - d) * inv(4, p) % p
    t = (e + d) * inv(6, p) % p
    return dict(p=p, m=c['m'], q=c['q'], a=(s * s - 3 * t * t) % p,
                b=(2 * t * t * t - t * s * s) % p,
                x=(s * (1 + v) * inv(1 - v, p) + t) % p,
                y=s * (1 + v) * inv((1 - v) * u, p) % p)


def weierstrass(c):
    return edwards(c) if 'u' in c else dict(c)
