"""Signature objects, with the point arithmetic abstracted when it is the real one."""
import gostcrypto
from spec import ec

S = gostcrypto.gostsignature
SE = S.GOSTSignatureError
SIZES = {'id-tc26-gost-3410-2012-256-paramSetA': 32, 'id-tc26-gost-3410-2012-256-paramSetB': 32,
         'id-tc26-gost-3410-2012-256-paramSetC': 32, 'id-tc26-gost-3410-2012-256-paramSetD': 32,
         'id-tc26-gost-3410-12-512-paramSetA': 64, 'id-tc26-gost-3410-12-512-paramSetB': 64,
         'id-tc26-gost-3410-2012-512-paramSetC': 64}
_USABLE = {}


def mode(size):
    return S.MODE_256 if size == 32 else S.MODE_512


def curve(name):
    """The Weierstrass parameters of a published set."""
    return ec.weierstrass(S.CURVES_R_1323565_1_024_2019[name])


def make(name):
    return S.new(mode(SIZES[name]), S.CURVES_R_1323565_1_024_2019[name])


def num(b):
    return int.from_bytes(b, 'big')


def octets(v, n):
    """n bytes, big-endian, of a number below 256^n."""
    return bytes([(v >> (8 * (n - 1 - i))) & 255 for i in range(n)])


# (p, q, a, b) of small curves of prime order; on the ones noted some point has an x that is
# zero, or zero modulo q, so that r is zero for some random values
TINY = {
    'p7q5': (7, 5, 1, 1),         # x = 0
    'p7q11': (7, 11, 1, 6),
    'p11q7': (11, 7, 2, 7),       # x = q
    'p11q17': (11, 17, 2, 4),     # x = 0
    'p13q7': (13, 7, 0, 7),       # x = q, a = 0
    'p13q19': (13, 19, 4, 1),     # x = 0
    'p17q13': (17, 13, 10, 1),    # x = 0 and x = q
    'p17q11': (17, 11, 2, 6),     # x = q
    'p19q13': (19, 13, 0, 2),
    'p23q17': (23, 17, 5, 22),    # x = q
    'p31q23': (31, 23, 1, 28),    # x = 0 and x = q
    'p31q37': (31, 37, 1, 19),    # x = 0
    'p61q47': (61, 47, 2, 42),    # x = 0 and x = q
}


def tiny_curve(name, base):
    """The parameters of a small curve; base is the index of its base point."""
    p, q, a, b = TINY[name]
    c = dict(p=p, q=q, m=q, a=a, b=b)
    pts = ec.points(c)
    assert len(pts) == q - 1
    c['x'], c['y'] = pts[base % len(pts)]
    return c


def _replaced(v, table):
    if type(v) is int:
        return table.get(v, v)
    if type(v) in (tuple, list):
        return type(v)(_replaced(i, table) for i in v)
    if type(v) is dict:
        return {k: _replaced(i, table) for k, i in v.items()}
    return v


def tiny(size, name, base):
    """A signature object working on a small curve, and the curve; the object is made for a
    published curve and the numbers it keeps are replaced.  None if it does not keep them."""
    c = tiny_curve(name, base)
    good = curve('id-tc26-gost-3410-2012-256-paramSetB' if size == 32 else
                 'id-tc26-gost-3410-12-512-paramSetA')
    o = S.new(mode(size), good)
    table = {good[i]: c[i] for i in 'pqabxy'}
    try:
        for k, v in list(vars(o).items()):
            w = _replaced(v, table)
            if w is not v:
                setattr(o, k, w)
        pub = o.public_key_generate(octets(1, size))
        if bytes(pub) != octets(c['x'], size) + octets(c['y'], size):
            return None
    except Exception:
        return None
    return o, c


def rebase(o, c, x, y):
    """Gives o another base point; False if it does not keep the one of c as numbers."""
    found = [False, False]
    for k, v in list(vars(o).items()):
        if type(v) is int and v == c['x'] and k.endswith('x'):
            setattr(o, k, x)
            found[0] = True
        elif type(v) is int and v == c['y'] and k.endswith('y'):
            setattr(o, k, y)
            found[1] = True
    return all(found)


def small(env, name, size, bits=8, kind='bytes'):
    """A number of at most 16 symbolic bits, as octets of the full size."""
    v = env.int(name, 0, (1 << bits) - 1)
    b = [0] * (size - 2) + [v >> 8 & 255, v & 255]
    return v, (bytes(b) if kind == 'bytes' else bytearray(b))


def fill(n, m):
    """Some octets, a number below every order of that size."""
    return bytes([1] + [(m * i * i + 3 * i + m) & 255 for i in range(1, n)])


def place(n, w, pos, bits, rest):
    """n octets of the symbolic w at bit pos among others."""
    base = {'zeros': 0, 'ones': (1 << 8 * n - 8) - 1, 'mixed': num(fill(n, 13))}[rest]
    base = base >> (pos + bits) << (pos + bits) | base & ((1 << pos) - 1)
    low, high = pos // 8, -(-(pos + bits) // 8)
    b = list(octets(base, n))
    v = w << (pos - 8 * low)
    for i in range(low, high):
        b[n - 1 - i] = b[n - 1 - i] | (v >> 8 * (i - low)) & 255
    return bytes(b)


class Abstract:
    """While active, scalar multiplication, point addition and modular inversion, by the
    implementation's class and by the reference alike, are uninterpreted functions (of the
    scalar modulo q, of an unordered pair of points, of the residue).

    In a concrete run nothing is replaced.  ok is False when the methods are not used in the
    expected way; then the scenario has to be skipped."""

    def __init__(self, env, name):
        self.env = env
        self.c = curve(name)
        self.size = SIZES[name]
        self.name = name
        self.ok = True
        self.saved = []

    def usable(self):
        if self.name not in _USABLE:
            try:
                _USABLE[self.name] = self._probe()
            except Exception:
                _USABLE[self.name] = False
        return _USABLE[self.name]

    def _probe(self):
        o = make(self.name)
        c, n = self.c, self.size
        q = c['q']
        cls = type(o)
        g = (c['x'], c['y'])
        g7 = ec.mul(c, 7, g)
        if o._mul_point(5) != ec.mul(c, 5, g) or o._mul_point(3, *g7) != ec.mul(c, 21, g):
            return False
        g5 = ec.mul(c, 5, g)
        if o._add(g5[0], g7[0], g5[1], g7[1]) != ec.mul(c, 12, g):
            return False
        if o._invert(7, q) != ec.inv(7, q) or o._invert(q - 5, q) != ec.inv(q - 5, q):
            return False
        calls = []
        real = vars(cls)['_mul_point']

        def count(self, *a, **k):
            calls.append(len(a))
            return real(self, *a, **k)
        cls._mul_point = count
        try:
            k, d, e = q // 3, q // 5, q // 7
            # what is computed is for the scenarios to decide
            o.sign(octets(d, n), octets(e, n), octets(k, n))
            if calls != [1]:
                return False
            del calls[:]
            o.public_key_generate(octets(d, n))
            if calls != [1]:
                return False
            del calls[:]
            r, s = ec.sign(c, d, e, k)
            pt = ec.mul(c, d, g)
            o.verify(octets(pt[0], n) + octets(pt[1], n), octets(e, n), octets(r, n) + octets(s, n))
            if len(calls) != 2:
                return False
        finally:
            cls._mul_point = real
        return True

    # the functions; in a concrete run the real ones
    def mul(self, k, pt):
        c, bits = self.c, 8 * self.size

        def f(k, x, y):
            r = ec.mul(c, k % c['q'], (x, y))
            return 0 if r is None else r[0] | r[1] << bits
        if not self.env.sym:
            v = f(k, *pt)
            return v & ((1 << bits) - 1), v >> bits
        return self._point('mul', f, [k % c['q'], pt[0], pt[1]])

    def add(self, p1, p2):
        c, bits = self.c, 8 * self.size

        def f(x1, y1, x2, y2):
            r = ec.add(c, (x1, y1), (x2, y2))
            return 0 if r is None else r[0] | r[1] << bits
        if not self.env.sym:
            v = f(*p1, *p2)
            return v & ((1 << bits) - 1), v >> bits
        p1, p2 = sorted((p1, p2), key=lambda t: self._key(t[0]))
        return self._point('add', f, [p1[0], p1[1], p2[0], p2[1]])

    def inv(self, v, m):
        if not hasattr(v, 'pure'):      # a plain integer
            return ec.inv(v, m)
        return self.env.uf_int('inv%x' % m, lambda x: ec.inv(x, m), [v % m], m.bit_length(),
                               m - 1)

    @staticmethod
    def _key(v):
        from symx import core
        return core._bits_of(v)[0]

    def _point(self, what, f, args):
        bits = 8 * self.size
        hi = self.c['p'] - 1
        mask = (1 << bits) - 1
        return (self.env.uf_int(what + 'x', lambda *a: f(*a) & mask, args, bits, hi),
                self.env.uf_int(what + 'y', lambda *a: f(*a) >> bits, args, bits, hi))

    def __enter__(self):
        if not self.env.sym:
            return self
        self.ok = self.usable()
        if not self.ok:
            return self
        self.env.wide_arithmetic(self.inv)
        cls = S.GOST34102012
        base = (self.c['x'], self.c['y'])

        def mul(obj, k, x=-1, y=-1):
            return self.mul(k, base if isinstance(x, int) and x < 0 else (x, y))
        self._patch(cls, '_mul_point', mul)
        self._patch(cls, '_add', lambda obj, x1, x2, y1, y2: self.add((x1, y1), (x2, y2)))
        self._patch(cls, '_invert', staticmethod(self.inv))
        return self

    def _patch(self, obj, name, value):
        self.saved.append((obj, name, vars(obj)[name]))
        setattr(obj, name, value)

    def restore(self, *names):
        """Makes some methods the real ones again."""
        for obj, name, v in self.saved:
            if name in names:
                setattr(obj, name, v)

    def logarithms(self, o):
        """Makes o work in the additive group modulo q with base point 1; False if it
        does not keep its base point as expected."""
        c = self.c
        self.restore('_mul_point')
        if not rebase(o, c, 1, 1):
            return False
        q = c['q']
        setattr(type(o), '_add', lambda obj, x1, x2, y1, y2: ((x1 + x2) % q,) * 2)
        return True

    def __exit__(self, *a):
        for obj, name, v in reversed(self.saved):
            setattr(obj, name, v)
        self.saved = []
        return False
