"""Streebog histories, with the compression function abstracted when it is the real one."""
import gostcrypto
from gostcrypto.gosthash import gost_34_11_2012 as impl
from spec import streebog as ref

NAME = {64: 'streebog512', 32: 'streebog256'}


_USABLE = {}


class Abstract:
    """While active, the compression function of the implementation and of the reference is
    one and the same uninterpreted function.  Does nothing in a concrete run, or when the
    implementation has no method _hash_g(h, n, m) that computes the compression function."""

    def __init__(self, env, on=True, fast=False):
        self.saved = None
        self.env = env
        self.on = on and env.sym
        self.fast = fast        # concrete arguments: some other function of them

    def usable(self):
        if 'r' not in _USABLE:
            _USABLE['r'] = self._usable()
        return _USABLE['r']

    def _usable(self):
        cls = getattr(impl, 'GOST34112012', None)
        if not isinstance(vars(cls).get('_hash_g'), (type(lambda: 0), staticmethod)):
            return False
        try:
            obj = gostcrypto.gosthash.new('streebog512')
            for k in (1, 5):
                h, n, m = [bytearray([(i * k * 7 + j * 31 + (i >> 3)) & 255 for i in range(64)])
                           for j in range(3)]
                if bytes(obj._hash_g(h, n, m)) != bytes(ref.g(list(n), list(h), list(m))):
                    return False
        except Exception:
            return False
        return True

    def __enter__(self):
        if self.on and self.usable():
            cls = impl.GOST34112012
            self.saved = (cls, vars(cls)['_hash_g'], ref.g)
            real = ref.g
            if self.fast:
                self.env.approx = True
                from symx.env import mix as real
            uf = self.env.uf('g', lambda n, h, m: bytes(real(list(n), list(h), list(m))), 64)
            if isinstance(self.saved[1], staticmethod):
                cls._hash_g = staticmethod(lambda h, n, m: bytearray(uf(n, h, m)))
            else:
                cls._hash_g = lambda self, h, n, m: bytearray(uf(n, h, m))
            ref.g = lambda n, h, m: list(uf(bytes(n), bytes(h), bytes(m)))
        return self

    def __exit__(self, *a):
        if self.saved:
            self.saved[0]._hash_g = self.saved[1]
            ref.g = self.saved[2]
        return False


class Model:
    """The data each live object should have hashed."""

    def __init__(self, env, size, make, value, free=0):
        self.env, self.size, self.make, self.value = env, size, make, value
        self.objs, self.data = {}, {}
        self.free = free
        self.count = 0
        self.checks = []

    def piece(self, n):
        """n bytes of which the first are symbolic (all when free is 0)."""
        self.count += 1
        k = n if not self.free else min(n, self.free)
        b = self.env.bytearray('p%d' % self.count, k)
        return b + bytearray([(self.count * 17 + x) & 255 for x in range(n - k)])

    def run(self, op):
        kind, i = op[0], op[1]
        if kind == 'new':
            d = self.piece(op[2])
            self.objs[i] = self.make(d if op[2] else None)
            self.data[i] = bytes(d)
        elif kind == 'u':
            d = self.piece(op[2])
            self.objs[i].update(d if self.count % 3 else bytes(d))
            self.data[i] = self.data[i] + bytes(d)
        elif kind == 'c':
            self.objs[op[2]] = self.objs[i].copy()
            self.data[op[2]] = self.data[i]
        elif kind == 'r':
            self.objs[i].reset()
            self.data[i] = b''
        elif kind == 'd':
            self.checks.append((len(self.checks), self.objs[i].digest(), self.data[i], False))
        elif kind == 'h':
            self.checks.append((len(self.checks), self.objs[i].hexdigest(), self.data[i], True))

    def finish(self):
        for i in sorted(self.objs):
            self.run(['d', i])
        seen = {}
        for k, got, data, hexa in self.checks:
            want = None
            for d, w in seen.setdefault(len(data), []):
                if d is data:
                    want = w
            if want is None:
                want = self.value(data)
                seen[len(data)].append((data, want))
            self.env.eq('value %d' % k, got, want.hex() if hexa else want)


def schedule(env, model, first, menu, steps):
    """Every schedule of the given operations: a symbolic choice at each step."""
    for op in first:
        model.run(op)
    for s in range(steps):
        op = menu[env.choice('op%d' % s, len(menu))]
        if op[1] in model.objs:
            model.run(op)
    model.finish()
