"""The block ciphers as uninterpreted functions of key and block."""
import copy

import gostcrypto
from gostcrypto.gostcipher import gost_34_12_2015 as impl
from spec import ciphers, modes

CLASSES = {'kuznechik': ('GOST34122015Kuznechik', 16), 'magma': ('GOST34122015Magma', 8)}
_USABLE = {}
_TEMPLATE = {}


class Abstract:
    """While active, encryption and decryption of one block, by the implementation's cipher
    classes and by the reference alike, are one uninterpreted function each (per cipher), and
    applying one to the other's result with the same key gives back the argument.

    Does nothing in a concrete run, or when the classes are not used in the expected way
    (then the real ciphers are encoded)."""

    def __init__(self, env, on=True):
        self.env = env
        self.on = on and env.sym
        self.saved = []

    @staticmethod
    def _probe():
        """The modes call encrypt(block) and decrypt(block) of the classes and nothing else."""
        g = gostcrypto.gostcipher
        key = bytearray(range(9, 41))
        for alg, (name, bs) in CLASSES.items():
            cls = getattr(impl, name, None)
            if not isinstance(cls, type):
                return False
            for attr in ('__init__', 'encrypt', 'decrypt'):
                if not isinstance(vars(cls).get(attr), type(lambda: 0)):
                    return False
            obj = cls(bytearray(key))
            block = bytearray(range(50, 50 + bs))
            if bytes(obj.encrypt(bytearray(block))) != bytes(modes.enc(alg, key, block)):
                return False
            if bytes(obj.decrypt(bytearray(block))) != bytes(modes.dec(alg, key, block)):
                return False
            calls = []
            enc, dec = vars(cls)['encrypt'], vars(cls)['decrypt']

            def e2(self, block, _e=enc):
                calls.append(len(block))
                return _e(self, block)

            def d2(self, block, _d=dec):
                calls.append(-len(block))
                return _d(self, block)
            cls.encrypt, cls.decrypt = e2, d2
            try:
                m = g.new(alg, bytearray(key), g.MODE_MAC, data=bytearray(3 * bs))
                m.digest(4)
                if len(calls) < 4 or set(calls) != {bs}:
                    return False
                del calls[:]
                c = g.new(alg, bytearray(key), g.MODE_CBC, init_vect=bytearray(bs))
                c.decrypt(c.encrypt(bytearray(2 * bs)))
                if calls.count(bs) < 2 or calls.count(-bs) < 2 or len(set(calls)) != 2:
                    return False
                del calls[:]
                c = g.new(alg, bytearray(key), g.MODE_CTR, init_vect=bytearray(bs // 2))
                c.encrypt(bytearray(2 * bs))
                if len(calls) < 2 or set(calls) != {bs}:
                    return False
            finally:
                cls.encrypt, cls.decrypt = enc, dec
        return True

    def usable(self):
        if 'r' not in _USABLE:
            try:
                _USABLE['r'] = self._probe()
            except Exception:
                _USABLE['r'] = False
        return _USABLE['r']

    def _patch(self, obj, name, value):
        self.saved.append((obj, name, vars(obj)[name]))
        setattr(obj, name, value)

    def __enter__(self):
        if not (self.on and self.usable()):
            return self
        pairs = {}
        for alg, (name, bs) in CLASSES.items():
            cls = getattr(impl, name)
            enc = self.env.uf('enc_' + alg, lambda k, b, _a=alg: modes_real(_a, 'e', k, b), bs)
            dec = self.env.uf('dec_' + alg, lambda k, b, _a=alg: modes_real(_a, 'd', k, b), bs)
            memo = pairs[alg] = []      # (key, plain block, cipher block)

            def e(key, block, _u=enc, _m=memo):
                for k, p, c in _m:
                    if same(p, block) and same(k, key):
                        return c
                r = _u(key, block)
                _m.append((key, block, r))
                return r

            def d(key, block, _u=dec, _m=memo):
                for k, p, c in _m:
                    if same(c, block) and same(k, key):
                        return p
                r = _u(key, block)
                _m.append((key, r, block))
                return r

            init = vars(cls)['__init__']

            def newinit(self, key, _i=init, _a=alg):
                # the parts that do not depend on the key are computed once
                if _a not in _TEMPLATE:
                    _i(self, bytearray(len(key)))
                    _TEMPLATE[_a] = copy.deepcopy(vars(self))
                vars(self).update(copy.deepcopy(_TEMPLATE[_a]))
                self._sx_key = bytes(key)
            self._patch(cls, '__init__', newinit)
            self._patch(cls, 'encrypt', lambda self, block, _e=e: bytearray(
                _e(self._sx_key, bytes(block))))
            self._patch(cls, 'decrypt', lambda self, block, _d=d: bytearray(
                _d(self._sx_key, bytes(block))))
            pairs[alg] = (e, d)
        self._patch(modes, 'enc', lambda alg, key, b: bytes(pairs[alg][0](bytes(key), bytes(b))))
        self._patch(modes, 'dec', lambda alg, key, b: bytes(pairs[alg][1](bytes(key), bytes(b))))
        return self

    def __exit__(self, *a):
        for obj, name, v in reversed(self.saved):
            setattr(obj, name, v)
        self.saved = []
        return False


def modes_real(alg, op, key, block):
    f = {('kuznechik', 'e'): ciphers.kuz_encrypt, ('kuznechik', 'd'): ciphers.kuz_decrypt,
         ('magma', 'e'): ciphers.magma_encrypt, ('magma', 'd'): ciphers.magma_decrypt}[alg, op]
    return f(bytes(key), bytes(block))


def same(a, b):
    """Syntactic identity (never forks)."""
    from symx import env as E
    return E.sx_eq(a, b) is True
