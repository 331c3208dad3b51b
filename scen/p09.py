"""Interleavings of MAC requests and updates."""
import gostcrypto
from scen import ciphercommon as cc
from spec import modes

ENCODED = ('gost_34_13_2015.GOST34132015mac (update, digest, hexdigest, subkeys), '
           'gost_34_12_2015 ciphers, utils')
BOUNDS = {
    'quick': 'all keys and data: listed histories with the real ciphers; every schedule of 4 '
             'operations out of 8 kinds (updates of 5 lengths, digest, hexdigest, a refused '
             'size) with the block cipher as an uninterpreted function of key and block',
    'thorough': 'all keys and data: listed histories with the real ciphers; every schedule of 6 '
                'operations (5 for Kuznyechik) out of 8 kinds with the block cipher as an '
                'uninterpreted function of key and block',
}
ASSUMPTIONS = ('In schedules the block cipher is an uninterpreted function of key and block when '
               'the cipher classes have methods encrypt(block) and decrypt(block) that the modes '
               'use; P01 and P02 decide the real ones.',)
ERR = gostcrypto.gostcipher.GOSTCipherError


class Run:
    def __init__(self, env, alg):
        self.env, self.alg = env, alg
        self.bs = modes.SIZES[alg]
        self.key = env.bytearray('key', 32)
        self.mac = gostcrypto.gostcipher.new(alg, self.key, gostcrypto.gostcipher.MODE_MAC)
        self.data = b''
        self.got = []
        self.n = 0

    def op(self, kind, arg=None):
        if kind == 'u':
            self.n += 1
            d = self.env.bytearray('p%d' % self.n, arg)
            self.mac.update(d if self.n % 2 else bytes(d))
            self.data = self.data + bytes(d)
        elif kind == 'd':
            self.got.append((self.mac.digest(arg), self.data, arg, False))
        elif kind == 'h':
            self.got.append((self.mac.hexdigest(arg), self.data, arg, True))
        elif kind == 'x':
            self.env.raises('size %d refused' % arg, ERR, lambda: self.mac.digest(arg))
            self.env.raises('size %d refused (hexadecimal)' % arg, ERR,
                            lambda: self.mac.hexdigest(arg))

    def finish(self):
        self.op('d', self.bs)
        self.op('h', self.bs)
        refs = {}
        for i, (got, data, size, hexa) in enumerate(self.got):
            # the data of a request is determined by its length within one run
            if len(data) not in refs:
                refs[len(data)] = modes.mac(self.alg, self.key, data)
            want = refs[len(data)][:size]
            self.env.eq('request %d (size %d)' % (i, size), got, want.hex() if hexa else want)


def history(env, alg, ops):
    r = Run(env, alg)
    for o in ops:
        r.op(*o)
    r.finish()


def menu(bs):
    return [['u', 0], ['u', 1], ['u', bs - 1], ['u', bs], ['u', bs + 1], ['d', bs], ['h', 4],
            ['x', bs + 1]]


def schedules(env, alg, first, steps):
    with cc.Abstract(env):
        r = Run(env, alg)
        m = menu(r.bs)
        for i in first:
            r.op(*m[i])
        for s in range(steps):
            r.op(*m[env.choice('op%d' % s, len(m))])
        r.finish()


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        hs = [[['d', bs], ['u', 3], ['d', 2], ['h', bs], ['u', bs - 3], ['d', bs], ['d', bs]],
              [['u', bs], ['h', 1], ['x', 0], ['d', 1], ['u', bs], ['d', bs]],
              [['h', bs], ['d', bs], ['u', 0], ['d', bs], ['u', 1], ['x', bs + 1], ['x', -1],
               ['u', 2 * bs]],
              [['u', 2 * bs + 1], ['d', bs - 1], ['u', bs - 1], ['d', 1], ['u', 0], ['h', bs]]]
        for h in hs:
            out.append(('history', {'alg': alg, 'ops': h}))
        for a in range(8):
            if not big:
                out.append(('schedules', {'alg': alg, 'first': [a], 'steps': 3}))
                continue
            for b in range(8):
                if bs == 16:
                    out.append(('schedules', {'alg': alg, 'first': [a, b], 'steps': 3}))
                else:
                    for c in range(8):
                        out.append(('schedules', {'alg': alg, 'first': [a, b, c], 'steps': 3}))
    return out
