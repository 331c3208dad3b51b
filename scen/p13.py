"""HMAC call histories."""
import gostcrypto
from scen import hashcommon as hc
from spec import streebog as ref

ENCODED = 'r_50_1_113_2016 (new, R5011132016: all methods), gost_34_11_2012, utils.add_xor'
BOUNDS = {
    'quick': 'all keys and contents; every division of selected lengths up to 130 bytes into two '
             'pieces and boundary divisions into three; every schedule of 3 operations out of '
             'update (4 lengths), digest, hexdigest, copy and reset on two objects; the '
             'compression function abstracted',
    'thorough': 'all keys and contents; every division of 0..140 bytes into two pieces and '
                'boundary divisions into three; every schedule of 5 operations; the compression '
                'function abstracted, histories with the real one',
}
ASSUMPTIONS = ('The compression function is replaced by an uninterpreted function when the '
               'implementation has a method _hash_g(h, n, m) that agrees with it; P10 decides '
               'the real one.',)
NAME = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}


def _model(env, size, klen, free=0):
    key = env.bytearray('key', klen)

    def make(data):
        if data is None:
            return gostcrypto.gosthmac.new(NAME[size], key)
        return gostcrypto.gosthmac.new(NAME[size], key, data=data)
    return hc.Model(env, size, make, lambda d: ref.hmac(key, d, size), free)


def history(env, size, klen, ops, real=False):
    with hc.Abstract(env, not real):
        m = _model(env, size, klen)
        for op in ops:
            m.run(op)
        m.finish()


def divisions(env, size, klen, n, ways):
    """Divisions of one message."""
    with hc.Abstract(env):
        key, data = env.bytearray('key', klen), env.bytearray('m', n)
        got = []
        for k, cuts in enumerate(ways):
            pos = 0
            h = None
            for c in cuts:
                part = data[pos:pos + c]
                pos += c
                if h is None and k % 2:
                    h = gostcrypto.gosthmac.new(NAME[size], key, data=part)
                    continue
                if h is None:
                    h = gostcrypto.gosthmac.new(NAME[size], key)
                h.update(part)
            h.update(data[pos:])
            got.append((cuts, h.digest()))
        want = ref.hmac(key, data, size)
        for cuts, g in got:
            env.eq('HMAC of a message divided as %s' % cuts, g, want)


MENU = [['u', 0, 1], ['u', 0, 63], ['u', 0, 64], ['u', 1, 65], ['d', 0], ['h', 0], ['c', 0, 1],
        ['c', 1, 0], ['r', 0], ['u', 0, 0]]


def schedules(env, size, first, steps):
    with hc.Abstract(env):
        m = _model(env, size, 20, 2)
        hc.schedule(env, m, [['new', 0, 0], ['new', 1, 1]] + [MENU[i] for i in first], MENU, steps)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for size in (64, 32):
        for n in range(0, 141 if big else 131):
            if not big and n not in (0, 1, 2, 5, 63, 64, 65, 128, 130):
                continue
            ways = [[i] for i in range(0, n + 1)]
            if not big and n > 5:
                ways = [w for w in ways if w[0] % 64 in (0, 1, 2, 31, 62, 63) or
                        (n - w[0]) % 64 in (0, 1, 63)]
            if n in (64, 65, 128, 129) and (size == 64 or big):
                ways += [[a, b] for a in (0, 1, 63, 64, 65) for b in (0, 1, 63, 64) if a + b <= n]
            for k in range(0, len(ways), 30):
                out.append(('divisions', {'size': size, 'klen': (n * 7 + k) % 65, 'n': n,
                                          'ways': ways[k:k + 30]}))
        for a in range(len(MENU)):
            if big:
                for b in range(len(MENU)):
                    out.append(('schedules', {'size': size, 'first': [a, b], 'steps': 3}))
            else:
                out.append(('schedules', {'size': size, 'first': [a], 'steps': 2}))
        hist = [[['new', 0, 3], ['u', 0, 64], ['d', 0], ['u', 0, 2]],
                [['new', 0, 0], ['u', 0, 5], ['c', 0, 1], ['u', 1, 64], ['r', 0], ['u', 0, 4]]]
        for h in hist:
            out.append(('history', {'size': size, 'klen': 32, 'ops': h}))
            if big:
                out.append(('history', {'size': size, 'klen': 32, 'ops': h, 'real': True}))
    return out
