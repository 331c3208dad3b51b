"""Streebog call histories."""
import gostcrypto
from scen import hashcommon as hc
from spec import streebog as ref

ENCODED = 'gost_34_11_2012 (new, GOST34112012: all methods), utils.add_xor'
BOUNDS = {
    'quick': 'all contents; every division of 0..66 bytes into two pieces, boundary '
             'divisions of up to 200 bytes into two, three and four; every schedule of 3 '
             'operations out of update (4 '
             'lengths), digest, hexdigest, copy and reset on two objects; the compression '
             'function abstracted as an uninterpreted function, a few histories with the '
             'real one',
    'thorough': 'all contents; every division of 0..400 bytes into two pieces, of up to 140 '
                'bytes into three; every schedule of 5 operations; the compression function '
                'abstracted, more histories with the real one',
}
ASSUMPTIONS = ('The compression function is replaced by an uninterpreted function when the '
               'implementation has a method _hash_g(h, n, m) that agrees with it; P10 decides '
               'the real one.',)


def _model(env, size, free=0):
    def make(data):
        if data is None:
            return gostcrypto.gosthash.new(hc.NAME[size])
        return gostcrypto.gosthash.new(hc.NAME[size], data=data)
    return hc.Model(env, size, make, lambda d: ref.streebog(d, size), free)


def history(env, size, ops, real=False, free=0):
    with hc.Abstract(env, not real):
        m = _model(env, size, free)
        for op in ops:
            m.run(op)
        m.finish()


def divisions(env, size, n, ways):
    """Divisions of one message."""
    with hc.Abstract(env):
        data = env.bytearray('m', n)
        got = []
        for k, cuts in enumerate(ways):
            pos = 0
            h = None
            for c in cuts:
                part = data[pos:pos + c]
                pos += c
                if h is None and k % 2:
                    h = gostcrypto.gosthash.new(hc.NAME[size], data=part)
                    continue
                if h is None:
                    h = gostcrypto.gosthash.new(hc.NAME[size])
                h.update(part)
            h.update(data[pos:])
            got.append((cuts, h.digest()))
        want = ref.streebog(data, size)
        for cuts, g in got:
            env.eq('hash of a message divided as %s' % cuts, g, want)


MENU = [['u', 0, 1], ['u', 0, 63], ['u', 0, 64], ['u', 1, 65], ['d', 0], ['h', 0], ['c', 0, 1],
        ['c', 1, 0], ['r', 0]]


def schedules(env, size, first, steps):
    with hc.Abstract(env):
        m = _model(env, size, 2)
        hc.schedule(env, m, [['new', 0, 0], ['new', 1, 1]] + [MENU[i] for i in first], MENU, steps)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for size in (64, 32):
        for n in range(0, 401 if big else 201):
            if not big and n > (66 if size == 64 else 3) and n % 64 not in (0, 1, 2, 30, 62, 63):
                continue
            ways = [[i] for i in range(0, n + 1)]
            if not big and n > 66:
                ways = [w for w in ways if w[0] % 64 in (0, 1, 2, 31, 62, 63) or
                        (n - w[0]) % 64 in (0, 1, 63)]
            if size == 64 and (big and n <= 140 or n in (64, 65, 126, 128, 129)):
                cut = [0, 1, 31, 32, 33, 63, 64, 65, 127, 128]
                if big:
                    cut = sorted(set(range(0, n + 1, 3)) | set(cut))
                ways += [[a, b] for a in cut for b in cut if a + b <= n]
                ways += [[a, b, c] for a in (0, 1, 63, 64) for b in (0, 1, 63, 64)
                         for c in (0, 1, 63, 64) if a + b + c <= n]
            for k in range(0, len(ways), 60):
                out.append(('divisions', {'size': size, 'n': n, 'ways': ways[k:k + 60]}))
        out.append(('divisions', {'size': size, 'n': 160, 'ways': [[1] * 160, [7] * 22,
                                                                   [0, 64] * 2]}))
        out.append(('divisions', {'size': size, 'n': 300, 'ways': [[65] * 4, [63] * 4]}))
        for a in range(len(MENU)):
            if big:
                for b in range(len(MENU)):
                    out.append(('schedules', {'size': size, 'first': [a, b], 'steps': 3}))
            else:
                out.append(('schedules', {'size': size, 'first': [a], 'steps': 2}))
    hist = [
        [['new', 0, 3], ['u', 0, 64], ['d', 0], ['u', 0, 2]],
        [['new', 0, 0], ['u', 0, 70], ['c', 0, 1], ['u', 0, 1], ['u', 1, 64], ['r', 0]],
    ]
    for size in (64, 32):
        for h in hist:
            out.append(('history', {'size': size, 'ops': h, 'real': True}))
    return out
