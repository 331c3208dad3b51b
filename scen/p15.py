"""Output of the random generator of R 1323565.1.006-2017."""
import gostcrypto
from scen import hashcommon as hc
from spec import streebog as ref

ENCODED = ('r_1323565_1_006_2017 (new, R132356510062017: all methods), gost_34_11_2012, '
           'utils.bytearray_to_int, int_to_bytearray, check_value')
BOUNDS = {
    'quick': 'all seed contents of 32, 40 and 48 bytes; requested sizes 0..200 (selected, 260 '
             'blocks for the counter carry) and 1..4 requests on one object; all counter '
             'values of the next step when the state can be set; compression abstracted',
    'thorough': 'all seed contents of 32, 40 and 48 bytes; every requested size 0..330, up to 8 '
                'requests, 520 blocks; all counter values of the next steps when the state can '
                'be set; compression abstracted',
}
ASSUMPTIONS = ('The compression function is replaced by an uninterpreted function when the '
               'implementation has a method _hash_g(h, n, m) that agrees with it; P10 decides '
               'the real one.',)


def blocks(state, count):
    """Hash values for the counter values after that of state (63 bytes)."""
    out = []
    state = bytes(state)
    for _ in range(count):
        state = (int.from_bytes(state, 'big') + 1).to_bytes(63, 'big')
        out.append(ref.streebog(state, 64))
    return out


def expected(state, size, requests):
    """(values of the successive requests)"""
    per = (size + 63) // 64
    bl = blocks(state, per * requests)
    out = []
    for r in range(requests):
        part = bl[per * r:per * r + per]
        if size % 64:
            part[-1] = part[-1][64 - size % 64:]
        out.append(b''.join(part))
    return out


def output(env, size, seed, requests, kind='bytearray', given=True, real=False):
    """Successive requests on one object; the seed is not zero."""
    with hc.Abstract(env, not real):
        k = getattr(env, kind)('k', seed) if given else None
        if given:
            env.assume(k != bytes(seed))
            g = gostcrypto.gostrandom.new(size, rand_k=k, size_s=seed)
        else:
            env.randomness('ur')
            g = gostcrypto.gostrandom.new(size, size_s=seed)
            k = env.bytes('ur0', seed)
            env.assume(k != bytes(seed))
        got = [g.random() for _ in range(requests)]
        state = bytes(k) + bytes(63 - seed)
        for i, e in enumerate(expected(state, size, requests)):
            env.eq('request %d of %d bytes' % (i, size), got[i], e)


def default_size(env, size):
    """Without a seed size, the seed has 48 bytes."""
    with hc.Abstract(env):
        k = env.bytearray('k', 48)
        env.assume(k != bytes(48))
        g = gostcrypto.gostrandom.new(size, rand_k=k)
        env.eq('default seed size', g.random(), expected(bytes(k) + bytes(15), size, 1)[0])


def long(env, n, seed):
    """Many blocks for a fixed seed."""
    with hc.Abstract(env, fast=True):
        k = bytearray(range(1, seed + 1))
        got = bytes(gostcrypto.gostrandom.new(n, rand_k=k, size_s=seed).random())
        env.true('output of %d bytes' % n,
                 got == bytes(expected(bytes(k) + bytes(63 - seed), n, 1)[0]))


def counters(env, seed, size, requests, carry):
    """The steps from any state, when the object has a state of 63 bytes that starts as the
    seed and counts."""
    with hc.Abstract(env):
        k = env.bytearray('k', seed)
        env.assume(k != bytes(seed))
        g = gostcrypto.gostrandom.new(size, rand_k=bytearray(k), size_s=seed)
        u = getattr(g, '_rand_u', None)
        if not isinstance(u, (bytes, bytearray)) or len(u) != 63:
            return
        if bytes(u) != bytes(k) + bytes(63 - seed):
            return
        c = env.bytearray('c', 63 - seed)
        if carry:
            # the last bytes are such that the carry goes far
            c = c[:63 - seed - carry] + bytearray(b'\xff' * carry)
        per = (size + 63) // 64
        env.assume(int.from_bytes(c, 'big') < 256 ** (63 - seed) - 1 - per * requests)
        g._rand_u = k + c
        got = [g.random() for _ in range(requests)]
        for i, e in enumerate(expected(bytes(k) + bytes(c), size, requests)):
            env.eq('request %d from any counter' % i, got[i], e)


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for seed in (32, 40, 48):
        for n in range(0, 331) if big else (0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 200):
            req = 1 + n % 4 if n < 130 else 1
            out.append(('output', {'size': n, 'seed': seed, 'requests': req,
                                   'kind': ('bytearray', 'bytes')[n % 2]}))
        for n in (16, 64, 70):
            out.append(('output', {'size': n, 'seed': seed, 'requests': 2, 'given': False}))
        out.append(('output', {'size': 64, 'seed': seed, 'requests': 8 if big else 4}))
        out.append(('long', {'n': (520 if big else 260) * 64 + 9, 'seed': seed}))
        for size, req in ((64, 1), (1, 2), (100, 1)):
            out.append(('counters', {'seed': seed, 'size': size, 'requests': req, 'carry': 0}))
        for carry in range(1, 63 - seed):
            if big or carry in (1, 2, 3, 7, 8, 14):
                out.append(('counters', {'seed': seed, 'size': 65, 'requests': 1,
                                         'carry': carry}))
    out.append(('default_size', {'size': 20}))
    if big:
        out.append(('output', {'size': 20, 'seed': 32, 'requests': 1, 'real': True}))
    return out
