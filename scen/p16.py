"""Refusals and resets of the random generator."""
import gostcrypto
from scen import hashcommon as hc
from scen.p15 import expected

G = gostcrypto.gostrandom
ERR = G.GOSTRandomError
ENCODED = ('r_1323565_1_006_2017 (new, R132356510062017: all methods), gost_34_11_2012, '
           'utils.bytearray_to_int, int_to_bytearray, zero_fill, check_value')
BOUNDS = {
    'quick': 'all seed contents (zero included) of 32, 40 and 48 bytes; seed lengths 1..130 and '
             'wrong types; every schedule of 3 operations out of 5 (request, reset with a seed, '
             'reset with a zero seed, reset with a bad seed, reset without one); all counter '
             'values near the end when the state can be set; compression abstracted',
    'thorough': 'as quick, with every schedule of 5 operations, and more request sizes',
}
ASSUMPTIONS = ('The compression function is replaced by an uninterpreted function when the '
               'implementation has a method _hash_g(h, n, m) that agrees with it; P10 decides '
               'the real one.',)


def zero(env, seed, size, how):
    """Exactly the zero seed is refused when output is requested."""
    with hc.Abstract(env):
        k = env.bytearray('k', seed)
        if how == 'new':
            g = G.new(size, rand_k=k, size_s=seed)
        elif how == 'bytes':
            g = G.new(size, rand_k=bytes(k), size_s=seed)
        elif how == 'system':
            env.randomness('ur')
            g = G.new(size, size_s=seed)
            k = env.bytes('ur0', seed)
        elif how == 'reset-system':
            env.randomness('ur')
            g = G.new(size, size_s=seed)
            env.bytes('ur0', seed)
            g.reset()
            k = env.bytes('ur1', seed)
        else:
            g = G.new(size, rand_k=bytearray(range(5, 5 + seed)), size_s=seed)
            g.reset(k)
        if k == bytes(seed):
            env.raises('zero seed refused', ERR, g.random)
            env.raises('zero seed refused again', ERR, g.random)
        else:
            got = g.random()
            env.eq('output for a seed that is not zero', got,
                   expected(bytes(k) + bytes(63 - seed), size, 1)[0])


WRONG = {'str': 'x' * 48, 'none': None, 'int': 5, 'list': [1] * 48, 'tuple': (1,) * 48}


def bad_seed(env, seed, n, how):
    """A seed of the wrong length (n bytes) is refused at once."""
    k = getattr(env, how)('k', n)
    env.raises('creation with a seed of %d bytes' % n, ERR,
               lambda: G.new(10, rand_k=k, size_s=seed))
    g = G.new(10, rand_k=bytearray(range(1, seed + 1)), size_s=seed)
    env.raises('reset with a seed of %d bytes' % n, ERR, lambda: g.reset(k))


def bad_type(env, seed, kind):
    v = WRONG[kind]
    if isinstance(v, (str, list, tuple)):
        v = v[:seed]
    env.raises('creation with a seed that is not bytes', ERR,
               lambda: G.new(10, rand_k=v, size_s=seed))
    g = G.new(10, rand_k=bytearray(range(1, seed + 1)), size_s=seed)
    env.raises('reset with a seed that is not bytes', ERR, lambda: g.reset(v))


def schedules(env, seed, size, first, steps):
    """Every sequence of requests and resets; ends with a request."""
    with hc.Abstract(env):
        k = env.bytearray('k', seed)
        env.assume(k != bytes(seed))
        g = G.new(size, rand_k=k, size_s=seed)
        cur, used, n = bytes(k), 0, 0
        env.randomness('ur')
        nur = 0
        done = []

        def request():
            if cur == bytes(seed):
                env.raises('zero seed refused', ERR, g.random)
            else:
                done.append((g.random(), cur, used))
        for s in range(steps + len(first) + 1):
            last = s == steps + len(first)
            op = 0 if last else first[s] if s < len(first) else env.choice('o%d' % s, 5)
            if op == 0:
                request()
                used += 1
            elif op == 1:
                n += 1
                k = env.bytearray('k%d' % n, seed)
                env.assume(k != bytes(seed))
                g.reset(k)
                cur, used = bytes(k), 0
            elif op == 2:
                g.reset(bytearray(seed))
                cur, used = bytes(seed), 0
            elif op == 3:
                env.raises('bad seed refused', ERR, lambda: g.reset(bytearray(seed + 1)))
            else:
                g.reset()
                cur, used = env.bytes('ur%d' % nur, seed), 0
                env.assume(cur != bytes(seed))
                nur += 1
        memo = []
        for i, (got, c, u) in enumerate(done):
            want = None
            for c2, w in memo:
                if c2 is c:
                    want = w
            if want is None:
                want = expected(c + bytes(63 - seed), size, len(done))
                memo.append((c, want))
            env.eq('request %d' % i, got, want[u])


def system(env, seed, kind):
    """The system generator is asked for exactly the seed size."""
    env.randomness('ur')
    with hc.Abstract(env):
        if kind == 'new':
            g = G.new(33, size_s=seed) if seed != 48 else G.new(33)
            k = env.bytes('ur0', seed)
        else:
            g = G.new(33, rand_k=bytearray(range(3, 3 + seed)), size_s=seed)
            g.random()
            g.reset()
            k = env.bytes('ur0', seed)
        env.assume(k != bytes(seed))
        env.eq('output for a system seed', g.random(), expected(k + bytes(63 - seed), 33, 1)[0])


def exhausted(env, seed, size, span):
    """The counter near its last value."""
    top = 256 ** (63 - seed) - 1
    with hc.Abstract(env):
        k = env.bytearray('k', seed)
        env.assume(k != bytes(seed))
        g = G.new(size, rand_k=bytearray(k), size_s=seed)
        u = getattr(g, '_rand_u', None)
        if not isinstance(u, (bytes, bytearray)) or bytes(u) != bytes(k) + bytes(63 - seed):
            return
        left = env.choice('left', span)
        state = bytes(k) + (top - left).to_bytes(63 - seed, 'big')
        g._rand_u = bytearray(state)
        per = (size + 63) // 64
        got = []
        for _ in range(span + 1):
            if (len(got) + 1) * per <= left:
                got.append(g.random())
            else:
                break
        for i, e in enumerate(expected(state, size, len(got))):
            env.eq('request %d before the end' % i, got[i], e)
        if per:
            env.raises('request beyond the last counter value', ERR, g.random)
            bad = getattr(g, '_rand_u', None)
            if isinstance(bad, (bytes, bytearray)):
                env.eq('seed erased', bytes(bad)[:seed], bytes(seed))
            env.raises('still refused', ERR, g.random)
            k2 = env.bytearray('k2', seed)
            env.assume(k2 != bytes(seed))
            g.reset(k2)
            env.eq('reset after exhaustion', g.random(),
                   expected(bytes(k2) + bytes(63 - seed), size, 1)[0])


def any_counter(env, seed):
    """From any counter value one block is available exactly when it is not the last value."""
    with hc.Abstract(env):
        k, c = env.bytearray('k', seed), env.bytearray('c', 63 - seed)
        env.assume(k != bytes(seed))
        g = G.new(64, rand_k=bytearray(k), size_s=seed)
        u = getattr(g, '_rand_u', None)
        if not isinstance(u, (bytes, bytearray)) or bytes(u) != bytes(k) + bytes(63 - seed):
            return
        g._rand_u = k + c
        if c == b'\xff' * (63 - seed):
            env.raises('last counter value', ERR, g.random)
        else:
            env.eq('output', g.random(), expected(bytes(k) + bytes(c), 64, 1)[0])


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for seed in (32, 40, 48):
        for how in ('new', 'bytes', 'reset', 'system', 'reset-system'):
            for size in (1, 64, 65, 0) if big or how == 'new' else (20,):
                if size or how != 'new':
                    out.append(('zero', {'seed': seed, 'size': size, 'how': how}))
        for n in range(1, 131):
            if n != seed and (big or n in (1, 31, 32, 33, 39, 40, 41, 47, 48, 49, 63, 64, 128)):
                for how in ('bytearray', 'bytes') if big or n in (40, 64) else ('bytearray',):
                    out.append(('bad_seed', {'seed': seed, 'n': n, 'how': how}))
        for kind in WRONG:
            out.append(('bad_type', {'seed': seed, 'kind': kind}))
        for first in range(5):
            for size in (1, 64, 65, 100) if big else (65,):
                if big:
                    for b in range(5):
                        out.append(('schedules', {'seed': seed, 'size': size,
                                                  'first': [first, b], 'steps': 3}))
                else:
                    out.append(('schedules', {'seed': seed, 'size': size, 'first': [first],
                                              'steps': 2}))
        for kind in ('new', 'reset'):
            out.append(('system', {'seed': seed, 'kind': kind}))
        for size in (64, 1, 65, 130):
            out.append(('exhausted', {'seed': seed, 'size': size, 'span': 8 if big else 4}))
        out.append(('any_counter', {'seed': seed}))
    return out
