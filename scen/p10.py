"""Streebog hash values."""
import gostcrypto
from spec import streebog as ref

ENCODED = 'gost_34_11_2012 (new, GOST34112012: all methods), utils.add_xor'
BOUNDS = {
    'quick': 'all contents for selected lengths up to 192 (0, 2, 3, 5, 8, 13, 31, 32, 55-57, 62-66, 72, 100, 119-129, 191, 192); '
             'inductive step: every chaining value, bit count and checksum before up to one '
             'block and an incomplete block; messages of 130 blocks with a symbolic end',
    'thorough': 'all contents for every length 0..200; inductive step from every chaining value, '
                'bit count, checksum and buffer length; messages of 4000 blocks with a symbolic '
                'end',
}
ASSUMPTIONS = ('The inductive step sets the state attributes named in the repository\'s own tests '
               '(_hash_h, _hash_n, _hash_sigma, _buff); it is skipped when they do not exist.',)
NAME = {64: 'streebog512', 32: 'streebog256'}


def value(env, size, n, via, prefix=0, kind='bytearray'):
    """The hash of one message."""
    data = bytes([(x * 11 + (x >> 7)) & 255 for x in range(prefix)])
    data = (bytes if kind == 'bytes' else bytearray)(data) + getattr(env, kind)('m', n)
    if via == 'new':
        h = gostcrypto.gosthash.new(NAME[size], data=data)
    else:
        h = gostcrypto.gosthash.new(NAME[size])
        if via == 'update':
            h.update(data)
    got, hexa = h.digest(), h.hexdigest()
    want = ref.streebog(data, size)
    env.eq('hash value', got, want)
    env.eq('hexadecimal hash value', hexa, want.hex())
    env.eq('digest size', h.digest_size, size)
    env.eq('block size', h.block_size, 64)
    env.eq('name', h.name, NAME[size])


def step(env, size, have, n, free='hns'):
    """From any state (h, N, Sigma) and buffer, one update and the final value."""
    obj = gostcrypto.gosthash.new(NAME[size])
    names = {'h': '_hash_h', 'n': '_hash_n', 's': '_hash_sigma', 'b': '_buff'}
    for a in names.values():
        if not isinstance(getattr(obj, a, None), (bytes, bytearray)):
            env.observe('no state attribute', 1)
            return
    st = ref.State(size)
    for c in free:
        v = env.bytearray(c, 64)
        setattr(obj, names[c], bytearray(v))
        setattr(st, {'h': 'h', 'n': 'n', 's': 'sigma'}[c], list(v))
    buf, data = env.bytearray('b', have), env.bytearray('m', n)
    obj._buff = bytearray(buf)
    obj.update(data)
    got = obj.digest()
    left = bytes(buf) + bytes(data)
    while len(left) >= 64:
        st.block(list(left[:64]), 512)
        left = left[64:]
    env.eq('chaining value after update', bytes(obj._hash_h), bytes(st.h))
    env.eq('bit count after update', bytes(obj._hash_n), bytes(st.n))
    env.eq('checksum after update', bytes(obj._hash_sigma), bytes(st.sigma))
    env.eq('pending bytes after update', bytes(obj._buff), left)
    env.eq('hash value', got, st.finish(left))


def scenarios(tier):
    big = tier == 'thorough'
    if big:
        lens = list(range(0, 201))
    else:
        lens = [0, 2, 3, 5, 8, 13, 31, 32, 55, 56, 57, 62, 63, 64, 65, 66, 72, 100, 119, 120,
                                     127, 128, 129, 191, 192]
    out = []
    for size in (64, 32):
        out.append(('value', {'size': size, 'n': 0, 'via': 'none'}))
        for n in lens:
            out.append(('value', {'size': size, 'n': n, 'via': ('update', 'new')[n % 2],
                                  'kind': 'bytes' if n % 5 == 2 else 'bytearray'}))
        if big:
            pairs = [(h, n) for h in range(0, 64, 3) for n in
                     sorted({0, 1, 63 - h, 64 - h, 65 - h, 128 - h} - {-1})]
        else:
            pairs = [(0, 0), (0, 64), (5, 59), (63, 1), (63, 2), (30, 10), (1, 127)]
        for h, n in pairs:
            out.append(('step', {'size': size, 'have': h, 'n': n}))
        for n in ((130, 300, 4000) if big else (130,)):
            out.append(('value', {'size': size, 'n': 66, 'via': 'update', 'prefix': 64 * n - 1}))
    return out
