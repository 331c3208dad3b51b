"""CTR mode."""
from scen.modescommon import calls, roundtrip, build, make   # noqa: F401
from spec import modes

ENCODED = ('gost_34_13_2015: new and the ctr class with its base classes, gost_34_12_2015 ciphers, '
           'utils')
BOUNDS = {
    'quick': 'all keys, vectors and data contents; every length 0..2 blocks+1 (Kuznyechik above '
             'one block: lengths near block boundaries), sequences of up to 5 calls; every '
             'counter value as the state before a call of up to 2 blocks; one longer message '
             'of 300 blocks with a fixed key',
    'thorough': 'all keys, vectors and data contents; every length 0..6 blocks+1, sequences of '
                'up to 6 calls; every counter value as the state before a call of up to 4 '
                'blocks; messages of up to 1000 blocks with a fixed key',
}
ASSUMPTIONS = ('The scenarios that start from an arbitrary counter put it in the attribute that '
               'holds the exposed counter value; they are skipped when there is none.',)


def counter(env, alg, ops, fixed_key=True):
    """Any counter value as the state before the calls."""
    bs = modes.SIZES[alg]
    key = bytearray(range(1, 33)) if fixed_key else env.bytearray('key', 32)
    obj = make('ctr', alg, key, bytearray(range(bs // 2)))
    now = bytes(obj.counter)
    names = [k for k, v in vars(obj).items()
             if isinstance(v, (bytes, bytearray)) and len(v) == bs and bytes(v) == now]
    ints = [k for k, v in vars(obj).items()
            if isinstance(v, int) and v == int.from_bytes(now, 'big')]
    if len(names) + len(ints) != 1:
        env.observe('no counter attribute', 1)
        return
    ctr = env.bytearray('ctr', bs)
    if names:
        setattr(obj, names[0], bytearray(ctr))
    else:
        setattr(obj, ints[0], int.from_bytes(ctr, 'big'))
    data = [env.bytearray('d%d' % i, n) for i, n in enumerate(ops)]
    got = []
    for d in data:
        got.append((obj.encrypt(d), bytes(obj.counter)))
    ref = modes.Counter(alg, key, bytes(bs // 2))
    ref.ctr = bytes(ctr)
    for i, d in enumerate(data):
        env.eq('output %d' % i, got[i][0], ref.crypt(d))
        env.eq('counter after call %d' % i, got[i][1], ref.ctr)


def long(env, alg, n, parts=1):
    """Long messages: fixed key and vector, symbolic data."""
    bs = modes.SIZES[alg]
    key, iv = bytearray(range(11, 43)), bytearray(range(50, 50 + bs // 2))
    data = env.bytearray('d', n)
    obj = make('ctr', alg, key, iv)
    out, step = b'', (n // parts) // bs * bs
    for i in range(parts):
        out = out + bytes(obj.encrypt(data[i * step:(i + 1) * step if i + 1 < parts else n]))
    last = bytes(obj.counter)
    ref = modes.Counter(alg, key, iv)
    env.eq('output', out, ref.crypt(data))
    env.eq('counter', last, ref.ctr)


def scenarios(tier):
    out = build('ctr', tier)
    big = tier == 'thorough'
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        for ops in [[2 * bs], [1, 1], [bs + 1]] + ([[4 * bs], [bs, 1, bs, 1]] if big else []):
            out.append(('counter', {'alg': alg, 'ops': list(ops)}))
        out.append(('counter', {'alg': alg, 'ops': [bs], 'fixed_key': False}))
        out.append(('long', {'alg': alg, 'n': 300 * bs + 3}))
        out.append(('long', {'alg': alg, 'n': 262 * bs, 'parts': 4}))
        if big:
            out.append(('long', {'alg': alg, 'n': 700 * bs + 1}))
    return out
