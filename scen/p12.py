"""HMAC values."""
import gostcrypto
from scen import hashcommon as hc
from spec import streebog as ref

ENCODED = 'r_50_1_113_2016 (new, R5011132016: all methods), gost_34_11_2012, utils.add_xor'
BOUNDS = {
    'quick': 'all keys of every length 0..64 and all contents of messages up to 130 bytes '
             '(selected lengths), with the compression function abstracted; two with the real '
             'one; keys of 65..200 bytes refused',
    'thorough': 'all keys of every length 0..64 combined with all contents of messages up to 200 '
                'bytes, with the compression function abstracted; several with the real one; '
                'keys of 65..600 bytes refused',
}
ASSUMPTIONS = ('The compression function is replaced by an uninterpreted function when the '
               'implementation has a method _hash_g(h, n, m) that agrees with it; P10 decides '
               'the real one.',)
NAME = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}


def value(env, size, keys, n, via, kind='bytearray', real=False):
    """HMAC of one message under keys of several lengths."""
    with hc.Abstract(env, not real):
        make = getattr(env, kind)
        data = make('m', n)
        for k in keys:
            key = make('key%d' % k, k)
            if via == 'new' and n:
                h = gostcrypto.gosthmac.new(NAME[size], key, data=data)
            else:
                h = gostcrypto.gosthmac.new(NAME[size], key)
                if via != 'none':
                    h.update(data)
            got, hexa, again = h.digest(), h.hexdigest(), h.digest()
            want = ref.hmac(key, data, size)
            env.eq('HMAC with a key of %d bytes' % k, got, want)
            env.eq('hexadecimal HMAC', hexa, want.hex())
            env.eq('second reading', again, want)
            env.eq('digest size', h.digest_size, size)
            env.eq('block size', h.block_size, 64)
            env.eq('name', h.name, NAME[size])


def refused(env, size, lens):
    for k in lens:
        for make in (env.bytes, env.bytearray):
            key = make('key', k)
            env.raises('key of %d bytes' % k, gostcrypto.gosthmac.GOSTHMACError,
                       lambda: gostcrypto.gosthmac.new(NAME[size], key))


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for size in (32, 64):
        for n in range(0, 201 if big else 131):
            if not big and n > 9 and n % 64 not in (0, 1, 2, 31, 62, 63):
                continue
            keys = [(n * 3 + i * 13) % 65 for i in range(5)] if not big else list(range(65))
            for k in range(0, len(keys), 13):
                out.append(('value', {'size': size, 'keys': keys[k:k + 13], 'n': n,
                                      'via': ('update', 'new')[n % 2],
                                      'kind': 'bytes' if n % 3 == 1 else 'bytearray'}))
        for k in range(0, 65, 5):
            out.append(('value', {'size': size, 'keys': list(range(k, k + 5)), 'n': 20,
                                  'via': 'update'}))
        out.append(('value', {'size': size, 'keys': [0, 1, 32, 63, 64], 'n': 0, 'via': 'none'}))
        out.append(('value', {'size': size, 'keys': [32], 'n': 40, 'via': 'update',
                              'real': True}))
        if big:
            for k, n in ((64, 0), (64, 64), (0, 3), (63, 130)):
                out.append(('value', {'size': size, 'keys': [k], 'n': n, 'via': 'update',
                                      'real': True}))
        lens = [65, 66, 96, 127, 128, 129, 200] + ([256, 600] if big else [])
        out.append(('refused', {'size': size, 'lens': lens}))
    return out
