"""What objects report about themselves, and the forms of their results."""
import gostcrypto
from scen import hashcommon as hc
from scen import modescommon as mc
from scen import sigcommon as sc
from spec import modes, oid as oidspec
from spec.oidnames import NAMES

ENCODED = ('gost_34_12_2015, gost_34_13_2015, gost_34_11_2012, r_50_1_113_2016, r_50_1_111_2016, '
           'r_1323565_1_006_2017, gost_34_10_2012 (public methods and properties), oid')
BOUNDS = {
    'quick': 'all keys, vectors, data, passwords and seeds; all schedules of 2 operations (read, '
             'process, copy, reset, clear, refused call) on every kind of object; MAC sizes 1 to '
             'the block size (symbolic); two or three data lengths; every published curve',
    'thorough': 'as quick, schedules of 3 operations',
}
ASSUMPTIONS = 'Hash scenarios use an uninterpreted compression function (as in P11).'
G = gostcrypto
HMAC = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}
OIDS = {'kuznechik': '1.2.643.7.1.1.5.2', 'magma': '1.2.643.7.1.1.5.1',
        ('hash', 32): '1.2.643.7.1.1.2.2', ('hash', 64): '1.2.643.7.1.1.2.3',
        ('hmac', 32): '1.2.643.7.1.1.4.1', ('hmac', 64): '1.2.643.7.1.1.4.2',
        ('sign', 32): '1.2.643.7.1.1.1.1', ('sign', 64): '1.2.643.7.1.1.1.2'}
HEX = '0123456789abcdef'


def identifier(env, when, o, which):
    want = OIDS[which]
    env.eq('identifier ' + when, str(o.oid), want)
    env.eq('its name ' + when, o.oid.name, NAMES[want])
    env.eq('its numbers ' + when, o.oid.digit, tuple(int(x) for x in want.split('.')))
    env.eq('its octets ' + when, bytes(o.oid.octet), bytes(oidspec.der(oidspec.parse(want))))


def hexform(env, when, raw, text):
    """text is the hexadecimal form of raw."""
    env.eq('length of the hexadecimal form ' + when, len(text), 2 * len(raw))
    env.eq('hexadecimal form ' + when, text, bytes(raw).hex())


def cipher(env, alg, mode, pad, steps):
    bs = modes.SIZES[alg]
    iv = None if mode == 'ecb' else env.bytes('iv', bs // 2 if mode == 'ctr' else bs)
    o = mc.make(mode, alg, env.bytes('key', 32), iv, pad)
    data = env.bytes('data', bs)
    for i in range(steps + 1):
        identifier(env, 'at %d' % i, o, alg)
        env.eq('block size at %d' % i, o.block_size, bs)
        if i == steps:
            break
        op = env.choice('op%d' % i, 4)
        if op == 0:
            r = o.encrypt(data)
            env.eq('length of the ciphertext', len(r), bs * (2 if pad == 2 else 1))
        elif op == 1:
            env.eq('length of the plaintext', len(o.decrypt(data)), bs)
        elif op == 2:
            o.clear()
        else:
            env.raises('refused', G.gostcipher.GOSTCipherError, lambda: o.encrypt('text'))


def mac(env, alg, steps):
    bs = modes.SIZES[alg]
    o = G.gostcipher.new(alg, env.bytes('key', 32), G.gostcipher.MODE_MAC)
    data = env.bytes('data', bs + 1)
    for i in range(steps + 1):
        identifier(env, 'at %d' % i, o, alg)
        env.eq('block size at %d' % i, o.block_size, bs)
        if i == steps:
            break
        op = env.choice('op%d' % i, 4)
        if op == 0:
            o.update(data[:3])
        elif op == 1:
            o.update(data)
        elif op == 2:
            o.clear()
        else:
            env.raises('refused', G.gostcipher.GOSTCipherError, lambda: o.digest(bs + 1))


def macs(env, alg):
    bs = modes.SIZES[alg]
    o = G.gostcipher.new(alg, bytes(range(32)), G.gostcipher.MODE_MAC)
    o.update(env.bytes('data', bs + 1))
    full = o.digest(bs)
    env.eq('length of the value', len(full), bs)
    for n in range(1, bs + 1):
        env.eq('value of %d bytes' % n, bytes(o.digest(n)), bytes(full[:n]))
        hexform(env, 'of %d bytes' % n, full[:n], o.hexdigest(n))


def hashes(env, size, steps):
    with hc.Abstract(env):
        o = G.gosthash.new(hc.NAME[size])
        data = env.bytes('data', 65)
        for i in range(steps + 1):
            identifier(env, 'at %d' % i, o, ('hash', size))
            env.eq('name at %d' % i, o.name, hc.NAME[size])
            env.eq('size at %d' % i, o.digest_size, size)
            env.eq('block size at %d' % i, o.block_size, 64)
            if i == steps:
                break
            op = env.choice('op%d' % i, 6)
            if op == 0:
                o.update(data)
            elif op == 1:
                o.update(data[:3])
            elif op == 2:
                o = o.copy()
            elif op == 3:
                o.reset()
            elif op == 4:
                r = o.digest()
                env.eq('length of the hash', len(r), size)
                hexform(env, 'at %d' % i, r, o.hexdigest())
            else:
                env.raises('refused', G.gosthash.GOSTHashError, lambda: o.update(None))
        r = o.digest()
        env.eq('length of the hash', len(r), size)
        hexform(env, 'at the end', r, o.hexdigest())


def hmac(env, size, klen, steps):
    with hc.Abstract(env):
        o = G.gosthmac.new(HMAC[size], env.bytes('key', klen))
        data = env.bytes('data', 65)
        for i in range(steps + 1):
            identifier(env, 'at %d' % i, o, ('hmac', size))
            env.eq('name at %d' % i, o.name, HMAC[size])
            env.eq('size at %d' % i, o.digest_size, size)
            env.eq('block size at %d' % i, o.block_size, 64)
            if i == steps:
                break
            op = env.choice('op%d' % i, 6)
            if op == 0:
                o.update(data)
            elif op == 1:
                o.clear()
            elif op == 2:
                o = o.copy()
            elif op == 3:
                o.reset()
            elif op == 4:
                r = o.digest()
                env.eq('length of the value', len(r), size)
                hexform(env, 'at %d' % i, r, o.hexdigest())
            else:
                env.raises('refused', G.gosthmac.GOSTHMACError, lambda: o.update(None))
        r = o.digest()
        env.eq('length of the value', len(r), size)
        hexform(env, 'at the end', r, o.hexdigest())


def derived(env, n, m):
    """Lengths and the hexadecimal form of derived keys; a short key begins a longer one."""
    with hc.Abstract(env):
        salt = env.bytes('salt', 8)
        o = G.gostpbkdf.new(env.bytes('pw', 9), salt=salt, counter=2)
        a = o.derive(n)
        env.eq('length', len(a), n)
        hexform(env, 'of the derived key', a, o.hexderive(n))
        b = o.derive(m)
        env.eq('length of the other', len(b), m)
        k = min(n, m)
        env.eq('common beginning', bytes(a[:k]), bytes(b[:k]))
        env.eq('salt', bytes(o.salt), bytes(salt))


def rand(env, size, seed):
    with hc.Abstract(env):
        k = env.bytes('k', seed)
        env.assume(k != bytes(seed))
        o = G.gostrandom.new(size, rand_k=k, size_s=seed)
        for i in range(3):
            env.eq('length %d' % i, len(o.random()), size)
            if i == 1:
                o.reset(k)


def signature(env, name, results):
    n = sc.SIZES[name]
    o = sc.make(name)
    identifier(env, 'at first', o, ('sign', n))
    if not results:
        return
    d, e, k = (env.bytes(v, n) for v in 'dek')
    with sc.Abstract(env, name) as ab:
        if not ab.ok:
            return
        try:
            env.eq('length of the public key', len(o.public_key_generate(d)), 2 * n)
        except sc.SE:
            pass
        try:
            env.eq('length of the signature', len(o.sign(d, e, k)), 2 * n)
        except sc.SE:
            pass
        identifier(env, 'at last', o, ('sign', n))


def scenarios(tier):
    deep = tier == 'thorough'
    steps = 3 if deep else 2
    out = []
    for alg, bs in (('magma', 8), ('kuznechik', 16)):
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            for pad in (1, 2) if mode in ('ecb', 'cbc') else (None,):
                out.append(('cipher', {'alg': alg, 'mode': mode, 'pad': pad, 'steps': steps}))
        out.append(('mac', {'alg': alg, 'steps': steps}, {'weight': 20}))
        out.append(('macs', {'alg': alg}))
    for size in (32, 64):
        out.append(('hashes', {'size': size, 'steps': steps}))
        for klen in (0, 5, 64):
            out.append(('hmac', {'size': size, 'klen': klen, 'steps': steps}))
    for n in (1, 63, 64, 65, 130):
        for m in (10, 64, 129):
            out.append(('derived', {'n': n, 'm': m}))
    for size in (1, 63, 64, 65, 200):
        for seed in (32, 40, 48):
            out.append(('rand', {'size': size, 'seed': seed}))
    for name, n in sc.SIZES.items():
        out.append(('signature', {'name': name, 'results': n == 32 and (deep or name[-1] == 'B')},
                    {'weight': n, 'time': 300}))
    return out
