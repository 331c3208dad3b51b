"""clear() erases the key, password or seed and what was computed from it at creation.

A place is a path of attributes and indices from the object to a byte string or number.  The
places that hold secret material are found by comparing an object created with the symbolic
secret and one created with a fixed secret; after clear() they must hold zero."""
import gostcrypto
from scen import hashcommon as hc
from scen import modescommon as mc
from spec import modes

ENCODED = ('clear and __init__ of all classes of gost_34_12_2015, gost_34_13_2015, '
           'r_50_1_113_2016, r_50_1_111_2016, r_1323565_1_006_2017; utils.zero_fill; the methods '
           'that use the object in between')
BOUNDS = {
    'quick': 'all keys, passwords and seeds (bytes and bytearray); every mode of both ciphers, '
             'MAC, HMAC (key lengths 1, 32, 63, 64), PBKDF (password lengths 1, 32, 64), random '
             '(every seed size); cleared at once, after use, after a refused call, twice, and by '
             'counter exhaustion; every place reachable through attributes and containers',
    'thorough': 'as quick, with all key lengths 1..64 of HMAC and PBKDF, longer uses, and the real '
                'compression function',
}
ASSUMPTIONS = ('Memory that is no longer reachable from the object is outside the property.',
               'The compression function is uninterpreted where it is only used in between.')
G = gostcrypto
HM = {32: 'HMAC_GOSTR3411_2012_256', 64: 'HMAC_GOSTR3411_2012_512'}


def leaves(obj, path='', seen=None, out=None):
    """{path: byte string or number} of everything reachable from obj."""
    if out is None:
        seen, out = [], {}
    if isinstance(obj, (bytes, bytearray)):
        out[path] = bytes(obj)
        return out
    if isinstance(obj, bool) or obj is None or isinstance(obj, (str, float, type)):
        return out
    if isinstance(obj, int):
        out[path] = obj
        return out
    if any(obj is x for x in seen):
        return out
    seen.append(obj)
    if isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            leaves(v, '%s[%d]' % (path, i), seen, out)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            leaves(v, '%s[%r]' % (path, k), seen, out)
    else:
        names = list(getattr(obj, '__dict__', ()))
        for cls in type(obj).__mro__:
            slots = getattr(cls, '__slots__', ())
            names.extend([slots] if isinstance(slots, str) else slots)
        for n in sorted(set(names)):
            if n in ('oid', '__dict__', '__weakref__'):
                continue
            try:
                v = getattr(obj, n)
            except AttributeError:
                continue
            if not callable(v) or hasattr(v, '__dict__') and not hasattr(v, '__code__'):
                leaves(v, path + '.' + n, seen, out)
    return out


def places(env, obj, other):
    """The paths of obj whose content differs from that of an object with another secret."""
    a, b = leaves(obj), leaves(other)
    out = []
    for p, v in a.items():
        w = b.get(p)
        if env.sym:
            from symx import env as E
            if w is None or E.sx_eq(v, w) is not True:
                out.append(p)
        elif v != w:
            out.append(p)
    return out


def erased(env, obj, where, when):
    now = leaves(obj)
    for p in where:
        v = now.get(p)
        if v is None:
            continue
        if isinstance(v, int):
            env.eq('%s is zero %s' % (p, when), v, 0)
        else:
            env.eq('%s is zero %s' % (p, when), v, bytes(len(v)))


def finish(env, obj, other, use, twice):
    where = places(env, obj, other)
    if use:
        use(obj)
    obj.clear()
    erased(env, obj, where, 'after clear')
    if twice:
        obj.clear()
        erased(env, obj, where, 'after a second clear')


FIXED = [(37 * i + 11) & 255 for i in range(64)]


def cipher(env, alg, mode, nb, pad, kind, use, n=2, twice=False):
    bs = modes.SIZES[alg]
    ivlen = {'ecb': 0, 'ctr': bs // 2}.get(mode, nb * bs)
    key = getattr(env, kind)('key', 32)
    iv = env.bytes('iv', ivlen) if ivlen else None
    d = env.bytearray('d', n * bs)
    obj = mc.make(mode, alg, key, iv, pad)
    other = mc.make(mode, alg, bytes(FIXED[:32]), iv, pad)

    def run(o):
        if use == 'e':
            o.encrypt(d)
        elif use == 'd':
            o.decrypt(d)
        elif use == 'ed':
            o.encrypt(d[:bs])
            o.decrypt(d)
        elif use == 'bad':
            env.raises('data that is not bytes', G.gostcipher.GOSTCipherError,
                       lambda: o.encrypt('text'))
    finish(env, obj, other, run if use else None, twice)


def mac(env, alg, kind, use, twice=False):
    bs = modes.SIZES[alg]
    g = G.gostcipher
    key = getattr(env, kind)('key', 32)
    d = env.bytearray('d', bs + 3)
    obj = g.new(alg, key, g.MODE_MAC)
    other = g.new(alg, bytes(FIXED[:32]), g.MODE_MAC)

    def run(o):
        if 'u' in use:
            o.update(d)
        if 'g' in use:
            o.digest(bs)
        if 'h' in use:
            o.hexdigest(4)
        if 'b' in use:
            env.raises('size 0', g.GOSTCipherError, lambda: o.digest(0))
        if 'x' in use:
            env.raises('data that is not bytes', g.GOSTCipherError, lambda: o.update('text'))
    finish(env, obj, other, run if use else None, twice)


def hmac(env, size, klen, kind, use, twice=False, real=False):
    with hc.Abstract(env, not real):
        key = getattr(env, kind)('key', klen)
        d = env.bytearray('d', 9)
        obj = G.gosthmac.new(HM[size], key)
        other = G.gosthmac.new(HM[size], bytes(FIXED[:klen]))

        def run(o):
            if 'u' in use:
                o.update(d)
            if 'g' in use:
                o.digest()
            if 'c' in use:
                o.copy().clear()
            if 'r' in use:
                o.reset()
        finish(env, obj, other, run if use else None, twice)


def hmac_copy(env, size, klen):
    """A copy is cleared on its own."""
    with hc.Abstract(env):
        key = env.bytes('key', klen)
        obj = G.gosthmac.new(HM[size], key)
        other = G.gosthmac.new(HM[size], bytes(FIXED[:klen]))
        where = places(env, obj, other)
        c = obj.copy()
        c.clear()
        erased(env, c, where, 'in the copy')
        d = env.bytes('d', 3)
        obj.update(d)
        again = G.gosthmac.new(HM[size], key, data=d)
        env.eq('the original goes on', obj.digest(), again.digest())
        obj.clear()
        erased(env, obj, where, 'in the original')


def pbkdf(env, plen, kind, use, twice=False):
    with hc.Abstract(env):
        pw = getattr(env, kind)('pw', plen)
        obj = G.gostpbkdf.new(pw, salt=bytes(7), counter=2)
        other = G.gostpbkdf.new(bytes(FIXED[:plen]), salt=bytes(7), counter=2)
        finish(env, obj, other, (lambda o: o.derive(use)) if use else None, twice)


def rand(env, seed, kind, use, twice=False):
    with hc.Abstract(env):
        k = getattr(env, kind)('k', seed)
        env.assume(k != bytes(seed))
        obj = G.gostrandom.new(70, rand_k=k, size_s=seed)
        other = G.gostrandom.new(70, rand_k=bytes(FIXED[:seed]), size_s=seed)

        def run(o):
            if 'g' in use:
                o.random()
            if 'r' in use:
                o.reset(bytes(FIXED[1:seed + 1]))
                o.random()
                o.reset(k)
            if 'b' in use:
                env.raises('seed of a wrong size', G.gostrandom.GOSTRandomError,
                           lambda: o.reset(bytes(seed + 1)))
        finish(env, obj, other, run if use else None, twice)


def rand_reset(env, seed):
    """The seed of a reset replaces the first one, and is erased as well."""
    with hc.Abstract(env):
        k, k2 = env.bytes('k', seed), env.bytes('k2', seed)
        obj = G.gostrandom.new(70, rand_k=k, size_s=seed)
        where = places(env, obj, G.gostrandom.new(70, rand_k=bytes(FIXED[:seed]), size_s=seed))
        obj.reset(k2)
        obj.clear()
        erased(env, obj, where, 'after reset and clear')


def exhausted(env, seed, size):
    """Output beyond the last counter value erases the seed."""
    with hc.Abstract(env):
        k = env.bytes('k', seed)
        env.assume(k != bytes(seed))
        obj = G.gostrandom.new(size, rand_k=k, size_s=seed)
        where = places(env, obj, G.gostrandom.new(size, rand_k=bytes(FIXED[:seed]), size_s=seed))
        if not isinstance(getattr(obj, '_limit', None), int):
            return
        obj._limit = 1
        try:
            for _ in range(3):
                obj.random()
        except G.gostrandom.GOSTRandomError:
            erased(env, obj, where, 'after exhaustion')


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for alg in ('magma', 'kuznechik'):
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            pad = 1 if mode in ('ecb', 'cbc') else None
            for use in ('', 'e', 'd', 'ed', 'bad'):
                out.append(('cipher', {'alg': alg, 'mode': mode, 'nb': 1, 'pad': pad,
                                       'kind': 'bytes' if use in ('e', '') else 'bytearray',
                                       'use': use, 'twice': use in ('', 'ed')}))
            if deep:
                for use in ('e', 'd', 'ed'):
                    for nb in (1, 2, 3):
                        out.append(('cipher', {'alg': alg, 'mode': mode, 'nb': nb,
                                               'pad': 2 if pad else None, 'kind': 'bytearray',
                                               'use': use, 'n': 4, 'twice': True}))
        for use in ('', 'u', 'ug', 'uhg', 'ub', 'x') + (('gug', 'ugug') if deep else ()):
            for kind in ('bytes', 'bytearray') if use in ('', 'ug') else ('bytearray',):
                out.append(('mac', {'alg': alg, 'kind': kind, 'use': use,
                                    'twice': use in ('', 'ug')}))
    for size in (32, 64):
        for klen in range(1, 65) if deep else (1, 32, 63, 64):
            for use in ('', 'u', 'ug', 'g', 'ugr', 'cu'):
                out.append(('hmac', {'size': size, 'klen': klen, 'use': use,
                                     'kind': 'bytes' if use in ('', 'ug') else 'bytearray',
                                     'twice': use in ('', 'ug')}))
            out.append(('hmac_copy', {'size': size, 'klen': klen}))
    for plen in range(1, 65) if deep else (1, 32, 64):
        for use in (0, 5, 70):
            out.append(('pbkdf', {'plen': plen, 'use': use, 'twice': use != 5,
                                  'kind': 'bytes' if use else 'bytearray'}))
    if deep:
        out.append(('hmac', {'size': 64, 'klen': 32, 'use': 'u', 'kind': 'bytes', 'real': True}))
    for seed in (32, 40, 48):
        for use in ('', 'g', 'grg', 'b'):
            for kind in ('bytes', 'bytearray'):
                out.append(('rand', {'seed': seed, 'kind': kind, 'use': use,
                                     'twice': kind == 'bytes'}))
        out.append(('rand_reset', {'seed': seed}))
        for size in (64, 65, 200, 10):
            out.append(('exhausted', {'seed': seed, 'size': size}))
    return out
