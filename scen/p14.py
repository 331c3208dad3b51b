"""PBKDF2 of R 50.1.111-2016."""
import gostcrypto
from scen import hashcommon as hc
from spec import streebog as ref

ENCODED = ('r_50_1_111_2016 (new, R5011112016: all methods), r_50_1_113_2016, gost_34_11_2012, '
           'utils.add_xor, int_to_bytearray, zero_fill')
BOUNDS = {
    'quick': 'all password and salt contents; password lengths 0..64 (selected), salt lengths '
             '1..130 (selected), counts 1..5, output lengths 0..200 (selected), every sequence of '
             '2 derivations out of 6 (binary or hexadecimal) on one object; block numbers up to '
             '5; compression abstracted',
    'thorough': 'all password and salt contents; every password length 0..64, every salt length '
                '1..130, counts 1..12, output lengths 0..330, every sequence of 4 derivations '
                'out of 6; block numbers up to 20; compression abstracted',
}
ASSUMPTIONS = ('The compression function is replaced by an uninterpreted function when the '
               'implementation has a method _hash_g(h, n, m) that agrees with it; P10 decides '
               'the real one.',)


def _new(password, salt, count):
    kw = {}
    if salt is not None:
        kw['salt'] = salt
    if count is not None:
        kw['counter'] = count
    return gostcrypto.gostpbkdf.new(password, **kw)


def _secrets(env, plen, slen, kind):
    mk = env.bytes if kind == 'bytes' else env.bytearray
    return mk('pw', plen), (mk('salt', slen) if slen is not None else None)


def derive(env, plen, slen, count, lengths, kind='bytearray'):
    """Derivations of the given lengths (negative: hexadecimal) from one object."""
    with hc.Abstract(env):
        pw, salt = _secrets(env, plen, slen, kind)
        env.randomness('ur')
        obj = _new(pw, salt, count)
        kept = obj.salt
        got = [obj.hexderive(-n) if n < 0 else obj.derive(n) for n in lengths]
        after = obj.salt
        if salt is None:
            env.eq('length of the generated salt', len(kept), 32)
            s = bytes(kept)
            env.eq('generated salt is the random value', s, env.bytes('ur0', 32))
        else:
            s = bytes(salt)
            env.eq('reported salt', kept, s)
        env.eq('salt after derivation', after, s)
        want = ref.pbkdf2(pw, s, 1000 if count is None else count,
                          max([abs(n) for n in lengths]))
        for i, n in enumerate(lengths):
            env.eq('derived key %d (%d bytes)' % (i, abs(n)), got[i],
                   want[:-n].hex() if n < 0 else want[:n])


LENGTHS = [0, 1, 64, -65, -20, 130]


def sequences(env, first, steps):
    """Every sequence of derivations on one object."""
    with hc.Abstract(env):
        pw, salt = _secrets(env, 9, 7, 'bytearray')
        obj = _new(pw, salt, 2)
        got = []
        for i in range(steps):
            n = LENGTHS[first if i == 0 else env.choice('n%d' % i, len(LENGTHS))]
            got.append((n, obj.hexderive(-n) if n < 0 else obj.derive(n)))
        want = ref.pbkdf2(pw, salt, 2, max([abs(n) for n, _ in got]))
        for n, g in got:
            env.eq('derived key of %d bytes' % abs(n), g, want[:-n].hex() if n < 0 else want[:n])


def interleaved(env, swap):
    """Two objects used in turn."""
    with hc.Abstract(env):
        p = [env.bytearray('p%d' % i, 5 + 59 * i) for i in range(2)]
        s = [env.bytearray('s%d' % i, 8) for i in range(2)]
        c = [3, 2]
        a = _new(bytearray(p[0]), s[0], c[0])
        b = _new(bytearray(p[1]), s[1], c[1])
        got = [[], []]
        for k in (0, 1, 1, 0) if swap else (0, 1, 0, 1):
            got[k].append((a, b)[k].derive(70))
        for k in range(2):
            want = ref.pbkdf2(p[k], s[k], c[k], 70)
            for g in got[k]:
                env.eq('derived key of object %d' % k, g, want)


def long(env, n, count):
    """Many blocks, for a fixed password and salt."""
    with hc.Abstract(env, fast=True):
        pw, salt = bytearray(b'password'), bytearray(b'salt')
        got = bytes(_new(bytearray(pw), bytearray(salt), count).derive(n))
        want = bytes(ref.pbkdf2(pw, salt, count, n))
        env.true('derived key of %d bytes' % n, got == want)


def block(env, bits):
    """The block of any number, when the block function can be called on its own."""
    with hc.Abstract(env):
        pw, salt = env.bytearray('pw', 11), env.bytearray('salt', 5)
        obj = _new(bytearray(pw), salt, 2)
        if not isinstance(getattr(obj, '_counter', None), int) or not hasattr(obj, '_f'):
            return
        full = bytes(obj.derive(130))
        for i in (1, 2):
            obj._counter = i
            if bytes(obj._f()) != full[64 * i - 64:64 * i]:
                return
        i = env.int('i', 1, (1 << bits) - 1)
        obj._counter = i
        got = obj._f()
        u = ref.hmac(pw, bytes(salt) + i.to_bytes(4, 'big'), 64)
        t = bytes([x ^ y for x, y in zip(u, ref.hmac(pw, u, 64))])
        env.eq('block of any number', got, t)


def limits(env, lo, hi):
    """Lengths above the documented maximum are refused before anything is computed."""
    n = env.int('n', lo, hi)
    obj = _new(bytearray(b'pass'), bytearray(b'salt'), 1)
    err = gostcrypto.gostpbkdf.GOSTPBKDFError
    env.raises('too long', err, lambda: obj.derive(n))
    env.raises('too long, hexadecimal', err, lambda: obj.hexderive(n))


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    pls = range(65) if big else (0, 1, 2, 31, 32, 33, 62, 63, 64)
    for i, n in enumerate(pls):
        out.append(('derive', {'plen': n, 'slen': 1 + (n * 13) % 40, 'count': 1 + n % 3,
                               'lengths': [1 + (n * 17) % 70, -64],
                               'kind': ('bytearray', 'bytes')[i % 2]}))
    for n in range(1, 131) if big else (1, 4, 8, 32, 59, 60, 61, 63, 64, 65, 124, 130):
        out.append(('derive', {'plen': 12, 'slen': n, 'count': 2, 'lengths': [64, 3],
                               'kind': ('bytearray', 'bytes')[n % 2]}))
    for c in range(1, 13) if big else range(1, 6):
        out.append(('derive', {'plen': 10, 'slen': 6, 'count': c, 'lengths': [65]}))
    for n in range(0, 331, 1) if big else (0, 1, 2, 63, 64, 65, 127, 128, 129, 192, 200):
        out.append(('derive', {'plen': 8, 'slen': 9, 'count': 1, 'lengths': [n, -n, n]}))
    out.append(('derive', {'plen': 8, 'slen': 9, 'count': 1 if not big else 2,
                           'lengths': [1300 if big else 260]}))
    for n in (16, 64, 100):
        out.append(('derive', {'plen': 8, 'slen': None, 'count': 2, 'lengths': [n, -n]}))
    if big:
        out.append(('derive', {'plen': 4, 'slen': 4, 'count': None, 'lengths': [8]}))
    for f in range(len(LENGTHS)):
        out.append(('sequences', {'first': f, 'steps': 4 if big else 2}))
    out.append(('long', {'n': 257 * 64 + 3, 'count': 1}))
    for b in (8, 32):
        out.append(('block', {'bits': b}))
    if big:
        out.append(('long', {'n': 70, 'count': 1000}))
        out.append(('long', {'n': 520 * 64, 'count': 2}))
    for s in (False, True):
        out.append(('interleaved', {'swap': s}))
    top = (2 ** 32 - 1) * 64
    out.append(('limits', {'lo': top + 1, 'hi': top + 2 ** 40}))
    return out
