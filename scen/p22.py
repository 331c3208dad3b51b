"""Refusal of malformed object identifiers, and their names."""
import gostcrypto
from spec import oid as ref
from spec.oidnames import NAMES

O = gostcrypto.gostoid.ObjectIdentifier
ERR = gostcrypto.gostoid.GOSTOIDError
ENCODED = 'gostoid.oid (ObjectIdentifier, _encode_octet, registry)'
BOUNDS = {
    'quick': 'all ASCII strings of 0..3 characters; the characters of longer strings around a '
             'symbolic place; characters outside ASCII out of 11 kinds; integers up to 2^70 as '
             'components; names for every registered identifier and every identifier that '
             'differs from one in any single character or in the last components (3 digits)',
    'thorough': 'as quick with strings of 0..5 characters and 2 symbolic places',
}
ASSUMPTIONS = ('The registry is compared with the copy in spec/oidnames.py.',)
ODD = ['\xb2', '\xb9', '\u0663', '\u0967', '\uff10', '\u2460', '\xbd', '\xa0', '\u2003',
       '\u0431', '\U0001d7ce', '\uff0e']


def _check(env, s):
    o = O(s)
    want = ref.parse(s)
    if want is None:
        env.raises('integers refused', ERR, lambda: o.digit)
        env.raises('octets refused', ERR, lambda: o.octet)
    else:
        env.eq('integers', o.digit, want)
        if ref.encodable(want):
            env.eq('octets', o.octet, ref.der(want))
        else:
            env.raises('octets refused', ERR, lambda: o.octet)
    env.eq('text', str(o), s)


def text(env, pattern):
    """Every string of the pattern."""
    _check(env, env.string('s', pattern))


def odd(env, before, after):
    """A character outside ASCII in a given place."""
    _check(env, before + ODD[env.choice('k', len(ODD))] + after)


def components(env, fixed, bits):
    """Components given as integers."""
    class Given(O):
        comps = (1, 2, 3)

        @property
        def digit(self):
            return self.comps
    probe = Given('1.2.3')
    probe.comps = (2, 77, 300)
    try:
        if bytes(probe.octet) != ref.der((2, 77, 300)):
            return
    except Exception:
        return
    comps = list(fixed)
    for i, b in enumerate(bits):
        comps.append(env.int('c%d' % i, 0, (1 << b) - 1))
    o = Given('1.2.3')
    o.comps = tuple(comps)
    if ref.encodable(o.comps):
        env.eq('octets', o.octet, ref.der(o.comps))
    else:
        env.raises('octets refused', ERR, lambda: o.octet)


def name(env, pattern):
    """The name of every string of the pattern."""
    s = env.string('s', pattern)
    got = O(s).name
    env.eq('name', got, NAMES.get(s, ''))


def names(env):
    """All registered names."""
    for k, v in NAMES.items():
        o = O(k)
        env.eq('name of ' + k, o.name, v)
        env.eq('octets of ' + k, o.octet, ref.der(ref.parse(k)))
        env.eq('integers of ' + k, o.digit, ref.parse(k))


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 6 if big else 4):
        out.append(('text', {'pattern': ['?%d' % n]}))
    for p in (['1.2.', '?1', '.3'], ['?1', '.2.3'], ['1.2', '?1', '3.4'], ['1.2.643', '?1'],
              ['1.2.', '?2'], ['?2', '2.643'], ['2.', '?3'], ['0.', '?3'], ['1', '?2', '1'],
              ['#1', '.', '#2', '?1', '#1'], ['', '?1', '1.2.643']):
        out.append(('text', {'pattern': p}))
    for s in ('.', '..', '1.', '.1', '1..2', '1.2.', '1', '0', '3.1', '2', '1.40', '0.40', '0.39',
              '1.39', '2.40', '-1.2', '1.-2', '1.2.+3', '1.2. 3', ' 1.2', '1.2\n', '1_0.2', '0x1.2',
              '1,2', '1.2.3a', '1e1.2', '', '00.01', '2.999.3', '4.0', '10.1', '1.2.3.'):
        out.append(('text', {'pattern': [s]}))
    for b, a in (('', ''), ('1.', ''), ('1.2.', '.3'), ('1.2.3', ''), ('', '.2.3'), ('1.2.6', '3')):
        out.append(('odd', {'before': b, 'after': a}))
    for fixed, bits in (([], [70]), ([], []), ([], [3, 8]), ([], [70, 7]), ([0], [12]),
                        ([1], [12]), ([3], [6]), ([], [3, 6, 9])):
        out.append(('components', {'fixed': fixed, 'bits': bits}))
    out.append(('names', {}))
    for p in (['1.2.643.7.1.', '#1'], ['1.2.643.7.1.', '#1', '.', '#1'],
              ['1.2.643.7.1.', '#1', '.', '#1', '.', '#1'],
              ['1.2.643.7.1.1.', '#1', '.', '#1', '.', '#1'], ['1.2.643.7.1.2.', '#3'],
              ['1.2.643.7.1.2.1.', '#1', '.', '#1', '.', '#1'], ['1.2.643.7.', '#1', '.1.1.1.1'],
              ['1.2.', '#3', '.7.1'], ['?3'], ['1.2.643.7.1', '?1', '1'], [''],
              ['1.2.643.7.1.1.1.', '#2'], ['?1', '1.2.643.7.1'], ['1.2.643.7.1', '?1'],
              ['1.2.643.7.1.1.5.', '#1', '.', '#1', '?1'], ['1.2.643.2.2.', '#2']):
        out.append(('name', {'pattern': p}))
    for k in NAMES:
        if big:
            for i in range(len(k)):
                out.append(('name', {'pattern': [k[:i], '?1', k[i + 1:]]}))
        else:
            out.append(('name', {'pattern': [k[:-1], '?1']}))
    return out
