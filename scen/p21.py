"""DER encoding of object identifiers."""
import gostcrypto
from spec import oid as ref

O = gostcrypto.gostoid.ObjectIdentifier
ENCODED = 'gostoid.oid (ObjectIdentifier, _encode_octet, _int_to_octet, _len_oid_octet, _len_int)'
BOUNDS = {
    'quick': 'identifiers of 2..5 components of up to 6 symbolic decimal digits '
             'each (leading zeros included), and of up to 40 digits of which 5 are symbolic; components '
             'given as symbolic integers up to 2^130 when the octets come from the components; '
             'encodings of up to 300 octets',
    'thorough': 'as quick with up to 8 symbolic components, components of up to 12 symbolic '
                'digits, or 80 with 3 symbolic ones, '
                'integers up to 2^260, encodings of up to 70000 octets',
}
ASSUMPTIONS = ()


def text(env, pattern):
    """An identifier given as text with symbolic digits."""
    s = env.string('s', pattern)
    want = ref.parse(s)
    env.assume(want is not None and ref.encodable(want))
    o = O(s)
    got = o.octet
    env.eq('integers', o.digit, want)
    env.eq('octets', got, ref.der(want))
    env.eq('text', str(o), s)
    env.eq('octets, again', o.octet, got)


def components(env, fixed, bits, tail=()):
    """Identifiers whose components are given by a subclass, when the octets are made of them."""
    class Given(O):
        comps = (1, 2, 3)

        @property
        def digit(self):
            return self.comps
    probe = Given('1.2.3')
    probe.comps = (2, 77, 300)
    try:
        if bytes(probe.octet) != ref.der((2, 77, 300)):
            return
    except Exception:
        return
    comps = list(fixed)
    for i, b in enumerate(bits):
        comps.append(env.int('c%d' % i, 0, (1 << b) - 1))
    comps = tuple(comps) + tuple(tail)
    env.assume(ref.encodable(comps))
    o = Given('1.2.3')
    o.comps = comps
    env.eq('octets', o.octet, ref.der(comps))


def many(env, n, digits):
    """An identifier of n components of which the last is symbolic."""
    s = env.string('s', ['1.2' + '.5' * (n - 3) + '.', '#%d' % digits])
    want = ref.parse(s)
    env.eq('octets', O(s).octet, ref.der(want))


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    pats = [['#1', '.', '#1'], ['#1', '.', '#2'], ['#1', '.', '#3'], ['#1', '.', '#6'],
            ['0.', '#2'], ['1.', '#2'], ['2.', '#3'], ['2.', '#5'], ['#2', '.', '#2'],
            ['0.', '#2', '.', '#2'], ['1.2.', '#3'], ['1.2.', '#4'], ['1.2.', '#5'], ['1.2.', '#7'],
            ['1.2.643.', '#6'], ['1.2.', '#3', '.', '#3'], ['2.', '#2', '.', '#3', '.1.', '#2'],
            ['1.2.643.7.1.', '#1', '.', '#1', '.', '#1'], ['2.25.1234567890123456789012345678901234', '#5'],
            ['2.', '#3', '00000000000000000'], ['2.', '#2', '000000000000', '#2'],
            ['1.2.', '#2', '9999999999999999999999999999999'],
            ['1.2.643.', '#1', '4967295.', '429496729', '#1']]
    if big:
        pats += [['1.2.', '#%d' % n] for n in range(8, 13)]
        pats += [['1.2.', '#3', '0' * n] for n in range(1, 80, 3)]
        pats += [['1.2.', '#3', '.', '#3', '.', '#3'], ['2.', '#3', '.', '#5', '.', '#7'],
                 ['1.2'] + ['.', '#1'] * 6, ['1.2.', '#4', '.', '#4', '.', '#4']]
    for p in pats:
        out.append(('text', {'pattern': p}))
    for fixed, bits in (([], [2, 7]), ([], [3, 12]), ([2], [40]), ([2], [130]), ([1, 2], [70]),
                        ([1, 2], [130]), ([1, 2], [15, 15]), ([0, 39], [8, 8, 8]),
                        ([2, 999], [22, 9])):
        out.append(('components', {'fixed': fixed, 'bits': bits}))
        if big:
            out.append(('components', {'fixed': fixed, 'bits': bits + [9]}))
            out.append(('components', {'fixed': fixed, 'bits': bits + [9, 16]}))
    if big:
        out.append(('components', {'fixed': [2], 'bits': [260]}))
        out.append(('components', {'fixed': [1, 2], 'bits': [260]}))
    for tail in (124, 125, 126, 127, 130, 252, 253, 254, 255, 256, 300):
        out.append(('components', {'fixed': [1, 2], 'bits': [15], 'tail': [5] * tail}))
        out.append(('many', {'n': tail, 'digits': 3}))
    if big:
        for tail in (65530, 65533, 65534, 70000):
            out.append(('components', {'fixed': [1, 2], 'bits': [15], 'tail': [5] * tail}))
    return out
