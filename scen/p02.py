"""Magma block cipher."""
from gostcrypto.gostcipher.gost_34_12_2015 import GOST34122015Magma
from spec.ciphers import magma_encrypt, magma_decrypt

ENCODED = 'gost_34_12_2015.GOST34122015Magma (constructor, encrypt, decrypt), utils.add_xor'
BOUNDS = {
    'quick': 'all 2^256 keys and all 2^64 blocks, no loop cut; two consecutive blocks per object',
    'thorough': 'all 2^256 keys and all 2^64 blocks, no loop cut; up to four blocks per object',
}


def conform(env, ktype='bytearray', btype='bytearray'):
    key = getattr(env, ktype)('key', 32)
    x = getattr(env, btype)('x', 8)
    cipher = GOST34122015Magma(key)
    env.eq('encrypt is Magma', cipher.encrypt(x), magma_encrypt(key, x))
    env.eq('decrypt is the inverse Magma', cipher.decrypt(x), magma_decrypt(key, x))
    env.eq('block size', cipher.block_size, 8)
    env.eq('key size', cipher.key_size, 32)


def inverse(env):
    key = env.bytearray('key', 32)
    x = env.bytearray('x', 8)
    cipher = GOST34122015Magma(key)
    env.eq('decrypt after encrypt', cipher.decrypt(cipher.encrypt(x)), x)
    env.eq('encrypt after decrypt', cipher.encrypt(cipher.decrypt(x)), x)


def sequence(env, ops):
    """Earlier calls on the object do not influence later ones."""
    key = env.bytearray('key', 32)
    cipher = GOST34122015Magma(key)
    for i, op in enumerate(ops):
        x = env.bytearray('x%d' % i, 8)
        if op == 'e':
            env.eq('encrypt %d' % i, cipher.encrypt(x), magma_encrypt(key, x))
        else:
            env.eq('decrypt %d' % i, cipher.decrypt(x), magma_decrypt(key, x))


def scenarios(tier):
    out = [('conform', {}, {'time': 400}), ('inverse', {}),
           ('conform', {'ktype': 'bytes', 'btype': 'bytes'}, {'time': 400}),
           ('sequence', {'ops': 'ed'})]
    if tier == 'thorough':
        out += [('sequence', {'ops': 'eede'}), ('sequence', {'ops': 'ddee'})]
    return out
