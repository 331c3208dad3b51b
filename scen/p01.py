"""Kuznyechik block cipher."""
from gostcrypto.gostcipher.gost_34_12_2015 import GOST34122015Kuznechik
from spec.ciphers import kuz_encrypt, kuz_decrypt

ENCODED = 'gost_34_12_2015.GOST34122015Kuznechik (constructor, encrypt, decrypt), utils.add_xor'
BOUNDS = {
    'quick': 'all 2^256 keys and all 2^128 blocks, no loop cut; two consecutive blocks per object',
    'thorough': 'all 2^256 keys and all 2^128 blocks, no loop cut; up to four blocks per object',
}


def conform(env, ktype='bytearray', btype='bytearray'):
    key = getattr(env, ktype)('key', 32)
    x = getattr(env, btype)('x', 16)
    cipher = GOST34122015Kuznechik(key)
    env.eq('encrypt is Kuznyechik', cipher.encrypt(x), kuz_encrypt(key, x))
    env.eq('decrypt is the inverse Kuznyechik', cipher.decrypt(x), kuz_decrypt(key, x))
    env.eq('block size', cipher.block_size, 16)
    env.eq('key size', cipher.key_size, 32)


def inverse(env):
    key = env.bytearray('key', 32)
    x = env.bytearray('x', 16)
    cipher = GOST34122015Kuznechik(key)
    env.eq('decrypt after encrypt', cipher.decrypt(cipher.encrypt(x)), x)
    env.eq('encrypt after decrypt', cipher.encrypt(cipher.decrypt(x)), x)


def sequence(env, ops):
    """Earlier calls on the object do not influence later ones."""
    key = env.bytearray('key', 32)
    cipher = GOST34122015Kuznechik(key)
    for i, op in enumerate(ops):
        x = env.bytearray('x%d' % i, 16)
        if op == 'e':
            env.eq('encrypt %d' % i, cipher.encrypt(x), kuz_encrypt(key, x))
        else:
            env.eq('decrypt %d' % i, cipher.decrypt(x), kuz_decrypt(key, x))


def scenarios(tier):
    out = [('conform', {}), ('inverse', {}), ('conform', {'ktype': 'bytes', 'btype': 'bytes'}),
           ('sequence', {'ops': 'ed'})]
    if tier == 'thorough':
        out += [('sequence', {'ops': 'eede'}), ('sequence', {'ops': 'ddee'})]
    return out
