"""Source of properties.jsonl (python3 tools/props.py writes it)."""
import json
import os

C12 = 'gostcrypto/gostcipher/gost_34_12_2015.py'
C13 = 'gostcrypto/gostcipher/gost_34_13_2015.py'
HASH = 'gostcrypto/gosthash/gost_34_11_2012.py'
HMAC = 'gostcrypto/gosthmac/r_50_1_113_2016.py'
PBKDF = 'gostcrypto/gostpbkdf/r_50_1_111_2016.py'
RND = 'gostcrypto/gostrandom/r_1323565_1_006_2017.py'
SIG = 'gostcrypto/gostsignature/gost_34_10_2012.py'
OID = 'gostcrypto/gostoid/oid.py'
UT = 'gostcrypto/utils/utils.py'
MODINIT = 'gostcrypto/gostcipher/__init__.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('P01', 'Kuznyechik is the GOST R 34.12-2015 permutation for every key and block',
     'For every 32-byte key and every 16-byte block, encrypting with the 128-bit cipher gives '
     'the GOST R 34.12-2015 Kuznyechik ciphertext and decrypting gives its inverse. Decryption '
     'after encryption (and the reverse) returns the original block. Blocks processed earlier '
     'with the same object have no influence on later ones.',
     ['inputs', 'histories'],
     'all 2^256 keys, all 2^128 blocks, any earlier use of the object',
     'The tests run the standard example and a few fixed vectors; a wrong entry of a substitution '
     'or multiplication table, or one that is used only in decryption, is missed by them.',
     [C12, UT],
     [('nonlinear, linear and key-schedule steps', C12 + ': GOST34122015Kuznechik'),
      ('xor of blocks', UT + ': add_xor')],
     [('iteration keys', 'the ten round keys', C12)],
     ['encrypt()', 'decrypt()'])

prop('P02', 'Magma is the GOST R 34.12-2015 permutation for every key and block',
     'For every 32-byte key and every 8-byte block, encrypting with the 64-bit cipher gives the '
     'GOST R 34.12-2015 Magma ciphertext and decrypting gives its inverse. Decryption after '
     'encryption (and the reverse) returns the original block. Blocks processed earlier with the '
     'same object have no influence on later ones.',
     ['inputs', 'histories'],
     'all 2^256 keys, all 2^64 blocks, any earlier use of the object',
     'The tests run the standard example only; carries in the addition modulo 2^32 and single '
     'substitution entries depend on values those vectors do not produce.',
     [C12, UT],
     [('round function, key schedule', C12 + ': GOST34122015Magma'),
      ('xor of blocks', UT + ': add_xor')],
     [('iteration keys', 'the thirty-two round keys', C12)],
     ['encrypt()', 'decrypt()'])

prop('P03', 'ECB processes and pads data as GOST R 34.13-2015 says, for every length',
     'In ECB mode every ciphertext is the blockwise encryption of the padded plaintext: padding '
     'mode 1 fills an incomplete last block with zero bytes and adds nothing to a complete one '
     '(empty data counts as an incomplete block); padding mode 2 appends the byte 0x80 and then zero bytes up to a block boundary, plus one '
     'further zero block when the last block was incomplete. '
     'Decryption decrypts every complete block in place and returns them all (padding included). '
     'This holds for both ciphers, any data length and any sequence of calls on one object.',
     ['inputs', 'histories'],
     'all keys, all data contents, every length, any sequence of calls, both ciphers and pad modes',
     'The tests encrypt a handful of fixed texts whose lengths are mostly exact multiples of the '
     'block size.',
     [C13, C12],
     [('padding', C13 + ': GOST34132015CipherPadding'), ('block loop', C13 + ': GOST34132015ecb')],
     (), ['encrypt()', 'decrypt()'])

prop('P04', 'CBC chains blocks through an initialization vector of any number of blocks',
     'In CBC mode, with an initialization vector of one or more blocks used as a shift register, '
     'each ciphertext block is the encryption of the padded plaintext block xored with the oldest '
     'block of the register, and the ciphertext block is then shifted in. Decryption inverts it '
     'for every key, vector and data, also when the stream of complete blocks is cut into '
     'several calls. The exposed vector is always the newest block of the register.',
     ['inputs', 'histories'],
     'all keys, vectors (one or more blocks) and data; any split of the data into block-aligned '
     'calls; both ciphers and pad modes',
     'The tests use the default vectors and one call per object; the state carried from call to '
     'call and other vector sizes are not reached.',
     [C13],
     [('shift register', C13 + ': GOST34132015CipherFeedBack'),
      ('chaining', C13 + ': GOST34132015cbc')],
     [('register', 'the last blocks of ciphertext, initially the vector', C13)],
     ['encrypt()', 'decrypt()', 'iv'])

prop('P05', 'CFB is the GOST R 34.13-2015 ciphertext feedback mode for every length and split',
     'In CFB mode each block of output is the input xored with the encryption of the oldest block '
     'of the shift register, after which the ciphertext block is shifted in; an incomplete last '
     'block uses the leading bytes of the keystream block. Output has the length of the input, '
     'decryption inverts encryption, and processing a message in block-aligned calls gives the '
     'same bytes as one call.',
     ['inputs', 'histories'],
     'all keys, vectors and data of every length; any block-aligned split; both ciphers',
     'The tests use the standard example in one call.',
     [C13],
     [('shift register', C13 + ': GOST34132015CipherFeedBack'),
      ('feedback', C13 + ': GOST34132015cfb')],
     [('register', 'the last blocks of ciphertext, initially the vector', C13)],
     ['encrypt()', 'decrypt()', 'iv'])

prop('P06', 'OFB is the GOST R 34.13-2015 output feedback mode for every length and split',
     'In OFB mode the keystream is obtained by repeatedly encrypting the oldest block of the shift '
     'register and shifting the result in, independently of the data; output is the input xored '
     'with the keystream and has the same length. Decryption is the same operation, and '
     'processing a message in block-aligned calls gives the same bytes as one call.',
     ['inputs', 'histories'],
     'all keys, vectors and data of every length; any block-aligned split; both ciphers',
     'The tests use the standard example in one call.',
     [C13],
     [('shift register', C13 + ': GOST34132015CipherFeedBack'),
      ('keystream', C13 + ': GOST34132015ofb')],
     [('register', 'the last keystream blocks, initially the vector', C13)],
     ['encrypt()', 'decrypt()', 'iv'])

prop('P07', 'CTR encrypts consecutive counter values and never reuses a counter block',
     'In CTR mode the keystream is the encryption of the vector followed by a zero half block, '
     'and of the successive values of that whole-block big-endian counter increased by one modulo '
     '2^(block size). Each call consumes one counter value per complete or incomplete block, '
     'output has the length of the input, and decryption is the same operation. The exposed '
     'counter is the value the next block will use.',
     ['inputs', 'histories'],
     'all keys, vectors, data of every length, every reachable counter value, any sequence of calls',
     'The tests process four blocks from the initial counter; carries between counter bytes '
     'appear only after 256, 65536, ... blocks.',
     [C13],
     [('counter increment', C13 + ': GOST34132015ctr')],
     [('counter', 'the next counter block', C13)],
     ['encrypt()', 'decrypt()', 'counter'])

prop('P08', 'The cipher MAC equals the GOST R 34.13-2015 MAC for every message and split',
     'For every key and every message (also empty or shorter than a block), however the message is '
     'divided between the constructor and update calls, the MAC of size s is the first s bytes of '
     'the GOST R 34.13-2015 message authentication code of the whole message. Every size from 1 '
     'to the block size is available and any other size is refused with the cipher error.',
     ['inputs', 'histories'],
     'all keys, messages of every length, every division into pieces, every MAC size; both ciphers',
     'The tests use one or two fixed messages; the subkey derivation has data-dependent cases '
     'and the buffering depends on the lengths of all the pieces.',
     [C13, UT],
     [('subkeys, buffering, final block', C13 + ': GOST34132015mac')],
     [('pending data, running block', 'buffered tail and last two chaining values', C13)],
     ['digest()', 'hexdigest()', 'update()'])

prop('P09', 'Reading a MAC does not change the MAC object',
     'Asking a MAC object for its value any number of times, in binary or hexadecimal form and '
     'with any accepted or refused size, never changes the values obtained later. After any '
     'interleaving of such requests with updates, each value is that of exactly the data supplied '
     'up to that moment, and the hexadecimal form always matches the binary one.',
     ['histories', 'inputs'],
     'any interleaving of update, digest, hexdigest; all keys and data; both ciphers',
     'The tests call digest once per object.',
     [C13],
     [('value computed on a copy of the state', C13 + ': GOST34132015mac.digest')],
     [('pending data, running block', 'buffered tail and last two chaining values', C13)],
     ['digest()', 'hexdigest()', 'update()'])

prop('P10', 'Streebog-256/512 equal GOST R 34.11-2012 for every message',
     'For every message of every length, the 512-bit and 256-bit hash values equal those defined '
     'by GOST R 34.11-2012, in binary and hexadecimal form. The reported digest and block sizes '
     'match.',
     ['inputs'],
     'all messages of all lengths, both hash sizes',
     'The tests hash fixed strings; single table entries, carries in the 512-bit length and '
     'checksum additions and the padding of every residue of the length are not covered.',
     [HASH],
     [('compression function', HASH + ': _hash_g'), ('padding and finalization', HASH),
      ('512-bit addition', HASH + ': _hash_add_512')],
     [('h, N, Sigma, buffer', 'chaining value, bit count, checksum, pending bytes', HASH)],
     ['digest()', 'hexdigest()'])

prop('P11', 'Incremental hashing equals one-shot hashing in every call history',
     'However a message is divided between the constructor and update calls (empty pieces '
     'included), the hash equals that of the whole message, and reading it any number of times '
     'changes nothing. A copy of a hash object and its original develop independently from the '
     'moment of copying. After a reset the object behaves as a newly created one without data.',
     ['histories', 'inputs'],
     'any sequence of update (any lengths), digest, hexdigest, copy and reset; all contents',
     'The tests use at most a couple of updates and never a split that ends on a block boundary.',
     [HASH],
     [('buffering', HASH + ': update'), ('copy-then-finalize', HASH + ': digest'),
      ('state initialisation', HASH + ': reset')],
     [('h, N, Sigma, buffer', 'chaining value, bit count, checksum, pending bytes', HASH)],
     ['update()', 'digest()', 'copy()', 'reset()'])

prop('P12', 'HMAC equals HMAC over Streebog (R 50.1.113-2016) for every key and message',
     'For every key of 0 to 64 bytes and every message, the empty one included, the value is '
     'H((K xor opad) || H((K xor ipad) || message)) with the key extended by zero bytes to 64 '
     'bytes and H the 256-bit or 512-bit Streebog hash. A longer key is refused with the HMAC '
     'error. The hexadecimal form matches the binary one.',
     ['inputs'],
     'all keys of 0 to 64 bytes, all messages, both hash sizes',
     'The tests use the 32-byte key of the recommendation document and one message.',
     [HMAC, HASH],
     [('key padding, inner and outer hash', HMAC + ': R5011132016')],
     [('inner hash, first-piece marker', 'whether the inner key block was hashed', HMAC)],
     ['digest()', 'hexdigest()'])

prop('P13', 'Incremental HMAC equals one-shot HMAC in every call history',
     'However a message is divided between the constructor and update calls, the HMAC equals that '
     'of the whole message; reading the value changes nothing; a copy and its original develop '
     'independently. After a reset the object computes, with the same key, the HMAC of the data '
     'supplied since the reset.',
     ['histories', 'inputs'],
     'any sequence of update (any lengths), digest, hexdigest, copy and reset; all keys and data',
     'The tests make one or two updates, read once.',
     [HMAC, HASH],
     [('first update prepends the inner key block', HMAC + ': update'), ('copy', HMAC + ': copy')],
     [('inner hash, first-piece marker', 'whether the inner key block was hashed', HMAC)],
     ['update()', 'digest()', 'copy()', 'reset()'])

prop('P14', 'PBKDF2 output equals R 50.1.111-2016 for every password, salt, count and length',
     'For every password of at most 64 bytes, every non-empty salt, every positive iteration count '
     'and every output length, the derived key consists of the leading bytes of the blocks '
     'T1, T2, ... where each T is the xor of the iterated HMAC-Streebog-512 values started from '
     'the salt followed by the 4-byte big-endian block number. Deriving again from the same '
     'object, in binary or hexadecimal form and with any lengths, gives the same prefix. Without a '
     'salt, 32 fresh random bytes are used and reported.',
     ['inputs', 'histories'],
     'all passwords (0..64 bytes), salts, iteration counts and lengths; any sequence of derivations',
     'The tests use the vectors of the document: two passwords, one length.',
     [PBKDF, HMAC, UT],
     [('block function and iteration', PBKDF + ': R5011112016'),
      ('block number encoding', UT + ': int_to_bytearray')],
     [('password, salt', 'inputs kept by the object', PBKDF)],
     ['derive()', 'hexderive()', 'salt'])

prop('P15', 'The random generator output equals R 1323565.1.006-2017 for every seed and size',
     'For every non-zero seed of the selected size and every requested size, the output is the '
     'concatenation of 512-bit Streebog values of the 63-byte state "seed followed by a '
     'big-endian counter" for counter values 1, 2, ..., each block hashed after increasing the '
     'counter, the last incomplete block taking the trailing bytes of its hash. Further requests '
     'on the same object continue with the next counter value and never repeat one.',
     ['inputs', 'histories'],
     'all seeds (32, 40 or 48 bytes), output sizes and request sequences',
     'The tests use one seed and small outputs; counter carries and the boundary between seed '
     'and counter are not reached.',
     [RND, HASH],
     [('state increment', RND + ': _inc_rand_u'), ('output assembly', RND + ': random')],
     [('state U', 'seed and counter', RND)],
     ['random()'])

prop('P16', 'The random generator refuses zero seeds, bad seeds and an exhausted counter',
     'An all-zero seed is refused when output is requested, a seed of the wrong type or size is '
     'refused at once, and both use the random-generator error. Once the counter has taken its '
     'last value, no further output is produced: the request fails with the same error and the '
     'seed is erased. A reset with a seed behaves as a new object with that seed; a reset or '
     'creation without one takes exactly the seed size of bytes from the system generator.',
     ['inputs', 'histories'],
     'all seeds and counter states, seed sizes, sequences of random/reset',
     'The counter would have to run 2^120 steps; the tests only patch the limit to zero.',
     [RND],
     [('limit check', RND + ': _rand_iter'), ('seed checks', RND + ': random, reset')],
     [('state U', 'seed and counter', RND), ('limit', 'last usable counter', RND)],
     ['random()', 'reset()'])

prop('P17', "Caller's buffers are never modified and results share no memory with objects",
     'No operation modifies a buffer passed by the caller (keys, vectors, data, seeds, passwords, '
     'digests, signatures) nor the package-wide constants and default vectors. Changing such a '
     'buffer afterwards, or changing a returned buffer, never affects an object. Read-only and '
     'mutable byte strings of equal content give equal results.',
     ['inputs', 'histories'],
     'all operations of all modules, all contents, mutation of any argument or result between calls',
     'The tests pass fresh literals and never look at them again.',
     [C12, C13, HASH, HMAC, PBKDF, RND, SIG, UT],
     [('defensive copies', C13 + ', ' + HMAC + ', ' + PBKDF + ', ' + RND),
      ('new buffer per xor', UT + ': add_xor')],
     (), ['arguments after each call'])

prop('P18', 'Objects are independent of one another and of earlier objects',
     'The result of any operation depends only on the arguments given to its own object: creating, '
     'using, clearing or destroying other objects, of the same or another kind and with any '
     'parameters, in any interleaving, does not change it. The same holds for objects created with '
     'default arguments.',
     ['histories', 'inputs'],
     'any interleaving of two or more objects of any modules, all keys and data',
     'The tests use one object at a time, always with the same parameters.',
     [C12, C13, HASH, HMAC, PBKDF, RND, SIG],
     [('per-object state', C13 + ', ' + HASH + ', ' + HMAC),
      ('module constants and default arguments', C13 + ': _DEFAULT_IV_*')],
     (), ['results of one object with and without the other'])

prop('P19', 'After clear(), an object no longer holds its key, password or seed',
     'After an explicit clear of a cipher, mode, MAC, HMAC, password-derivation or random object, '
     'freshly created or already used, the places that held the key, password or seed and values '
     'computed from it alone at creation hold zero bytes instead, nested objects included. The same '
     'holds for a random object whose counter is exhausted. Clearing twice is harmless.',
     ['inputs', 'histories'],
     'all keys/passwords/seeds, clear after creation or right after any earlier use is followed by '
     'no further data; both ciphers, all modes',
     'The tests inspect one field of one object for one key.',
     [C12, C13, HMAC, PBKDF, RND, UT],
     [('overwriting', UT + ': zero_fill'), ('clear methods', C12 + ', ' + C13 + ', ' + HMAC)],
     [('iteration keys, MAC subkeys, HMAC key, password, seed', 'secret material', C12)],
     ['object contents after clear()'])

prop('P20', 'Invalid arguments are refused with the documented error, valid ones accepted',
     'Unknown algorithms, modes and padding modes, keys, vectors, seeds, private and public keys, '
     'digests and signatures of a wrong length or type, and data that is not a byte string are '
     'refused with the error class of the module before any result is produced, and every '
     'documented argument value is accepted. No other exception class appears.',
     ['inputs', 'configurations'],
     'every length from 0 to beyond the documented one, wrong types, every combination of mode, '
     'algorithm and padding',
     'The tests try one wrong value per argument.',
     [C12, C13, HASH, HMAC, PBKDF, RND, SIG, UT],
     [('length and type checks', UT + ': check_value'),
      ('constructor checks', C13 + ', ' + HASH + ', ' + HMAC)],
     (), ['exceptions'])

prop('P21', 'OID octets are the DER encoding of the identifier, for every identifier',
     'For every dotted decimal identifier with at least two components, first component 0, 1 or 2 '
     'and, under 0 and 1, second component below 40, the octets are the DER encoding: tag 6, '
     'definite length in the shortest form, each component in base 128 with continuation bits. '
     'The integer tuple is the sequence of components and the text form is the given string.',
     ['inputs'],
     'all identifiers: any number of components, any component size',
     'The tests encode one identifier.',
     [OID],
     [('base-128 and length encoding', OID + ': _int_to_octet, _len_oid_octet'),
      ('first two components', OID + ': _encode_octet')],
     (), ['octet', 'digit', 'str()'])

prop('P22', 'Malformed OIDs are refused and registered names are the published ones',
     'A string that is not a dotted sequence of unsigned decimal numbers is refused with the OID '
     'error when its integers or octets are asked for, as is encoding an identifier with fewer '
     'than two components, a first component above 2, or a second component of 40 or more under 0 '
     'or 1. The name is the one registered by TC 26 for that identifier and the empty string for '
     'every other.',
     ['inputs'],
     'all strings up to a bound, all integers as components',
     'The tests try one malformed string and one name.',
     [OID],
     [('parsing', OID + ': digit'), ('range checks', OID + ': _encode_octet'),
      ('registry', OID + ': OBJECT_IDENTIFIER_TC26')],
     (), ['digit', 'octet', 'name'])

prop('P23', 'A signature is the pair (r, s) of GOST R 34.10-2012 for every key and digest',
     'For every non-zero private key, every digest and every random value k in [1, q-1], the '
     'signature is r || s with r = x(kP) mod q, s = (r d + k e) mod q, both of full width and '
     'non-zero, where e is the digest taken as a big-endian number modulo q and 1 if that is zero. '
     'It is deterministic for a given k.',
     ['inputs'],
     'all private keys, digests and random values, all curves, both sizes',
     'The tests sign one digest with one key per size; leading zero bytes, e = 0 and reductions '
     'modulo q do not occur in them.',
     [SIG, UT],
     [('signature equation', SIG + ': sign'), ('e', SIG + ': _set_e'),
      ('conversion', UT + ': int_to_bytearray, bytearray_to_int')],
     (), ['sign()'])

prop('P24', 'Every produced signature verifies and verification decides the GOST equation',
     'A signature made with a private key verifies for that digest and the corresponding public '
     'key, for every key, digest and random value. Verification returns true exactly when '
     '0 < r < q, 0 < s < q and x(z1 P + z2 Q) mod q = r with z1 = s/e, z2 = -r/e modulo q; in '
     'particular a sum at infinity and every r or s that is zero or not below q give false.',
     ['inputs'],
     'all keys, digests, random values and signature bytes, public keys on the curve',
     'The tests verify a few genuine signatures and a couple of corrupted ones.',
     [SIG, UT],
     [('verification', SIG + ': verify'), ('range check', SIG + ': _verify_step_1')],
     (), ['verify()'])

prop('P25', 'Public keys and scalar multiples are exact on every curve',
     'For every accepted curve and every private key that is not zero modulo the order q, the '
     'public key is the affine point d P (x then y, full width) under the group law of the curve, '
     'with the private key taken modulo q. A private key that is zero modulo q is refused with '
     'the signature error, in signing as well.',
     ['inputs', 'configurations'],
     'all private keys, all curves in Weierstrass or twisted Edwards form',
     'The tests compute one key per size.',
     [SIG],
     [('point addition and doubling', SIG + ': _add'), ('scalar multiplication', SIG + ': _mul_point'),
      ('modular inverse', SIG + ': _invert')],
     (), ['public_key_generate()'])

prop('P26', 'Curve parameters are accepted exactly when they satisfy the standard',
     'A curve is accepted exactly when its base point lies on it, the group order differs from p, '
     'the order q has the size required for the mode (2^254 to 2^256, or 2^508 to 2^512), and no '
     'power p^i is 1 modulo q for i from 1 to 31 (131 for 512-bit curves); otherwise creation '
     'fails with the signature error. Twisted Edwards parameters are converted to the '
     'equivalent Weierstrass curve. All published parameter sets have the values of the standard '
     'and are accepted.',
     ['inputs', 'configurations'],
     'all parameter values',
     'The tests create objects with the published curves and one modified value.',
     [SIG],
     [('checks', SIG + ': _check_curve'), ('conversion', SIG + ': _edvards_to_canonical')],
     (), ['new()'])

prop('P27', 'Random values for signing lie in [1, q-1], are fresh, and signing terminates',
     'When no random value is given, signing draws as many bytes as the key size from the system '
     'generator and draws again as long as the value is zero, not below q, or leads to a zero r '
     'or s, so that the value used is always in [1, q-1]. A supplied value outside that range, or '
     'one that leads to a zero r or s, is refused with the signature error. Signing never loops '
     'on the same random value.',
     ['inputs', 'fault_sequences'],
     'every sequence of values returned by the system generator; every supplied value',
     'The tests never control the system generator and give one valid random value.',
     [SIG],
     [('rejection sampling', SIG + ': _get_rand_k'), ('retry', SIG + ': sign')],
     (), ['sign()', 'system generator calls'])

prop('P28', 'A refused call leaves an object as it was, or as if it had been cleared',
     'A call that is refused with an error has no lasting effect other than the documented '
     'clearing. For hash, HMAC, key derivation, random generator and signature objects every later '
     'result is the one that would be obtained without the refused call. A MAC object that '
     'refuses a size of the value keeps its message. A cipher or MAC object that refuses data '
     'continues exactly like an object whose clear method was called at that moment, so that no '
     'later output depends on the key. Data accepted before the refusal is neither lost nor '
     'processed twice, and a copy made afterwards behaves the same.',
     ['histories', 'inputs'],
     'every object, every kind of refused argument, at every position in a sequence of calls, for '
     'all keys and data',
     'The tests check that the error is raised and never use the object again.',
     [C13, HASH, HMAC, PBKDF, RND, SIG],
     [('clearing when data is refused', C13 + ': encrypt, decrypt, update'),
      ('validation before the state changes', HASH + ': update; ' + RND + ': reset; '
       + SIG + ': sign, verify')],
     [('buffer and chaining value', 'the message so far', HASH + ': update'),
      ('generator state', 'seed and counter', RND + ': reset')],
     ['results of the calls after a refusal'])

prop('P29', 'Objects report the standard identifiers and sizes throughout their life',
     'Every cipher, MAC, hash, HMAC and signature object reports the object identifier registered '
     'for its algorithm (text, name, numbers and octets), and every hash, HMAC and cipher object '
     'its name, digest size and block size, at creation and after any sequence of processing, '
     'reading, copying, resetting, clearing and refused calls. Results have the size that is '
     'reported or requested, hexadecimal results are the lowercase form of the binary ones, and a '
     'MAC of fewer bytes or a shorter derived key is the beginning of the longer one.',
     ['histories', 'inputs'],
     'every kind of object, every sequence of operations, all keys and data, every size',
     'The tests read the attributes of new objects and one size of result.',
     [C12, C13, HASH, HMAC, PBKDF, RND, SIG, OID],
     [('identifiers', C12 + ', ' + HASH + ', ' + HMAC + ', ' + SIG + ': oid'),
      ('sizes and names', HASH + ': digest_size, block_size, name; ' + HMAC
       + ': digest_size, block_size, name; ' + C13 + ': block_size')],
     (), ['oid, name, digest_size, block_size', 'lengths of results', 'hexdigest, hexderive'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
