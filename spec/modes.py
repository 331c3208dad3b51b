"""Reference modes of operation, written from GOST R 34.13-2015."""
from spec.ciphers import kuz_encrypt, kuz_decrypt, magma_encrypt, magma_decrypt

SIZES = {'kuznechik': 16, 'magma': 8}
PAD1 = 0x80000000 + 0xf0
PAD2 = 0x80000000 + 0xf1


def enc(alg, key, block):
    return kuz_encrypt(key, block) if alg == 'kuznechik' else magma_encrypt(key, block)


def dec(alg, key, block):
    return kuz_decrypt(key, block) if alg == 'kuznechik' else magma_decrypt(key, block)


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def pad(data, bs, mode):
    """mode 1: zeros up to the boundary; mode 2: 0x80, zeros, and (as the package documents
    by its test vectors) one more block when the last block was incomplete."""
    data = bytes(data)
    missing = (bs - len(data) % bs) % bs if data else bs
    if mode == 1:
        return data + bytes(missing)
    return data + b'\x80' + bytes(missing + bs - 1)


def blocks(data, bs):
    return [bytes(data[i:i + bs]) for i in range(0, len(data) - bs + 1, bs)]


def ecb(alg, key, data, mode=None, decrypt=False):
    bs = SIZES[alg]
    if decrypt:
        return b''.join([dec(alg, key, b) for b in blocks(data, bs)])
    return b''.join([enc(alg, key, b) for b in blocks(pad(data, bs, mode), bs)])


class Feedback:
    """CBC, CFB and OFB with a register of any number of blocks."""

    def __init__(self, alg, key, iv, mode=1):
        self.alg, self.key, self.reg, self.mode = alg, bytes(key), bytes(iv), mode
        self.bs = SIZES[alg]

    def head(self):
        return self.reg[:self.bs]

    def shift(self, b):
        self.reg = self.reg[self.bs:] + bytes(b)

    def last(self):
        return self.reg[len(self.reg) - self.bs:]

    def cbc_encrypt(self, data):
        out = b''
        for b in blocks(pad(data, self.bs, self.mode), self.bs):
            c = enc(self.alg, self.key, xor(b, self.head()))
            self.shift(c)
            out = out + c
        return out

    def cbc_decrypt(self, data):
        out = b''
        for b in blocks(data, self.bs):
            out = out + xor(dec(self.alg, self.key, b), self.head())
            self.shift(b)
        return out

    def cfb(self, data, decrypt=False):
        out = b''
        data = bytes(data)
        while data:
            b, data = data[:self.bs], data[self.bs:]
            o = xor(b, enc(self.alg, self.key, self.head()))
            out = out + o
            if len(b) == self.bs:
                self.shift(b if decrypt else o)
        return out

    def ofb(self, data):
        out = b''
        data = bytes(data)
        while data:
            b, data = data[:self.bs], data[self.bs:]
            z = enc(self.alg, self.key, self.head())
            out = out + xor(b, z)
            if len(b) == self.bs:
                self.shift(z)
        return out


class Counter:
    def __init__(self, alg, key, iv):
        self.alg, self.key = alg, bytes(key)
        self.bs = SIZES[alg]
        self.ctr = bytes(iv) + bytes(self.bs // 2)

    def step(self):
        n = (int.from_bytes(self.ctr, 'big') + 1) & ((1 << (8 * self.bs)) - 1)
        self.ctr = n.to_bytes(self.bs, 'big')

    def crypt(self, data):
        out = b''
        data = bytes(data)
        while data:
            b, data = data[:self.bs], data[self.bs:]
            out = out + xor(b, enc(self.alg, self.key, self.ctr))
            self.step()
        return out


def double(v, bs):
    n = int.from_bytes(v, 'big')
    top = n >> (8 * bs - 1)
    n = (n << 1) & ((1 << (8 * bs)) - 1)
    n = n ^ (top * (0x87 if bs == 16 else 0x1b))
    return n.to_bytes(bs, 'big')


def mac(alg, key, data):
    """The full-size MAC of the whole message."""
    bs = SIZES[alg]
    key, data = bytes(key), bytes(data)
    k1 = double(enc(alg, key, bytes(bs)), bs)
    k2 = double(k1, bs)
    n = max(1, (len(data) + bs - 1) // bs)
    last = data[bs * (n - 1):]
    if len(last) == bs:
        last = xor(last, k1)
    else:
        last = xor(last + b'\x80' + bytes(bs - len(last) - 1), k2)
    c = bytes(bs)
    for i in range(n - 1):
        c = enc(alg, key, xor(c, data[bs * i:bs * i + bs]))
    return enc(alg, key, xor(c, last))
