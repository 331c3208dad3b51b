"""Stand-ins for standard modules with C entry points that code may pass bytes to."""
from __future__ import annotations

import types
import functools as _functools
import struct as _struct
import os as _os
from .core import SymInt, SymBool, Unsupported
from .values import SymBytes, SymBytearray, SymHex, items_of, ShadowInt, chk_byte

URANDOM = None         # hook: n -> SymBytes


def _urandom(n):
    if URANDOM is None:
        return SymBytes(_os.urandom(n))
    return URANDOM(n.__index__())


class _ModProxy(types.ModuleType):
    def __init__(self, mod, **over):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_mod'], name)


# ---- struct ---------------------------------------------------------------
_SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def _parse(fmt):
    if not isinstance(fmt, str):
        fmt = bytes(items_of(fmt)).decode()
    order = 'native'
    if fmt and fmt[0] in '<>=!@':
        order = {'<': 'little', '>': 'big', '!': 'big', '=': 'little', '@': 'native'}[fmt[0]]
        fmt = fmt[1:]
    out = []
    num = ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else None
        num = ''
        if ch == 's':
            out.append(('s', 1 if n is None else n))
        elif ch == 'x':
            out.append(('x', 1 if n is None else n))
        elif ch in _SIZES:
            size = _SIZES[ch]
            if order == 'native' and ch in 'lL':
                size = 8
            for _ in range(1 if n is None else n):
                out.append((ch, size))
        else:
            raise Unsupported('struct format ' + ch)
    return ('little' if order == 'native' else order), out


def _pack(fmt, *vals):
    order, spec = _parse(fmt)
    out = []
    vals = list(vals)
    for ch, size in spec:
        if ch == 'x':
            out.extend([0] * size)
            continue
        v = vals.pop(0)
        if ch == 's':
            it = list(items_of(v))[:size]
            out.extend(it + [0] * (size - len(it)))
            continue
        signed = ch.islower()
        if isinstance(v, SymBool):
            v = v.as_int()
        try:
            if isinstance(v, SymInt):
                b = SymInt.to_bytes(v, size, order, signed=signed)
            else:
                b = v.__index__().to_bytes(size, order, signed=signed)
        except OverflowError as exc:
            raise _struct.error('argument out of range') from exc
        out.extend(items_of(b))
    if vals:
        raise _struct.error('pack expected fewer items')
    return SymBytes._mk(out)


def _unpack_from(fmt, data, offset=0):
    order, spec = _parse(fmt)
    it = list(items_of(data))[offset:]
    need = sum(s for _, s in spec)
    if len(it) < need:
        raise _struct.error('unpack requires a buffer of %d bytes' % need)
    pos = 0
    out = []
    for ch, size in spec:
        chunk = it[pos:pos + size]
        pos += size
        if ch == 'x':
            continue
        if ch == 's':
            out.append(SymBytes._mk(chunk))
            continue
        out.append(ShadowInt.from_bytes(SymBytes._mk(chunk), order, signed=ch.islower()))
    return tuple(out)


def _calcsize(fmt):
    return sum(s for _, s in _parse(fmt)[1])


def _unpack(fmt, data):
    if len(items_of(data)) != _calcsize(fmt):
        raise _struct.error('unpack requires a buffer of %d bytes' % _calcsize(fmt))
    return _unpack_from(fmt, data)


def _iter_unpack(fmt, data):
    n = _calcsize(fmt)
    for i in range(0, len(items_of(data)), n):
        yield _unpack_from(fmt, data, i)


def _pack_into(fmt, buf, offset, *vals):
    b = _pack(fmt, *vals)
    buf[offset:offset + len(b)] = b


class _Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _calcsize(fmt)

    def pack(self, *v):
        return _pack(self.format, *v)

    def unpack(self, d):
        return _unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return _unpack_from(self.format, d, offset)

    def pack_into(self, buf, offset, *v):
        return _pack_into(self.format, buf, offset, *v)

    def iter_unpack(self, d):
        return _iter_unpack(self.format, d)


def _compare_digest(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SymHex) or isinstance(b, SymHex):
        return a == b
    ia, ib = items_of(a), items_of(b)
    if ia is None or ib is None:
        raise TypeError('unsupported operand types(s) or combination of types')
    return SymBytes._mk(list(ia)) == SymBytes._mk(list(ib))


def _hexlify(data, *a):
    h = SymBytes._mk(list(items_of(data))).hex()
    return _HexBytes(h)


class _HexBytes:
    def __init__(self, h):
        self._h = h

    def decode(self, *a, **k):
        return self._h

    def __eq__(self, o):
        if isinstance(o, _HexBytes):
            return self._h == o._h
        it = items_of(o)
        return self._h == bytes(it).decode()


def _unhexlify(s):
    if isinstance(s, (str, SymHex)):
        return SymBytes.fromhex(s)
    if isinstance(s, _HexBytes):
        return SymBytes.fromhex(s._h)
    return SymBytes.fromhex(bytes(items_of(s)).decode())


def _op_index(x):
    return x.__index__()


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache on symbolic arguments: entries are found by comparing."""
    if callable(maxsize):
        return _lru_cache()(maxsize)

    def decorate(fn):
        entries = []

        def same(a, b):
            return (len(a[0]) == len(b[0]) and sorted(a[1]) == sorted(b[1]) and
                    all(_same_value(x, y) for x, y in zip(a[0], b[0])) and
                    all(_same_value(v, b[1][k]) for k, v in a[1].items()))

        @_functools.wraps(fn)
        def call(*args, **kwargs):
            for v in list(args) + list(kwargs.values()):
                hash(v)
            for i, (a, r) in enumerate(entries):
                if same(a, (args, kwargs)):
                    entries.append(entries.pop(i))
                    return r
            r = fn(*args, **kwargs)
            if maxsize != 0:
                entries.append(((args, kwargs), r))
                if maxsize and len(entries) > maxsize:
                    del entries[0]
            return r
        call.cache_clear = entries.clear
        call.cache_info = lambda: None
        return call
    return decorate


def _same_value(x, y):
    if x is y:
        return True
    if isinstance(x, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and \
            all(_same_value(a, b) for a, b in zip(x, y))
    try:
        return bool(x == y)
    except TypeError:
        return False


def make_shims():
    import hmac
    import binascii
    import secrets
    import operator
    import random
    return {
        'functools': _ModProxy(_functools, lru_cache=_lru_cache, cache=_lru_cache(None)),
        'os': _ModProxy(_os, urandom=_urandom),
        'struct': _ModProxy(_struct, pack=_pack, unpack=_unpack, unpack_from=_unpack_from,
                            calcsize=_calcsize, iter_unpack=_iter_unpack,
                            pack_into=_pack_into, Struct=_Struct),
        'hmac': _ModProxy(hmac, compare_digest=_compare_digest),
        'binascii': _ModProxy(binascii, hexlify=_hexlify, unhexlify=_unhexlify,
                              b2a_hex=_hexlify, a2b_hex=_unhexlify),
        'secrets': _ModProxy(secrets, token_bytes=lambda n=32: _urandom(n),
                             compare_digest=_compare_digest),
    }
