"""Symbolic byte strings and the shadow builtins seen by transformed code."""
from __future__ import annotations

import builtins
from . import core
from .core import SymInt, SymBool, Unsupported, mk_int, select, bits_fixed

_nat_bytes = bytes
_nat_bytearray = bytearray
_nat_int = int
_nat_isinstance = isinstance
_nat_memoryview = memoryview


def _is_int(x):
    return _nat_isinstance(x, (_nat_int, SymInt, SymBool))


def chk_byte(v, what='byte'):
    """A byte item: native int 0..255 or an 8-bit nonnegative SymInt."""
    if _nat_isinstance(v, SymBool):
        v = v.as_int()
    if type(v) is _nat_int or type(v) is bool:
        v = _nat_int(v)
        if 0 <= v <= 255:
            return v
        raise ValueError('%s must be in range(0, 256)' % what)
    if _nat_isinstance(v, SymInt):
        b, s = v.bits()
        if s or len(b) > 8:
            over = [f for f in list(b[8:]) + [s] if core.reduce_form(f)]
            if over:
                ok = SymBool.all_zero([core.reduce_form(f) for f in over])
                if not ok:
                    raise ValueError('%s must be in range(0, 256)' % what)
            return mk_int(list(b[:8]))
        return v
    if hasattr(v, '__index__'):
        return chk_byte(v.__index__())
    raise TypeError("an integer is required ('%s' given)" % type(v).__name__)


def items_of(x):
    """List of byte items of a bytes-like value, else None."""
    if _nat_isinstance(x, _Base):
        return x._d
    if _nat_isinstance(x, (_nat_bytes, _nat_bytearray)):
        return list(x)
    if _nat_isinstance(x, _nat_memoryview):
        return list(x)
    if _nat_isinstance(x, SymMemoryview):
        return list(x._items())
    return None


def _construct(args, kwargs):
    if 'encoding' in kwargs or 'errors' in kwargs or (len(args) > 1):
        src = args[0] if args else kwargs.pop('source')
        if _nat_isinstance(src, str):
            return list(_nat_bytes(src, *args[1:], **kwargs))
        raise TypeError('encoding without a string argument')
    if not args:
        src = kwargs.get('source', ())
    else:
        src = args[0]
    it = items_of(src)
    if it is not None:
        return list(it)
    if _nat_isinstance(src, str):
        raise TypeError('string argument without an encoding')
    if _is_int(src):
        n = src.__index__()
        if n < 0:
            raise ValueError('negative count')
        if n > 1 << 24:
            raise Unsupported('huge buffer')
        return [0] * n
    if hasattr(src, '__bytes__'):
        return list(items_of(src.__bytes__()))
    if hasattr(src, '__index__') and not hasattr(src, '__iter__'):
        return [0] * src.__index__()
    if not hasattr(src, '__iter__') and not hasattr(src, '__getitem__'):
        raise TypeError("cannot convert '%s' object to bytes" % type(src).__name__)
    return [chk_byte(v, 'byte') for v in src]


class _Meta(type):
    def __instancecheck__(cls, obj):
        if type.__instancecheck__(cls, obj):
            return True
        nat = cls.__dict__.get('_native')
        return nat is not None and _nat_isinstance(obj, nat)

    def __subclasscheck__(cls, sub):
        if type.__subclasscheck__(cls, sub):
            return True
        nat = cls.__dict__.get('_native')
        return nat is not None and issubclass(sub, nat)


class _Base(metaclass=_Meta):
    __slots__ = ('_d', '__weakref__')
    _sx_items = True

    @classmethod
    def _mk(cls, items):
        o = object.__new__(cls)
        o._d = items
        return o

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        # live iteration like bytearray
        i = 0
        while i < len(self._d):
            yield self._d[i]
            i += 1

    def __reversed__(self):
        return iter(list(reversed(self._d)))

    def __getitem__(self, i):
        if _nat_isinstance(i, slice):
            return self._mk(self._d[i])
        if _nat_isinstance(i, SymInt):
            return select(self._d, i)
        return self._d[i]

    def _bin(self, o):
        it = items_of(o)
        return it

    def __add__(self, o):
        it = items_of(o)
        if it is None:
            raise TypeError("can't concat %s to %s" % (type(o).__name__, type(self).__name__))
        return self._mk(self._d + list(it))

    def __radd__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        cls = SymBytearray if _nat_isinstance(o, _nat_bytearray) else SymBytes
        return cls._mk(list(it) + self._d)

    def __mul__(self, n):
        if not _is_int(n):
            return NotImplemented
        n = n.__index__()
        if n > 1 << 24:
            raise Unsupported('huge buffer')
        return self._mk(self._d * n)
    __rmul__ = __mul__

    def _eqval(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        if len(it) != len(self._d):
            return False
        forms = []
        for a, b in zip(self._d, it):
            if a is b:
                continue
            r = (a == b)
            if r is False:
                return False
            if r is True:
                continue
            if r.neg:
                forms.append(r.to_form() ^ 1)
            else:
                forms.extend(r.forms)
        return SymBool.all_zero(forms)

    def __eq__(self, o):
        return self._eqval(o)

    def __ne__(self, o):
        r = self._eqval(o)
        if r is NotImplemented:
            return r
        return r.invert() if _nat_isinstance(r, SymBool) else (not r)

    def _cmp(self, o):
        it = items_of(o)
        if it is None:
            return None
        for a, b in zip(self._d, it):
            if a == b:
                continue
            return -1 if a < b else 1
        return (len(self._d) > len(it)) - (len(self._d) < len(it))

    def __lt__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else c < 0

    def __le__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else c <= 0

    def __gt__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else c > 0

    def __ge__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else c >= 0

    def __contains__(self, x):
        if _is_int(x):
            for v in self._d:
                if v == x:
                    return True
            return False
        return self.find(x) >= 0

    def _native_value(self):
        if all(type(v) is _nat_int for v in self._d):
            return _nat_bytes(self._d)
        return _nat_bytes([v.__index__() for v in self._d])

    def is_concrete(self):
        return all(type(v) is _nat_int for v in self._d)

    def hex(self, *a):
        if self.is_concrete():
            return _nat_bytes(self._d).hex(*a)
        if a:
            raise Unsupported('hex with separator')
        return SymHex(list(self._d))

    def find(self, sub, start=0, end=None):
        if _is_int(sub):
            sub = [sub]
        else:
            sub = items_of(sub)
        d = self._d[start:end]
        for i in range(len(d) - len(sub) + 1):
            if all(bool(a == b) for a, b in zip(d[i:i + len(sub)], sub)):
                return i + start
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rfind(self, sub):
        if _is_int(sub):
            sub = [sub]
        else:
            sub = items_of(sub)
        d = self._d
        for i in range(len(d) - len(sub), -1, -1):
            if all(bool(a == b) for a, b in zip(d[i:i + len(sub)], sub)):
                return i
        return -1

    def count(self, sub, *a):
        if _is_int(sub):
            return sum(1 for v in self._d if v == sub)
        raise Unsupported('bytes.count')

    def startswith(self, p):
        it = items_of(p)
        return self._mk(self._d[:len(it)]) == p

    def endswith(self, p):
        it = items_of(p)
        if not it:
            return True
        return self._mk(self._d[-len(it):]) == p

    def _fillarg(self, fill):
        return items_of(fill)[0]

    def ljust(self, width, fill=b' '):
        n = max(0, width - len(self._d))
        return self._mk(self._d + [self._fillarg(fill)] * n)

    def rjust(self, width, fill=b' '):
        n = max(0, width - len(self._d))
        return self._mk([self._fillarg(fill)] * n + self._d)

    def zfill(self, width):
        raise Unsupported('zfill')

    def rstrip(self, chars=b' \t\n\r\x0b\x0c'):
        it = items_of(chars)
        d = list(self._d)
        while d and any(bool(d[-1] == c) for c in it):
            d.pop()
        return self._mk(d)

    def lstrip(self, chars=b' \t\n\r\x0b\x0c'):
        it = items_of(chars)
        d = list(self._d)
        while d and any(bool(d[0] == c) for c in it):
            d.pop(0)
        return self._mk(d)

    def strip(self, chars=b' \t\n\r\x0b\x0c'):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        it = items_of(p)
        if self.startswith(p):
            return self._mk(self._d[len(it):])
        return self._mk(list(self._d))

    def removesuffix(self, p):
        it = items_of(p)
        if it and self.endswith(p):
            return self._mk(self._d[:-len(it)])
        return self._mk(list(self._d))

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            it = items_of(p)
            if it is None:
                raise TypeError('sequence item: expected a bytes-like object, %s found'
                                % type(p).__name__)
            if not first:
                out.extend(self._d)
            first = False
            out.extend(it)
        return self._mk(out)

    def translate(self, table, *a):
        t = items_of(table)
        out = []
        for v in self._d:
            out.append(select(t, v) if _nat_isinstance(v, SymInt) else t[v])
        return self._mk(out)

    def decode(self, *a, **k):
        return self._native_value().decode(*a, **k)

    def __bytes__(self):
        return SymBytes._mk(list(self._d))

    def __repr__(self):
        if self.is_concrete():
            return '%s(%r)' % (self.__class__.__name__, _nat_bytes(self._d))
        return '%s(<%d symbolic bytes>)' % (self.__class__.__name__, len(self._d))

    def __mod__(self, o):
        raise Unsupported('bytes formatting')

    @classmethod
    def fromhex(cls, s):
        if _nat_isinstance(s, SymHex):
            return cls._mk(list(s._d))
        return cls._mk(list(_nat_bytes.fromhex(s)))

    @staticmethod
    def maketrans(a, b):
        return _nat_bytes.maketrans(_nat_bytes(items_of(a)), _nat_bytes(items_of(b)))

    def isdigit(self):
        return self._native_value().isdigit()


class SymBytes(_Base):
    """Shadow of bytes."""
    __slots__ = ()
    _native = _nat_bytes

    def __new__(cls, *args, **kwargs):
        return cls._mk(_construct(args, kwargs))

    def __init__(self, *args, **kwargs):
        pass

    def __hash__(self):
        # equality is decided by ==, which may fork
        return hash(('bytes', len(self._d)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_rebuild, (SymBytes, self._d))


def _rebuild(cls, d):
    return cls._mk(d)


class SymBytearray(_Base):
    """Shadow of bytearray."""
    __slots__ = ()
    _native = _nat_bytearray
    __hash__ = None

    def __new__(cls, *args, **kwargs):
        return cls._mk(_construct(args, kwargs))

    def __init__(self, *args, **kwargs):
        pass

    def __deepcopy__(self, memo):
        return SymBytearray._mk(list(self._d))

    def __copy__(self):
        return SymBytearray._mk(list(self._d))

    def copy(self):
        return SymBytearray._mk(list(self._d))

    def __setitem__(self, i, v):
        if _nat_isinstance(i, slice):
            it = items_of(v)
            if it is None:
                if _is_int(v):
                    raise TypeError('can assign only bytes, buffers, or iterables of ints')
                it = [chk_byte(x) for x in v]
            self._d[i] = list(it)
            return
        if _nat_isinstance(i, (SymInt, SymBool)):
            i = i.__index__()
        if i >= len(self._d) or i < -len(self._d):
            raise IndexError('bytearray index out of range')
        self._d[i] = chk_byte(v)

    def __delitem__(self, i):
        del self._d[i]

    def append(self, v):
        self._d.append(chk_byte(v))

    def extend(self, vs):
        it = items_of(vs)
        self._d.extend(list(it) if it is not None else [chk_byte(v) for v in vs])

    def insert(self, i, v):
        self._d.insert(i, chk_byte(v))

    def pop(self, i=-1):
        return self._d.pop(i)

    def remove(self, v):
        for i, x in enumerate(self._d):
            if x == v:
                del self._d[i]
                return
        raise ValueError('value not found in bytearray')

    def reverse(self):
        self._d.reverse()

    def clear(self):
        self._d.clear()

    def __iadd__(self, o):
        it = items_of(o)
        if it is None:
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self._d.extend(list(it))
        return self

    def __imul__(self, n):
        self._d[:] = self._d * n.__index__()
        return self

    def __reduce__(self):
        return (_rebuild, (SymBytearray, list(self._d)))


class SymMemoryview:
    """Minimal one-dimensional memoryview over a byte string."""

    def __init__(self, obj, sl=None):
        if _nat_isinstance(obj, SymMemoryview):
            obj, sl = obj._obj, obj._sl
        self._obj = obj
        self._sl = sl if sl is not None else range(len(items_of(obj)))

    def _items(self):
        d = self._obj._d if _nat_isinstance(self._obj, _Base) else self._obj
        return [d[i] for i in self._sl]

    def __len__(self):
        return len(self._sl)

    def __iter__(self):
        return iter(self._items())

    def __getitem__(self, i):
        if _nat_isinstance(i, slice):
            return SymMemoryview(self._obj, self._sl[i])
        if _nat_isinstance(i, SymInt):
            return select(self._items(), i)
        return self._items()[i]

    def __setitem__(self, i, v):
        if _nat_isinstance(i, slice):
            idx = self._sl[i]
            it = items_of(v)
            if len(it) != len(idx):
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
            for k, x in zip(idx, it):
                self._obj[k] = x
        else:
            self._obj[self._sl[i]] = v

    def __eq__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return SymBytes._mk(self._items()) == SymBytes._mk(list(it))

    __hash__ = None

    def tobytes(self):
        return SymBytes._mk(self._items())

    def tolist(self):
        return self._items()

    def hex(self):
        return self.tobytes().hex()

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def nbytes(self):
        return len(self)


class SymHex:
    """Hexadecimal string of symbolic bytes."""
    __slots__ = ('_d', '_lo')

    def __init__(self, d):
        self._d = d

    def __len__(self):
        return 2 * len(self._d)

    def __eq__(self, o):
        if _nat_isinstance(o, SymHex):
            return SymBytes._mk(self._d) == SymBytes._mk(o._d)
        if _nat_isinstance(o, str):
            if len(o) != len(self) or o != o.lower():
                return False
            try:
                return SymBytes._mk(self._d) == _nat_bytes.fromhex(o)
            except ValueError:
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r.invert() if _nat_isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(SymBytes._mk(self._d)._native_value().hex())

    def __getitem__(self, i):
        if _nat_isinstance(i, slice):
            st, en, step = i.indices(len(self))
            if step == 1 and st % 2 == 0 and en % 2 == 0:
                r = self._d[st // 2:en // 2]
                return SymHex(list(r)) if r else ''
        return SymBytes._mk(self._d)._native_value().hex()[i]

    def __iter__(self):
        return iter(SymBytes._mk(self._d)._native_value().hex())

    def lower(self):
        return self

    def __add__(self, o):
        if _nat_isinstance(o, SymHex):
            return SymHex(self._d + o._d)
        if _nat_isinstance(o, str):
            return SymHex(self._d + list(_nat_bytes.fromhex(o)))
        return NotImplemented

    def __radd__(self, o):
        if _nat_isinstance(o, str):
            return SymHex(list(_nat_bytes.fromhex(o)) + self._d)
        return NotImplemented

    def encode(self, *a):
        raise Unsupported('encode of symbolic hex')

    def __deepcopy__(self, memo):
        return self


class SymStr(str):
    """Text whose characters may be symbolic (7-bit code points); the built-in content is a
    stand-in that no operation here uses."""
    __slots__ = ('_d',)

    @staticmethod
    def make(chars):
        chars = list(chars)
        if all(type(c) is _nat_int for c in chars):
            return ''.join(map(chr, chars))
        r = str.__new__(SymStr, '\x00' * len(chars))
        r._d = chars
        return r

    @staticmethod
    def chars(s):
        if _nat_isinstance(s, SymStr):
            return s._d
        return [ord(c) for c in s]

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __iter__(self):
        for c in self._d:
            yield SymStr.make([c])

    def __getitem__(self, i):
        if _nat_isinstance(i, slice):
            return SymStr.make(self._d[i])
        return SymStr.make([self._d[i.__index__()]])

    def __eq__(self, o):
        if not _nat_isinstance(o, str):
            return False
        a, b = self._d, SymStr.chars(o)
        if len(a) != len(b):
            return False
        forms = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = x == y
            if r is False:
                return False
            if r is True:
                continue
            if r.neg:
                forms.append(r.to_form() ^ 1)
            else:
                forms.extend(r.forms)
        return SymBool.all_zero(forms)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.invert() if _nat_isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(self._native())

    def _native(self):
        return ''.join(chr(c if type(c) is _nat_int else c.__index__()) for c in self._d)

    def __str__(self):
        return self

    def __repr__(self):
        return 'SymStr(%d)' % len(self._d)

    def __format__(self, spec):
        return '?'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _restr, (self._d,)

    def __add__(self, o):
        return SymStr.make(self._d + SymStr.chars(o))

    def __radd__(self, o):
        return SymStr.make(SymStr.chars(o) + self._d)

    def __contains__(self, o):
        o = SymStr.chars(o)
        n = len(o)
        for i in range(len(self._d) - n + 1):
            if SymStr.make(self._d[i:i + n]) == SymStr.make(o):
                return True
        return False

    def _all(self, test):
        return bool(self._d) and all(test(c) for c in self._d)

    def isascii(self):
        return all(c < 128 for c in self._d)

    def isdigit(self):
        return self._all(lambda c: 48 <= c <= 57 if type(c) is not _nat_int
                         else chr(c).isdigit())

    def isdecimal(self):
        return self._all(lambda c: 48 <= c <= 57 if type(c) is not _nat_int
                         else chr(c).isdecimal())

    def isnumeric(self):
        return self._all(lambda c: 48 <= c <= 57 if type(c) is not _nat_int
                         else chr(c).isnumeric())

    def isspace(self):
        return self._all(lambda c: (c == 32 or 9 <= c <= 13 or 28 <= c <= 31)
                         if type(c) is not _nat_int else chr(c).isspace())

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1 or maxsplit != -1:
            raise Unsupported('split of symbolic text')
        out, cur = [], []
        for c in self._d:
            if c == ord(sep):
                out.append(SymStr.make(cur))
                cur = []
            else:
                cur.append(c)
        out.append(SymStr.make(cur))
        return out

    def partition(self, sep):
        for i, c in enumerate(self._d):
            if len(sep) != 1:
                raise Unsupported('partition of symbolic text')
            if c == ord(sep):
                return (SymStr.make(self._d[:i]), sep, SymStr.make(self._d[i + 1:]))
        return (self, '', '')

    def find(self, sub, start=0, end=None):
        end = len(self._d) if end is None else end
        n = len(sub)
        for i in range(start, end - n + 1):
            if SymStr.make(self._d[i:i + n]) == sub:
                return i
        return -1

    def count(self, sub):
        if len(sub) != 1:
            raise Unsupported('count in symbolic text')
        return _nat_int(builtins.sum(1 for c in self._d if c == ord(sub)))

    def startswith(self, p, *a):
        if a:
            raise Unsupported('startswith')
        if _nat_isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        return bool(SymStr.make(self._d[:len(p)]) == p)

    def endswith(self, p, *a):
        if a:
            raise Unsupported('endswith')
        if _nat_isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        return len(p) <= len(self._d) and bool(SymStr.make(self._d[len(self._d) - len(p):]) == p)

    def _space(self, c):
        return chr(c).isspace() if type(c) is _nat_int else \
            bool(c == 32 or 9 <= c <= 13 or 28 <= c <= 31)

    def lstrip(self, chars=None):
        d = self._d
        while d and (self._space(d[0]) if chars is None else any(d[0] == ord(x) for x in chars)):
            d = d[1:]
        return SymStr.make(d)

    def rstrip(self, chars=None):
        d = self._d
        while d and (self._space(d[-1]) if chars is None else any(d[-1] == ord(x) for x in chars)):
            d = d[:-1]
        return SymStr.make(d)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def _parse(self, base):
        """int(text, base) for base 10."""
        if base not in (None, 10):
            raise Unsupported('int of symbolic text')
        s = self.strip()
        d = list(SymStr.chars(s))
        neg = False
        if d and (d[0] == 43 or d[0] == 45):
            neg = bool(d[0] == 45)
            d = d[1:]
        if not d:
            raise ValueError('invalid literal for int()')
        v = 0
        last = False
        for c in d:
            if type(c) is _nat_int and chr(c).isdecimal():
                v = v * 10 + _nat_int(chr(c))
                last = True
            elif 48 <= c <= 57:
                v = v * 10 + (c - 48)
                last = True
            elif c == 95 and last:
                last = False
            else:
                raise ValueError('invalid literal for int()')
        if not last:
            raise ValueError('invalid literal for int()')
        return -v if neg else v


def _restr(d):
    return SymStr.make(d)


def _no(name):
    def f(self, *a, **k):
        raise Unsupported('str.%s of symbolic text' % name)
    return f


for _n in dir(str):
    if _n not in SymStr.__dict__ and (not _n.startswith('_') or _n in (
            '__lt__', '__le__', '__gt__', '__ge__', '__mul__', '__rmul__', '__mod__')):
        setattr(SymStr, _n, _no(_n))


def symbolic_key(k):
    """Whether the key of a dict or set has to be looked up by comparing."""
    t = type(k)
    if t is SymInt:
        return True
    if t is tuple:
        return any(symbolic_key(x) or type(x) is SymStr for x in k)
    return False


def dict_find(d, key):
    """(found, value): the newest entry that equals key; may fork."""
    for k in reversed(list(d)):
        if type(k) is type(key) or _nat_isinstance(k, (_nat_int, SymInt)):
            if bool(k == key):
                return True, d[k] if _nat_isinstance(d, dict) else None
    return False, None


def sx_dget(obj, *a, **k):
    """obj.get(...)"""
    if type(obj) is dict and a and symbolic_key(a[0]):
        ok, v = dict_find(obj, a[0])
        return v if ok else a[1] if len(a) > 1 else k.get('default')
    if type(obj) is dict and a and type(a[0]) is SymStr:
        for key, v in obj.items():
            if _nat_isinstance(key, str) and a[0] == key:
                return v
        return a[1] if len(a) > 1 else k.get('default')
    return obj.get(*a, **k)


def sx_in(a, b):
    """a in b"""
    if _nat_isinstance(b, (dict, set, frozenset)) and symbolic_key(a):
        return dict_find(b, a)[0]
    if type(a) is SymStr and _nat_isinstance(b, (dict, set, frozenset)):
        return any(_nat_isinstance(key, str) and bool(a == key) for key in b)
    if type(a) is SymStr and type(b) is str:
        return any(bool(a == b[i:i + len(a)]) for i in range(len(b) - len(a) + 1))
    return a in b


class _IntMeta(type):
    def __instancecheck__(cls, obj):
        return _nat_isinstance(obj, (_nat_int, SymInt, SymBool))

    def __subclasscheck__(cls, sub):
        return issubclass(sub, (_nat_int, SymInt, SymBool))

    def __eq__(cls, o):
        return o is cls or o is _nat_int or o is SymInt

    def __hash__(cls):
        return hash(_nat_int)

    def __or__(cls, o):
        return _nat_int


class ShadowInt(metaclass=_IntMeta):
    """Shadow of int."""

    def __new__(cls, x=0, base=None):
        if _nat_isinstance(x, SymInt):
            return x
        if _nat_isinstance(x, SymBool):
            return x.as_int()
        if _nat_isinstance(x, SymHex):
            if base == 16:
                return ShadowInt.from_bytes(SymBytes._mk(x._d), 'big')
            raise Unsupported('int of symbolic string')
        if _nat_isinstance(x, SymStr):
            return x._parse(base)
        if _nat_isinstance(x, _Base):
            x = x._native_value()
        if base is None:
            return _nat_int(x)
        return _nat_int(x, base)

    @staticmethod
    def from_bytes(data, byteorder='big', *, signed=False):
        it = items_of(data)
        if it is None:
            it = [chk_byte(v) for v in data]
        it = list(it)
        if byteorder == 'big':
            it = it[::-1]
        elif byteorder != 'little':
            raise ValueError("byteorder must be either 'little' or 'big'")
        if all(type(v) is _nat_int for v in it):
            return _nat_int.from_bytes(_nat_bytes(it), 'little', signed=signed)
        bits = []
        for v in it:
            bits.extend(bits_fixed(v, 8))
        sign = 0
        if signed and bits:
            sign = bits.pop()
        return mk_int(bits, sign)

    @staticmethod
    def to_bytes(x, *a, **k):
        r = x.to_bytes(*a, **k)
        return SymBytes(r)

    @staticmethod
    def bit_length(x):
        return x.bit_length()


def sx_get(a, i):
    """a[i] for a non-slice subscript."""
    if _nat_isinstance(i, SymInt):
        if _nat_isinstance(a, (list, tuple, _nat_bytes, _nat_bytearray, range)):
            return select(a, i)
        if _nat_isinstance(a, _Base):
            return select(a._d, i)
        if _nat_isinstance(a, dict):
            return _dict_get(a, i)
    elif type(i) is tuple and _nat_isinstance(a, dict) and symbolic_key(i):
        ok, v = dict_find(a, i)
        if ok:
            return v
        raise KeyError(i)
    elif type(i) is SymStr and type(a) is dict:
        for key, v in a.items():
            if _nat_isinstance(key, str) and i == key:
                return v
        raise KeyError(i)
    elif _nat_isinstance(i, SymBool):
        return sx_get(a, i.as_int())
    return a[i]


def _dict_get(a, i):
    if a and all(type(k) is _nat_int and 0 <= k < 65536 for k in a) and len(a) == max(a) + 1:
        return select([a[k] for k in range(len(a))], i)
    ok, v = dict_find(a, i)
    if ok:
        return v
    raise KeyError(i)


def sx_bytes(lit):
    return SymBytes._mk(list(lit))


def sx_not(x):
    return not x


def _memoryview(x):
    if items_of(x) is None:
        raise TypeError("memoryview: a bytes-like object is required, not '%s'" % type(x).__name__)
    return SymMemoryview(x)


def _hex(x):
    return builtins.hex(x.__index__())


def _bin(x):
    return builtins.bin(x.__index__())


def _type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymInt:
            return ShadowInt
        if t is SymBool:
            return bool
        if t is _nat_int:
            return ShadowInt
        if t is _nat_bytes:
            return SymBytes
        if t is _nat_bytearray:
            return SymBytearray
        return t
    return type(*a)


class _TypeShadowMeta(type):
    def __instancecheck__(cls, o):
        return _nat_isinstance(o, type)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return _type(a[0])
        return type(*a, **k)


class ShadowType(metaclass=_TypeShadowMeta):
    pass


def sx_bool(x=False):
    """bool(x) that does not fork."""
    return x if _nat_isinstance(x, SymBool) else bool(x)


def _pow(a, b, m=None):
    if core.INVERT is not None and _nat_isinstance(a, SymInt) and type(m) is _nat_int and \
            type(b) is _nat_int and b in (-1, m - 2):
        return core.INVERT(a, m)
    if _nat_isinstance(a, SymInt) or _nat_isinstance(b, SymInt):
        if _nat_isinstance(b, SymInt):
            b = b.__index__()
        return SymInt.__pow__(a, b, m) if _nat_isinstance(a, SymInt) else pow(a, b, m)
    return pow(a, b) if m is None else pow(a, b, m)


def _sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def shadow_builtins(importer):
    d = dict(builtins.__dict__)
    d.update({
        'bytes': SymBytes,
        'bytearray': SymBytearray,
        'int': ShadowInt,
        'memoryview': _memoryview,
        'hex': _hex,
        'bin': _bin,
        'type': ShadowType,
        'pow': _pow,
        'sum': _sum,
        '__import__': importer,
    })
    return d
