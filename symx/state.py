"""Module-level state of the code under test, put back before every run of a scenario."""
from __future__ import annotations

import sys
import types

_SAVED = []         # (object, kind, shallow copy)
_CACHES = []
_SEEN = {}
_MODULES = set()


def capture(top='gostcrypto'):
    """Records the state of modules loaded since the last call."""
    for name, mod in list(sys.modules.items()):
        if (name == top or name.startswith(top + '.')) and name not in _MODULES:
            _MODULES.add(name)
            d = mod.__dict__
            _SAVED.append((d, 'names', dict(d)))
            for k, v in list(d.items()):
                if not k.startswith('__'):
                    _visit(v, top)


def _plain(v):
    return v is None or type(v) in (int, str, float, bool, bytes)


def _visit(v, top):
    if _plain(v) or id(v) in _SEEN:
        return
    _SEEN[id(v)] = v
    if callable(getattr(v, 'cache_clear', None)) and not isinstance(v, type):
        _CACHES.append(v)
    t = type(v)
    if t in (list, dict, set, bytearray):
        _SAVED.append((v, t.__name__, t(v)))
        if t is not bytearray:
            for x in (v.values() if t is dict else v):
                _visit(x, top)
    elif t in (tuple, frozenset):
        if not all(type(x) is int for x in v):
            for x in v:
                _visit(x, top)
    elif isinstance(v, type):
        if str(v.__module__).split('.')[0] == top:
            _SAVED.append((v, 'class', dict(vars(v))))
            for k, x in list(vars(v).items()):
                if not (k.startswith('__') and k.endswith('__') and
                        not callable(x)):
                    _visit(x, top)
    elif isinstance(v, types.FunctionType):
        if str(v.__module__).split('.')[0] == top:
            _visit(v.__defaults__, top)
            _visit(v.__kwdefaults__, top)
            _visit(v.__dict__, top)
            for c in v.__closure__ or ():
                try:
                    _visit(c.cell_contents, top)
                except ValueError:
                    pass
    elif isinstance(v, (staticmethod, classmethod)):
        _visit(v.__func__, top)
    elif isinstance(v, property):
        _visit(v.fget, top)
    elif t.__module__.split('.')[0] == top and hasattr(v, '__dict__'):
        _SAVED.append((v, 'object', dict(vars(v))))
        for x in list(vars(v).values()):
            _visit(x, top)
    elif type(getattr(v, '_d', None)) is list:      # a symbolic-capable byte string
        _SAVED.append((v._d, 'list', list(v._d)))


def _code(x):
    return isinstance(x, (types.FunctionType, staticmethod, classmethod, type))


def restore(code=True):
    """code: also functions and classes (which the abstractions replace)."""
    for v, kind, was in _SAVED:
        if kind == 'list':
            if len(v) != len(was) or any(a is not b for a, b in zip(v, was)):
                v[:] = was
        elif kind == 'names' or kind == 'dict' or kind == 'object':
            d = vars(v) if kind == 'object' else v
            if not code:
                was = {**was, **{k: x for k, x in d.items() if _code(x)}}
            if len(d) != len(was) or any(d.get(k, was) is not x for k, x in was.items()):
                d.clear()
                d.update(was)
        elif kind == 'class':
            d = vars(v)
            for k in list(d):
                if k not in was and (code or not _code(d[k])):
                    delattr(v, k)
            for k, x in was.items():
                if d.get(k, was) is not x and (code or not _code(d.get(k))):
                    setattr(v, k, x)
        elif kind == 'set':
            if v != was:
                v.clear()
                v.update(was)
        elif v != was:
            v[:] = was
    for c in _CACHES:
        c.cache_clear()
