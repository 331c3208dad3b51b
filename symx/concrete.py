"""Runs scenarios on the real code with concrete inputs (replay and validation).

usage: concrete.py < jobs.json > results.json
Each job: {module, func, params, inputs, timeout}; run with plain CPython.
"""
from __future__ import annotations

import importlib
import json
import os
import random
import signal
import sys


class Timeout(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


_REAL_URANDOM = os.urandom
_CUR = None


def _urandom(n):
    if _CUR is not None and _CUR._ur is not None:
        return _CUR._next_random(n)
    return _REAL_URANDOM(n)


def norm(v):
    """A comparable, JSON-able rendering of an observed value."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return {'b': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return {'o': type(v).__name__}


class ConcreteEnv:
    sym = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.violations = []
        self.obs = []
        self._ur = None

    # inputs
    def bytes(self, name, n):
        v = int(self.inputs.get(name, 0)) & ((1 << (8 * n)) - 1)
        return v.to_bytes(n, 'little')

    def bytearray(self, name, n):
        return bytearray(self.bytes(name, n))

    def int(self, name, lo, hi):
        v = lo + int(self.inputs.get(name, 0))
        if v > hi:
            raise AssumeFailed()
        return v

    def string(self, name, pattern):
        out = ''
        for i, part in enumerate(pattern):
            if part[:1] not in '#?' or not part:
                out += part
                continue
            for j in range(int(part[1:])):
                v = int(self.inputs.get('%s.%d.%d' % (name, i, j), 0))
                if part[0] == '#' and v > 9:
                    raise AssumeFailed()
                out += chr(v & 127) if part[0] == '?' else chr(48 + v)
        return out

    def choice(self, name, n):
        v = int(self.inputs.get(name, 0))
        if v >= n:
            raise AssumeFailed()
        return v

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def wide_arithmetic(self, inverse=None):
        pass

    @staticmethod
    def pristine():
        state.restore(code=False)

    def randomness(self, name, make=None):
        self._ur = [name, 0, make]

    def _next_random(self, n):
        name, i, make = self._ur
        self._ur[1] += 1
        self.obs.append(['urandom', n])
        return make(i, n) if make else self.bytes('%s%d' % (name, i), n)

    # assertions
    def fail(self, label, detail=''):
        self.violations.append([label, detail])

    def eq(self, label, actual, expected):
        a, e = norm(actual), norm(expected)
        self.obs.append([label, a])
        if a != e:
            self.fail(label, 'got %s expected %s' % (_short(a), _short(e)))

    def ne(self, label, actual, expected):
        a, e = norm(actual), norm(expected)
        if a == e:
            self.fail(label, 'both are %s' % _short(a))

    def true(self, label, cond):
        self.obs.append([label, bool(cond)])
        if not cond:
            self.fail(label, 'condition does not hold')

    def observe(self, label, v):
        self.obs.append([label, norm(v)])

    def raises(self, label, excs, fn):
        try:
            r = fn()
        except excs as e:
            self.obs.append([label, type(e).__name__])
            return e
        except Exception as e:
            self.obs.append([label, type(e).__name__])
            self.fail(label, 'raised %s: %s' % (type(e).__name__, e))
            return None
        self.obs.append([label, 'returned'])
        self.fail(label, 'no error; returned %s' % _short(norm(r)))
        return None


def _short(v):
    s = json.dumps(v)
    return s if len(s) < 200 else s[:200] + '...'


def _alarm(*a):
    raise Timeout()


def run_one(job):
    global _CUR
    out = {'status': 'ok', 'violations': [], 'obs': []}
    env = ConcreteEnv(job['inputs'])
    _CUR = env
    random.seed(1)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, job.get('timeout', 20))
    try:
        mod = importlib.import_module(job['module'])
        fn = getattr(mod, job['func'])
        state.capture()
        state.restore()
        fn(env, **job['params'])
    except Timeout:
        out['status'] = 'hang'
        env.fail('termination', 'did not finish within %s s' % job.get('timeout', 20))
    except AssumeFailed:
        out['status'] = 'assume'
        env.violations = []
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else ''
        out['status'] = 'exception'
        env.fail('unexpected exception', '%s: %s (%s)' % (type(e).__name__, e, where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _CUR = None
    out['violations'] = env.violations
    out['obs'] = env.obs
    return out


def main():
    os.urandom = _urandom
    random._urandom = _urandom
    repo = os.environ.get('SX_REPO', '/repo')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    try:
        sys.set_int_max_str_digits(0)
    except AttributeError:
        pass
    global state
    from symx import state
    jobs = json.load(sys.stdin)
    sys.unraisablehook = lambda *a: None
    res = [run_one(j) for j in jobs]
    json.dump(res, sys.stdout)


if __name__ == '__main__':
    sys.path.pop(0)
    main()
