"""Symbolic environment handed to scenarios, and the worker that runs one."""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import core
from . import state
from . import shims
from . import solve
from .core import SymBool, SymInt, mk_int, PathAbort
from .explore import _Random, Explorer, sample_inputs
from .values import SymBytes, SymBytearray, SymHex, SymMemoryview, SymStr, items_of

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class SymEnv:
    sym = True
    approx = False      # some function is evaluated by a stand-in

    def __init__(self):
        self.declared = {}
        self.total_obligations = 0
        self.normal_form = 0
        self.begin()

    def begin(self):
        self.obs = []
        self.failures = []      # (label, condition under which it fails or None)
        self.pairs = []         # form pairs of equalities closed on this path
        self._ur = None
        self._rb = None
        core.poly_mode(False)
        core.INVERT = None

    # -- inputs
    def _bits(self, name, nbits):
        self.declared[name] = max(self.declared.get(name, 0), nbits)
        return core.input_bits(name, nbits)

    def bytes(self, name, n):
        b = self._bits(name, 8 * n)
        return SymBytes._mk([mk_int(b[8 * i:8 * i + 8]) for i in range(n)])

    def bytearray(self, name, n):
        return SymBytearray._mk(list(self.bytes(name, n)._d))

    def int(self, name, lo, hi):
        span = hi - lo
        n = span.bit_length()
        x = mk_int(self._bits(name, n))
        if span + 1 != 1 << n:
            if x > span:
                raise PathAbort('range')
        return x + lo

    def string(self, name, pattern):
        """Text: '#3' in the pattern is three digits, '?2' two ASCII characters, anything
        else is itself."""
        out = []
        for i, part in enumerate(pattern):
            if part[:1] not in '#?' or not part:
                out.extend(ord(c) for c in part)
                continue
            for j in range(int(part[1:])):
                nm = '%s.%d.%d' % (name, i, j)
                if part[0] == '?':
                    out.append(mk_int(self._bits(nm, 7)))
                else:
                    x = mk_int(self._bits(nm, 4))
                    if x > 9:
                        raise PathAbort('range')
                    out.append(x + 48)
        return SymStr.make(out)

    def choice(self, name, n):
        k = (n - 1).bit_length()
        bits = self._bits(name, k)
        for f in bits:
            core.CHOICE |= f
        v = 0
        for i in range(k - 1, -1, -1):
            if v | (1 << i) > n - 1:
                core.PATH.add_zero(bits[i])
            elif SymBool((bits[i],), True):
                v |= 1 << i
        return v

    def assume(self, cond):
        if not cond:
            raise PathAbort('assume')

    @staticmethod
    def pristine():
        """Puts the module-level state of the code back, as in a new process."""
        state.restore(code=False)

    def randomness(self, name, make=None):
        """The system generator returns inputs: name0, name1, ..., or make(i, n)."""
        self._ur = [name, 0]

        def hook(n):
            nm, i = self._ur
            self._ur[1] += 1
            self.obs.append(('urandom', n))
            return make(i, n) if make else self.bytes('%s%d' % (nm, i), n)
        shims.URANDOM = hook

    def uf(self, name, fn, nout):
        """An uninterpreted function on byte strings; fn is its real meaning."""
        def real(*vals):
            out = fn(*[SymBytes((v & ((1 << (8 * k)) - 1)).to_bytes(k, 'little'))
                       for v, k in zip(vals, real.sizes)])
            return int.from_bytes(bytes(bytearray(int(x) for x in _list(out))), 'little')

        def apply(*args):
            items = [list(items_of(a)) for a in args]
            sizes = tuple(len(it) for it in items)
            if all(isinstance(x, int) and not isinstance(x, SymInt) for it in items for x in it):
                return SymBytes(bytearray(int(x) for x in _list(
                    fn(*[SymBytes._mk(it) for it in items]))))
            full = '%s.%s' % (name, '.'.join(map(str, sizes)))
            if full not in core.UF_FUN:
                def f(*vals, _s=sizes):
                    real.sizes = _s
                    return real(*vals)
                core.UF_FUN[full] = f
            forms = []
            for it in items:
                fs = []
                for x in it:
                    b = core.bits_fixed(x, 8)
                    fs.extend(b)
                forms.append(fs)
            out = core.uf_apply(full, forms, 8 * nout)
            return SymBytes._mk([mk_int(out[8 * i:8 * i + 8]) for i in range(nout)])
        return apply

    def wide_arithmetic(self, inverse=None):
        """Products of wide numbers are kept as polynomials; inverse(v, m): pow(v, -1, m)."""
        core.poly_mode(True)
        core.INVERT = inverse

    def uf_int(self, name, fn, args, nbits, hi=None):
        """An uninterpreted function of non-negative integers; fn is its real meaning."""
        if all(type(a) is int for a in args):
            return fn(*args)
        full = 'i_%s_%d' % (name, len(args))
        core.UF_FUN.setdefault(full, fn)
        forms = []
        for a in args:
            b, s = core._bits_of(a)
            if s:
                raise core.Unsupported('negative argument of %s' % name)
            forms.append(list(b))
        bits = core.exact(forms, fn, nbits) or core.uf_apply(full, forms, nbits)
        r = mk_int(bits)
        if hi is not None and isinstance(r, SymInt):
            core._pvar(r.b, hi)
        return r

    # -- assertions
    def fail(self, label, detail=''):
        self.failures.append((label, None, detail))

    def _obligation(self, label, r):
        """r must hold."""
        self.total_obligations += 1
        if isinstance(r, SymBool):
            forms = [core.reduce_form(f) for f in r.forms]
            if not r.neg and any(forms) and 1 not in forms and \
                    (core.PATH.rows or core.PATH.clauses):
                forms = self._rebuild(forms)
                r = SymBool(tuple(f for f in forms if f), False)
            if not r.neg and not any(forms):
                r = True
            elif not r.neg and 1 in forms:
                r = False
        if r is True:
            self.normal_form += 1
            return
        if not isinstance(r, SymBool):
            if not r:
                self.failures.append((label, None, 'does not hold'))
            return
        self.failures.append((label, r.invert(), 'differs'))

    def _rebuild(self, forms):
        key = (len(core.PATH.rows), len(core.PATH.clauses))
        if self._rb is None or self._rb[0] != key:
            self._rb = (key, core.Rebuilder())
        return self._rb[1].forms(forms)

    def eq(self, label, actual, expected):
        self.obs.append((label, snapshot(actual)))
        self._obligation(label, sx_eq(actual, expected))

    def ne(self, label, actual, expected):
        r = sx_eq(actual, expected)
        self._obligation(label, r.invert() if isinstance(r, SymBool) else not r)

    def true(self, label, cond):
        self.obs.append((label, cond))
        self._obligation(label, cond if isinstance(cond, (bool, SymBool)) else bool(cond))

    def observe(self, label, v):
        self.obs.append((label, snapshot(v)))

    def raises(self, label, excs, fn):
        self.total_obligations += 1
        try:
            fn()
        except excs as e:
            self.obs.append((label, type(e).__name__))
            self.normal_form += 1
            return e
        except Exception as e:
            self.obs.append((label, type(e).__name__))
            self.fail(label, 'raised %s: %s' % (type(e).__name__, e))
            return None
        self.obs.append((label, 'returned'))
        self.fail(label, 'no error')
        return None


def _list(v):
    it = items_of(v)
    return v if it is None else it


def mix(*args):
    """Some fixed function of concrete byte strings, with 64 bytes."""
    data = b''.join(bytearray(int(x) for x in (items_of(a) or a)) for a in args)
    return list(hashlib.blake2b(data).digest())


def snapshot(v):
    it = items_of(v)
    if it is not None:
        return SymBytes._mk(list(it))
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v


def sx_eq(a, b):
    ia, ib = items_of(a), items_of(b)
    if ia is not None or ib is not None:
        if ia is None or ib is None or len(ia) != len(ib):
            return False
        return SymBytes._mk(list(ia))._eqval(SymBytes._mk(list(ib)))
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            t = sx_eq(x, y)
            if t is False:
                return False
            if r is True:
                r = t
            elif t is not True:
                r = r & t
        return r
    if isinstance(a, (SymInt, SymBool, SymHex)) or isinstance(b, (SymInt, SymBool, SymHex)):
        if a is None or b is None:
            return False
        r = a == b
        return False if r is NotImplemented else r
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return bool(a == b)


def evaluate(ev, v):
    """Concrete rendering (as concrete.norm) of a symbolic observation."""
    it = items_of(v)
    if it is not None:
        return {'b': bytes(ev.value(x) for x in it).hex()}
    if isinstance(v, SymBool):
        return bool(ev.value(v))
    if isinstance(v, SymInt):
        return ev.value(v)
    if isinstance(v, SymStr):
        return ''.join(chr(ev.value(c)) for c in v._d)
    if isinstance(v, SymHex):
        return bytes(ev.value(x) for x in v._d).hex()
    if v is None or isinstance(v, (bool, str, int)):
        return v
    if isinstance(v, (list, tuple)):
        return [evaluate(ev, x) for x in v]
    return {'o': type(v).__name__}


def run_concrete(jobs, timeout):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([PLAIN_PY, os.path.join(HERE, 'symx', 'concrete.py')],
                       input=json.dumps(jobs), capture_output=True, text=True,
                       timeout=timeout, env=env, check=False)
    if p.returncode != 0:
        raise RuntimeError('concrete runner failed: ' + p.stderr[-400:])
    return json.loads(p.stdout)


def run_scenario(task):
    """task: {module, func, params, max_paths, time, validate, seed}; returns a dict."""
    t0 = time.time()
    core.reset()
    solve.reset_facts()
    for k in core.STATS:
        core.STATS[k] = 0
    for k in solve.QSTATS:
        solve.QSTATS[k] = 0
    rng = random.Random(task.get('seed', 1) * 1000003 + 17)
    res = {'module': task['module'], 'func': task['func'], 'params': task['params'],
           'violations': [], 'unconfirmed': [], 'notes': [], 'validated': 0,
           'validation_mismatch': 0, 'samples': []}
    solve.install_lemma_hook()
    shims.URANDOM = None
    ex = Explorer(task.get('max_paths', 4000), task.get('time', 60))
    for h in task.get('hints', ()):
        ex.samples.append(core.Evaluator(_Random(ex.rng, h)))
    env = SymEnv()
    cands = []
    traces = []
    degraded = []
    seen_labels = {}

    def job(inputs, timeout=20):
        return {'module': task['module'], 'func': task['func'], 'params': task['params'],
                'inputs': inputs, 'timeout': timeout}

    try:
        mod = importlib.import_module(task['module'])
        fn = getattr(mod, task['func'])
    except Exception as e:
        res['notes'].append('symbolic load failed: %s: %s' % (type(e).__name__, e))
        degraded.append('load')
        fn = None

    state.capture()

    def body():
        state.restore()
        env.begin()
        fn(env, **task['params'])

    def on_path(kind, exc, path):
        names = dict(env.declared)
        if kind == 'exception':
            tb = traceback.extract_tb(exc.__traceback__)
            where = '%s:%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno,
                                  tb[-1].name) if tb else ''
            env.failures.append(('unexpected exception', None,
                                 '%s: %s (%s)' % (type(exc).__name__, exc, where)))
        elif kind == 'hang':
            env.failures.append(('termination', None, 'iteration limit reached'))
        elif kind == 'unsupported':
            degraded.append('unsupported: %s' % exc)
        elif kind == 'budget':
            res['notes'].append('exploration budget reached')
        # decide the remaining obligations of this path
        for label, cond, detail in env.failures:
            if seen_labels.get(label, 0) >= 3:
                continue
            models = []
            if cond is None:
                verdict = 'sat'
            else:
                verdict, inputs = solve.check(path, [cond], timeout_ms=6000, limit=2500,
                                              want_model=True)
                if verdict == 'unsat':
                    env.normal_form += 1
                    continue
                if inputs is not None:
                    base = sample_inputs(path, rng, names, samples=ex.samples) or {}
                    base.update(inputs)
                    models.append({n: base.get(n, 0) for n in names})
            for _ in range(4):
                s = sample_inputs(path, rng, names, samples=ex.samples)
                if s is not None:
                    models.append(s)
            models.extend(dict(h) for h in task.get('hints', ()))
            seen_labels[label] = seen_labels.get(label, 0) + 1
            cands.append((label, detail, models))
        if kind in ('ok', 'exception') and len(traces) < task.get('validate', 4) * 6:
            n_atoms = len(core.ATOM_DEF)
            if n_atoms < 60000:
                s = sample_inputs(path, rng, names, samples=ex.samples)
                if s is not None and not env.failures and kind == 'ok':
                    ev = core.Evaluator(s)
                    exp = []
                    if len(traces) < task.get('validate', 4) and not env.approx:
                        exp = [[l, evaluate(ev, v)] for l, v in env.obs]
                    traces.append((s, exp))

    if fn is not None:
        ex.run(body, on_path)
    lem = solve.discharge_lemmas(task.get('lemma_time', 30.0), task.get('facts'))
    res['lemmas'] = {'unsat': lem[0], 'failed': lem[1], 'skipped': lem[2]}

    # replay candidates and validation traces on the real code
    def confirm(jobs, label, detail, timeout):
        if not jobs:
            return False
        try:
            outs = run_concrete(jobs, timeout)
        except (subprocess.TimeoutExpired, RuntimeError) as e:
            res['notes'].append('replay failed: %s' % e)
            return False
        for j, o in zip(jobs, outs):
            if o['violations']:
                v = next((v for v in o['violations'] if v[0] == label), o['violations'][0])
                res['violations'].append({'label': v[0], 'detail': v[1], 'job': j})
                return True
        return False

    for label, detail, models in cands:
        if any(v['label'] == label for v in res['violations']):
            continue
        jobs = [job(m, 15 if label != 'termination' else 10) for m in models]
        if label == 'termination':
            jobs = jobs[:2]
        if not confirm(jobs, label, detail, 20 + 16 * len(jobs)):
            res['unconfirmed'].append({'label': label, 'detail': detail})
    if traces:
        jobs = [job(s) for s, _ in traces]
        try:
            outs = run_concrete(jobs, 30 + 5 * len(jobs))
            for (s, exp), j, o in zip(traces, jobs, outs):
                if o['violations']:
                    v = o['violations'][0]
                    if not any(x['label'] == v[0] for x in res['violations']):
                        res['violations'].append({'label': v[0], 'detail': v[1], 'job': j})
                elif exp:
                    if o['obs'] == exp:
                        res['validated'] += 1
                        if len(res['samples']) < 1:
                            res['samples'].append({'func': task['func'],
                                                   'params': task['params'],
                                                   'inputs': {k: hex(v)[:80] for k, v in
                                                              list(s.items())[:6]}})
                    else:
                        res['validation_mismatch'] += 1
                        bad = [(a, b) for a, b in zip(o['obs'], exp) if a != b][:1]
                        res['notes'].append('observations differ from the encoding: %s'
                                            % str(bad)[:300])
        except (subprocess.TimeoutExpired, RuntimeError) as e:
            res['notes'].append('validation failed: %s' % e)
    if degraded or res['unconfirmed']:
        # the encoding did not cover everything: fall back to concrete trials
        res['notes'].extend(sorted(set(degraded))[:3])
        names = dict(env.declared)
        jobs = []
        jobs.extend(job(dict(h)) for h in task.get('hints', ()))
        for k in range(16):
            jobs.append(job({n: (rng.getrandbits(b) if b else 0) for n, b in names.items()}))
        confirm(jobs, '', '', 60)
        res['degraded'] = True
    res.update(paths=ex.paths, decisions=ex.decisions, transitions=ex.transitions,
               complete=ex.complete and not degraded, obligations=env.total_obligations,
               closed=env.normal_form, atoms=len(core.ATOM_DEF), unknown_forks=ex.unknown_forks,
               stats=dict(core.STATS), queries=dict(solve.QSTATS), wall=time.time() - t0)
    return res
