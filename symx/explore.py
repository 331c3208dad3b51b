"""Depth-first exploration of the paths of a scenario on symbolic inputs."""
from __future__ import annotations

import gc
import random
import time

from . import core
from . import solve
from .core import SymBool, SymInt, PathState, PathAbort, Hang, Budget, Unsupported, sparse_of


class _Random(dict):
    """Input values, drawn at random for the names that are missing."""

    def __init__(self, rng, d):
        super().__init__(d)
        self.rng = rng

    def get(self, name, default=0):
        if name not in self:
            self[name] = self.rng.getrandbits(4096)
        return self[name]


class Explorer:
    def __init__(self, max_paths=2000, time_budget=60.0, seed=1):
        self.max_paths = max_paths
        self.deadline = time.time() + time_budget
        self.stack = [[]]
        self.doubtful = []
        self.prefix = []
        self.paths = 0
        self.decisions = 0
        self.transitions = 0
        self.unknown_forks = 0
        self.complete = True
        self.path = None
        self.rng = random.Random(seed)
        self.samples = [core.Evaluator(_Random(self.rng, {})) for _ in range(5)]

    # -- one decision ---------------------------------------------------
    def decide(self, sb):
        path = self.path
        if path is not core.PATH or path.quiet:
            return False
        forms = []
        for f in sb.forms:
            f = path.reduce(f)
            if f == 1:
                return sb.neg
            if f and f not in forms:
                forms.append(f)
        if not forms:
            return not sb.neg
        n = len(path.decisions)
        if n < len(self.prefix):
            val = self.prefix[n]
        else:
            if time.time() > self.deadline:
                self.complete = False
                raise Budget('time')
            try:
                can_t, can_f = self._feasible(path, forms)
            except Exception as e:      # an error of the engine, not of the code
                raise Unsupported('decide: %s: %s' % (type(e).__name__, e)) from e
            if can_t and can_f:
                # a direction that may be infeasible comes last; otherwise follow the witnesses
                if 2 in (can_t, can_f):
                    val = not (can_t == 2 and can_f != 2)
                else:
                    alive = self._alive(path)
                    zero = sum(not any(e.form(f) for f in forms) for e in alive)
                    val = not 3 * zero < len(alive)
                later = self.doubtful if 2 in (can_t, can_f) else self.stack
                later.append(path.decisions + [not val])
                core.STATS['forks'] += 1
            elif can_t:
                val = True
            elif can_f:
                val = False
            else:
                raise PathAbort('infeasible')
        path.decisions.append(val)
        self.decisions += 1
        path.witness = [e for e in self._alive(path)
                        if (not any(e.form(f) for f in forms)) == val]
        if val:
            for f in forms:
                path.add_zero(f)
        else:
            path.add_clause(forms)
        return val != sb.neg

    def _feasible(self, path, forms):
        free = ~(core.CHOICE | 1)
        chosen = all(not f & free for f in forms) and \
            not any(f & core.CHOICE for cl in path.clauses for f in cl)
        linear = chosen or not path.clauses and all(self._free(f) for f in forms) and \
            all(self._free(r) for _, r in path.rows)
        if linear:
            # consistency of the linear system; the atoms are free
            rows = []
            ok = True
            for f in forms:
                for p, r in rows:
                    if (f >> p) & 1:
                        f ^= r
                if f == 1:
                    ok = False
                    break
                if f:
                    rows.append((f.bit_length() - 1, f))
            return ok, True
        # concrete witnesses first; the solver decides the directions left open
        can_t = can_f = False
        for e in self._alive(path):
            if any(e.form(f) for f in forms):
                can_f = True
            else:
                can_t = True
        for _ in range(6):
            if can_t and can_f:
                break
            e = draw(path, self.rng)
            if e is not None:
                if any(e.form(f) for f in forms):
                    new, can_f = not can_f, True
                else:
                    new, can_t = not can_t, True
                if new and len(self.samples) < 256:
                    self.samples.append(e)
                    self._alive(path).append(e)
        for _ in range(2):
            if can_t:
                break
            # all forms zero, by input bits that occur linearly only
            e = draw(path, self.rng, extra=forms)
            if e is not None:
                can_t = True
                if len(self.samples) < 256:
                    self.samples.append(e)
                    self._alive(path).append(e)
        if not (can_t and can_f):
            few = core.few_inputs(forms + [r for _, r in path.rows] +
                                  [f for cl in path.clauses for f in cl])
            if few:
                can_t = can_f = False
                for e in few[1]:
                    if all(e.form(r) == 0 for _, r in path.rows) and \
                            all(any(e.form(f) for f in cl) for cl in path.clauses):
                        if any(e.form(f) for f in forms):
                            can_f = True
                        else:
                            can_t = True
                return can_t, can_f
        if not can_t:
            can_t = self._ask(path, SymBool(tuple(forms)))
        if not can_f:
            can_f = self._ask(path, SymBool(tuple(forms), True))
        return can_t, can_f     # 2: perhaps

    def _alive(self, path):
        if path.witness is None:
            path.witness = list(self.samples)
        return path.witness

    def _ask(self, path, cond):
        # undecided directions are explored, so there is no point in insisting
        if self.unknown_forks >= 80:
            return 2
        r, inputs = solve.check(path, [cond], want_model=True,
                                timeout_ms=4000 if self.unknown_forks < 12 else
                                1000 if self.unknown_forks < 24 else 200)
        if r == 'unknown':
            self.unknown_forks += 1
        if r == 'sat' and inputs is not None and len(self.samples) < 256:
            e = core.Evaluator(_Random(self.rng, inputs))
            if all(e.form(row) == 0 for _, row in path.rows) and \
                    all(any(e.form(f) for f in cl) for cl in path.clauses):
                self.samples.append(e)
                self._alive(path).append(e)
        return 2 if r == 'unknown' else r == 'sat'

    @staticmethod
    def _free(f):
        for p in sparse_of(f & ~1):
            if core.ATOM_DEF[int(p)][0] != 'in':
                return False
        return True

    # -- all paths --------------------------------------------------------
    def run(self, fn, on_path):
        """Calls fn() once per path and on_path(kind, exc, path) after each."""
        gc.disable()
        try:
            while self.stack or self.doubtful:
                if self.paths >= self.max_paths or time.time() > self.deadline:
                    self.complete = False
                    break
                # now and then the other side of an early decision
                todo = self.stack or self.doubtful
                pick = -1
                if self.paths % 4 == 1:
                    short = min(map(len, todo))
                    pick = max(i for i, d in enumerate(todo) if len(d) == short)
                self.prefix = todo.pop(pick)
                self.path = PathState()
                self.path.decider = self.decide
                core.set_path(self.path)
                kind, exc = 'ok', None
                try:
                    fn()
                except PathAbort:
                    kind = 'abort'
                except Hang as e:
                    kind, exc = 'hang', e
                except Budget as e:
                    kind, exc = 'budget', e
                except Unsupported as e:
                    kind, exc = 'unsupported', e
                except RecursionError as e:
                    kind, exc = 'exception', e
                except Exception as e:      # noqa: BLE001
                    kind, exc = 'exception', e
                self.transitions += len(self.path.decisions) - len(self.prefix) + 1
                if kind != 'abort':
                    self.paths += 1
                    on_path(kind, exc, self.path)
                    self.path.quiet = True
                    exc = None
                    if self.paths % 8 == 1:
                        gc.collect()
                if kind == 'budget':
                    break
        finally:
            gc.enable()
            core.set_path(PathState())


def draw(path, rng, inputs=None, extra=()):
    """An evaluator over random inputs that satisfy the path condition (and make the
    forms in extra zero), or None."""
    vals = _Random(rng, inputs or {})
    hard = []
    rows = [r for _, r in path.rows]
    if extra:
        rows = _reduced(rows + list(extra))
        if rows is None:
            return None
    for row in rows:
        piv = row.bit_length() - 1
        atoms = [int(p) for p in sparse_of(row & ~1)]
        if all(core.ATOM_DEF[a][0] == 'in' for a in atoms):
            v = row & 1
            for a in atoms:
                if a != piv:
                    _, nm, b = core.ATOM_DEF[a][:3]
                    v ^= (vals.get(nm) >> b) & 1
            _, nm, b = core.ATOM_DEF[piv][:3]
            vals[nm] = (vals.get(nm) & ~(1 << b)) | (v << b)
        else:
            hard.append(row)
    ev = core.Evaluator(vals)
    if hard and any(ev.form(r) for r in hard):
        if not _repair(vals, ev, rows):
            return None
        ev = core.Evaluator(vals)
        if any(ev.form(r) for r in rows):
            return None
    if not all(any(ev.form(f) for f in cl) for cl in path.clauses):
        return None
    return ev


def _reduced(rows):
    """Fully reduced linear system (zero forms), or None when contradictory."""
    out = []
    for f in rows:
        for p, r in out:
            if (f >> p) & 1:
                f ^= r
        if f == 1:
            return None
        if f:
            piv = f.bit_length() - 1
            out = [(p, (r ^ f) if (r >> piv) & 1 else r) for p, r in out]
            out.append((piv, f))
    return [r for _, r in out]


def _repair(vals, ev, rows):
    """Changes input bits that the rows depend on linearly only."""
    deep, direct, stack, seen = set(), set(), [], set()
    split = []
    for row in rows:
        here = []
        for p in sparse_of(row & ~1):
            p = int(p)
            if core.ATOM_DEF[p][0] == 'in':
                here.append(p)
            else:
                stack.append(p)
        direct.update(here)
        split.append(here)
    if not direct:
        return False
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        if len(seen) > 40000:
            return False
        d = core.ATOM_DEF[a]
        if d[0] == 'in':
            deep.add(a)
            if direct <= deep:
                return False
            continue
        if d[0] == 'fn':
            g = d[1]
            if id(g) in seen:
                continue
            seen.add(id(g))
            for dep in g.sparse:
                stack.extend(p for p in map(int, dep) if p not in seen)
        elif id(d[2]) not in seen:
            seen.add(id(d[2]))
            for arg in d[2]:
                for f in arg:
                    stack.extend(p for p in map(int, sparse_of(f & ~1)) if p not in seen)
    free = direct - deep
    if not free:
        return False
    pos = {a: i + 1 for i, a in enumerate(free)}
    system = []
    for row, here in zip(rows, split):
        f = ev.form(row)
        for a in here:
            if a in pos:
                f |= 1 << pos[a]
        system.append(f)
    flips = _reduced(system)
    if flips is None:
        return False
    back = {i: a for a, i in pos.items()}
    for f in flips:
        if f & 1:       # the other free bits of the row stay as they are
            _, nm, b = core.ATOM_DEF[back[f.bit_length() - 1]][:3]
            vals[nm] = vals.get(nm) ^ (1 << b)
    return True


def sample_inputs(path, rng, names, tries=24, samples=()):
    """Inputs (name -> int) satisfying the path condition, or None."""
    for e in samples:
        if not any(e.form(r) for _, r in path.rows) and \
                all(any(e.form(f) for f in cl) for cl in path.clauses):
            got = {n: e.inputs.get(n) & ((1 << b) - 1) for n, b in names.items()}
            if rng.random() < 0.7:
                return got
    for _ in range(tries):
        ev = draw(path, rng)
        if ev is not None:
            return {n: ev.inputs.get(n) & ((1 << b) - 1) for n, b in names.items()}
    r, inputs = solve.check(path, [], timeout_ms=8000, want_model=True)
    if inputs is not None and r == 'sat':
        for name in names:
            inputs.setdefault(name, 0)
        # functions that the solver chose freely may differ from the real ones
        ev = core.Evaluator(inputs)
        if not any(ev.form(r) for _, r in path.rows) and \
                all(any(ev.form(f) for f in cl) for cl in path.clauses):
            return inputs
    return None
