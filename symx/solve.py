"""z3 back end: translation of forms, satisfiability of path conditions,
certification of the table facts used by the normal form."""
from __future__ import annotations

import collections
import hashlib
import os
import time

import z3

from . import core
from .core import SymBool, dense_of, sparse_of

QSTATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_time': 0.0,
          'lemma_queries': 0}

_TT_MEMO = {}


def tt_expr(tt, d, vs):
    """z3 Bool of truth table tt over the Bools vs (Shannon expansion)."""
    key = (tt, d, tuple(v.get_id() for v in vs[:d]))
    r = _TT_MEMO.get(key)
    if r is not None:
        return r[0]
    full = (1 << (1 << d)) - 1
    if tt == 0:
        r = z3.BoolVal(False)
    elif tt == full:
        r = z3.BoolVal(True)
    else:
        half = 1 << (d - 1)
        lo = tt & ((1 << half) - 1)
        hi = tt >> half
        if lo == hi:
            r = tt_expr(lo, d - 1, vs)
        elif d == 1:
            r = vs[0] if tt == 2 else z3.Not(vs[0])
        else:
            a = tt_expr(lo, d - 1, vs)
            b = tt_expr(hi, d - 1, vs)
            if lo ^ hi == (1 << half) - 1:
                r = z3.Xor(vs[d - 1], a)
            else:
                r = z3.If(vs[d - 1], b, a)
    _TT_MEMO[key] = (r, vs)
    return r


# translations, kept for the scenario: atom -> z3 Bool, atom -> definition, form -> z3 Bool,
# uninterpreted functions and their applications
_VAR = {}
_DEF = {}
_FORM = {}
_UF = {}
_UFAPP = {}
_RECENT = collections.deque(maxlen=48)      # sums translated lately: (form, z3 Bool)


def reset_translation():
    for d in (_VAR, _DEF, _FORM, _UF, _UFAPP, _TT_MEMO, _RECENT):
        d.clear()


def _var(a):
    v = _VAR.get(a)
    if v is None:
        d = core.ATOM_DEF[a]
        v = _VAR[a] = z3.Bool('%s.%d' % (d[1], d[2]) if d[0] == 'in' else 'a%d' % a)
    return v


def _xor(vs, c):
    if not vs:
        return z3.BoolVal(bool(c))
    r = vs[0]
    for v in vs[1:]:
        r = z3.Xor(r, v)
    return z3.Not(r) if c else r


def _form(f):
    r = _FORM.get(f)
    if r is None:
        r = _sum(f & ~1)
        if f & 1:
            r = z3.Not(r)
        if len(_FORM) < 200000:
            _FORM[f] = r
    return r


def _sum(f):
    """The sum of the atoms of f, as a sum translated lately plus the difference if that is
    shorter: the carries of an addition are sums of ever more atoms."""
    r = _FORM.get(f)
    if r is not None:
        return r
    n = f.bit_count()
    if n > 3:
        best, at = n - 1, None
        for g, e in _RECENT:
            k = (f ^ g).bit_count()
            if k < best:
                best, at = k, (g, e)
        if at is None:
            r = _xor([_var(int(p)) for p in sparse_of(f)], 0)
        else:
            r = at[1]
            for p in sparse_of(f ^ at[0]):
                r = z3.Xor(r, _var(int(p)))
        _RECENT.append((f, r))
    else:
        r = _xor([_var(int(p)) for p in sparse_of(f)], 0)
    if len(_FORM) < 200000:
        _FORM[f] = r
    return r


def _bv(forms):
    bits = [z3.If(_form(f), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for f in forms]
    bits = bits or [z3.BitVecVal(0, 1)]
    return bits[0] if len(bits) == 1 else z3.Concat(*reversed(bits))


def _definition(a):
    r = _DEF.get(a)
    if r is not None:
        return r
    d = core.ATOM_DEF[a]
    if d[0] == 'fn':
        cs = [_sum(dense_of(f)) for f in d[1].sparse]
        r = _var(a) == tt_expr(d[2], d[1].d, cs)
    else:
        key = (d[1], d[2])
        app = _UFAPP.get(key)
        if app is None:
            args = [_bv(arg) for arg in d[2]]
            nout = max(1, d[4])
            fkey = (d[1], tuple(len(x) for x in d[2]), nout)
            fn = _UF.get(fkey)
            if fn is None:
                fn = _UF[fkey] = z3.Function('uf_%s_%d' % (d[1], len(_UF)),
                                             *[z3.BitVecSort(x.size()) for x in args],
                                             z3.BitVecSort(nout))
            app = _UFAPP[key] = fn(*args)
        r = _var(a) == (z3.Extract(d[3], d[3], app) == 1)
    if len(_DEF) < 200000:
        _DEF[a] = r
    return r


class Translator:
    """Forms to z3, with definitions of the atoms in their cones."""

    def __init__(self, limit=4000):
        self.vars = {}
        self.defs = []
        self.limit = limit
        self.allowed = None     # the atoms to be defined; the others become free variables
        self.truncated = False
        self.plain = True       # no uninterpreted functions

    def plan(self, forms, cost=16000):
        """Chooses the atoms to define: breadth first from forms, up to a total size."""
        self.allowed = seen = set()
        todo = {int(p) for f in forms for p in sparse_of(f & ~1)}
        while todo:
            nxt = set()
            for a in sorted(todo, reverse=True):
                d = core.ATOM_DEF[a]
                if a in seen or d[0] == 'in':
                    continue
                if d[0] == 'fn':
                    deps = d[1].sparse
                    cost -= 4 + (1 << d[1].d)
                else:
                    deps = [sparse_of(f & ~1) for arg in d[2] for f in arg]
                    cost -= 4 + len(deps)
                if cost < 0:
                    return
                seen.add(a)
                nxt.update(int(p) for f in deps for p in f)
            todo = nxt - seen

    def need(self, forms):
        """Adds the definitions of the atoms the forms depend on."""
        stack = [int(p) for f in forms for p in sparse_of(f & ~1)]
        while stack:
            x = stack.pop()
            if x in self.vars:
                continue
            self.vars[x] = _var(x)
            d = core.ATOM_DEF[x]
            if d[0] == 'in':
                continue
            if len(self.vars) > self.limit or self.allowed is not None and \
                    x not in self.allowed:
                self.truncated = True
                continue
            self.defs.append(_definition(x))
            if d[0] != 'fn':
                self.plain = False
            if d[0] == 'fn':
                deps = d[1].sparse
            else:
                deps = [sparse_of(f & ~1) for arg in d[2] for f in arg]
            stack.extend(int(p) for f in deps for p in f if int(p) not in self.vars)

    def form(self, f):
        self.need((f,))
        return _form(f)

    def symbool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        r = z3.And([z3.Not(self.form(f)) for f in b.forms]) if b.forms else z3.BoolVal(True)
        return z3.Not(r) if b.neg else r


def path_constraints(path, conds):
    """The constraints of the path that share inputs, directly or through other
    constraints, with the conditions; the rest of a feasible path is independent."""
    items = [((row,), None) for _, row in path.rows] + [(None, cl) for cl in path.clauses]
    sup = []
    for r, cl in items:
        m = 0
        for f in (r or cl):
            m |= core.support(f)
        sup.append(m)
    if any(isinstance(c, SymBool) for c in conds):
        live = 0
        for c in conds:
            if isinstance(c, SymBool):
                for f in c.forms:
                    live |= core.support(f)
    else:
        live = -1
    take = set()
    changed = True
    while changed:
        changed = False
        for i, m in enumerate(sup):
            if i not in take and (m & live or m == 0):
                take.add(i)
                live |= m
                changed = True
    return [items[i] for i in sorted(take)]


def check(path, conds, timeout_ms=10000, limit=4000, want_model=False):
    """('sat'|'unsat'|'unknown', inputs or None) of path and all conds (SymBool or bool)."""
    t0 = time.time()
    tr = Translator(limit)
    items = path_constraints(path, conds)
    forms = [f for c in conds if isinstance(c, SymBool) for f in c.forms]
    tr.plan(forms + [f for r, cl in items for f in (r or cl)])
    cs = [z3.Not(tr.form(r[0])) if r else z3.Or([tr.form(f) for f in cl]) for r, cl in items]
    cs += [tr.symbool(c) for c in conds]
    s = z3.SolverFor('QF_BV') if tr.plain else z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*tr.defs)
    s.add(*cs)
    r = str(s.check())
    QSTATS['queries'] += 1
    inputs = None
    if r == 'sat':
        if want_model or tr.truncated:
            m = s.model()
            inputs = {}
            for a, v in tr.vars.items():
                d = core.ATOM_DEF[a]
                if d[0] == 'in':
                    inputs[d[1]] = inputs.get(d[1], 0) | (int(z3.is_true(m[v])) << d[2])
        if tr.truncated:
            r = 'unknown'       # a cut cone over-approximates
    QSTATS[r] += 1
    QSTATS['solver_time'] += time.time() - t0
    return r, inputs


# ----------------------------------------------------------------------------
# certification of table facts
# ----------------------------------------------------------------------------
_LEMMAS = {}
_FACTS = {}


def _lemma_hook(shape, key, table, masks, const):
    # at most once per (shape, key): Shape.apply memoises
    masks_out, after, _ = shape.trans[key]
    _LEMMAS[(id(shape), key)] = (shape.d, table, masks, const, masks_out, after)


def _fact_hook(fact):
    key = fact if fact[0] != 'comp' else ('comp', fact[1], fact[2].uid) + fact[3:]
    _FACTS[key] = fact


def install_lemma_hook():
    core.LEMMA_HOOK = _lemma_hook
    core.FACT_HOOK = _fact_hook


def reset_facts():
    reset_translation()
    _LEMMAS.clear()
    _FACTS.clear()


_XS = {}


def _vars(d):
    xs = _XS.get(d)
    if xs is None:
        xs = _XS[d] = [z3.Bool('x%d' % i) for i in range(d)]
    return xs


def _lin(mask, const, xs):
    r = z3.BoolVal(bool(const))
    for j, v in enumerate(xs):
        if (mask >> j) & 1:
            r = z3.Xor(r, v)
    return z3.simplify(r)


def _rows_xor(mask, rowtts, d, xs):
    acc = z3.BoolVal(False)
    while mask:
        low = mask & -mask
        acc = z3.Xor(acc, tt_expr(rowtts[low.bit_length() - 1], d, xs))
        mask ^= low
    return acc


def _diffs(kind, rec):
    """z3 Bools any of which true refutes the fact."""
    if kind == 'look':
        d, table, masks, const, outs, after = rec
        xs = _vars(d)
        idx = [_lin(m, (const >> i) & 1, xs) for i, m in enumerate(masks)]
        return [z3.Xor(tt_expr(tt, table.k, idx), _rows_xor(outs[j], after.rowtts, d, xs))
                for j, tt in enumerate(table.tts)]
    if kind == 'dep':
        _, k, tts, base, deps = rec
        xs = _vars(k)
        out = []
        for j, c in deps:
            acc = z3.BoolVal(bool(c & 1))
            for i, b in enumerate(base):
                if (c >> (i + 1)) & 1:
                    acc = z3.Xor(acc, tt_expr(tts[b], k, xs))
            out.append(z3.Xor(acc, tt_expr(tts[j], k, xs)))
        return out
    if kind == 'span':
        _, d, tts, masks, rowtts = rec
        xs = _vars(d)
        return [z3.Xor(tt_expr(tt, d, xs), _rows_xor(m, rowtts, d, xs))
                for tt, m in zip(tts, masks)]
    if kind == 'comp':
        _, d, table, sub, out = rec
        xs = _vars(d)
        idx = [tt_expr(tt, d, xs) for tt in sub]
        ys = [z3.Bool('y%d' % i) for i in range(len(sub))]
        defs = [y == i for y, i in zip(ys, idx)]
        return [z3.And(z3.Or([z3.Xor(tt_expr(t, table.k, ys), tt_expr(o, d, xs))
                              for t, o in zip(table.tts, out)]), *defs)]
    _, d, tt = rec
    lin, const, lambdas, tt2 = core.normalize_tt(d, tt)
    xs = _vars(d)
    ys = [_lin(lam, 0, xs) for lam in lambdas]
    rhs = z3.Xor(_lin(lin, const, xs), tt_expr(tt2, len(ys), ys))
    return [z3.Xor(tt_expr(tt, d, xs), rhs)]


_BASIS = {}


def _basis(table):
    """(indices of independent output bits, [(j, mask over those, constant)] for the rest)."""
    r = _BASIS.get(id(table))
    if r is not None and r[2] is table:
        return r
    full = (1 << (1 << table.k)) - 1
    rows, base, deps = [], [], []
    rows.append((full, 1))          # bit 0 of a combination: the constant
    for j, tt in enumerate(table.tts):
        v, c = tt, 0
        for w, cw in rows:
            if v ^ w < v:
                v ^= w
                c ^= cw
        if v:
            base.append(j)
            rows.append((v, c ^ (1 << len(base))))
            rows.sort(reverse=True)
        else:
            deps.append((j, c))
    r = (base, deps, table)
    _BASIS[id(table)] = r
    return r


def _split(rec):
    """Facts that together imply the lookup fact rec, cheaper to decide when the output
    bits of the table depend on one another; None if there is no such split."""
    d, table, masks, const, outs, after = rec
    base, deps, _ = _basis(table)
    if len(deps) < 8:
        return None
    for j, c in deps:
        m = c & 1
        for i, b in enumerate(base):
            if (c >> (i + 1)) & 1:
                m ^= outs[b]
        if m != outs[j]:
            return None
    return [('look', (d, _Sub(table, base), masks, const, tuple(outs[b] for b in base), after)),
            ('dep', ('dep', table.k, tuple(table.tts), tuple(base), tuple(deps)))]


class _Sub:
    """A table restricted to some output bits."""

    def __init__(self, table, base):
        self.k = table.k
        self.tts = [table.tts[b] for b in base]


def _digest(kind, rec):
    if kind == 'look':
        d, table, masks, const, outs, after = rec
        used = 0
        for m in outs:
            used |= m
        rows = tuple(t if (used >> i) & 1 else 0 for i, t in enumerate(after.rowtts))
        body = (kind, d, table.k, table.tts, masks, const, outs, rows)
    elif kind == 'comp':
        body = (kind, rec[1], rec[2].k, rec[2].tts) + rec[3:]
    else:
        body = rec
    return hashlib.blake2b(repr(body).encode(), digest_size=16).hexdigest()


def discharge_lemmas(budget_s=60.0, facts_dir=None):
    """The facts about finite functions the normal form relied on, one z3 query
    each (all output bits at once): (proved, refuted, not tried)."""
    t0 = time.time()
    done = failed = 0
    todo = []
    deps = set()
    for r in _LEMMAS.values():
        for kind, rec in _split(r) or [('look', r)]:
            if kind == 'dep':
                if id(r[1]) in deps:
                    continue
                deps.add(id(r[1]))
            todo.append((kind, rec))
    todo.extend((f[0], f) for f in _FACTS.values())
    reset_facts()
    total = len(todo)
    for kind, rec in todo:
        if time.time() - t0 > budget_s:
            if not facts_dir:
                break
            total -= 1      # left open: the driver counts the distinct ones
            mark = os.path.join(facts_dir, _digest(kind, rec))
            if not os.path.exists(mark):
                open(mark + '.open', 'w', encoding='ascii').close()
            continue
        mark = None
        if facts_dir:
            mark = os.path.join(facts_dir, _digest(kind, rec))
            try:    # claimed by one task; the driver counts claims left open
                os.close(os.open(mark, os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                total -= 1
                continue
        s = z3.SimpleSolver()
        s.add(z3.Or(_diffs(kind, rec)))
        r = str(s.check())
        QSTATS['queries'] += 1
        QSTATS['lemma_queries'] += 1
        QSTATS[r] += 1
        if r == 'unsat':
            done += 1
            if mark:
                open(mark + '.proved', 'w', encoding='ascii').close()
        else:
            failed += 1
            if mark:
                open(mark + '.failed', 'w', encoding='ascii').close()
        if len(_TT_MEMO) > 200000:
            _TT_MEMO.clear()
    _TT_MEMO.clear()
    QSTATS['solver_time'] += time.time() - t0
    return done, failed, total - done - failed
