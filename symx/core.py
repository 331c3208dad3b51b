"""Symbolic values over GF(2)-affine bit forms.

Every symbolic bit is a *form*: a Python int used as a bit mask over atoms;
bit 0 is the constant 1, bit i (i>0) is atom i.  XOR of bits is XOR of masks.
Non-linear functions of bits are atoms: a function of at most 8 independent
forms is kept in the group of the linear span of those forms, as a truth table
over the group's coordinates; inside one group functions are kept modulo the
linear span of those already named, so two bits that are equal as functions of
a group have the same form.  This is a normal form used as a rewriting front
end: what it cannot decide goes to z3 (see solve.py).
"""
from __future__ import annotations

from hashlib import blake2b

import numpy as np


class Bottom(BaseException):
    """Base of path-steering exceptions (never caught by code under test)."""


class Unsupported(Bottom):
    """The engine cannot encode an operation."""


class PathAbort(Bottom):
    """The current path is infeasible or was cut."""


class Hang(Bottom):
    """Too many loop iterations: possible non-termination."""


class Budget(Bottom):
    """Exploration budget exhausted."""


# ----------------------------------------------------------------------------
# atoms
# ----------------------------------------------------------------------------
ATOM_DEF = [None]      # index -> definition tuple
ATOM_GROUP = [None]    # index -> Group or None
INPUTS = {}            # name -> list of atom ids (LSB-first bits)
CHOICE = 0             # mask of the atoms of schedule choices (nothing depends on them)
UF_FUN = {}            # name -> concrete python function on ints (for evaluation)

STATS = {'lookups': 0, 'affine_lookups': 0, 'groups': 0, 'composed': 0,
         'lemmas': 0, 'lemma_time': 0.0, 'forks': 0}


def new_atom(defn, group=None):
    ATOM_DEF.append(defn)
    ATOM_GROUP.append(group)
    return len(ATOM_DEF) - 1


def input_bits(name, nbits):
    """Forms of the bits (LSB first) of the input called name."""
    ids = INPUTS.get(name)
    if ids is None:
        ids = [new_atom(('in', name, i)) for i in range(nbits)]
        INPUTS[name] = ids
    if len(ids) < nbits:
        ids.extend(new_atom(('in', name, i)) for i in range(len(ids), nbits))
    return [1 << i for i in ids[:nbits]]


# ----------------------------------------------------------------------------
# path state (set by explore.py)
# ----------------------------------------------------------------------------
class PathState:
    __slots__ = ('rows', 'clauses', 'decisions', 'trace', 'decider', 'nforks',
                 'ticks', 'quiet', 'witness', 'rowmask')

    def __init__(self):
        self.rows = []        # [(pivot, form)] fully reduced: linear form == 0
        self.rowmask = 0      # the pivots
        self.clauses = []     # list of frozenset(forms): NOT all zero
        self.decisions = []
        self.trace = []
        self.decider = None
        self.nforks = 0
        self.ticks = 0
        self.quiet = False
        self.witness = None

    def reduce(self, form):
        if form & self.rowmask:
            for piv, row in self.rows:
                if (form >> piv) & 1:
                    form ^= row
        return form

    def add_zero(self, form):
        """Add the constraint form == 0."""
        form = self.reduce(form)
        if form == 0:
            return
        if form == 1:
            raise PathAbort('contradiction')
        piv = form.bit_length() - 1
        self.rows = [(p, (r ^ form) if (r >> piv) & 1 else r) for p, r in self.rows]
        self.rows.append((piv, form))
        self.rowmask |= 1 << piv
        new_clauses = []
        for cl in self.clauses:
            new_clauses.append(self._norm_clause(cl))
        self.clauses = [c for c in new_clauses if c is not None]

    def _norm_clause(self, clause):
        out = set()
        for form in clause:
            form = self.reduce(form)
            if form == 1:
                return None
            if form:
                out.add(form)
        if not out:
            raise PathAbort('contradiction')
        return frozenset(out)

    def add_clause(self, clause):
        clause = self._norm_clause(clause)
        if clause is None:
            return
        if len(clause) == 1:
            self.add_zero(next(iter(clause)) ^ 1)
        else:
            self.clauses.append(clause)


PATH = PathState()


def set_path(path):
    global PATH
    PATH = path


def reduce_form(form):
    if PATH.rows:
        return PATH.reduce(form)
    return form


# ----------------------------------------------------------------------------
# truth tables
# ----------------------------------------------------------------------------
def coord_tt(i, d):
    """Truth table of coordinate i among d coordinates."""
    block = ((1 << (1 << i)) - 1) << (1 << i)
    period = 1 << (i + 1)
    out = 0
    for k in range(0, 1 << d, period):
        out |= block << k
    return out


_COORD = {}
for _d in range(0, 13):
    _COORD[_d] = [coord_tt(_i, _d) for _i in range(_d)] if _d <= 8 else None


def coords_tt(d):
    res = _COORD.get(d)
    if res is None:
        res = _COORD[d] = [coord_tt(i, d) for i in range(d)]
    return res


def tt_shift(tt, u, d):
    """Truth table of x -> f(x ^ u)."""
    cts = coords_tt(d)
    full = (1 << (1 << d)) - 1
    for i in range(d):
        if (u >> i) & 1:
            s = 1 << i
            hi = cts[i]
            tt = ((tt & hi) >> s) | ((tt << s) & hi & full)
    return tt


_NORM = {}


def _linear_structures(d, tt):
    """The u != 0 with f(x^u)^f(x) constant, by autocorrelation."""
    n = 1 << d
    bits = np.unpackbits(np.frombuffer(tt.to_bytes(n // 8, 'little'), dtype=np.uint8),
                         bitorder='little')
    v = 1 - 2 * bits.astype(np.int64)
    v = _wht(v)
    v = _wht(v * v) // n
    return [int(u) for u in np.nonzero(np.abs(v) == n)[0] if u]


def _wht(v):
    n = len(v)
    h = 1
    while h < n:
        v = v.reshape(-1, 2, h)
        v = np.concatenate((v[:, :1] + v[:, 1:], v[:, :1] - v[:, 1:]), axis=1)
        h *= 2
    return v.reshape(-1)


def normalize_tt(d, tt):
    """Split off linear structures.

    Returns (lin_mask, const, lambdas, tt2): f(x) = <lin,x> ^ const ^ g(lambdas(x)).
    lambdas is None if the function has no linear structure (g = f itself).
    """
    key = (d, tt)
    res = _NORM.get(key)
    if res is not None:
        return res
    full = (1 << (1 << d)) - 1
    struct = []           # (u, c)
    piv = {}
    for u in (range(1, 1 << d) if d <= 3 else _linear_structures(d, tt)):
        # skip u already in the span
        v = u
        while v:
            p = v.bit_length() - 1
            if p in piv:
                v ^= piv[p][0]
            else:
                break
        if not v:
            continue
        dv = tt ^ tt_shift(tt, u, d)
        if dv == 0 or dv == full:
            c = 1 if dv else 0
            struct.append((u, c))
            vv, cc = u, c
            while True:
                p = vv.bit_length() - 1
                if p in piv:
                    cc ^= piv[p][1]
                    vv ^= piv[p][0]
                else:
                    piv[p] = (vv, cc)
                    break
    if not struct:
        res = (0, 0, None, tt)
        _NORM[key] = res
        return res
    if FACT_HOOK is not None:
        FACT_HOOK(('norm', d, tt))
    # fully reduce the pivots
    pivs = sorted(piv)
    rows = {}
    for p in pivs:
        v, c = piv[p]
        for p2 in pivs:
            if p2 < p and (v >> p2) & 1:
                v ^= rows[p2][0]
                c ^= rows[p2][1]
        rows[p] = (v, c)
    for p in pivs:
        for p2 in pivs:
            if p2 > p and (rows[p2][0] >> p) & 1:
                rows[p2] = (rows[p2][0] ^ rows[p][0], rows[p2][1] ^ rows[p][1])
    # linear functional with value c on each reduced basis vector: put it on pivots
    lin = 0
    for p in pivs:
        if rows[p][1]:
            lin |= 1 << p
    # orthogonal complement: for each non-pivot coordinate j: lambda_j = e_j + sum_p rows[p][j] e_p
    free = [j for j in range(d) if j not in rows]
    lambdas = []
    for j in free:
        m = 1 << j
        for p in pivs:
            if (rows[p][0] >> j) & 1:
                m |= 1 << p
        lambdas.append(m)
    d2 = len(free)
    tt2 = 0
    for y in range(1 << d2):
        x = 0
        for k, j in enumerate(free):
            if (y >> k) & 1:
                x |= 1 << j
        val = ((tt >> x) & 1) ^ (bin(x & lin).count('1') & 1)
        if val:
            tt2 |= 1 << y
    const = 0
    if d2 == 0:
        const = tt2 & 1
        tt2 = 0
    res = (lin, const, tuple(lambdas), tt2)
    _NORM[key] = res
    return res


class Shape:
    """Which functions a group has named, independent of the group's coordinates."""

    __slots__ = ('d', 'ech', 'rowtts', 'trans')
    roots = {}

    def __init__(self, d, ech, rowtts):
        self.d = d
        self.ech = ech              # pivot -> (tt, rowmask)
        self.rowtts = rowtts        # tt of every row
        self.trans = {}

    @staticmethod
    def root(d):
        sh = Shape.roots.get(d)
        if sh is None:
            sh = Shape(d, {}, [])
            for tt in [(1 << (1 << d)) - 1] + coords_tt(d):
                sh._add(tt)
            Shape.roots[d] = sh
        return sh

    def _add(self, tt):
        mask = 1 << len(self.rowtts)
        self.rowtts.append(tt)
        while tt:
            p = tt.bit_length() - 1
            row = self.ech.get(p)
            if row is None:
                self.ech[p] = (tt, mask)
                return
            tt ^= row[0]
            mask ^= row[1]

    def apply(self, key, tts):
        """(row masks of the outputs, resulting shape, new row truth tables)."""
        if key is not None:
            res = self.trans.get(key)
            if res is not None:
                return res
        cur = self
        masks = []
        new = []
        for tt in tts:
            mask = 0
            t = tt
            while t:
                p = t.bit_length() - 1
                row = cur.ech.get(p)
                if row is None:
                    if cur is self:
                        cur = Shape(self.d, dict(self.ech), list(self.rowtts))
                    n = 1 << len(cur.rowtts)
                    cur.rowtts.append(tt)
                    cur.ech[p] = (t, mask ^ n)
                    mask = n
                    new.append(tt)
                    break
                t ^= row[0]
                mask ^= row[1]
            masks.append(mask)
        # share equal shapes
        if new:
            skey = ('shape',) + tuple(new)
            old = self.trans.get(skey)
            if old is not None:
                cur = old
            else:
                self.trans[skey] = cur
        res = (masks, cur, new)
        if key is not None:
            self.trans[key] = res
        elif FACT_HOOK is not None:
            FACT_HOOK(('span', self.d, tuple(tts), tuple(masks),
                       tuple(cur.rowtts)))
        return res


def sparse_of(form):
    """Sorted positions of the set bits."""
    n = form.bit_length()
    if form & (form - 1) == 0:
        return [n - 1] if form else []
    if n <= 64:
        out = []
        while form:
            low = form & -form
            out.append(low.bit_length() - 1)
            form ^= low
        return out
    words = (n + 63) >> 6
    arr = np.frombuffer(form.to_bytes(words * 8, 'little'), dtype='<u8')
    nz = np.nonzero(arr)[0]
    bits = np.unpackbits(arr[nz].view(np.uint8).reshape(len(nz), 8), axis=1, bitorder='little')
    w, k = np.nonzero(bits)
    return ((nz[w] << 6) + k).astype(np.uint32)


def dense_of(pos):
    """Inverse of sparse_of."""
    if isinstance(pos, list) or len(pos) <= 4:
        f = 0
        for p in pos:
            f |= 1 << int(p)
        return f
    buf = np.zeros(((int(pos[-1]) >> 3) + 1) << 3, dtype=np.uint8)
    buf[pos] = 1
    return int.from_bytes(np.packbits(buf, bitorder='little').tobytes(), 'little')


class Group:
    """Functions of the linear span of some forms."""

    __slots__ = ('sparse', 'd', 'pivots', 'maxpos', 'shape', 'extra', 'nlin')

    def __init__(self, coords, rows):
        self.sparse = [sparse_of(c) for c in coords]
        self.d = len(coords)
        self.pivots = [(p, cm) for p, _, cm in rows]
        self.maxpos = max(c.bit_length() for c in coords)
        self.shape = Shape.root(self.d)
        self.extra = {}         # row number -> sparse form
        self.nlin = {}          # atom -> tt
        STATS['groups'] += 1

    def coord(self, i):
        return dense_of(self.sparse[i])

    def express(self, vec):
        """A form known to be in the span, as a mask over the coordinates."""
        m = 0
        for p, cm in self.pivots:
            if (vec >> p) & 1:
                m ^= cm
        return m

    def comb(self, mask):
        f = 0
        i = 0
        while mask:
            if mask & 1:
                f ^= dense_of(self.sparse[i])
            mask >>= 1
            i += 1
        return f

    def funcs(self, key, tts):
        """Forms of the functions with these truth tables over coords."""
        masks, shape, new = self.shape.apply(key, tts)
        if new:
            n0 = len(self.shape.rowtts)
            self.shape = shape
            for i, tt in enumerate(new):
                self.extra[n0 + i] = sparse_of(self._fresh(tt))
        out = []
        cut = (1 << (self.d + 1)) - 1
        for m in masks:
            f = m & 1
            lin = (m & cut) >> 1
            if lin:
                f ^= self.comb(lin)
            m &= ~cut
            while m:
                low = m & -m
                f ^= dense_of(self.extra[low.bit_length() - 1])
                m ^= low
            out.append(f)
        return out

    def _fresh(self, tt):
        """Form of a function outside the span of those named so far."""
        lin, const, lambdas, tt2 = normalize_tt(self.d, tt)
        if lambdas is None:
            a = new_atom(('fn', self, tt), self)
            self.nlin[a] = tt
            return 1 << a
        form = const ^ self.comb(lin)
        if lambdas:
            g2, masks, k = find_group([self.comb(lam) for lam in lambdas])
            if any(m != 1 << i for i, m in enumerate(masks)):
                tt2 = retable(tt2, len(masks), masks, k, g2.d)
            form ^= g2.funcs(None, [tt2])[0]
        return form

    def form_tt(self, form):
        """Truth table (over coords) of a form in the span of this group, or None."""
        tt = 0
        nlin = self.nlin
        while form > 1:
            a = form.bit_length() - 1
            t = nlin.get(a)
            if t is None:
                break
            tt ^= t
            form ^= 1 << a
        if form & 1:
            tt ^= (1 << (1 << self.d)) - 1
            form ^= 1
        if form:
            if form.bit_length() > self.maxpos:
                return None
            m = self.express(form)
            if not m or self.comb(m) != form:
                return None
            cts = coords_tt(self.d)
            i = 0
            while m:
                if m & 1:
                    tt ^= cts[i]
                m >>= 1
                i += 1
        return tt


_GROUPS = {}


def find_group(idx):
    """(group, masks of idx over its coordinates, constant); None if wider than 8."""
    const = 0
    stripped = []
    for i, f in enumerate(idx):
        if f & 1:
            const |= 1 << i
            f ^= 1
        stripped.append(f)
    coords = []
    rows = []           # (pivot, reduced vector, combination of coords)
    for f in stripped:
        v = f
        cm = 1 << len(coords)
        for p, w, c in rows:
            if (v >> p) & 1:
                v ^= w
                cm ^= c
        if not v:
            continue
        if len(coords) == 8:
            return None
        p = v.bit_length() - 1
        rows = [(p0, w ^ v, c ^ cm) if (w >> p) & 1 else (p0, w, c) for p0, w, c in rows]
        rows.append((p, v, cm))
        coords.append(f)
    rows.sort()
    if rows[-1][1].bit_length() <= 512:
        key = tuple([w for _, w, _ in rows])
    else:
        h = blake2b(digest_size=20)
        for p, w, _ in rows:
            h.update(w.to_bytes((p >> 3) + 1, 'little'))
            h.update(b'%d|' % p)
        key = h.digest()
    g = _GROUPS.get(key)
    if g is None:
        g = _GROUPS[key] = Group(coords, rows)
    return g, tuple([g.express(v) for v in stripped]), const




def retable(tt, k, masks, const, d):
    """tt over k index bits, index bit i = <masks[i], x> ^ const_i; result over d coords."""
    out = 0
    cols = [0] * d
    for i in range(k):
        for j in range(d):
            if (masks[i] >> j) & 1:
                cols[j] |= 1 << i
    # gray-free: build all indices
    idx = [const]
    for j in range(d):
        c = cols[j]
        idx += [v ^ c for v in idx]
    for x, v in enumerate(idx):
        if (tt >> v) & 1:
            out |= 1 << x
    return out


def _planes(vals, nout):
    """Bit planes (truth tables) of a list of values."""
    if nout == 0:
        return []
    fmt = '0%db' % nout
    rows = [format(v, fmt) for v in reversed(vals)]
    return [int(''.join(col), 2) for col in reversed(list(zip(*rows)))]


class Table:
    """A concrete lookup table prepared for symbolic indexing by k bits."""

    __slots__ = ('k', 'nout', 'tts', 'affine', 'memo', 'content', 'uid')
    _count = 0

    def __init__(self, content, k):
        self.content = content
        self.k = k
        Table._count += 1
        self.uid = Table._count
        size = 1 << k
        vals = list(content[:size])
        if len(vals) < size:
            vals += [0] * (size - len(vals))
        self.nout = max(v.bit_length() for v in vals) if vals else 0
        base = vals[0]
        deltas = [vals[1 << i] ^ base for i in range(k)]
        aff = [base]
        for dl in deltas:
            aff += [v ^ dl for v in aff]
        if aff == vals:
            cols = []
            for j in range(self.nout):
                m = 0
                for i in range(k):
                    if (deltas[i] >> j) & 1:
                        m |= 1 << i
                cols.append((m, (base >> j) & 1))
            self.affine = cols
            self.tts = None
        else:
            self.affine = None
            tts = _planes(vals, self.nout)
            self.tts = tts
        self.memo = {}

    def out_tts(self, masks, const, d):
        """Truth tables of the output bits over d coords."""
        if const == 0 and d == self.k and all(m == 1 << i for i, m in enumerate(masks)):
            return self.tts
        key = (tuple(masks), const, d)
        res = self.memo.get(key)
        if res is None:
            k = self.k
            cols = [0] * d
            for i in range(k):
                for j in range(d):
                    if (masks[i] >> j) & 1:
                        cols[j] |= 1 << i
            idx = [const]
            for j in range(d):
                c = cols[j]
                idx += [v ^ c for v in idx]
            res = _planes([self.content[v] if v < len(self.content) else 0 for v in idx],
                          self.nout)
            if len(self.memo) < 20000:
                self.memo[key] = res
        return res


LEMMA_HOOK = None      # set by solve.py: hook(shape, key, table, masks, const)
FACT_HOOK = None       # set by solve.py: hook(fact)


def apply_fn(idx, table):
    """Forms of the output bits of table at the index with bit forms idx (LSB first)."""
    STATS['lookups'] += 1
    if PATH.rows:
        idx = [PATH.reduce(f) for f in idx]
    if table.affine is not None:
        STATS['affine_lookups'] += 1
        out = []
        for m, c in table.affine:
            f = c
            i = 0
            while m:
                if m & 1:
                    f ^= idx[i]
                m >>= 1
                i += 1
            out.append(f)
        return out
    # all constant?
    top = 0
    for f in idx:
        if f > top:
            top = f
    if top <= 1:
        v = 0
        for i, f in enumerate(idx):
            v |= f << i
        return [(tt >> v) & 1 for tt in table.tts]
    # composition inside one existing group
    res = _compose(idx, top, table)
    if res is not None:
        return res
    r = find_group(idx)
    if r is None:
        return _wide(idx, table)
    g, masks, const = r
    key = (table.uid, masks, const)
    if key in g.shape.trans:
        return g.funcs(key, None)
    tts = table.out_tts(masks, const, g.d)
    before = g.shape
    out = g.funcs(key, tts)
    if LEMMA_HOOK is not None and key in before.trans:
        LEMMA_HOOK(before, key, table, masks, const)
    return out


def _compose(idx, top, table):
    # Candidate: the group of the newest atom; every index form must be in its span.
    a = top.bit_length() - 1
    g = ATOM_GROUP[a]
    if g is None:
        return None
    sub = []
    for f in idx:
        if f <= 1:
            sub.append(((1 << (1 << g.d)) - 1) if f else 0)
            continue
        tt = g.form_tt(f)
        if tt is None:
            return None
        sub.append(tt)
    STATS['composed'] += 1
    n = 1 << g.d
    vals = [0] * n
    for i, tt in enumerate(sub):
        for x in range(n):
            if (tt >> x) & 1:
                vals[x] |= 1 << i
    out = []
    for tt in table.tts:
        t2 = 0
        for x in range(n):
            if (tt >> vals[x]) & 1:
                t2 |= 1 << x
        out.append(t2)
    if FACT_HOOK is not None:
        FACT_HOOK(('comp', g.d, table, tuple(sub), tuple(out)))
    return g.funcs(None, out)


def _wide(idx, table):
    """Index with more than 8 independent bits: Shannon-expand on the top bits."""
    k = table.k
    hi = idx[k - 1]
    half = 1 << (k - 1)
    lo_t = Table(tuple(table.content[:half]), k - 1)
    hi_t = Table(tuple(table.content[half:2 * half]), k - 1)
    a = apply_fn(idx[:k - 1], lo_t)
    b = apply_fn(idx[:k - 1], hi_t)
    out = []
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else 0
        y = b[i] if i < len(b) else 0
        out.append(x ^ b_and(hi, x ^ y))
    return out


_SUP = {}
_NAME_BIT = {}


def support(form):
    """Mask over the input names a form depends on."""
    todo = [int(p) for p in sparse_of(form & ~1)]
    stack = list(todo)
    while stack:
        a = stack[-1]
        if a in _SUP:
            stack.pop()
            continue
        d = ATOM_DEF[a]
        if d[0] == 'in':
            m = _NAME_BIT.get(d[1])
            if m is None:
                m = _NAME_BIT[d[1]] = 1 << len(_NAME_BIT)
            _SUP[a] = m
            stack.pop()
            continue
        if d[0] == 'fn':
            g = d[1]
            m = _SUP.get(g)
            if m is None:
                deps = [int(p) for dep in g.sparse for p in dep]
        else:
            m = None
            deps = [int(p) for arg in d[2] for f in arg for p in sparse_of(f & ~1)]
        if m is None:
            need = [p for p in deps if p not in _SUP]
            if need:
                stack.extend(need)
                continue
            m = 0
            for p in deps:
                m |= _SUP[p]
            if d[0] == 'fn':
                _SUP[d[1]] = m
        _SUP[a] = m
        stack.pop()
    m = 0
    for p in todo:
        m |= _SUP[p]
    return m


class Rebuilder:
    """Rewrites forms under the facts of the current path: the atoms built before a
    fact was learnt are applied again to rewritten arguments."""

    def __init__(self):
        self.memo = {}

    def _cone(self, forms):
        seen = set()
        # an atom cannot depend on a younger one: nothing below the oldest pivot changes
        low = min((p for p, _ in PATH.rows), default=len(ATOM_DEF))
        stack = [int(p) for f in forms for p in sparse_of(f & ~1)]
        while stack:
            a = stack.pop()
            if a in seen or a in self.memo:
                continue
            if a < low:
                self.memo[a] = 1 << a
                continue
            seen.add(a)
            d = ATOM_DEF[a]
            if d[0] == 'fn':
                for dep in d[1].sparse:
                    stack.extend(int(p) for p in dep)
            elif d[0] == 'uf':
                for arg in d[2]:
                    for f in arg:
                        stack.extend(int(p) for p in sparse_of(f & ~1))
        return sorted(seen)

    def _form(self, f):
        out = f & 1
        for p in sparse_of(f & ~1):
            out ^= self.memo[int(p)]
        return out

    def forms(self, forms):
        cone = self._cone(forms)
        groups = {}
        for a in cone:
            d = ATOM_DEF[a]
            if d[0] == 'fn':
                groups.setdefault(id(d[1]), []).append(a)
        memo = self.memo
        for a in cone:
            if a in memo:
                continue
            d = ATOM_DEF[a]
            if d[0] == 'fn':
                deps = []
                for dep in d[1].sparse:
                    f = 0
                    for p in dep:
                        f ^= memo[int(p)]
                    deps.append(reduce_form(f))
                if all(f == dense_of(dep) for f, dep in zip(deps, d[1].sparse)):
                    memo[a] = reduce_form(1 << a)
                    continue
                atoms = groups[id(d[1])]
                n = 1 << d[1].d
                vals = [0] * n
                for i, x in enumerate(atoms):
                    tt = ATOM_DEF[x][2]
                    for v in range(n):
                        if (tt >> v) & 1:
                            vals[v] |= 1 << i
                out = apply_fn(deps, _table_for(tuple(vals), d[1].d))
                for i, x in enumerate(atoms):
                    memo[x] = reduce_form(out[i]) if i < len(out) else 0
            elif d[0] == 'uf':
                args = [[reduce_form(self._form(f)) for f in arg] for arg in d[2]]
                if all(x == y for p, q in zip(args, d[2]) for x, y in zip(p, q)):
                    memo[a] = reduce_form(1 << a)
                else:
                    memo[a] = reduce_form(uf_apply(d[1], args, d[4])[d[3]])
            else:
                memo[a] = reduce_form(1 << a)
        return [reduce_form(self._form(f)) for f in forms]


# small boolean functions -----------------------------------------------------
_AND2 = Table((0, 0, 0, 1), 2)
_OR2 = Table((0, 1, 1, 1), 2)
_MAJ = Table((0, 0, 0, 1, 0, 1, 1, 1), 3)


def b_and(f, g):
    if f == 0 or g == 0:
        return 0
    if f == 1:
        return g
    if g == 1:
        return f
    if f == g:
        return f
    if f == g ^ 1:
        return 0
    if f > g:
        f, g = g, f
    r = apply_fn([f, g], _AND2)
    return r[0] if r else 0


def b_or(f, g):
    return b_and(f ^ 1, g ^ 1) ^ 1


def b_maj(f, g, h):
    if f > g:
        f, g = g, f
    if g > h:
        g, h = h, g
    if f > g:
        f, g = g, f
    if f == 0:
        return b_and(g, h)
    if f == 1:
        return b_or(g, h)
    r = apply_fn([f, g, h], _MAJ)
    return r[0] if r else 0


def b_ite(c, x, y):
    return y ^ b_and(c, x ^ y)


def b_andn(forms):
    forms = [f for f in forms]
    if any(f == 0 for f in forms):
        return 0
    forms = sorted(set(f for f in forms if f != 1))
    if not forms:
        return 1
    while len(forms) > 1:
        nxt = []
        for i in range(0, len(forms), 2):
            if i + 1 < len(forms):
                nxt.append(b_and(forms[i], forms[i + 1]))
            else:
                nxt.append(forms[i])
        forms = nxt
    return forms[0]


# ----------------------------------------------------------------------------
# booleans
# ----------------------------------------------------------------------------
class SymBool:
    """(all forms zero) xor neg."""

    __slots__ = ('forms', 'neg')

    def __init__(self, forms, neg=False):
        self.forms = forms
        self.neg = neg

    @staticmethod
    def of_form(f):
        """Truth of a bit."""
        if f == 0:
            return False
        if f == 1:
            return True
        return SymBool((f ^ 1,))

    @staticmethod
    def all_zero(forms):
        out = []
        seen = set()
        for f in forms:
            if f == 1:
                return False
            if f and f not in seen:
                seen.add(f)
                out.append(f)
        if not out:
            return True
        return SymBool(tuple(out))

    def to_form(self):
        v = b_andn([reduce_form(f) ^ 1 for f in self.forms])
        return v ^ 1 if self.neg else v

    def __bool__(self):
        return PATH.decider(self)

    def invert(self):
        return SymBool(self.forms, not self.neg)

    def as_int(self):
        return mk_int([self.to_form()])

    # bool is an int
    def _i(self):
        return self.as_int()

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            if not self.neg and not o.neg:
                return SymBool.all_zero(self.forms + o.forms)
            return SymBool.of_form(b_and(self.to_form(), o.to_form()))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool.of_form(b_or(self.to_form(), o.to_form()))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return self.invert() if o else self
        if isinstance(o, SymBool):
            return SymBool.of_form(self.to_form() ^ o.to_form())
        return self._i() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else self.invert()
        if isinstance(o, SymBool):
            return SymBool.of_form(self.to_form() ^ o.to_form() ^ 1)
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.invert() if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lshift__(self, o):
        return self._i() << o

    def __rshift__(self, o):
        return self._i() >> o

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __neg__(self):
        return -self._i()

    def __invert__(self):
        return ~self._i()

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ----------------------------------------------------------------------------
# integers
# ----------------------------------------------------------------------------
def mk_int(bits, sign=0):
    """Integer from two's complement bit forms; native int when constant."""
    n = len(bits)
    while n and bits[n - 1] == sign:
        n -= 1
    if n != len(bits):
        bits = bits[:n]
    if sign <= 1:
        for f in bits:
            if f > 1:
                break
        else:
            v = 0
            for i, f in enumerate(bits):
                v |= f << i
            if sign:
                v -= 1 << n
            return v
    return SymInt(list(bits), sign)


def _int_bits(v, n):
    return [(v >> i) & 1 for i in range(n)]


class SymInt:
    """Arbitrary-precision symbolic integer with Python's semantics."""

    __slots__ = ('b', 's', 'lin', 'c', 'p')

    def __init__(self, bits=None, sign=0, lin=None, const=0, poly=None):
        self.b = bits
        self.s = sign
        self.lin = lin
        self.c = const
        self.p = poly       # the value as a polynomial (see below), if it is known as one

    def pure(self):
        """Known as a polynomial only."""
        return self.b is None and self.lin is None

    # ---- representation
    def get_lin(self):
        if self.lin is None:
            if self.b is None:
                _materialise(self)
            lin = {}
            c = 0
            for i, f in enumerate(self.b):
                w = 1 << i
                if f & 1:
                    c += w
                    w = -w
                    f ^= 1
                if f:
                    v = lin.get(f, 0) + w
                    if v:
                        lin[f] = v
                    else:
                        del lin[f]
            if self.s:
                w = -(1 << len(self.b))
                f = self.s
                if f & 1:
                    c += w
                    w = -w
                    f ^= 1
                if f:
                    v = lin.get(f, 0) + w
                    if v:
                        lin[f] = v
                    else:
                        del lin[f]
            self.lin = lin
            self.c = c
        return self.lin, self.c

    def bounds(self):
        if self.b is None and self.lin is None:
            return _pbounds(self.p)
        if POLY and self.b is not None and not self.s and len(self.b) > 40:
            v = _PVID.get(tuple(self.b))
            if v is not None and _PV[v][1] is not None:
                return 0, _PV[v][1]
        if self.b is not None:
            n = len(self.b)
            hi = 0
            for i, f in enumerate(self.b):
                if f:
                    hi |= 1 << i
            lo = -(1 << n) if self.s else 0
            if not self.s:
                lo = 0
                for i, f in enumerate(self.b):
                    if f == 1:
                        lo |= 1 << i
            return lo, hi
        lo = hi = self.c
        for w in self.lin.values():
            if w > 0:
                hi += w
            else:
                lo += w
        return lo, hi

    def bits(self):
        """(bits, sign form)"""
        if self.b is None and self.lin is None:
            _materialise(self)
        if self.b is not None:
            return self.b, self.s
        const = self.c
        cols = {}
        hi = const
        for f, w in self.lin.items():
            f = reduce_form(f)
            if f & 1:
                # w*bit(f) with f = 1 ^ g : w - w*bit(g)
                pass
            if w < 0:
                # w*bit(f) = w + |w|*bit(~f)
                const += w
                w = -w
                f ^= 1
            if f == 0:
                continue
            if f == 1:
                const += w
                continue
            j = 0
            while w:
                if w & 1:
                    cols.setdefault(j, []).append(f)
                w >>= 1
                j += 1
        hi = const
        for j, fs in cols.items():
            hi += len(fs) << j
        lo = const
        if lo >= 0:
            width = hi.bit_length()
            signed = False
        else:
            width = max(hi.bit_length() if hi > 0 else 0, (-lo).bit_length()) + 1
            signed = True
        cst = const & ((1 << width) - 1)
        out = []
        carry = []
        maxcol = width
        j = 0
        pend = dict(cols)
        for j in range(maxcol):
            ones = (cst >> j) & 1
            col = {}
            for f in pend.get(j, ()):
                # toggle complement pairs: f and ~f sum to 1
                col[f] = col.get(f, 0) + 1
            nxt = pend.setdefault(j + 1, []) if j + 1 < maxcol else []
            one_carry = 0
            fs = []
            for f, n in col.items():
                if n & 1:
                    fs.append(f)
                for _ in range(n >> 1):
                    nxt.append(f)
            # complement pairs
            fset = set(fs)
            done = set()
            rest = []
            for f in fs:
                if f in done:
                    continue
                if (f ^ 1) in fset and (f ^ 1) not in done:
                    ones += 1
                    done.add(f)
                    done.add(f ^ 1)
                    continue
                rest.append(f)
                done.add(f)
            fs = sorted(rest)
            while ones >= 2:
                ones -= 2
                one_carry += 1
            # reduce to a single bit
            while len(fs) + ones > 1:
                if len(fs) >= 2 and ones:
                    a, b2 = fs[0], fs[1]
                    del fs[0:2]
                    ones = 0
                    s = a ^ b2 ^ 1
                    nxt.append(b_or(a, b2))
                elif len(fs) >= 3:
                    a, b2, c2 = fs[0], fs[1], fs[2]
                    del fs[0:3]
                    s = a ^ b2 ^ c2
                    nxt.append(b_maj(a, b2, c2))
                elif len(fs) == 2:
                    a, b2 = fs
                    fs = []
                    s = a ^ b2
                    nxt.append(b_and(a, b2))
                else:
                    a = fs.pop()
                    ones = 0
                    s = a ^ 1
                    nxt.append(a)
                if s == 1:
                    ones += 1
                    if ones == 2:
                        ones = 0
                        one_carry += 1
                elif s:
                    fs.append(s)
                    fs.sort()
            out.append(fs[0] if fs else ones)
            if one_carry and j + 1 < maxcol:
                cst += one_carry << (j + 1)
                cst &= (1 << width) - 1
            if j + 1 < maxcol:
                pend[j + 1] = [f for f in nxt if f]
                extra = 0
                keep = []
                for f in pend[j + 1]:
                    if f == 1:
                        extra += 1
                    else:
                        keep.append(f)
                if extra:
                    pend[j + 1] = keep
                    cst = (cst + (extra << (j + 1))) & ((1 << width) - 1)
        if signed:
            sign = out[-1]
            bits = out[:-1]
        else:
            sign = 0
            bits = out
        n = len(bits)
        while n and bits[n - 1] == sign:
            n -= 1
        self.b = bits[:n]
        self.s = sign
        return self.b, self.s

    def norm(self):
        """Native int if constant."""
        if self.lin is not None and not self.lin:
            return self.c
        return self

    # ---- arithmetic
    @staticmethod
    def _mk_lin(lin, c):
        if not lin:
            return c
        return SymInt(None, 0, lin, c)

    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, int):
            if o == 0:
                return self
            if POLY and _is_wide(self):
                return _lift(self, {(): int(o)}, None)
            lin, c = self.get_lin()
            return SymInt._mk_lin(lin, c + int(o))
        if not isinstance(o, SymInt):
            return NotImplemented
        if POLY and (_is_wide(self) or _is_wide(o)):
            return _lift(self, poly_of(o), o)
        return self._add(o)

    def _add(self, o):
        l1, c1 = self.get_lin()
        l2, c2 = o.get_lin()
        if len(l1) < len(l2):
            l1, l2 = l2, l1
        lin = dict(l1)
        for f, w in l2.items():
            v = lin.get(f, 0) + w
            if v:
                lin[f] = v
            else:
                del lin[f]
        return SymInt._mk_lin(lin, c1 + c2)
    __radd__ = __add__

    def __neg__(self):
        if POLY and _is_wide(self):
            return _scale(self, -1)
        lin, c = self.get_lin()
        return SymInt._mk_lin({f: -w for f, w in lin.items()}, -c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, int):
            return self + (-o)
        if not isinstance(o, SymInt):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, (int, SymBool)):
            return (-self) + o
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            if POLY and _is_wide(self):
                return _scale(self, o)
            lin, c = self.get_lin()
            return SymInt._mk_lin({f: w * o for f, w in lin.items()}, c * o)
        if not isinstance(o, SymInt):
            if isinstance(o, (list, tuple, str, bytes, bytearray)) or hasattr(o, '_sx_items'):
                return o * self.__index__()
            return NotImplemented
        if POLY and (_is_wide(self) or _is_wide(o)):
            return _from_poly(_pmul(poly_of(self), poly_of(o)))
        b1, s1 = self.bits()
        b2, s2 = o.bits()
        if len(b1) * len(b2) > 4096:
            raise Unsupported('wide symbolic product')
        t1 = [(f, 1 << i) for i, f in enumerate(b1)] + ([(s1, -1 << len(b1))] if s1 else [])
        t2 = [(f, 1 << i) for i, f in enumerate(b2)] + ([(s2, -1 << len(b2))] if s2 else [])
        lin = {}
        c = 0
        for f, wf in t1:
            for g, wg in t2:
                h = b_and(f, g)
                w = wf * wg
                if h & 1:
                    c += w
                    w = -w
                    h ^= 1
                if h:
                    v = lin.get(h, 0) + w
                    if v:
                        lin[h] = v
                    else:
                        del lin[h]
        return SymInt._mk_lin(lin, c)
    __rmul__ = __mul__

    def __pow__(self, o, m=None):
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o):
                r = r * self
            return r % m if m is not None else r
        raise Unsupported('symbolic power')

    # ---- bitwise
    def _bitop(self, o, fn):
        if isinstance(o, SymBool):
            o = o.as_int()
        b1, s1 = self.bits()
        if isinstance(o, int):
            o = int(o)
            if o >= 0:
                s2 = 0
                n2 = o.bit_length()
            else:
                s2 = 1
                n2 = (~o).bit_length()
            b2 = [(o >> i) & 1 for i in range(n2)]
        elif isinstance(o, SymInt):
            b2, s2 = o.bits()
        else:
            return NotImplemented
        n = max(len(b1), len(b2))
        out = []
        for i in range(n):
            f = b1[i] if i < len(b1) else s1
            g = b2[i] if i < len(b2) else s2
            out.append(fn(f, g))
        return mk_int(out, fn(s1, s2))

    def __xor__(self, o):
        if type(o) is SymInt:
            b1, s1 = self.bits()
            b2, s2 = o.bits()
            if not s1 and not s2:
                if len(b1) < len(b2):
                    b1, b2 = b2, b1
                n = len(b2)
                return mk_int([f ^ g for f, g in zip(b1, b2)] + b1[n:])
        return self._bitop(o, _xor)
    __rxor__ = __xor__

    def __and__(self, o):
        if type(o) is int and o >= 0:
            b, s = self.bits()
            if not s:
                return mk_int([f if (o >> i) & 1 else 0 for i, f in enumerate(b)])
        return self._bitop(o, b_and)
    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, b_or)
    __ror__ = __or__

    def __invert__(self):
        b, s = self.bits()
        return mk_int([f ^ 1 for f in b], s ^ 1)

    def __lshift__(self, n):
        if isinstance(n, (SymInt, SymBool)):
            n = n.__index__()
        if not isinstance(n, int):
            return NotImplemented
        if n < 0:
            raise ValueError('negative shift count')
        if n == 0:
            return self
        if self.b is not None:
            return SymInt([0] * n + list(self.b), self.s)
        return self * (1 << n)

    def __rlshift__(self, o):
        # constant << symbolic: mux over the shift count
        lo, hi = self.bounds()
        if isinstance(o, int) and lo >= 0 and hi <= 64:
            return select([o << i for i in range(hi + 1)], self)
        return o << self.__index__()

    def __rshift__(self, n):
        if isinstance(n, (SymInt, SymBool)):
            n = n.__index__()
        if not isinstance(n, int):
            return NotImplemented
        if n < 0:
            raise ValueError('negative shift count')
        if n == 0:
            return self
        b, s = self.bits()
        return mk_int(b[n:], s)

    def __rrshift__(self, o):
        lo, hi = self.bounds()
        if isinstance(o, int) and lo >= 0 and hi <= 1024:
            return select([o >> i for i in range(hi + 1)], self)
        return o >> self.__index__()

    # ---- division
    def __mod__(self, o):
        if POLY and type(o) is int and o > 0 and (self.pure() or o.bit_length() > 40) \
                and not _pow2(o):
            return _pmod(self, o)
        if _pow2(o):
            return self & (o - 1)
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __floordiv__(self, o):
        if _pow2(o):
            return self >> (o.bit_length() - 1)
        r = self.__divmod__(o)
        if r is NotImplemented:
            return r
        if r[0] is None:
            raise Unsupported('quotient by a wide symbolic number')
        return r[0]

    def __divmod__(self, o):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, SymInt):
            r = _divsmall(self, o)
            if r is not None:
                return r
            if POLY and _is_wide(o):
                if o == 0:
                    raise ZeroDivisionError('integer division or modulo by zero')
                return None, _pmod_sym(self, o)
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if _pow2(o):
            return self >> (o.bit_length() - 1), self & (o - 1)
        lo, hi = self.bounds()
        if o > 0 and 0 <= lo and hi < o:
            return 0, self
        if POLY and o > 0 and (self.pure() or o.bit_length() > 40):
            return _pquo(self, o), _pmod(self, o)
        if o > 0 and lo >= 0 and hi // o <= 32768 and hi.bit_length() <= 600:
            return _divconst(self, o, hi)
        if o > 0 and hi - lo <= 255:
            off = self - lo
            return (select([(v // o) for v in range(lo, hi + 1)], off),
                    select([(v % o) for v in range(lo, hi + 1)], off))
        if o > 0 and lo < 0 and (hi - lo) // o <= 32000:
            t = -(lo // o)
            d = divmod(self + t * o, o)
            return d[0] - t, d[1]
        raise Unsupported('symbolic division by %d (%d..%d)' % (o, lo, hi))

    def __rmod__(self, o):
        if type(o) is int:
            r = _divsmall(o, self)
            if r is not None:
                return r[1]
            if POLY and _is_wide(self):
                if self == 0:
                    raise ZeroDivisionError('integer division or modulo by zero')
                return _pmod_sym(o, self)
        return o % self.__index__()

    def __rfloordiv__(self, o):
        if type(o) is int:
            r = _divsmall(o, self)
            if r is not None:
                return r[0]
        return o // self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __rpow__(self, o, m=None):
        if o == 2 and m is None:
            return 1 << self
        raise Unsupported('symbolic exponent')

    def __truediv__(self, o):
        raise Unsupported('float division')

    # ---- comparisons
    def _iszero(self):
        """SymBool/bool: self == 0."""
        if self.pure():
            lo, hi = self.bounds()
            if lo > 0 or hi < 0:
                return False
            _materialise(self)
        if self.b is None:
            lo, hi = self.bounds()
            if lo > 0 or hi < 0:
                return False
            if lo == 0 and all(w > 0 for w in self.lin.values()):
                return SymBool.all_zero(list(self.lin))
            if hi == 0 and all(w < 0 for w in self.lin.values()):
                return SymBool.all_zero(list(self.lin))
            if lo == 0:
                # all at their minimum
                return SymBool.all_zero([f if w > 0 else f ^ 1 for f, w in self.lin.items()])
            if hi == 0:
                return SymBool.all_zero([f if w < 0 else f ^ 1 for f, w in self.lin.items()])
        b, s = self.bits()
        return SymBool.all_zero(list(b) + [s])

    def __hash__(self):
        # equality is decided by ==, which may fork
        return 0x5eed

    def __eq__(self, o):
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, int):
            if self.b is not None:
                o = int(o)
                s2 = 1 if o < 0 else 0
                n = max(len(self.b), (~o if o < 0 else o).bit_length())
                forms = []
                for i in range(n):
                    f = self.b[i] if i < len(self.b) else self.s
                    forms.append(f ^ ((o >> i) & 1))
                forms.append(self.s ^ s2)
                return SymBool.all_zero(forms)
            r = self - o
            return (r == 0) if isinstance(r, int) else r._iszero()
        if isinstance(o, SymInt):
            if self.b is not None and o.b is not None:
                n = max(len(self.b), len(o.b))
                forms = []
                for i in range(n):
                    f = self.b[i] if i < len(self.b) else self.s
                    g = o.b[i] if i < len(o.b) else o.s
                    forms.append(f ^ g)
                forms.append(self.s ^ o.s)
                return SymBool.all_zero(forms)
            r = self - o
            return (r == 0) if isinstance(r, int) else r._iszero()
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r.invert() if isinstance(r, SymBool) else not r

    def _neg_form(self):
        """SymBool/bool of self < 0."""
        lo, hi = self.bounds()
        if lo >= 0:
            return False
        if hi < 0:
            return True
        return SymBool.of_form(reduce_form(self.bits()[1]))

    def _natural(self):
        """Known not to be negative from its form."""
        if self.pure() if self.p is not None else False:
            return self.bounds()[0] >= 0
        return not self.bits()[1]

    def __lt__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        if isinstance(o, int) and o == 1 and self._natural():
            return self._iszero()
        r = self - o
        return r < 0 if isinstance(r, int) else r._neg_form()

    def __ge__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        return _binv(self.__lt__(o))

    def __gt__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        if isinstance(o, int) and o == 0 and self._natural():
            return _binv(self._iszero())
        r = o - self
        return r < 0 if isinstance(r, int) else r._neg_form()

    def __le__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        return _binv(self.__gt__(o))

    def __bool__(self):
        r = self._iszero()
        return not bool(r)

    def __abs__(self):
        return -self if self < 0 else self

    # ---- concretisation
    def __index__(self):
        return concretize(self)

    __int__ = __index__

    def __hash__(self):
        return hash(concretize(self))

    def bit_length(self):
        b, s = self.bits()
        n = len(b)
        while n:
            if SymBool.of_form(reduce_form(b[n - 1] ^ s)):
                return n
            n -= 1
        return 0

    def bit_count(self):
        b, s = self.bits()
        r = 0
        for f in b:
            r = r + mk_int([f])
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .values import SymBytes
        length = length.__index__()
        b, s = self.bits()
        if s and not signed:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        over = [f for f in b[length * 8:] if f]
        if over and not SymBool.all_zero(over):
            raise OverflowError('int too big to convert')
        out = []
        for i in range(length):
            chunk = [b[k] if k < len(b) else s for k in range(8 * i, 8 * i + 8)]
            out.append(mk_int(chunk))
        if byteorder == 'big':
            out.reverse()
        return SymBytes._mk(out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return '<SymInt>'

    def __format__(self, spec):
        return '<SymInt>'

    __str__ = __repr__


def _xor(a, b):
    return a ^ b


def _binv(r):
    return r.invert() if isinstance(r, SymBool) else (not r)


def _pow2(o):
    return isinstance(o, int) and o > 0 and o & (o - 1) == 0


def _divconst(x, o, hi):
    """Restoring division for 0 <= x <= hi, small quotient."""
    q = 0
    k = (hi // o).bit_length()
    r = x
    for i in range(k - 1, -1, -1):
        d = r - (o << i)
        if isinstance(d, int):
            ge = 1 if d >= 0 else 0
        else:
            ge = d._neg_form()
            if isinstance(ge, bool):
                ge = 0 if ge else 1
            else:
                ge = ge.to_form() ^ 1
                ge = mk_int([ge])
        q = q + ge * (1 << i)
        if isinstance(ge, int):
            r = r - (o << i) * ge
        else:
            # r - ge*(o<<i) materialised
            f = ge.bits()[0][0]
            rb, rs = r.bits() if isinstance(r, SymInt) else (_int_bits(r, r.bit_length()), 0)
            db, ds = d.bits() if isinstance(d, SymInt) else (_int_bits(d, d.bit_length()), 0)
            n = max(len(rb), len(db))
            nb = []
            for j in range(n):
                a = db[j] if j < len(db) else ds
                b = rb[j] if j < len(rb) else rs
                nb.append(b_ite(f, a, b))
            nb = nb[:((o << i) - 1).bit_length()]
            r = mk_int(nb)
    return q, r


def _divsmall(x, o):
    """Quotient and remainder by a small non-negative symbolic divisor, or None."""
    if not isinstance(x, (int, SymInt)):
        return None
    xl, xh = (x, x) if isinstance(x, int) else x.bounds()
    ol, oh = o.bounds()
    n = (xh - xl).bit_length()
    if ol < 0 or n + oh.bit_length() > 13:
        return None
    if o == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    idx = (x - xl) + (o << n)
    vals = [[(xl + i, d) for i in range(1 << n)] for d in range(1 << oh.bit_length())]
    flat = [t for row in vals for t in row]
    if isinstance(idx, int):
        return divmod(*flat[idx])
    return (select([a // d if d else 0 for a, d in flat], idx),
            select([a % d if d else 0 for a, d in flat], idx))


# ----------------------------------------------------------------------------
# wide products: polynomials over opaque non-negative integers
# ----------------------------------------------------------------------------
# A polynomial is a dict: sorted tuple of variable numbers -> coefficient.  A variable is a
# tuple of bit forms.  The remainder of a polynomial by m is a variable again: its bits are
# uninterpreted functions of the polynomial with coefficients reduced modulo m, in which
# remainders by the same m have been replaced by what they are congruent to.  Congruent
# expressions therefore get the same bits.
POLY = False
INVERT = None
_PV = []        # [forms, largest value or None]
_PVID = {}
_PREM = {}      # variable -> {m: polynomial}
_PMEMO = {}
_PFRESH = {}


def _is_wide(x):
    return x.p is not None or x.b is not None and len(x.b) > 40


def _pvar(bits, hi=None):
    key = tuple(bits)
    v = _PVID.get(key)
    if v is None:
        v = _PVID[key] = len(_PV)
        _PV.append([key, hi])
    elif hi is not None:
        _PV[v][1] = hi if _PV[v][1] is None else min(hi, _PV[v][1])
    return v


def poly_of(x):
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, int):
        return {(): int(x)} if x else {}
    if x.p is None:
        b, s = x.bits()
        if s:
            raise Unsupported('negative operand of a wide product')
        x.p = {(_pvar(b),): 1}
    return x.p


def _clean(p):
    return {m: c for m, c in p.items() if c}


def _pplus(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
    return _clean(r)


def _pmul(a, b):
    if len(a) * len(b) > 4096:
        raise Unsupported('large polynomial')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return _clean(r)


def _from_poly(p):
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return c
        if len(m) == 1 and c == 1:
            r = mk_int(list(_PV[m[0]][0]))
            if isinstance(r, SymInt):
                r.p = p
            return r
    return SymInt(poly=p)


def _lift(x, q, o):
    """x plus o (None: the constant q) with the polynomial kept."""
    p = _pplus(poly_of(x), q)
    if x.pure() or o is not None and o.pure():
        return _from_poly(p)
    if o is None:
        lin, c = x.get_lin()
        r = SymInt._mk_lin(lin, c + q[()])
    else:
        r = x._add(o)
    if isinstance(r, SymInt):
        r.p = p
    return r


def _scale(x, k):
    p = {m: c * k for m, c in poly_of(x).items()}
    if x.pure():
        return _from_poly(p)
    lin, c = x.get_lin()
    r = SymInt._mk_lin({f: w * k for f, w in lin.items()}, c * k)
    if isinstance(r, SymInt):
        r.p = p
    return r


def _phi(v):
    f, hi = _PV[v]
    return hi if hi is not None else (1 << len(f)) - 1


def _pbounds(p):
    lo = hi = 0
    for m, c in p.items():
        t = c
        for v in m:
            t *= _phi(v)
        if not m:
            lo += c
            hi += c
        elif t > 0:
            hi += t
        else:
            lo += t
    return lo, hi


def _preduce(p, m):
    """Canonical form modulo m, as long as it stays small: a remainder whose replacement
    would make it large is kept as a variable.  A symbolic m is the tuple of its bits."""
    kept = set()
    wrap = (lambda c: c % m) if isinstance(m, int) else (lambda c: c)
    for _ in range(200):
        v = max((v for mono in p for v in mono if v not in kept and m in _PREM.get(v, ())),
                default=None)
        if v is None:
            break
        out = {}
        for mono, c in p.items():
            if v in mono:
                rest = list(mono)
                rest.remove(v)
                for n, d in _PREM[v][m].items():
                    k = tuple(sorted(rest + list(n)))
                    out[k] = wrap(out.get(k, 0) + c * d)
            else:
                out[mono] = wrap(out.get(mono, 0) + c)
        out = _clean(out)
        if len(out) > 200:
            kept.add(v)
        else:
            p = out
    return _clean({k: wrap(c) for k, c in p.items()})


def _pfresh(kind, m, p, nbits):
    """Bits of an uninterpreted function of the variables of p, and of m if it is symbolic."""
    vs = sorted({v for mono in p for v in mono})
    num = {v: i for i, v in enumerate(vs)}
    terms = tuple(sorted((tuple(num[v] for v in mono), c) for mono, c in p.items()))
    args = tuple(_PV[v][0] for v in vs)
    sym = not isinstance(m, int)
    if sym:
        args += (m,)
        name = '%s_sym_%x' % (kind, hash(terms) & (1 << 60) - 1)
    else:
        name = '%s_%x_%x' % (kind, m, hash((terms, m)) & (1 << 60) - 1)

    def meaning(*vals):
        t = 0
        for mono, c in terms:
            for i in mono:
                c *= vals[i]
            t += c
        by = vals[-1] if sym else m
        if by == 0:
            return 0
        t = t % by if kind == 'pmod' else t // by
        return t & ((1 << nbits) - 1)
    UF_FUN.setdefault(name, meaning)
    key = (name, args, nbits)
    if key not in _PFRESH:
        few = exact(args, meaning, nbits)
        if few is not None:
            _PFRESH[key] = few
            return list(few)
        _PFRESH[key] = [1 << new_atom(('uf', name, args, i, nbits)) for i in range(nbits)]
    return list(_PFRESH[key])


_EXACT = {}     # names of inputs -> an evaluator for each of their values


def few_inputs(forms, most=8):
    """The few input bits that determine the forms, and an evaluator for each of their values;
    None if they are many."""
    m = 0
    for f in forms:
        m |= support(f)
    names = [n for n, b in _NAME_BIT.items() if m & b]
    atoms = [a for n in names for a in INPUTS[n]]
    if not atoms or len(atoms) > most:
        return None
    key = (tuple(names), len(atoms))
    if key not in _EXACT:
        evs = _EXACT[key] = []
        for v in range(1 << len(atoms)):
            d = {}
            for n in names:
                d[n] = v & ((1 << len(INPUTS[n])) - 1)
                v >>= len(INPUTS[n])
            evs.append(Evaluator(d))
    return atoms, _EXACT[key]


def exact(args, fn, nbits):
    """Bits of fn(*args) by its table, when few input bits determine the arguments."""
    few = few_inputs([f for arg in args for f in arg])
    if few is None:
        return None
    atoms, evs = few
    seq = tuple(fn(*[sum(ev.form(f) << i for i, f in enumerate(arg)) for arg in args])
                for ev in evs)
    out = list(apply_fn([1 << a for a in atoms], Table(seq, len(atoms))))
    return (out + [0] * nbits)[:nbits]


def _pmod_sym(x, m):
    """Remainder by a wide symbolic number that is not zero."""
    mb, s = m.bits()
    if s:
        raise Unsupported('negative modulus')
    mb = tuple(mb)
    p = _preduce(poly_of(x), mb)
    key = (mb, tuple(sorted(p.items())))
    r = _PMEMO.get(key)
    if r is None:
        r = mk_int(_pfresh('pmod', mb, p, len(mb)))
        v = _pvar(r.bits()[0])
        _PREM.setdefault(v, {})
        if p != {(v,): 1}:
            _PREM[v][mb] = p
        _PMEMO[key] = r
    return mk_int(list(r.b))


def poly_mode(on):
    """Called at the start of a path."""
    global POLY
    POLY = on
    del _PV[:]
    _PVID.clear()
    _PREM.clear()
    _PMEMO.clear()


def _pmod(x, m):
    p = _preduce(poly_of(x), m)
    key = (m, tuple(sorted(p.items())))
    r = _PMEMO.get(key)
    if r is None:
        c = _from_poly(p)
        if isinstance(c, int):
            r = c % m
        else:
            lo, hi = c.bounds()
            if lo >= 0 and hi < m and not c.pure():
                r = c
            elif not c.pure() and lo >= 0 and hi // m <= 64:
                r = _divconst(mk_int(list(c.b)), m, hi)[1]
            else:
                r = mk_int(_pfresh('pmod', m, p, (m - 1).bit_length()))
        if isinstance(r, SymInt):
            v = _pvar(r.bits()[0], m - 1)
            _PREM.setdefault(v, {})
            if p != {(v,): 1}:
                _PREM[v][m] = p
        _PMEMO[key] = r
    return r if isinstance(r, int) else mk_int(list(r.b))


def _pquo(x, m):
    lo, hi = x.bounds()
    if lo < 0:
        raise Unsupported('quotient of a wide negative number')
    if hi < m:
        return 0
    if not x.pure() and hi // m <= 64:
        return _divconst(mk_int(list(x.bits()[0])), m, hi)[0]
    key = ('q', m, tuple(sorted(x.p.items())))
    if key not in _PMEMO:
        _PMEMO[key] = _pfresh('pquo', m, x.p, (hi // m).bit_length())
    return mk_int(list(_PMEMO[key]))


def _materialise(x):
    """Bits of a polynomial as such."""
    lo, hi = _pbounds(x.p)
    n = max(hi.bit_length(), (-lo).bit_length() if lo < 0 else 0) + (lo < 0)
    key = ('e', n, tuple(sorted(x.p.items())))
    if key not in _PMEMO:
        _PMEMO[key] = _pfresh('pquo', 1, x.p, n)
    b = list(_PMEMO[key])
    x.s = b.pop() if lo < 0 else 0
    x.b = b


def concretize(x):
    """Fork on the bits of x until it is a native int."""
    if isinstance(x, int):
        return x
    if isinstance(x, SymBool):
        return 1 if bool(x) else 0
    b, s = x.bits()
    neg = False
    if s:
        neg = bool(SymBool.of_form(reduce_form(s))) if reduce_form(s) > 1 else bool(reduce_form(s))
    v = 0
    for i in range(len(b) - 1, -1, -1):
        f = reduce_form(b[i])
        if f == 1 or (f > 1 and bool(SymBool.of_form(f))):
            v |= 1 << i
    if neg:
        v -= 1 << len(b)
    return v


# ----------------------------------------------------------------------------
# table lookup with a symbolic index
# ----------------------------------------------------------------------------
_TABLES = {}
_TABLE_BY_ID = {}


def _table_for(seq, k):
    if isinstance(seq, (tuple, bytes)):
        ent = _TABLE_BY_ID.get((id(seq), k))
        if ent is not None and ent[0] is seq:
            return ent[1]
        content = tuple(seq)
    else:
        content = tuple(seq)
    key = (content, k)
    t = _TABLES.get(key)
    if t is None:
        t = Table(content, k)
        _TABLES[key] = t
    if isinstance(seq, (tuple, bytes)):
        _TABLE_BY_ID[(id(seq), k)] = (seq, t)
    return t


_JUST_INT = {int}


def select(seq, idx):
    """seq[idx] for a symbolic idx; Python semantics including IndexError."""
    n = len(seq)
    lo, hi = idx.bounds()
    if lo < 0:
        if idx < 0:
            idx = idx + n
            if isinstance(idx, int):
                return seq[idx]
            lo, hi = idx.bounds()
            if lo < 0 and idx < 0:
                raise IndexError('index out of range')
    if hi >= n:
        if idx >= n:
            raise IndexError('index out of range')
    if isinstance(idx, int):
        return seq[idx]
    b, _ = idx.bits()
    b = [reduce_form(f) for f in b]
    n2 = len(b)
    while n2 and b[n2 - 1] == 0:
        n2 -= 1
    b = b[:n2]
    if n2 == 0:
        return seq[0]
    while (1 << (n2 - 1)) >= n:
        n2 -= 1
    b = b[:n2]
    if type(seq) is tuple or type(seq) is bytes:
        ent = _TABLE_BY_ID.get((id(seq), n2))
        if ent is not None and ent[0] is seq:
            return mk_int(apply_fn(b, ent[1]))
    if set(map(type, seq)) == _JUST_INT and min(seq) >= 0:
        t = _table_for(seq, n2)
        return mk_int(apply_fn(b, t))
    if all(isinstance(v, (int, SymInt)) for v in seq):
        items = list(seq)[:1 << n2]
        while len(items) < (1 << n2):
            items.append(items[-1])
        for f in b:
            items = [_mux(f, items[i + 1], items[i]) for i in range(0, len(items), 2)]
        return items[0]
    return seq[concretize(idx)]


def _mux(f, x, y):
    """x if f else y"""
    if f == 0:
        return y
    if f == 1:
        return x
    if isinstance(x, int) and isinstance(y, int) and x == y:
        return x
    xb, xs = _bits_of(x)
    yb, ys = _bits_of(y)
    n = max(len(xb), len(yb))
    out = []
    for i in range(n):
        a = xb[i] if i < len(xb) else xs
        b = yb[i] if i < len(yb) else ys
        out.append(b_ite(f, a, b))
    return mk_int(out, b_ite(f, xs, ys))


def _bits_of(x):
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, SymInt):
        return x.bits()
    x = int(x)
    if x >= 0:
        return _int_bits(x, x.bit_length()), 0
    return _int_bits(x, (~x).bit_length()), 1


def bits_fixed(x, n):
    """The low n bit forms of a native or symbolic int."""
    b, s = _bits_of(x)
    return [b[i] if i < len(b) else s for i in range(n)]


# ----------------------------------------------------------------------------
# uninterpreted functions
# ----------------------------------------------------------------------------
_UF = {}


def uf_apply(name, args, nout):
    """nout fresh bits, the same ones for the same (reduced) argument forms."""
    key = (name, tuple(tuple(reduce_form(f) for f in a) for a in args), nout)
    res = _UF.get(key)
    if res is None:
        ids = []
        for i in range(nout):
            ids.append(new_atom(('uf', name, key[1], i, nout)))
        res = [1 << i for i in ids]
        _UF[key] = res
    return list(res)


def reset():
    """Forget all atoms (tables and truth-table facts are kept)."""
    del ATOM_DEF[1:]
    del ATOM_GROUP[1:]
    global CHOICE
    CHOICE = 0
    INPUTS.clear()
    _GROUPS.clear()
    _UF.clear()
    _SUP.clear()
    _NAME_BIT.clear()
    UF_FUN.clear()
    _UFDEPS.clear()
    poly_mode(False)
    _PFRESH.clear()
    _EXACT.clear()
    set_path(PathState())


# ----------------------------------------------------------------------------
# evaluation under a concrete assignment of the inputs
# ----------------------------------------------------------------------------
_UFDEPS = {}


class Evaluator:
    """Evaluates forms given input values: dict name -> int."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.val = np.full(max(1024, len(ATOM_DEF) + 64), 2, dtype=np.uint8)    # 2: unknown
        self.groups = {}
        self.ufmemo = {}

    def _grow(self):
        if len(self.val) < len(ATOM_DEF):
            v = np.full(2 * len(ATOM_DEF), 2, dtype=np.uint8)
            v[:len(self.val)] = self.val
            self.val = v

    def _need(self, forms):
        out = []
        for f in forms:
            if len(f):
                t = self.val[f]
                if t.max() == 2:
                    out.extend(np.asarray(f)[t == 2].tolist())
        return out

    def _sum(self, f):
        return int(np.bitwise_xor.reduce(self.val[f])) if len(f) else 0

    def force(self, atoms):
        self._grow()
        stack = list(atoms)
        val = self.val
        while stack:
            x = stack[-1]
            if val[x] != 2:
                stack.pop()
                continue
            d = ATOM_DEF[x]
            if d[0] == 'in':
                val[x] = (self.inputs.get(d[1], 0) >> d[2]) & 1
            elif d[0] == 'fn':
                g = id(d[1])
                idx = self.groups.get(g)
                if idx is None:
                    deps = d[1].sparse
                    need = self._need(deps)
                    if need:
                        stack.extend(need)
                        continue
                    idx = 0
                    for i, f in enumerate(deps):
                        idx |= self._sum(f) << i
                    self.groups[g] = idx
                val[x] = (d[2] >> idx) & 1
            elif (id(d[2]), d[1]) in self.ufmemo:
                val[x] = (self.ufmemo[id(d[2]), d[1]] >> d[3]) & 1
            else:
                deps = _UFDEPS.get(id(d[2]))
                if deps is None or deps[0] is not d[2]:
                    deps = _UFDEPS[id(d[2])] = (d[2], [sparse_of(f & ~1)
                                                       for arg in d[2] for f in arg])
                deps = deps[1]
                need = self._need(deps)
                if need:
                    stack.extend(need)
                    continue
                it = iter(deps)
                vals = tuple(sum(((f & 1) ^ self._sum(next(it))) << i
                                 for i, f in enumerate(arg)) for arg in d[2])
                key = (d[1], vals, tuple(len(arg) for arg in d[2]))
                r = self.ufmemo.get(key)
                if r is None:
                    r = UF_FUN[d[1]](*vals)
                    self.ufmemo[key] = r
                self.ufmemo[id(d[2]), d[1]] = r
                val[x] = (r >> d[3]) & 1
            stack.pop()

    def atom(self, a):
        self._grow()
        if self.val[a] == 2:
            self.force([a])
        return int(self.val[a])

    def form(self, f):
        s = sparse_of(f & ~1)
        self._grow()
        need = self._need([s])
        if need:
            self.force(need)
        return (f & 1) ^ self._sum(s)

    def value(self, x):
        if isinstance(x, SymBool):
            return int(all(self.form(f) == 0 for f in x.forms)) ^ int(x.neg)
        if isinstance(x, SymInt):
            if x.pure():
                t = 0
                for mono, c in x.p.items():
                    for u in mono:
                        c *= sum(self.form(f) << i for i, f in enumerate(_PV[u][0]))
                    t += c
                return t
            if x.b is None:
                v = x.c
                for f, w in x.lin.items():
                    v += w * self.form(f)
                return v
            v = 0
            for i, f in enumerate(x.b):
                v |= self.form(f) << i
            if x.s and self.form(x.s):
                v -= 1 << len(x.b)
            return v
        return x
