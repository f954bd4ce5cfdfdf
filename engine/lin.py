"""Linear inequalities over the decisions of a path (Fourier-Motzkin), and the case-free leaves of a term.

Integer atoms le(q,k) and float atoms sgn(q,k) become linear constraints over the non-linear parts of q."""
from fractions import Fraction as Fr
from . import terms as tm
from .terms import *

LIMIT = 400


class Sys:
    """a conjunction of linear constraints  sum c_i x_i + c  (<= | <) 0"""

    def __init__(self, cs=(), ne=()):
        self.cs = list(cs)

    def copy(self):
        return Sys(self.cs)

    def add(self, p, strict, integer=False):
        """p: dict monomial->coefficient (with () for the constant): p <= 0 (or < 0)"""
        self.cs.append((frozenset((m, c) for m, c in p.items() if c != 0), strict, integer))

    def le(self, q, k, integer=False):
        p = dict(topoly(q))
        p[()] = p.get((), Fr(0)) - Fr(k)
        self.add(p, False, integer)

    def gt(self, q, k, integer):
        p = {m: -c for m, c in topoly(q).items()}
        p[()] = p.get((), Fr(0)) + Fr(k)
        if integer:
            p[()] += 1
            self.add(p, False, True)
        else:
            self.add(p, True)

    def lt(self, q, k):
        p = dict(topoly(q))
        p[()] = p.get((), Fr(0)) - Fr(k)
        self.add(p, True)

    def eq(self, q, k):
        self.le(q, k)
        p = {m: -c for m, c in topoly(q).items()}
        p[()] = p.get((), Fr(0)) + Fr(k)
        self.add(p, False)

    def lit(self, atom, o):
        if atom.op == "le":
            q, k = atom.a
            if o == 1:
                self.le(q, k, True)
            else:
                self.gt(q, k, True)
        elif atom.op == "sgn":
            q, k = atom.a
            if o == 0:
                self.lt(q, k)
            elif o == 1:
                self.eq(q, k)
            elif o == 2:
                self.gt(q, k, False)

    def feasible(self):
        """False only if the constraints have no (real) solution"""
        cs = []
        nonneg = set()
        for p, s, integer in self.cs:
            d = dict(p)
            cs.append((d, s))
            for m in d:
                if integer and m != () and len(m) == 1 and m[0][1] == 1 and tm.is_nonneg(m[0][0]):
                    nonneg.add(m)
        for m in nonneg:
            cs.append(({m: Fr(-1)}, False))
        while True:
            vs = {}
            for d, s in cs:
                c0 = [m for m in d if m != ()]
                if not c0:
                    v = d.get((), Fr(0))
                    if v > 0 or (s and v == 0):
                        return False
                for m in c0:
                    a = vs.setdefault(m, [0, 0])
                    a[0 if d[m] > 0 else 1] += 1
            cs = [(d, s) for d, s in cs if any(m != () for m in d)]
            if not vs:
                return True
            v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
            up = [(d, s) for d, s in cs if d.get(v, 0) > 0]
            lo = [(d, s) for d, s in cs if d.get(v, 0) < 0]
            rest = [(d, s) for d, s in cs if d.get(v, 0) == 0]
            if len(up) * len(lo) + len(rest) > LIMIT:
                return True
            seen = set()
            for d, s in up:
                for e, r in lo:
                    x, y = -e[v], d[v]
                    n = {}
                    for m, c in d.items():
                        n[m] = n.get(m, Fr(0)) + c * x
                    for m, c in e.items():
                        n[m] = n.get(m, Fr(0)) + c * y
                    n = {m: c for m, c in n.items() if c != 0 or m == ()}
                    n.pop(v, None)
                    key = (frozenset(n.items()), s or r)
                    if key not in seen:
                        seen.add(key)
                        rest.append((n, s or r))
            cs = rest

    def entails_le(self, a, b):
        """a <= b on every integer solution"""
        c = self.copy()
        c.gt(sub(a, b), 0, True)
        return not c.feasible()

    def entails_eq(self, a, b):
        return self.entails_le(a, b) and self.entails_le(b, a)

    def entails_fle(self, a, b):
        c = self.copy()
        c.gt(sub(a, b), 0, False)
        return not c.feasible()


CLIP = {"imin", "imax", "monus", "fclamp", "fmin", "fmax", "abs"}


def expand(t, which=("imin", "imax", "monus"), skip=None):
    """clipping functions as decisions"""
    def f(x):
        if x.op != "app" or x.a[0] not in which:
            return None
        n = x.a[0]
        xs = [expand(y, which, skip) for y in x.a[1:]]
        if skip is not None and skip(x):
            return lift(("x", n), lambda *ys: app(n, *ys), *xs)
        if n == "monus":
            return lift("x:monus", lambda d: ite(le_int(d, ZERO, False), ZERO, d), xs[0] if len(xs) == 1 else sub(*xs))
        if n in ("imin", "imax"):
            r = xs[0]
            for y in xs[1:]:
                if n == "imin":
                    r = lift("x:imin", lambda a, b: ite(le_int(a, b, False), a, b), r, y)
                else:
                    r = lift("x:imax", lambda a, b: ite(le_int(a, b, False), b, a), r, y)
            return r
        return None
    return tm.rewrite(t, f)


class TooMany(Exception):
    pass


def first_atom(t, pick=None):
    """an atom decided somewhere in t (not under a binder whose variable it mentions), innermost first"""
    seen = set()

    def go(x, lv):
        if x in seen or not x.am:
            return None
        seen.add(x)
        for c in tm._kids(x.op, x.a):
            r = go(c, lv)
            if r is not None:
                return r
        if x.op == "case" and not _bvfree(x.a[0]) and (pick is None or pick(x.a[0])):
            return x.a[0]
        return None
    return go(t, 0)


_bv = {}


def _bvfree(t):
    """may t contain a free bound variable?"""
    r = _bv.get(t)
    if r is None:
        r = _bvs(t) != frozenset()
        _bv[t] = r
    return r


_bvm = {}


def _bvs(t):
    r = _bvm.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset([t.a[0]])
    else:
        s = set()
        for c in tm._kids(t.op, t.a):
            s |= _bvs(c)
        if t.op in ("each", "firstk", "sum"):
            # the bound level is only bound in the body, but levels are unique by height
            s.discard(t.a[0])
        elif t.op in ("scan", "lam"):
            for i in range(t.a[1]):
                s.discard(t.a[0] + i)
        r = frozenset(s)
    _bvm[t] = r
    return r


def leaves(ts, lits=None, base=None, limit=3000, pick=None):
    """[(terms, lits, Sys)] : case-free variants of the terms on every feasible combination of decisions"""
    return list(iter_leaves(ts, lits, base, limit, pick))


def iter_leaves(ts, lits=None, base=None, limit=3000, pick=None, budget=None):
    """the same, one by one; TooMany once the limit is reached"""
    base = base or Sys()
    budget = budget if budget is not None else [limit]

    def go(ts, lits, sy):
        budget[0] -= 1
        if budget[0] < 0:
            raise TooMany()
        for t in ts:
            a = first_atom(t, pick)
            if a is not None:
                break
        else:
            yield (ts, lits, sy)
            return
        for o in range(tm.arity(a)):
            s2 = sy
            if a.op in ("le", "sgn"):
                s2 = sy.copy()
                s2.lit(a, o)
                if not s2.feasible():
                    continue
            l2 = dict(lits)
            l2[a] = o
            t2 = [assume(t, {a: o}) for t in ts]
            if t2[0] is UNDEF:
                continue
            yield from go(t2, l2, s2)
    yield from go(list(ts), dict(lits or {}), base)


# ---------------------------------------------------------------- ranges of float terms
INF = float("inf")


def frange(x, lits, sy=None, memo=None):
    """(lo, hi, may be NaN) of a float term on a path; infinite bounds where nothing is known"""
    if x.op == "num":
        v = x.a[0]
        return (v, v, False)
    if x.op == "fconst":
        if x.a[0] == "nan":
            return (INF, -INF, True)
        return (INF, INF, False) if x.a[0] == "inf" else (-INF, -INF, False)
    lo, hi, nan = -INF, INF, True
    if x.op == "app" and x.a[0] in ("fmin", "fmax"):
        rs = [frange(y, lits) for y in x.a[1:]]
        nan = all(r[2] for r in rs)
        if x.a[0] == "fmin":
            lo = min(r[0] for r in rs)
            his = [r[1] for r in rs if not r[2]]
            hi = min(his) if his else max(r[1] for r in rs)
        else:
            hi = max(r[1] for r in rs)
            los = [r[0] for r in rs if not r[2]]
            lo = max(los) if los else min(r[0] for r in rs)
    elif x.op == "app" and x.a[0] == "fclamp":
        r, a, b = (frange(y, lits) for y in x.a[1:])
        if not a[2] and not b[2]:
            lo, hi, nan = max(a[0], min(r[0], b[0])), min(b[1], max(r[1], a[1])), r[2]
    elif x.op == "app" and x.a[0] == "abs":
        r = frange(x.a[1], lits)
        lo, hi, nan = max(0, -r[1], r[0]), max(abs(r[0]), abs(r[1])), r[2]
    # comparisons made on the path with this very quantity
    p = dict(topoly(x)) if x.op in ("poly", "num") else {((x, 1),): Fr(1)}
    c0 = p.pop((), Fr(0))
    for at, o in lits.items():
        if at.op != "sgn":
            continue
        q = dict(topoly(at.a[0]))
        k = at.a[1]
        qc = q.pop((), Fr(0))
        if not p or set(q) != set(p):
            continue
        m0 = next(iter(p))
        f = p[m0] / q[m0]
        if any(p[m] != f * q[m] for m in p):
            continue
        if o == 3:
            return (INF, -INF, True)
        nan = False
        # x = f*(q - k) + f*(k - qc) + c0   with q+qc ? k
        v = f * (k - qc) + c0
        if o == 1:
            lo, hi = max(lo, v), min(hi, v)
        elif (o == 0) == (f > 0):
            hi = min(hi, v)
        else:
            lo = max(lo, v)
    return (lo, hi, nan)
