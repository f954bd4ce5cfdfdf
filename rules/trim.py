"""The range a trim selects: Trim::normalized, compared with its definition."""
import math, random
from fractions import Fraction as Fr
from .base import *
from engine import terms as tm, witness
from .layer import Out, diff, foreign
from .params import run_eval

OPT = tm.OPT
T = "fixed::Trim"
EPS = 1e-9


def tup(*xs):
    return adt("()", 0, *xs)


def required(s, e, o):
    """the definition, over terms"""
    off = mul(o, tm.mk("num", Fr(100, 360)))
    pct = num(0.01)

    def span(lo, hi):
        d = sub(hi, lo)
        w = tm.mk("app", "f64::rem_euclid", add(lo, off), num(100))
        end = add(w, d)
        one_ = tm.some(tup(tup(mul(w, pct), mul(end, pct)), tm.NONE))
        two = tm.some(tup(tup(mul(w, pct), ONE), tm.some(tup(ZERO, mul(sub(end, num(100)), pct)))))
        every = tm.some(tup(tup(ZERO, ONE), tm.NONE))
        return tm.ite(tm.fcmp("lt", d, num(EPS)), tm.NONE, tm.ite(tm.fcmp("ge", d, num(100.0 - EPS)), every, tm.ite(tm.fcmp("le", end, num(100)), one_, two)))
    return tm.ite(tm.fcmp("le", s, e), span(s, e), span(e, s))


class Numbers(witness.Eval):
    """a result of the function for given start, end and offset"""

    def make(self, t):
        if t.op == "app" and t.a[0] == "f64::rem_euclid":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if not b:
                raise witness.Opaque("remainder by zero")
            return a - abs(b) * math.floor(a / abs(b))
        if t.op == "app" and t.a[0] == "frem":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if not b:
                raise witness.Opaque("remainder by zero")
            return math.fmod(a, b)
        if t.op == "app" and t.a[0] in ("f64::floor", "f64::ceil", "f64::trunc", "f64::fract"):
            a = self.val(t.a[1])
            return a - math.trunc(a) if t.a[0].endswith("fract") else float(getattr(math, t.a[0][5:])(a))
        return super().make(t)

    def struct(self, t, n):
        """one of n variants, after its decisions"""
        while t.op == "case":
            t = t.a[1 + self.outcome(t.a[0])]
        if t.op != "adt":
            raise witness.Opaque(t.op)
        return t

    def outcome(self, at):
        if at.op == "isvar":
            return self.struct(at.a[0], at.a[1]).a[1]
        if at.op in ("cmp", "fcmp"):
            v, k = self.val(at.a[0]), float(self.val(at.a[1]) if hasattr(at.a[1], "op") else at.a[1])
            return 0 if v < k else 2 if v > k else 1
        return super().outcome(at)

    def result(self, t):
        """None, or the list of one or two ranges"""
        r = self.struct(t, 2)
        if r.a[1] == 0:
            return None
        p = self.struct(r.a[2], 1)
        first, second = p.a[2], self.struct(p.a[3], 2)
        rs = [self.struct(first, 1)] + ([self.struct(second.a[2], 1)] if second.a[1] else [])
        return [(self.val(x.a[2]), self.val(x.a[3])) for x in rs]


def same(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(abs(x - y) < 1e-6 for p, q in zip(a, b) for x, y in zip(p, q))


POINTS = [0.0, 10.0, 20.0, 25.0, 33.0, 50.0, 60.0, 75.0, 90.0, 99.0, 99.7, 100.0, 120.0, -30.0, -130.0, 0.4]
OFFSETS = [0.0, 36.0, 90.0, 90.1, 180.0, -36.0, 359.0, 360.0, 400.0, -720.0, 36.9, 1.0, 1e4]


def apart(s, e, o):
    """no decision of the definition is closer than rounding (or a tolerance) allows"""
    d, lo = abs(s - e), min(s, e)
    if d == 0 or d >= 100:
        return True
    if d < 1e-3 or d > 100 - 1e-3:
        return False
    x = lo + o / 3.6
    w = x - 100 * math.floor(x / 100)
    return 1e-3 < w < 100 - 1e-3 and abs(w + d - 100) > 1e-3


def counterexample(got, want, s, e, o):
    """start, end and offset for which the two differ; None if there is none in reach"""
    rnd = random.Random(5)
    points = [(a, b, c) for a in POINTS for b in POINTS for c in OFFSETS]
    points += [(rnd.uniform(-10, 110), rnd.uniform(-10, 110), rnd.uniform(-r, r)) for r in (40, 400, 4000) for _ in range(1500)]
    points += [(a, a + rnd.choice((-1, 1)) * rnd.choice((0.002, 0.02, 0.3, 1.5, 5, 95, 98.5, 99.9)), rnd.uniform(-400, 400)) for a in POINTS for _ in range(60)]
    for a, b, c in points:
        if not apart(a, b, c):
            continue
        pins = {s: a, e: b, o: c}

        def free(t):
            return t in pins
        try:
            x = Numbers(free, random.Random(1), pins).result(got)
        except (witness.Opaque, AttributeError, IndexError, TypeError):
            continue
        y = Numbers(free, random.Random(1), pins).result(want)
        if not same(x, y):
            return "start %g, end %g, offset %g degrees: %s instead of %s" % (a, b, c, x, y)
    return None


def first_decision(*ts):
    seen = set()
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if not hasattr(t, "op") or t in seen:
            continue
        seen.add(t)
        if t.op == "case":
            return t.a[0]
        stack.extend(x for x in t.a if hasattr(x, "op"))
    return None


def close(a, b):
    """one term, up to the rounding of constants"""
    if a is b:
        return True
    if not (hasattr(a, "op") and hasattr(b, "op")):
        return a == b
    if a.op in ("num", "poly") and b.op in ("num", "poly"):
        p, q = list(tm.topoly(a).items()), list(tm.topoly(b).items())
        if len(p) != len(q):
            return False
        for m, c in p:
            for i, (n, d) in enumerate(q):
                if abs(c - d) <= abs(c) * 1e-12 and len(m) == len(n) and all(e == f and close(x, y) for (x, e), (y, f) in zip(m, n)):
                    del q[i]
                    break
            else:
                return False
        return True
    return a.op == b.op and len(a.a) == len(b.a) and all(close(x, y) for x, y in zip(a.a, b.a))


def agree(got, want, ranges, left=None):
    """number of combinations of decisions over numbers on which both are the same term; None if they are not on some"""
    if left is None:
        left = [4000]
    left[0] -= 1
    if left[0] < 0:
        return None
    at = first_decision(got, want)
    if at is None:
        return 1 if close(got, want) else None
    if at.op != "sgn":
        return None
    n = 0
    p, k = at.a
    lo, hi = ranges.get(p, ((-math.inf, False), (math.inf, False)))   # bound, strict
    for o in range(3):
        l, h = lo, hi
        if o == 0:
            h = min(hi, (k, True), key=lambda x: (x[0], not x[1]))
        elif o == 2:
            l = max(lo, (k, True))
        else:
            l, h = max(lo, (k, False)), min(hi, (k, False), key=lambda x: (x[0], not x[1]))
        if l[0] > h[0] or l[0] == h[0] and (l[1] or h[1]):
            continue    # no number is on both sides
        m = agree(tm.assume(got, {at: o}), tm.assume(want, {at: o}), {**ranges, p: (l, h)}, left)
        if m is None:
            return None
        n += m
    return n


def trim_rules(rep):
    r = run_eval("fixed::Trim::normalized")
    w = where(r.inst)
    rep.analysed(r.inst["path"])
    s, e, o = (g(r.args[0], T, f) for f in ("start", "end", "offset"))
    want = required(s, e, o)
    n = agree(r.value, want, {})
    what = ("a trim selects nothing if start and end agree, everything if they are 100 percent apart, and else the range from the smaller to "
            "the larger one, shifted by offset/360 of the length and wrapped around at the end")
    if n:
        rep.ok(what + " (%d combinations of decisions)" % n, w)
        return
    ce = counterexample(r.value, want, s, e, o)
    if ce:
        rep.bad("trim-range", what, w, ce)
    else:
        rep.undecided(what, w, "it is computed in a form that is not recognised, and no numbers tell it from the definition")
