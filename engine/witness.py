"""Witnesses: numbers for the free inputs of a term under which it takes a given value.

A mismatch between two terms over numbers is conclusive if some assignment of the free inputs meets all decisions and makes them
differ.  Only terms consisting of free inputs, constants, arithmetic and clipping functions are evaluated; everything else is Opaque."""
import math, random
from fractions import Fraction as Fr
from . import terms as tm


class Opaque(Exception):
    pass


POOL = (0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 0.25, 0.75, 10.0, 100.0, -100.0, 1e-4, 360.0, 7.0, 1000.0, -0.5, 5e-4, 400.0, 1e6, -1e6)


class Eval:
    def __init__(self, free, rnd, pins=None):
        self.free, self.rnd, self.env, self.pins = free, rnd, {}, pins or {}

    def val(self, t):
        if t.op == "num":
            return float(t.a[0])
        if t in self.env:
            return self.env[t]
        if t in self.pins:
            v = float(self.pins[t])
            self.env[t] = v
            return v
        if self.free(t):
            v = self.rnd.choice(POOL)
            if t.op == "len" or self.integral(t):
                v = float(abs(int(v)) % 7)
            self.env[t] = v
            return v
        v = self.make(t)
        self.env[t] = v
        return v

    def integral(self, t):
        return False

    def make(self, t):
        if t.op == "poly":
            s = 0.0
            for m, c in tm.topoly(t).items():
                p = float(c)
                for x, e in m:
                    b = self.val(x)
                    try:
                        p *= b ** int(e)
                    except (OverflowError, ZeroDivisionError):
                        raise Opaque("power")
                s += p
            return s
        if t.op == "case":
            return self.val(t.a[1 + self.outcome(t.a[0])])
        if t.op == "app":
            n, a = t.a[0], t.a[1:]
            if n in ("fmin", "imin"):
                return min(self.val(x) for x in a)
            if n in ("fmax", "imax"):
                return max(self.val(x) for x in a)
            if n == "fclamp":
                x, lo, hi = (self.val(y) for y in a)
                return min(max(x, lo), hi)
            if n == "abs":
                return abs(self.val(a[0]))
            if n == "monus":
                return max(self.val(a[0]), 0.0)
            if n in ("f32", "tofloat"):
                return self.val(a[0])
            if n == "inv":
                v = self.val(a[0])
                if v == 0:
                    raise Opaque("division by zero")
                return 1 / v
        raise Opaque(tm.show(t, 0, 2)[:80])

    def outcome(self, at):
        if at.op == "sgn":
            v, k = self.val(at.a[0]), float(at.a[1])
            return 0 if v < k else 2 if v > k else 1
        if at.op == "le":
            return 1 if self.val(at.a[0]) <= at.a[1] else 0
        raise Opaque(at.op)


def search(free, goal, n=400, seed=7, pins=(None,)):
    """an assignment under which goal(eval) is true: goal may raise Opaque (no answer)"""
    rnd = random.Random(seed)
    opaque = 0
    for i in range(n):
        e = Eval(free, rnd, pins[i % len(pins)])
        try:
            if goal(e):
                return e.env
        except Opaque:
            opaque += 1
            if opaque > 20 and opaque > i * 0.95:
                return None
    return None
