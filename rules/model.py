"""Rules on the evaluation of animated values: which keyframes are used, with which weight, and what holds.

`Tween::tween` is opaque here (its own rule is in tween.py); the search of the keyframe list is replaced by its
contract (what a search result says about the list), and the rest is decided on every combination of decisions of
the evaluation function, with linear inequalities over the index and the list lengths."""
from .base import *
from .layer import Out, diff, foreign, apps
from engine import lin
from engine.lin import Sys, leaves, expand, frange

DEBUG = os.environ.get("VERIF_DEBUG")
RES = "std::result::Result"
VAL = "runtime::model::value::Value"


def opq_tween(ii, inst, key, args):
    if inst.get("name") == "tween" or inst["path"].endswith("Tween::tween"):
        return "Tween::tween"
    return None


def val(suffix):
    """the instance of a function that exists once per generic implementation"""
    return root_inst(suffix)


class Search:
    """one search of a keyframe list in a term: the possible outcomes and what each says about the list"""

    def __init__(self, node):
        self.node = node
        self.kind = None
        self.scen = []   # (replacement, base constraints, expected selected index, name)

    @staticmethod
    def find(R, frame):
        out = []
        seen, st = set(), [R]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "app" and x.a[0] in ("bsearch", "firstk") and Search.over(x) is not None and occurs(x, frame):
                out.append(x)
            st.extend(tm._kids(x.op, x.a))
        return out

    @staticmethod
    def over(x):
        """(list, reversed?) of a search whose predicate reads `.frame` of the elements of a list"""
        if x.a[0] == "bsearch":
            return (x.a[1], False)
        l = x.a[1]
        k = fresh("k")
        b = open_lam(l, [k])
        P, v, i = fidx("Time", "frame")
        seen, st = set(), [b]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y.op == "fld" and y.a[0].op == "at" and y is fld(y.a[0], v, i, P):
                ix = y.a[0].a[1]
                if ix is k:
                    return (y.a[0].a[0], False)
                if sub(ix, sub(sub(len_(y.a[0].a[0]), ONE), k)) is ZERO:
                    return (y.a[0].a[0], True)
            st.extend(tm._kids(y.op, y.a))
        return None


def outcome(t, k, times, ix, frame, o, inrange):
    """value of the predicate when times[ix].frame compares with frame as o (0 <, 1 =, 2 >)"""
    fr = g(at(times, ix), "Time", "frame")
    c = tm.cmp_f(fr, frame)
    if c.op != "case":
        raise Undecided("the keyframe search does not compare times")
    inv_ = {1: 1, 0: 0, 2: 2}
    oo = [j for j, x in enumerate(c.a[1:]) if x is tm.ORD["NZP"[o]]][0]
    lits = {c.a[0]: oo}
    lits.update(inrange)
    return assume(t, lits), lits


def scenarios(node, frame):
    """[(replacement of the node, facts, expected index, real facts)], or a reason (str) if the search is wrong"""
    times, rev_ = Search.over(node)
    n = len_(times)
    one_ = ONE

    def sy(*cs):
        s = Sys()
        for a, b in cs:  # a <= b
            s.le(sub(a, b), 0, True)
        return s
    if node.a[0] == "bsearch":
        k = fresh("k")
        o = open_lam(node.a[2], [k])
        P = adtpath("cmp::Ordering")
        vs = [v["n"] for v in facts().adt(P)["variants"]]
        res = ""
        for oo in (0, 1, 2):
            v, _ = outcome(o, k, times, k, frame, oo, {})
            if v.op != "adt" or v.a[0] != P:
                raise Undecided("the comparison of the keyframe search is not decided by the order of the times")
            res += vs[v.a[1]][0]
        K = fresh("K")
        ok, err = adt(RES, 0, K), adt(RES, 1, K)
        if res == "LEG":
            return [(ok, sy((K, sub(n, one_)), (ONE, n)), K, "found"), (err, sy((K, n)), tm.monus(K, one_), "between")]
        if res == "LLG":
            return [(err, sy((K, n)), tm.monus(K, one_), "between")]
        if res == "LGG":
            e = ite(le_int(n, K), FALSE, fcmp("eq", g(at(times, K), "Time", "frame"), frame))
            return [(err, sy((K, n)), ite(e, K, tm.monus(K, one_)), "at-or-after")]
        return "the comparison of the keyframe search orders times as %s" % res
    k = fresh("k")
    b = open_lam(node.a[1], [k])
    ix = sub(sub(n, ONE), k) if rev_ else k
    inr = {}
    e = le_int(n, k)
    if e.op == "case":
        inr[e.a[0]] = 0 if e.a[1] is FALSE else 1
    res = ""
    for oo in (0, 1, 2):
        v, lits = outcome(b, k, times, ix, frame, oo, inr)
        if v is not TRUE and v is not FALSE:
            raise Undecided("the predicate of the keyframe search is not decided by the order of the times")
        res += "T" if v is TRUE else "F"
    K = fresh("K")
    f = sy((K, n))
    if not rev_:
        if res == "FFT":
            return [(K, f, tm.monus(K, one_), "first after")]
        if res == "FTT":
            e = ite(le_int(n, K), FALSE, fcmp("eq", g(at(times, K), "Time", "frame"), frame))
            return [(K, f, ite(e, K, tm.monus(K, one_)), "first at or after")]
    else:
        if res == "TTF":
            return [(K, f, ite(le_int(n, K), ZERO, sub(sub(n, one_), K)), "last at or before")]
        if res == "TFF":
            J = sub(n, K)  # the successor of the one found
            e = ite(le_int(K, ZERO), FALSE, fcmp("eq", g(at(times, J), "Time", "frame"), frame))
            return [(K, f, ite(e, J, ite(le_int(n, K), ZERO, sub(sub(n, one_), K))), "last before")]
    raise Undecided("keyframe search of kind %s%s" % (res, " backwards" if rev_ else ""))


def indices_of(t, seq_):
    """index terms I of every at(seq_, I) in t"""
    out = []
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "at" and x.a[0] is seq_ and x.a[1] not in out:
            out.append(x.a[1])
        st.extend(tm._kids(x.op, x.a))
    return out


class Selection:
    """the use of keyframes by one evaluation function"""

    def __init__(self, name, R, frame, times, values, w):
        self.name, self.R, self.frame, self.times, self.values, self.w = name, R, frame, times, values, w

    def run(self, out):
        """interps(leaf term) is supplied by the subclass: what a leaf interpolates"""
        nodes = [x for x in Search.find(self.R, self.frame)]
        if len(nodes) != 1:
            raise Undecided("%s searches its keyframes %d times" % (self.name, len(nodes)))
        node = nodes[0]
        if Search.over(node)[0] is not self.times:
            raise Undecided("%s searches another list" % self.name)
        sc = scenarios(node, self.frame)
        nm = self.name
        if isinstance(sc, str):
            out(("C04",), "search:" + nm, "%s finds the keyframe at or before the frame" % nm, self.w, False, sc)
            return
        self.stat = dict(leaves=0, interp=0)
        bad = {}
        for repl, base, want, sname in sc:
            R = self.prepare(subst_many(self.R, {node: repl}))
            want = expand(want)
            want = want if isinstance(want, T) else want
            try:
                ls = leaves([R, want], None, base, pick=self.pick)
            except lin.TooMany:
                raise Undecided("%s: too many combinations of decisions" % nm)
            for (leaf, sel), lits, sy in ls:
                self.stat["leaves"] += 1
                self.leaf(out, leaf, sel, lits, sy, sname, bad)
        for pid, what in (("C04", "select"), ("C04", "succ"), ("C04", "weight"), ("C04", "fraction"), ("C04", "fallback"), ("C05", "hold"),
                          ("C34", "easing"), ("C26", "easing"), ("C06", "easing")) + tuple(self.extra):
            e = bad.get((pid, what))
            out((pid,), "%s:%s" % (what, nm), self.WHAT[what] % nm + " (%d decision paths, %d interpolations)" % (self.stat["leaves"], self.stat["interp"]),
                self.w, e is None, e)
        if not self.stat["interp"] and not bad:
            raise Undecided("%s: no interpolation found" % nm)

    pick = None

    def prepare(self, t):
        return expand(t)

    WHAT = {"select": "%s starts from the keyframe at or before the frame (the first one before all), which exists",
            "succ": "%s interpolates towards the immediate successor (the last keyframe itself at the end)",
            "weight": "the weight of %s is a number between 0 and 1 on every path",
            "fraction": "the weight of %s is the elapsed fraction of the segment, clamped",
            "fallback": "%s falls back to a default only without keyframes",
            "hold": "%s has exactly the starting value while the starting keyframe holds",
            "easing": "%s eases with the starting keyframe's own out and in handles, linearly without them"}

    def frame_of(self, i):
        return g(at(self.times, i), "Time", "frame")

    def hold_lit(self, i, lits, sy):
        """decided value of times[i].hold on this path (None: not looked at)"""
        P, v, j = fidx("Time", "hold")
        for a, o in lits.items():
            a = a.a[0] if a.op == "b" else a
            if a.op == "fld" and a.a[0].op == "at" and a.a[0].a[0] is self.times and a is fld(a.a[0], v, j, P):
                ix = a.a[0].a[1]
                if ix is i or sy.entails_eq(ix, i):
                    return o
        return None

    def handles(self, i, lits):
        T_ = at(self.times, i)

        def h(field, d):
            x = g(T_, "Time", field)
            return opt(x, lambda u: new("EasingHandle", x=g(u, "EasingHandle", "x"), y=g(u, "EasingHandle", "y")),
                       new("EasingHandle", x=num(d), y=num(d)))
        return assume(new("Easing", o=h("out_tangent", 0), i=h("in_tangent", 1)), lits)

    def note(self, bad, pid, what, detail, lits):
        if (pid, what) not in bad:
            bad[(pid, what)] = detail + "\nwhen " + "; ".join("%s -> %d" % (atom_s(a), o) for a, o in list(lits.items())[:14])

    def one(self, i, j, wt, easing, sel, lits, sy, sname, bad):
        """one interpolation from index i to index j with weight wt on a path"""
        self.stat["interp"] += 1
        n = len_(self.times)
        if not (i is sel or sy.entails_eq(i, sel)):
            self.note(bad, "C04", "select", "after a search (%s) keyframe %s is used, expected %s" % (sname, show(i, 0, 4)[:120], show(sel, 0, 4)[:120]), lits)
            return
        c = sy.copy()
        c.le(sub(n, i), 0, True)
        if c.feasible():
            # values are indexed with get or with a bounds check of their own list; the times must exist
            self.note(bad, "C04", "select", "keyframe %s may be past the end" % show(i, 0, 4)[:120], lits)
        zero = isnum(wt) and wt.a[0] == 0
        same = j is i or sy.entails_eq(i, j)
        last = sy.entails_eq(i, sub(n, ONE))
        nxt = sy.entails_eq(j, add(i, ONE))
        if not (nxt and not last or same and last or same and zero):
            c1 = sy.copy()
            c1.le(sub(add(i, num(2)), n), 0, True)  # i+1 < n possible?
            if not nxt and (c1.feasible() or not same):
                self.note(bad, "C04", "succ", "from keyframe %s it interpolates towards %s" % (show(i, 0, 4)[:100], show(j, 0, 4)[:100]), lits)
            elif nxt and last:
                self.note(bad, "C04", "succ", "from the last keyframe it interpolates past the end", lits)
        lo, hi, nan = frange(wt, lits)
        if nan or lo < 0 or hi > 1:
            self.note(bad, "C04", "weight", "weight %s is only known to be in [%s, %s]%s" % (show(wt, 0, 5)[:300], lo, hi, ", and may be NaN" if nan else ""), lits)
        hl = self.hold_lit(i, lits, sy)
        if hl != 0 and not zero:
            self.note(bad, "C05", "hold", "weight %s on a path where the starting keyframe %s" % (show(wt, 0, 4)[:200], "holds" if hl == 1 else "may hold"), lits)
        if hl == 1 or same:
            pass
        else:
            ti, tj = self.frame_of(i), self.frame_of(j)
            q = div(sub(self.frame, ti), sub(tj, ti))
            if not self.fraction(wt, q, ti, tj, lits, sy):
                self.note(bad, "C04", "fraction", "weight %s, elapsed fraction %s" % (show(wt, 0, 5)[:300], show(q, 0, 5)[:300]), lits)
        if easing is not None and not zero and not same:
            d = diff(assume(easing, lits), self.handles(i, lits))
            if d is not None and not foreign(d):
                self.note(bad, "C34", "easing", json.dumps(explain(d)), lits)
                self.note(bad, "C26", "easing", json.dumps(explain(d)), lits)
                self.note(bad, "C06", "easing", json.dumps(explain(d)), lits)

    def fraction(self, wt, q, ti, tj, lits, sy):
        dlo, dhi, dnan = frange(sub(tj, ti), lits)
        if dhi <= 0:
            return True      # an empty segment: any weight between the two equal times will do
        qlo, qhi, qnan = frange(q, lits)
        if qlo > qhi:        # q is NaN on this path
            return True
        if wt is q:
            return qlo >= 0 and qhi <= 1
        if isnum(wt):
            return wt.a[0] == 0 and qhi <= 0 or wt.a[0] == 1 and qlo >= 1 or qlo == qhi == wt.a[0]
        if wt.op == "app" and wt.a[0] == "fclamp":
            return wt.a[1] is q and wt.a[2] is ZERO and wt.a[3] is ONE
        if wt.op == "app" and wt.a[0] in ("fmin", "fmax"):
            o = "fmax" if wt.a[0] == "fmin" else "fmin"
            return wt is app(wt.a[0], ONE if wt.a[0] == "fmin" else ZERO, app(o, q, ZERO if o == "fmax" else ONE))
        return False


class ValueSelection(Selection):
    def leaf(self, out, leaf, sel, lits, sy, sname, bad):
        if leaf.op == "app" and leaf.a[0] == "Tween::tween":
            _, a, b, wt, e = leaf.a
            if not (a.op == "at" and b.op == "at" and a.a[0] is self.values and b.a[0] is self.values):
                raise Undecided("%s interpolates %s and %s" % (self.name, show(a, 0, 3)[:80], show(b, 0, 3)[:80]))
            self.one(a.a[1], b.a[1], wt, e, sel, lits, sy, sname, bad)
            return
        if leaf.op == "at" and leaf.a[0] is self.values:
            self.one(leaf.a[1], leaf.a[1], ZERO, None, sel, lits, sy, sname, bad)
            n = len_(self.times)
            i = leaf.a[1]
            if self.hold_lit(i, lits, sy) != 1 and not sy.entails_eq(i, sub(n, ONE)):
                ti, tj = self.frame_of(i), self.frame_of(add(i, ONE))
                if not self.fraction(ZERO, div(sub(self.frame, ti), sub(tj, ti)), ti, tj, lits, sy):
                    self.note(bad, "C04", "fraction", "the value of keyframe %s is used unchanged although it does not hold" % show(i, 0, 4)[:100], lits)
            return
        # anything else: only without keyframes
        s = sy.copy()
        n = len_(self.times)
        s.le(sub(ONE, n), 0, True)
        s.le(sub(n, len_(self.values)), 0, True)
        if s.feasible():
            self.note(bad, "C04", "fallback", "with keyframes present the result is %s" % show(leaf, 0, 5)[:300], lits)


class ColorSelection(Selection):
    """gradient stops: a list of stops, each interpolated component by component"""

    def leaf(self, out, leaf, sel, lits, sy, sname, bad):
        P = leaf.a[0] if leaf.op == "adt" else None
        n = len_(self.times)
        items = None
        if P is not None:
            ls = [x for x in leaf.a[2:] if x.op in ("seq", "each", "slice")]
            if len(ls) == 1:
                items = list(seqitems(ls[0]))
        if items is None:
            raise Undecided("%s yields %s" % (self.name, show(leaf, 0, 3)[:200]))
        if not items:
            s = sy.copy()
            s.le(sub(ONE, n), 0, True)
            s.le(sub(n, len_(self.values)), 0, True)
            early = any(any(y.a[0] == "firstk" for y in apps_of(a)) for a in lits)
            if s.feasible() and not early:
                self.note(bad, "C04", "fallback", "with keyframes present there are no stops", lits)
            return
        k = fresh("k")
        if len(items) != 1 or items[0].op != "each":
            raise Undecided("%s builds its stops piecewise" % self.name)
        N = items[0].a[1]
        b = seqitems(open_each(items[0], k))
        self.count(N, lits, sy, bad)
        if len(b) != 1 or b[0].op != "one":
            self.note(bad, "C21", "layout", "%d stops are emitted for one stop of the file" % len(b), lits)
            return
        stop = b[0].a[0]
        comps = self.components(stop)
        w0 = None
        for c, t in enumerate(comps):
            cn = ("offset", "red", "green", "blue", "alpha")[c]
            if t.op == "app" and t.a[0] == "f32":
                t = t.a[1]
            want = add(mul(num(5), k), num(c))
            if t.op == "at":
                a = b_ = t
                wt, e = ZERO, None
            elif t.op == "app" and t.a[0] == "Tween::tween":
                a, b_, wt, e = t.a[1:]
            else:
                raise Undecided("%s: %s is %s" % (self.name, cn, show(t, 0, 4)[:200]))
            for x in (a, b_):
                if x.op != "at" or x.a[0].op != "at" or x.a[0].a[0] is not self.values:
                    raise Undecided("%s: %s is interpolated from %s" % (self.name, cn, show(x, 0, 4)[:200]))
                if x.a[1] is not want:
                    self.note(bad, "C21", "layout", "%s of stop k is taken from component %s of the keyframe" % (cn, show(x.a[1], 0, 4)), lits)
            cur = (a.a[0].a[1], b_.a[0].a[1], wt)
            w0 = w0 or cur
            for x, y in zip(w0, cur):
                if x is not y and not (y is not wt and sy.entails_eq(x, y)) and wt is not ZERO and w0[2] is not ZERO:
                    self.note(bad, "C21", "layout", "%s of a stop is not interpolated between the same keyframes as its offset" % cn, lits)
            self.one(a.a[0].a[1], b_.a[0].a[1], wt, e, sel, lits, sy, sname, bad)

    def count(self, N, lits, sy, bad):
        C = self.stops
        if N is C or sy.entails_eq(N, C):
            return
        for y in [N] if N.op == "app" and N.a[0] == "firstk" else []:
            # the first incomplete stop, and this path has none before `count`
            k = fresh("k")
            E = open_lam(y.a[1], [k])
            past = le_int(C, k)
            if past.op == "case":
                o = 0 if past.a[1] is TRUE else 1
                if assume(E, {past.a[0]: o}) is TRUE and sy.entails_le(C, N):
                    return
        raise Undecided("%s emits %s stops" % (self.name, show(N, 0, 4)[:200]))

    def components(self, stop):
        F = facts()
        if stop.op != "adt":
            raise Undecided("%s: stop %s" % (self.name, show(stop, 0, 3)[:200]))
        off = g(stop, "ColorStop", "offset")
        col = g(stop, "ColorStop", "color")
        seen, st = set(), [col]
        arr = None
        while st:
            x = st.pop()
            if x.op == "seq" and len(x.a) == 4:
                arr = x
                break
            if x.op in ("adt", "app", "one"):
                st.extend(tm._kids(x.op, x.a))
        if arr is None or any(y.op != "one" for y in arr.a):
            raise Undecided("%s: colour %s" % (self.name, show(col, 0, 4)[:200]))
        return [off] + [y.a[0] for y in arr.a]

    WHAT = dict(Selection.WHAT, layout="%s takes offset, red, green, blue and alpha of each stop from its own five components")


def apps_of(t):
    out = []
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            out.append(x)
        st.extend(tm._kids(x.op, x.a))
    return out


# ------------------------------------------------------------------ outlines
PE = "PathEl"


def outline(n, pt, closed):
    """the path elements of a spline with n stored points; pt(i) -> Point term (already interpolated)"""
    nv = app("idiv", n, num(3)) if n.op != "num" else num(int(n.a[0]) // 3)

    def xy(p):
        return g(p, "Point", "x"), g(p, "Point", "y")

    def seg(a, b):
        p0, p1 = pt(mul(num(3), a)), pt(mul(num(3), b))
        o, i = pt(add(mul(num(3), a), num(2))), pt(add(mul(num(3), b), ONE))
        c0 = new("Point", x=add(xy(o)[0], xy(p0)[0]), y=add(xy(o)[1], xy(p0)[1]))
        c1 = new("Point", x=add(xy(i)[0], xy(p1)[0]), y=add(xy(i)[1], xy(p1)[1]))
        return p0, c0, c1, p1
    return nv, seg


def spline_spec(n, pt, closed, lines):
    nv, seg = outline(n, pt, closed)
    P = adtpath(PE)

    def el(v, *a):
        return one(adt(P, vidx(PE, v), *a))

    def eqp(a, b):
        return and_(fcmp("eq", g(a, "Point", "x"), g(b, "Point", "x")), fcmp("eq", g(a, "Point", "y"), g(b, "Point", "y")))

    def emit(a, b):
        p0, c0, c1, p1 = seg(a, b)
        curve = el("CurveTo", c0, c1, p1)
        if lines:
            return ite(and_(eqp(c0, p0), eqp(c1, p1)), seq([el("LineTo", p1)]), seq([curve]))
        return seq([curve])
    k = fresh("k")
    body = each(tm.monus(nv, ONE), k, emit(k, add(k, ONE)))
    close = ite(closed, ite(le_int(nv, ZERO), EMPTY, seq([emit(sub(nv, ONE), ZERO), el("ClosePath")])), EMPTY)
    return ite(le_int(n, ZERO), EMPTY, seq([el("MoveTo", pt(ZERO)), body, close]))


class SplineSelection(Selection):
    WHAT = dict(Selection.WHAT, outline="the outline of %s visits the vertices in order with their own tangents, closed if closed")

    def pick(self, atom):
        """split only on the selection of the keyframes, not on their contents"""
        if occurs(atom, self.closed):
            return False
        r = self._pk.get(atom)
        if r is None:
            P, v, i = fidx("SplineKeyframeValues", "start")
            _, _, e = fidx("SplineKeyframeValues", "end")
            r = True
            seen, st = set(), [atom]
            while st and r:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "fld" and (x is fld(x.a[0], v, i, P) or x.a[0].op == "fld" and x is unwrap(x.a[0]) and x.a[0] is fld(x.a[0].a[0], v, e, P)):
                    r = False
                st.extend(tm._kids(x.op, x.a))
            self._pk[atom] = r
        return r

    def prepare(self, t):
        self._pk = {}
        P, v, i = fidx("SplineKeyframeValues", "start")

        def has(t):
            return not self.pick(t)
        return expand(t, skip=has)

    def leaf(self, out, leaf, sel, lits, sy, sname, bad):
        n = len_(self.times)
        items = list(seqitems(leaf))
        if items[:len(self.prior)] != self.prior:
            self.note(bad, "C23", "outline", "the elements already in the path are not kept", lits)
            return
        rest = seq(items[len(self.prior):])
        if rest is EMPTY:
            s = sy.copy()
            s.le(sub(ONE, n), 0, True)
            s.le(sub(n, len_(self.values)), 0, True)
            # an empty shape of the keyframe is no outline
            F_, T_ = self.ends(sel, lits, sy)
            s.le(sub(ONE, len_(F_)), 0, True)
            s.le(sub(ONE, len_(T_)), 0, True)
            if s.feasible():
                self.note(bad, "C04", "fallback", "with keyframes present no outline is emitted", lits)
            return
        # which keyframes are used
        idx = indices_of(rest, self.values)
        succ = add(sel, ONE)
        m = {}
        js = []
        for i in idx:
            if i is sel or sy.entails_eq(i, sel):
                m[at(self.values, i)] = at(self.values, sel)
            elif sy.entails_eq(i, succ):
                m[at(self.values, i)] = at(self.values, succ)
                js.append(succ)
            else:
                self.note(bad, "C04", "select", "keyframe %s is used, expected %s or its successor" % (show(i, 0, 4)[:120], show(sel, 0, 4)[:120]), lits)
                return
        for i in list(indices_of(mk("x", rest, *lits), self.times)):
            if i is not sel and sy.entails_eq(i, sel):
                m[at(self.times, i)] = at(self.times, sel)
            elif i is not succ and sy.entails_eq(i, succ):
                m[at(self.times, i)] = at(self.times, succ)
        rest = subst_many(rest, m)
        lits2 = dict(lits)
        for a, o in lits.items():
            c = subst_many(mk("case", a, *[num(100 + x) for x in range(tm.arity(a))]), m)
            if c.op == "case":
                for x, y in enumerate(c.a[1:]):
                    if y is num(100 + o):
                        lits2[c.a[0]] = x
        F_, T_ = self.ends(sel, lits2, sy)
        last = sy.entails_eq(sel, sub(n, ONE))
        j = sel if last else succ
        ti, tj = self.frame_of(sel), self.frame_of(succ)
        q = div(sub(self.frame, ti), sub(tj, ti))
        cands = [ZERO, app("fclamp", q, ZERO, ONE), ONE, q, app("fmin", app("fmax", q, ZERO), ONE), app("fmax", app("fmin", q, ONE), ZERO)]
        if last:
            ql = mul(sub(self.frame, ti), mk("app", "inv", ZERO))
            # the sign of a zero length is not known here; both ends are the same keyframe
            cands = [ZERO, app("fclamp", ql, ZERO, ONE), app("fclamp", neg(ql), ZERO, ONE), ONE]
        hl = self.hold_lit(sel, lits2, sy)
        closed = tobool(self.closed)
        first = None
        for lines in (True, False):
            for wt in cands:
                want = spline_spec(app("imin", len_(F_), len_(T_)), self.mix(F_, T_, wt), closed, lines)
                want = assume(want, lits2)
                d = None
                try:
                    ok = sy_equal(rest, want, lits2, sy)
                except tm.Budget as e:
                    raise Undecided(str(e))
                if ok is None:
                    self.stat["interp"] += 0
                    self.one(sel, j, wt, None, sel, lits2, sy, sname, bad)
                    return
                if lines and (first is None or wt is not ZERO and hl != 1):
                    first = first if first is not None and wt is not cands[1] else ok
        if first is None or foreign(first):
            if DEBUG:
                print(first and (json.dumps(explain(first))[:3000], foreign(first)))
            raise Undecided("%s: the outline uses functions without a model" % self.name)
        if hl == 1:
            # while the keyframe holds, no coordinate may come from anywhere but its own start shape
            for x in self.points(rest):
                if x.a[0] is not F_:
                    self.note(bad, "C05", "hold", "while the keyframe holds, the outline uses a point of %s" % show(x.a[0], 0, 4)[:200], lits)
                    break
        self.note(bad, "C23", "outline", json.dumps(explain(first)), lits)

    def points(self, t):
        """every stored point read in t (not under len)"""
        out = []
        P = adtpath("Point")
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen or x.op == "len":
                continue
            seen.add(x)
            if x.op == "at" and occurs(x.a[0], self.values):
                out.append(x)
                continue
            st.extend(tm._kids(x.op, x.a))
        return out

    def ends(self, sel, lits, sy):
        n = len_(self.times)
        a = at(self.values, sel)
        start, end = g(a, "SplineKeyframeValues", "start"), g(a, "SplineKeyframeValues", "end")
        b = at(self.values, sel if sy.entails_eq(sel, sub(n, ONE)) else add(sel, ONE))
        to = opt(end, lambda u: u, g(b, "SplineKeyframeValues", "start"))
        return start, assume(to, lits)

    def mix(self, F_, T_, w):
        def pt(i):
            a, b = at(F_, i), at(T_, i)

            def c(f):
                x, y = g(a, "Point", f), g(b, "Point", f)
                return add(x, mul(sub(y, x), w))
            return new("Point", x=c("x"), y=c("y"))
        return pt


def sy_equal(a, b, lits, sy):
    """None if equal on every combination of decisions compatible with the path, else a difference"""
    return diff(a, b)


def run_selection(s, pid, rep, ii, out, extra=()):
    rep.analysed(*sorted({facts().insts[i]["path"] for i in facts().reach([ii])}))
    s.extra = extra
    s.run(out)


def value_rules(rep):
    pid = rep.pid
    out = Out(pid, rep)
    for fn in ("Value::<T>::evaluate", "Value::<T>::evaluate_or"):
        ii = least(fn)
        r = Run(ii, opq=opq_tween)
        self_ = r.args[0]
        frame = r.args[1]
        A = path_get(self_, "Value", ("Animated", 0))
        isv_ = mk("isvar", self_, 2, adtpath("Value"))
        an = assume(r.value, {isv_: vidx("Value", "Animated")})
        s = ValueSelection(fn.replace("::<T>", ""), an, frame, g(A, "Animated", "times"), g(A, "Animated", "values"), where(r.inst))
        run_selection(s, pid, rep, ii, out)
        # a fixed value is itself at every frame
        fx = assume(r.value, {isv_: vidx("Value", "Fixed")})
        out(("C07",), "fixed:" + s.name, "%s of a fixed value is that value at every frame" % s.name, s.w, diff(fx, path_get(self_, "Value", ("Fixed", 0))))


def stops_rules(rep):
    out = Out(rep.pid, rep)
    ii = least("animated::ColorStops::evaluate")
    r = Run(ii, opq=opq_tween)
    C = "animated::ColorStops"
    s = ColorSelection("ColorStops::evaluate", r.value, r.args[1], g(r.args[0], C, "frames"), g(r.args[0], C, "values"), where(r.inst))
    s.stops = g(r.args[0], C, "count")
    if rep.pid == "C21":
        try:
            few_stops(rep, out, ii, s)
        except Undecided as e:
            rep.undecided("two stops between two keyframes", s.w, str(e))
    run_selection(s, rep.pid, rep, ii, out, (("C21", "layout"),))


def few_stops(rep, out, ii, s):
    """two stops halfway between two keyframes: each component is made of the same component of both keyframes"""
    T, C = "Time", "animated::ColorStops"
    times = seq([one(new(T, frame=num(f), in_tangent=NONE, out_tangent=NONE, hold=FALSE)) for f in (0, 10)])
    names = ("offset", "red", "green", "blue", "alpha")
    vs = [[sym("%s%d%s" % (k, i, n)) for i in (1, 2) for n in names] for k in ("from", "to")]
    val = seq([one(seq([one(x) for x in v])) for v in vs])
    r = Run(ii, args={0: new(C, frames=times, values=val, count=num(2)), 1: num(5)}, opq=opq_tween)
    v = r.value
    ls = [x for x in v.a[2:] if x.op == "seq"] if v.op == "adt" else []
    stops = list(seqitems(ls[0])) if len(ls) == 1 else None
    if stops is None or any(x.op != "one" for x in stops):
        raise Undecided("%s yields %s" % (s.name, show(v, 0, 3)[:200]))
    nm = "two stops between two keyframes: "
    out(("C21",), "few.count", nm + "two stops come out", s.w, len(stops) == 2, "%d stops" % len(stops))
    every = {x for v in vs for x in v}
    for i, x in enumerate(stops[:2]):
        for c, t in enumerate(s.components(x.a[0])):
            own = {vs[0][5 * i + c], vs[1][5 * i + c]}
            got = {y for y in every if occurs(t, y)}
            bad = got - own
            out(("C21",), "few.%d.%d" % (i, c), nm + "the %s of stop %d is made of that of both keyframes" % (names[c], i + 1), s.w, not bad and len(got) == 2,
                "it depends on %s" % ", ".join(sorted(show(y, 0, 2) for y in bad)) if bad else "it depends on one keyframe only" if len(got) < 2 else None)


# ------------------------------------------------------------------ few keyframes at given times
FEW_TIMES = [(5,), (0, 10), (0, 10, 20), (0, 0, 10), (-10, -5, 5)]
FEW_FRAMES = [-20, -10, 0, 3, 5, 10, 15, 20, 40]


OF = {"C21": "ColorStops", "C23": "Spline"}


def few_keyframe_rules(rep):
    """keyframes at given times, all else unknown: which of them an evaluation starts from and moves towards, and how far"""
    out = Out(rep.pid, rep)
    for fn in ("Value::<T>::evaluate", "Value::<T>::evaluate_or", "animated::ColorStops::evaluate", "Spline::evaluate"):
        if rep.pid in OF and OF[rep.pid] not in fn:
            continue
        ii = least(fn)
        nm = fn.replace("::<T>", "").replace("animated::", "")
        try:
            few_keyframes(rep, out, ii, nm)
        except Undecided as e:
            rep.undecided("few keyframes of " + nm, where(facts().insts[ii]), str(e))


def few_keyframes(rep, out, ii, nm):
    T, E, C, SK = "Time", "Easing", "animated::ColorStops", "SplineKeyframeValues"
    w = where(facts().insts[ii])
    bad, n = {}, 0
    for times in FEW_TIMES:
        m = len(times)
        for hold in range(-1, m):
            for ends in ((False, True) if nm == "Spline::evaluate" and hold < 1 else (False,)):
                n += few_case(bad, ii, nm, times, hold, ends)
    for pid, key, what in (("C04", "select", "the keyframes before and after the frame, and no others, make its value"),
                           ("C04", "weight", "the value moves by the elapsed fraction of the segment"),
                           ("C05", "hold", "the value does not move while the keyframe holds"),
                           ("C06", "easing", "the value eases by the handles of the keyframe before the frame")):
        e = bad.get(key)
        ps = (pid, "C21") if "Stops" in nm else (pid, "C23") if "Spline" in nm and key != "easing" else (pid,)
        out(ps, "few.%s.%s" % (nm, key), "%s with few keyframes: %s (%d cases)" % (nm, what, n), w, e is None, e)


def few_case(bad, ii, nm, times, hold, ends):
    m = len(times)
    T, E, SK = "Time", "Easing", "SplineKeyframeValues"
    hs = [(new("EasingHandle", x=sym("o%dx" % i), y=sym("o%dy" % i)), new("EasingHandle", x=sym("i%dx" % i), y=sym("i%dy" % i))) for i in range(m)]
    ts = seq([one(new(T, frame=num(f), out_tangent=some(hs[i][0]), in_tangent=some(hs[i][1]), hold=boolc(i == hold))) for i, f in enumerate(times)])
    pts = lambda k: seq([one(new("Point", x=sym(k + "x%d" % j), y=sym(k + "y%d" % j))) for j in range(6)])
    closed = boolc(hold >= 0)
    if nm.startswith("Value"):
        own = [[sym("v%d" % i)] for i in range(m)]
        arg = adt(adtpath("Value"), vidx("Value", "Animated"), new("Animated", times=ts, values=seq([one(x[0]) for x in own])))
    elif nm.startswith("Color"):
        own = [[sym("v%d.%d" % (i, j)) for j in range(5)] for i in range(m)]
        arg = new("animated::ColorStops", frames=ts, values=seq([one(seq([one(x) for x in v])) for v in own]), count=ONE)
    else:
        ks = [(pts("v%d" % i), pts("e%d" % i)) for i in range(m)]
        arg = new("Spline", is_closed=closed, times=ts, values=seq([one(new(SK, start=a, end=some(b) if ends else NONE)) for a, b in ks]))
        inner = lambda q: [y for x in seqitems(q) for y in x.a[0].a[2:]]
        own = [inner(a) for a, b in ks]
        targets = [inner(b) for a, b in ks]
    every = {x for v in own for x in v}
    if ends:
        every |= {x for v in targets for x in v}
    n = 0
    for f in FEW_FRAMES:
        if times.count(f) > 1:
            continue  # which of several keyframes at one time is found is open
        i = max([k for k in range(m) if times[k] <= f], default=0)
        j = min(i + 1, m - 1)
        wt = 0 if i == hold or times[i] == times[j] else min(max((f - times[i]) / (times[j] - times[i]), 0), 1)
        from_, to = set(own[i]), set(targets[i] if ends else own[j])
        r = Run(ii, args={0: arg, 1: num(f)}, opq=opq_tween)
        v = r.out(2) if nm.startswith("Spline") else r.value
        n += 1
        if any(x.a[0] in ("firstk", "bsearch") for x in apps_of(v)):
            raise Undecided("%s searches in a way that is not recognised" % nm)
        say = "keyframes at %s%s, frame %d: " % (", ".join(map(str, times)), ", the %s holding" % ("first", "second", "third")[hold] if hold >= 0 else "", f)

        def note(key, what):
            bad.setdefault(key, say + what)
        dep = {x for x in every if occurs(v, x)}
        rest = dep - from_ - to
        if rest:
            note("select", "the value depends on %s" % ", ".join(sorted(show(x, 0, 2) for x in rest)))
            continue
        # the weight of an empty segment is open; it matters where its ends differ
        empty = i != hold and times[i] == times[j]
        if empty and (ends or i != j):
            continue
        tw = [x for x in apps_of(v) if x.a[0] == "Tween::tween"]
        # what is not interpolated by a tween stands for itself
        if nm.startswith("Spline"):
            if empty:
                continue
            F_, T_ = ks[i][0], ks[i][1] if ends else ks[j][0]

            def pt(q):
                a, b = at(F_, q), at(T_, q)
                return new("Point", **{c: add(g(a, "Point", c), mul(sub(g(b, "Point", c), g(a, "Point", c)), num(Fr(wt)))) for c in "xy"})
            prior = list(seqitems(sym(r.names[2])))
            ds = [diff(v, seq(prior + list(seqitems(spline_spec(num(6), pt, closed, lines))))) for lines in (True, False)]
            if None not in ds:
                if foreign(ds[0]):
                    raise Undecided("%s yields %s" % (nm, show(v, 0, 3)[:200]))
                note("hold" if i == hold else "weight", json.dumps(explain(ds[0]))[:600])
            continue
        for x in tw:
            a, b, q, e = x.a[1:]
            if a not in from_ or b not in to and (wt or b not in from_):
                note("select", "the value moves from %s to %s" % (show(a, 0, 2), show(b, 0, 2)))
            if empty or a is b:
                continue
            if q.op != "num":
                raise Undecided("%s interpolates by %s" % (nm, show(q, 0, 3)[:200]))
            if abs(q.a[0] - Fr(wt)) > Fr(1, 10 ** 9):
                note("hold" if i == hold else "weight", "it moves by %s where %s is due" % (float(q.a[0]), wt))
            if wt:
                for h, c in (("o", 0), ("i", 1)):
                    d = diff(g(e, E, h), hs[i][c])
                    if d is not None and not foreign(d):
                        note("easing", "its %s handle is %s" % ("out" if h == "o" else "in", show(g(e, E, h), 0, 4)[:200]))
        if not tw and wt:
            if unknown_apps(v) - {"f32"}:
                raise Undecided("%s yields %s" % (nm, show(v, 0, 3)[:200]))
            note("weight", "the value does not move")
        if not dep and not unknown_apps(v):
            note("select", "the value is %s, whatever the keyframes" % show(v, 0, 3)[:200])
    return n


def spline_rules(rep):
    out = Out(rep.pid, rep)
    ii = least("Spline::evaluate")
    r = Run(ii)
    self_, frame = r.args[0], r.args[1]
    s = SplineSelection("Spline::evaluate", r.out(2), frame, g(self_, "Spline", "times"), g(self_, "Spline", "values"), where(r.inst))
    s.prior = list(seqitems(sym(r.names[2])))
    s.closed = g(self_, "Spline", "is_closed")
    run_selection(s, rep.pid, rep, ii, out, (("C23", "outline"),))


def least(name):
    F = facts()
    key = name.replace("::<T>", "")
    tail = key.split("::")[-1]
    c = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and x.get("name", x["path"].split("::")[-1]) == tail
         and re.sub(r"::<.*?>", "", x["path"]).endswith("::" + key)]
    if not c:
        raise Missing("function %s" % name)
    return min(c, key=lambda i: (-sum(1 for t in F.insts[i]["args"] if isinstance(t, int) and F.types[t]["k"] == "param"), i))
