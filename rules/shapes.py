"""Rules on the collection of shapes: what one shape of a group does to the geometries and draws collected so far.

The shape function is a loop over its list; the state after one iteration is a term over the state before (symbols) and
the shape.  Each kind of shape is checked on its own, so the result holds for every list, by induction."""
from .base import *
from .layer import *

SH = "runtime::model::Shape"


class Shapes:
    def __init__(self):
        M = self.M = RenderModel(True)
        if M.S is None:
            raise Undecided("the shape function is not recursive")
        self.B = BatchView(M)
        self.w = where(M.S.inst)
        self.sh, self.xf, self.alpha, self.frame = (M.ssym[r] for r in ("shapes", "xf", "alpha", "frame"))
        fin = {n: M.shape_final[q] for n, q in M.active.items()}
        scs = {t.a[1] for t in fin.values() if t.op == "app" and t.a[0] == "proj"}
        if len(scs) != 1 or any(t.op != "app" or t.a[0] != "proj" for t in fin.values()):
            raise Undecided("the shape function is not one loop over its list")
        sc = next(iter(scs))
        self.init, self.l, self.n = sc.a[1:]
        ns = self.l.a[1] - 1
        self.order = {n: int(t.a[2].a[0]) for n, t in fin.items()}
        self.scan, self.ns = sc, ns
        S = [sym("C.%d" % j) for j in range(ns)]
        self.S = {n: sym("C." + n) for n in self.order}
        for n, j in self.order.items():
            S[j] = self.S[n]
        self.K = sym("K")
        self.o = self.grown(open_lam(self.l, S + [self.K]))
        self.shape = at(self.sh, self.K)
        self.sp = adtpath(SH)
        self.vs = [v["n"] for v in facts().adt(self.sp)["variants"]]
        self.gs = len_(M.spre["geometries"])
        self.ds = len_(M.spre["draws"])

    def grown(self, t):
        """what a group collected so far includes what was there when it started"""
        M = self.M
        m = {}
        for n in ("geometries", "draws"):
            a, b = len_(M.spre[n]), len_(self.S[n])
            for x, y in ((a, b), (b, a)):
                m[app("imin", x, y)] = a
                m[app("imax", x, y)] = b
        return subst_many(t, m)

    def arm(self, v):
        lits = {mk("isvar", self.shape, len(self.vs), self.sp): self.vs.index(v)}
        return {n: assume(fld(self.o, 0, j, "()"), lits) for n, j in self.order.items()}

    def payload(self, v, i=0):
        return fld(self.shape, self.vs.index(v), i, self.sp)

    def run(self, pid, rep):
        self.out = Out(pid, rep)
        rep.analysed(*sorted({facts().insts[i]["path"] for i in facts().reach([self.M.S.ii])}))
        if self.ns != 4 or sorted(self.order.values()) != [0, 1, 2, 3]:
            if pid == "C12":
                self.carried_scratch()
            raise Undecided("the shape loop carries %d values" % self.ns)
        self.all()

    def carried_scratch(self):
        """scratch space the loop carries from shape to shape: empty before implies empty after"""
        M = self.M
        for q, t in M.shape_final.items():
            if q in M.active.values() or not (t.op == "app" and t.a[0] == "proj" and t.a[1] is self.scan):
                continue
            i = int(t.a[2].a[0])
            ss = [fresh("s") for _ in range(self.ns)]
            o = fld(open_lam(self.l, ss + [fresh("k")]), 0, i, "()")
            e = M.clean_leaf[q]
            self.out(("C12",), "scratch:" + ".".join(q), "collecting shapes leaves %s empty" % ".".join(q), self.w,
                     diff(fld(self.init, 0, i, "()"), e) or diff(subst_many(o, {ss[i]: e}), e))

    # ------------------------------------------------------------ clauses
    def all(self):
        out, w, M = self.out, self.w, self.M
        out(("C28", "C22", "C11", "C24", "C25"), "shape-loop", "every shape of a group is handled once, in order", w,
            diff(self.n, len_(self.sh)))
        for n in ("elements", "geometries", "draws"):
            out(("C28", "C12"), "init:" + n, "a group starts with the %s of its parent" % n, w, diff(fld(self.init, 0, self.order[n], "()"), M.spre[n]))
        d0 = fld(self.init, 0, self.order["drawn_geometry"], "()")
        out(("C28",), "init:drawn", "a group never merges geometry into that of the enclosing group", w, diff(d0, self.gs))
        for q, t in M.shape_final.items():
            if q not in M.active.values():
                out(("C12",), "scratch:" + ".".join(q), "collecting shapes leaves %s empty" % ".".join(q), w, diff(t, M.clean_leaf[q]))
        if self.out.pid == "C12":
            for (k, cur, sp), leaf, d in M.state_obl:
                if k == "shapes":
                    out(("C12",), "state:" + leaf, "%s collects shapes with %s empty" % (cur, leaf), w, d)
            return
        for v in self.vs:
            f = getattr(self, "arm_" + v, None)
            if f is None:
                out(("C22", "C28"), "kind:" + v, "shape kind %s has a rule" % v, w, False, "no rule for shape kind %s" % v)
                continue
            f(self.arm(v))
        self.frames()

    def frames(self):
        for nm in EVALS:
            if nm in ("Repeater::transform", "Trim::normalized"):
                continue
            for x in apps(self.o, nm):
                fr = x.a[3] if nm == "Brush::evaluate" else x.a[2]
                self.out(("C33",), "eval-frame:" + nm, "%s is evaluated at the frame being drawn" % nm, self.w, diff(fr, self.frame))
        for x in apps(self.o, "geom"):
            self.out(("C33",), "eval-frame:geometry", "geometry is evaluated at the frame being drawn", self.w, diff(x.a[2], self.frame))

    def same(self, arm, names, props, what):
        for n in names:
            self.out(props, "%s:%s" % (what, n), "a %s leaves the collected %s alone" % (what, n), self.w, diff(arm[n], self.S[n]))

    def arm_Group(self, a):
        out, w, M = self.out, self.w, self.M
        sub_, tr = self.payload("Group", 0), self.payload("Group", 1)
        GT = "runtime::model::GroupTransform"
        x = unwrap(tr)
        tev = app("Transform::evaluate", path_get(x, GT, "transform"), self.frame)
        oev = app("Value::evaluate", path_get(x, GT, "opacity"), self.frame)
        want_xf = opt(tr, lambda u: affine_mul(self.xf, tev), self.xf)
        want_al = opt(tr, lambda u: mul(mul(self.alpha, oev), num(0.01)), self.alpha)
        names = sorted(M.active)
        calls = set()
        for n in names:
            t = a[n]
            leaf = "RS:" + M.active[n][-1]
            if t.op != "app" or t.a[0] != leaf:
                # apart from the nested collection nothing may change; drawn_geometry may only grow to the length
                if n == "drawn_geometry":
                    ok = any(diff(t, len_(a["geometries"])) is None for _ in (0,))
                    out(("C28",), "group:drawn", "merging is not made possible by a nested group", w, ok, show(t, 0, 5)[:400])
                    continue
                out(("C28", "C22"), "group:" + n, "a group contributes exactly its own shapes", w, False, show(t, 0, 5)[:600])
                continue
            calls.add(t.a[1:])
        out(("C28",), "group:calls", "a group is collected once", w, len(calls) == 1, "%d collections" % len(calls))
        for c in calls:
            st, (sh, xf, al, fr) = c[:len(names)], c[len(names):]
            for n, t in zip(names, st):
                if n == "drawn_geometry" and not self.uses_drawn():
                    continue
                out(("C28", "C12"), "group:in:" + n, "a nested group adds to the %s collected so far" % n, w, diff(t, self.S[n]))
            out(("C22", "C28"), "group:shapes", "a group collects its own children", w, diff(sh, sub_))
            out(("C08", "C28"), "group:transform", "a group's transform is applied on the right of the enclosing one", w, diff(affine_mul(xf, ident()), affine_mul(want_xf, ident())))
            out(("C09",), "group:alpha", "a group's opacity multiplies the enclosing alpha", w, diff(al, want_al))
            out(("C33",), "group:frame", "a group is evaluated at the frame being drawn", w, diff(fr, self.frame))

    def uses_drawn(self):
        s = self.M.spre["drawn_geometry"]
        return any(occurs(t, s) for t in self.M.shape_final.values())

    def arm_Geometry(self, a):
        out, w, B, S = self.out, self.w, self.B, self.S
        ge = app("geom", self.payload("Geometry"), self.frame)
        E, Gm = S["elements"], S["geometries"]
        P = ("C28", "C33", "C22")
        out(P, "geometry:elements", "a geometry adds exactly its own outline, evaluated at the frame", w, diff(a["elements"], seq([E, ge])))
        self.same(a, ("draws",), ("C28",), "geometry")
        end = add(len_(E), len_(ge))
        push = seq([Gm, one(B.geo(len_(E), end, self.xf))])
        last = at(Gm, sub(len_(Gm), ONE))
        merge = upd(Gm, sub(len_(Gm), ONE), B.geo(B.ge(last, "start"), end, B.ge(last, "transform")))
        undrawn = lt_int(S["drawn_geometry"], len_(Gm))
        xp = adtpath("kurbo::Affine")
        n = 0
        for lits, t in leaves(a["geometries"]):
            n += 1
            if diff(t, assume(push, lits)) is None:
                out(("C28", "C08"), "", "a geometry becomes a record of its own outline under its group's transform", w, None)
                continue
            if diff(t, assume(merge, lits)) is None:
                ok1 = any(all(lits.get(x) == o or tm.decide(x, lits) == o for x, o in c.items()) for c in cubes(undrawn))
                what = "geometry is merged only into geometry of its own group that no draw, trim or repeater has used"
                if not ok1 and not self.merges_drawn(a["geometries"], merge):
                    if any(p == out.pid for p in ("C28", "C24", "C25")):
                        out.rep.undecided(what, w, "merged when: " + lits_s(lits)[:300])
                else:
                    out(("C28", "C24", "C25"), "geometry:merge-drawn", what, w, ok1, "merged when: " + lits_s(lits))
                ok2 = self.same_xf(lits, B.ge(last, "transform"))
                out(("C28", "C08"), "geometry:merge-transform", "geometry is merged only into geometry with the same transform", w, ok2, "merged when: " + lits_s(lits))
                continue
            out(("C28", "C08"), "geometry:record", "a geometry is recorded with its own outline and its group's transform", w, diff(t, assume(push, lits)))
        out(("C28",), "geometry:recorded", "a geometry is recorded", w, n > 0)
        self.drawn(a, S["drawn_geometry"], "geometry", ("C28",))

    def merges_drawn(self, t, merge):
        """for some few geometries, all of them used, a geometry is merged into the last"""
        D, L = self.S["drawn_geometry"], len_(self.S["geometries"])
        for n in range(1, 4):
            for d in range(n, n + 2):
                mp = {D: num(d), L: num(n)}
                m = tm.subst_many(merge, mp)
                for lits, x in leaves(tm.subst_many(t, mp)):
                    if diff(x, assume(m, lits)) is None:
                        return True
        return False

    def same_xf(self, lits, lx):
        xp = adtpath("kurbo::Affine")
        x, l = fld(self.xf, 0, 0, xp), fld(lx, 0, 0, xp)
        neq = set()
        for a_, o in lits.items():
            t = tm_case(a_)
            es = [q for q in apps(t, "eq") + apps(t, "cmp_eq") if {q.a[1], q.a[2]} in ({x, l}, {self.xf, lx})]
            if es:
                if a_.op == "b" and o == 1:
                    return True
        # componentwise comparison
        d = 0
        for i in range(6):
            e = fcmp("eq", at(x, num(i)), at(l, num(i)))
            if any(all(lits.get(p) == o for p, o in c.items()) for c in cubes(e)):
                d += 1
        return d == 6

    def drawn(self, a, least, what, props):
        """the mark up to which merging is prevented is at least `least`"""
        for lits, t in leaves(a["drawn_geometry"]):
            ok = diff(t, assume(least, lits)) is None or diff(t, assume(len_(a["geometries"]), lits)) is None
            self.out(props, what + ":mark", "after a %s nothing merges into geometry that is already used" % what, self.w, ok,
                     "mark %s when %s" % (show(t, 0, 5)[:300], lits_s(lits)))

    def arm_Draw(self, a):
        out, w, B, S = self.out, self.w, self.B, self.S
        d = self.payload("Draw")
        DR = "runtime::model::Draw"
        f = lambda n: path_get(d, DR, n)
        st = opt(f("stroke"), lambda u: some(app("Stroke::evaluate", u, self.frame)), NONE)
        br = app("Brush::evaluate", f("brush"), ONE, self.frame)
        al = mul(mul(self.alpha, app("Value::evaluate", f("opacity"), self.frame)), num(0.01))
        want = B.draw(st, br, al, self.gs, len_(S["geometries"]))
        self.same(a, ("elements", "geometries"), ("C28",), "draw")
        t = a["draws"]
        its = seqitems(t)
        if len(its) == 2 and its[0] is S["draws"] and its[1].op == "one":
            x = its[1].a[0]
            out(("C33", "C22", "C28"), "draw:stroke", "a draw strokes with its own stroke, evaluated at the frame", w, diff(B.d(x, "stroke"), st))
            # the opacity may be folded into the brush or kept in alpha
            dd = diff(B.d(x, "brush"), br)
            out(("C33", "C22", "C09", "C28"), "draw:brush", "a draw paints with its own brush, evaluated at the frame", w, dd)
            out(("C09",), "draw:alpha", "a draw's alpha is the group's alpha times its own opacity", w, diff(B.d(x, "alpha"), al))
            out(("C28",), "draw:start", "a draw covers nothing listed outside its group", w, diff(B.d(x, "start"), self.gs))
            out(("C28",), "draw:end", "a draw covers all geometry listed before it in its group and none after", w, diff(B.d(x, "end"), len_(S["geometries"])))
        else:
            out(("C28", "C09", "C33", "C22"), "draw:record", "a draw adds one record of its own", w, diff(t, seq([S["draws"], one(want)])))
        self.drawn(a, len_(S["geometries"]), "draw", ("C28",))

    def arm_Repeater(self, a):
        out, w, B, S = self.out, self.w, self.B, self.S
        R = app("Repeater::evaluate", self.payload("Repeater"), self.frame)
        RP = "runtime::model::fixed::Repeater"
        f = lambda n: path_get(R, RP, n)
        cp = f("copies")
        Gm, D = S["geometries"], S["draws"]
        P = ("C25",)
        self.same(a, ("elements",), P, "repeater")
        # geometries: every one of the group, n copies each
        k, i = fresh("k"), fresh("i")
        e = at(Gm, add(self.gs, k))
        gi = B.geo(B.ge(e, "start"), B.ge(e, "end"), affine_mul(B.ge(e, "transform"), app("Repeater::transform", R, i)))
        want_g = seq([slice_(Gm, ZERO, self.gs), each(monus(len_(Gm), self.gs), k, each(cp, i, seq([one(gi)])))])
        # draws
        k, i = fresh("k"), fresh("i")
        d = at(D, add(self.ds, k))
        s_, e_ = mul(f("start_opacity"), num(0.01)), mul(f("end_opacity"), num(0.01))
        ai = add(s_, mul(div(sub(e_, s_), cp), i))
        st = add(self.gs, mul(sub(B.d(d, "start"), self.gs), cp))
        en = add(st, mul(sub(B.d(d, "end"), B.d(d, "start")), cp))
        di = B.draw(B.d(d, "stroke"), B.d(d, "brush"), mul(B.d(d, "alpha"), ai), st, en)
        body = each(monus(len_(D), self.ds), k, seq([one(di)]))
        skip = ite(fcmp("le", ai, ZERO), EMPTY, body)
        want_d1 = seq([slice_(D, ZERO, self.ds), each(cp, i, body)])
        want_d2 = seq([slice_(D, ZERO, self.ds), each(cp, i, skip)])
        for n, m in (("several copies", None), ("one copy", 1), ("no copies", 0)):
            if m is None:
                fix = lambda t: assume(t, cubes(lt_int(ONE, cp))[0])
            else:
                fix = (lambda m: lambda t: subst(t, cp, num(m)))(m)
            ge_, dr = self.tidy(fix(a["geometries"])), self.tidy(fix(a["draws"]))
            out(P, "repeater:geometries", "every geometry of the group is repeated under the repeater's transforms (%s)" % n, w, diff(ge_, self.tidy(fix(want_g))))
            dd = diff(dr, self.tidy(fix(want_d2)))
            if dd is not None and diff(dr, self.tidy(fix(want_d1))) is None:
                dd = None
            if m == 1 and dd is not None:
                pass
            out(P, "repeater:draws", "every draw of the group is repeated over all copies of its geometry, opacities linear (%s)" % n, w, dd)
        self.drawn(a, len_(a["geometries"]), "repeater", ("C25", "C28"))

    def tidy(self, t):
        """the lists never become shorter than they were when the group began"""
        mp = {}
        for l, b in ((self.S["geometries"], self.gs), (self.S["draws"], self.ds)):
            m = monus(len_(l), b)
            if m.op == "app":
                mp[m] = sub(len_(l), b)
        return tm.subst_many(t, mp)

    # ------------------------------------------------------------ trim
    def arm_Trim(self, a):
        out, w, B, S = self.out, self.w, self.B, self.S
        P = ("C24",)
        T = app("Trim::evaluate", self.payload("Trim"), self.frame)
        N = app("Trim::normalized", T)
        Gm, E = S["geometries"], S["elements"]
        if not occurs_term(tup(*a.values()), N):
            raise Undecided("trims are not normalised by Trim::normalized")
        self.same(a, ("draws",), P, "trim")
        isN = mk("isvar", N, 2, OPT)
        first, second = fld(unwrap(N), 0, 0, "()"), fld(unwrap(N), 0, 1, "()")
        f0, f1 = fld(first, 0, 0, "()"), fld(first, 0, 1, "()")
        isS = mk("isvar", second, 2, OPT)
        # empty range
        e = {n: assume(t, {isN: 0}) for n, t in a.items()}
        k = fresh("k")
        q = at(Gm, add(self.gs, k))
        g_ = e["geometries"]
        its = self.segments(g_)
        if its is None and self.few(g_):
            out(P, "trim:empty-range", "an empty trim leaves nothing of the geometry of its group", w, False, "of several geometries some are left as they were")
        elif its is None:
            out.rep.undecided("an empty trim empties the geometry of its group", w, "form of the geometries: %s" % show(g_, 0, 4)[:300])
        else:
            head, body, kk = its
            out(P, "trim:empty-before", "an empty trim leaves geometry outside its group alone", w, diff(head, slice_(Gm, ZERO, self.gs)))
            x = body
            q = at(Gm, add(self.gs, kk))
            out(P, "trim:empty-range", "an empty trim leaves nothing of the geometry of its group", w, diff(B.ge(x, "start"), B.ge(x, "end")))
            out(P, "trim:empty-transform", "a trim keeps the transforms", w, diff(B.ge(x, "transform"), B.ge(q, "transform")))
        out(P, "trim:empty-elements", "an empty trim leaves the other outlines alone", w, diff(e["elements"], E))
        self.drawn(e, len_(Gm), "trim with an empty range", ("C24", "C28"))
        # full range
        full = lambda t: assume(subst_many(assume(t, {isN: 1, isS: 0}), {f0: ZERO, f1: ONE}), {})
        for n in ("geometries", "elements"):
            out(P, "trim:full-" + n, "a trim to the full range leaves the %s alone" % n, w, diff(full(a[n]), S[n]))
        # part of the range
        for name, sec, lo, hi in (("inner", 0, num(0.25), num(0.75)), ("head", 0, ZERO, num(0.5)), ("tail", 0, num(0.5), ONE), ("two parts", 1, num(0.5), ONE), ("two parts 2", 1, ZERO, num(0.5))):
            v = {n: subst_many(assume(t, {isN: 1, isS: sec}), {f0: lo, f1: hi}) for n, t in a.items()}
            out(P, "trim:partial", "a trim to part of the range (%s) trims" % name, w, diff(v["geometries"], Gm) is not None, "the geometry is left unchanged")
        # the general form
        v = {n: assume(t, {isN: 1, isS: 1}) for n, t in a.items()}
        self.trimmed(v, P)
        self.drawn(v, S["drawn_geometry"], "trim", ("C24", "C28"))

    def few(self, t):
        """the list as it was but for one or two records, also when the group has more"""
        n = sub(len_(self.S["geometries"]), self.gs)
        t = assume(t, cubes(lt_int(num(2), n))[0])
        if t.op == "case":
            return False
        i = 0
        while t.op == "upd":
            t, i = t.a[0], i + 1
        return i < 3 and t is self.S["geometries"]

    def segments(self, t):
        """(head, element of the group's part, its index): records of the group follow the `gs` records before"""
        its = list(seqitems(t))
        while its and its[-1].op == "slice" and its[-1].a[0] is self.S["geometries"] and self.empty_tail(its[-1]):
            its.pop()
        if not its or its[-1].op != "each":
            return None
        k = fresh("k")
        b = open_each(its[-1], k)
        if its[-1].a[1] is not monus(len_(self.S["geometries"]), self.gs):
            return None
        if b.op != "seq" or len(b.a) != 1 or b.a[0].op != "one":
            return None
        return seq(its[:-1]), b.a[0].a[0], k

    def empty_tail(self, s):
        """GEO[gs + max(len-gs,0) .. len] is empty, as gs <= len"""
        n = len_(self.S["geometries"])
        return s.a[2] is n and s.a[1] is add(self.gs, monus(n, self.gs))

    def trimmed(self, v, P):
        out, w, B, S = self.out, self.w, self.B, self.S
        Gm, E = S["geometries"], S["elements"]
        r = self.segments(v["geometries"])
        ei = seqitems(v["elements"])
        if r is None or len(ei) != 2 or ei[0].op != "each" or ei[1].op != "each":
            out.rep.undecided("a trim keeps the outlines outside its group", w, "form of the result")
            return
        head, x, k = r
        q = at(Gm, add(self.gs, k))
        out(P, "trim:transform", "a trim keeps the transforms of its group", w, diff(B.ge(x, "transform"), B.ge(q, "transform")))
        # outlines before the group are copied in order ...
        i = fresh("i")
        o0 = open_each(ei[0], i)
        p = at(Gm, i)
        out(P, "trim:before-copied", "outlines outside the group are kept unchanged", w,
            diff(tup(ei[0].a[1], o0), tup(self.gs, slice_(E, B.ge(p, "start"), B.ge(p, "end")))))
        # ... and their records refer to the copies
        if head.op != "each" or head.a[1] is not self.gs:
            if diff(head, slice_(Gm, ZERO, self.gs)) is None:
                out(P, "trim:before-records", "records outside the group refer to their own outlines", w, False,
                    "the outlines move, the records do not")
            else:
                out.rep.undecided("records outside the group refer to their own outlines", w, show(head, 0, 4)[:300])
        else:
            i = fresh("i")
            b = open_each(head, i)
            y = b.a[0].a[0] if b.op == "seq" and len(b.a) == 1 and b.a[0].op == "one" else None
            if y is None:
                out.rep.undecided("records outside the group refer to their own outlines", w, "")
            else:
                y = self.front(y)
                p = at(Gm, i)
                out(P, "trim:before-transform", "a trim keeps the transforms outside its group", w, diff(B.ge(y, "transform"), B.ge(p, "transform")))
                j = fresh("j")
                pj = at(Gm, j)
                off = app("sum", i, lam(1, [j], sub(B.ge(pj, "end"), B.ge(pj, "start"))))
                out(P, "trim:before-start", "records outside the group start where their outline was copied to", w, diff(self.rlen(B.ge(y, "start")), off))
                out(P, "trim:before-end", "records outside the group keep the length of their outline", w,
                    diff(self.rlen(B.ge(y, "end")), add(off, sub(B.ge(p, "end"), B.ge(p, "start")))))
        # the trimmed outlines
        kk = fresh("k")
        t1 = open_each(ei[1], k)
        pre = add(len_(ei[0]), len_(each(k, kk, open_each(ei[1], kk))))
        out(P, "trim:start", "a trimmed geometry refers to its own trimmed outline (start)", w, diff(B.ge(x, "start"), pre))
        out(P, "trim:end", "a trimmed geometry refers to its own trimmed outline (end)", w, diff(B.ge(x, "end"), add(pre, len_(t1))))
        # which depends on its own outline only
        own = slice_(E, B.ge(q, "start"), B.ge(q, "end"))
        t2 = subst(t1, own, sym("OWN"))
        out(P, "trim:own", "a trimmed outline is cut from its own outline only", w, not occurs(t2, E) and not occurs(t2, Gm), "it also depends on other outlines")
        out(P, "trim:from", "a trimmed outline is cut from its own outline", w, occurs(t2, sym("OWN")), "it does not depend on the outline")

    def front(self, y):
        """elements 0..gs of a record list that starts with gs copies are those of the original"""
        Gm = self.S["geometries"]

        def f(x):
            if x.op == "at" and x.a[0].op == "seq" and len(x.a[0].a) and x.a[0].a[0].op == "slice":
                s = x.a[0].a[0]
                if s.a[0] is Gm and s.a[1] is ZERO and s.a[2] is self.gs:
                    return at(Gm, x.a[1])
        return rewrite(y, f)

    def rlen(self, t):
        """length of an index range"""
        def f(x):
            if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[3] == self.B.gty:
                r = x.a[0]
                return sub(fld(r, 0, 1, self.B.rp), fld(r, 0, 0, self.B.rp))
        return rewrite(t, f)


def ident():
    return adt(adtpath("kurbo::Affine"), 0, seq([one(num(x)) for x in (1, 0, 0, 1, 0, 0)]))


def leaves(t):
    """(decisions, value) of the top-level decision structure"""
    out = []

    def go(x, lits):
        if x is UNDEF:
            return
        if x.op == "case":
            for o, c in enumerate(x.a[1:]):
                l2 = dict(lits)
                l2[x.a[0]] = o
                go(c, l2)
            return
        out.append((lits, x))
    go(t, {})
    return out


def lits_s(lits):
    return "; ".join("%s -> %d" % (atom_s(a), o) for a, o in lits.items())[:600]
