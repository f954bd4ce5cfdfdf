"""C38: rendering never panics.

The evaluation of model values is decided like loading (rules/panics.py): every function is total for arbitrary arguments.
The renderer itself keeps ranges into its own lists.  Its panic sites are decided on the state of the collection with an
invariant over all lists collected so far, shown to hold at the start of every collection, after every kind of shape, and after
nested groups (by induction over the tree of shapes):

  geometries of enclosing groups stay: gs <= len(geometries), ds <= len(draws), where gs, ds are the lengths at the start of the group
  every draw covers a range start <= end <= len(geometries); draws of the group (from ds on) start at gs or later
  every geometry covers a range start <= end <= len(elements)
  draws of enclosing groups (before ds) are unchanged
"""
import itertools
from .panics import *
from .shapes import Shapes

ROLES3 = ("elements", "geometries", "draws")


class State:
    """a symbolic state of the collection about which the invariant is known"""

    def __init__(self, E, G, D, gs=None, ds=None):
        self.E, self.G, self.D, self.gs, self.ds = E, G, D, gs, ds


class Rendering:
    def __init__(self, S):
        self.S, self.M, self.B = S, S.M, S.B
        self.states = [State(S.S["elements"], S.S["geometries"], S.S["draws"], S.gs, S.ds)]
        p = S.M.spre
        self.states.append(State(p["elements"], p["geometries"], p["draws"]))
        self.rs = {}

    # ------------------------------------------------------------ the records
    def drange(self, d):
        r = fld(d, 0, self.B.dfld["geometry"], self.B.dty)
        return fld(r, 0, 0, self.B.rp), fld(r, 0, 1, self.B.rp)

    def grange(self, g):
        r = fld(g, 0, self.B.gfld["elements"], self.B.gty)
        return fld(r, 0, 0, self.B.rp), fld(r, 0, 1, self.B.rp)

    # ------------------------------------------------------------ nested collections
    def rs_state(self, x):
        """state after a nested collection, with the state before"""
        act = sorted(self.M.active)
        ops = x.a[1:]
        key = tuple(ops)
        if key not in self.rs:
            before = dict(zip(act, ops))
            after = {n: app("RS:" + self.M.active[n][-1], *ops) for n in act}
            self.rs[key] = (State(*[before[n] for n in ROLES3]), State(*[after[n] for n in ROLES3]))
        return self.rs[key]

    # ------------------------------------------------------------ what is known about the parts of the states
    def normal(self, t):
        """a group never shrinks what was there before it"""
        S = self.S
        m = {}
        for a, b in ((S.gs, len_(S.S["geometries"])), (S.ds, len_(S.S["draws"]))):
            m[app("monus", sub(b, a))] = sub(b, a)
            m[app("monus", sub(a, b))] = ZERO
        t = S.grown(t)
        return self.lengths(tm.subst_many(t, m))

    def lengths(self, t):
        """lengths of ranges the invariant knows, and of concatenations, as sums"""
        Gs = {st.G for st in self.states}

        def f(x):
            if x.op == "len":
                y = x.a[0]
                if y.op == "fld" and y.a[3] == self.B.gty and y.a[2] == self.B.gfld["elements"] and y.a[0].op == "at" and y.a[0].a[0] in Gs:
                    a, e = self.grange(y.a[0])
                    return sub(e, a)
                if y.op == "each":
                    j, k = fresh("k"), fresh("k")
                    b = self.lengths(len_(open_each(y, k)))
                    if not tm.occurs(b, k):
                        return mul(self.lengths(y.a[1]), b)
                    return app("sum", self.lengths(y.a[1]), lam(1, [k], b))
            if x.op == "app" and x.a[0] == "sum" and x.a[1].op == "num" and 0 <= x.a[1].a[0] <= 4:
                r = ZERO
                for i in range(int(x.a[1].a[0])):
                    r = add(r, self.lengths(open_lam(x.a[2], [num(i)])))
                return r
            if x.op == "app" and x.a[0] == "monus":
                d = self.lengths(x.a[1])
                if any(d is sub(e, a) for y in subterms([d], lambda y: y.op == "at" and y.a[0] in Gs) for a, e in (self.grange(y),)):
                    return d
            return None
        return tm.rewrite(t, f)

    def current(self, t, k=None):
        """the state before iteration k of the collection, as symbols"""
        S = self.S
        m = {}
        ks = {x.a[1] for x in subterms([t], lambda x: x.op == "at" and x.a[0] is S.sh)}
        for x in subterms([t], lambda x: x.op == "app" and x.a[0] == "proj" and x.a[1].op == "app" and x.a[1].a[0] == "scan" and
                          x.a[1].a[1] is S.init and x.a[1].a[2] is S.l and x.a[1].a[3] is not S.n):
            ks.add(x.a[1].a[3])
            for n, j in S.order.items():
                if int(x.a[2].a[0]) == j:
                    m[x] = S.S[n]
        if m:
            t = tm.subst_many(t, m)
        ks = [k for k in ks if k.op == "sym"]
        if len(ks) == 1:
            t = tm.subst(t, ks[0], S.K)
        return self.normal(t)

    def memory(self, s, lits):
        """the lists fit in memory also after the shape"""
        S = self.S
        v = lits.get(mk("isvar", S.shape, len(S.vs), S.sp))
        if v is None:
            return
        for n, t in S.arm(S.vs[v]).items():
            if n in ROLES3:
                x = assume(self.normal(self.lengths(len_(t))), lits)
                if x.op != "case":
                    s.le(x, MAXLEN, True)

    def facts(self, sy, terms, lits=None):
        """sy with what the invariant says about everything the terms mention"""
        s = sy.copy()
        self.memory(s, lits or {})
        S = self.S
        s.le(sub(S.gs, len_(S.S["geometries"])), 0, True)
        s.le(sub(S.ds, len_(S.S["draws"])), 0, True)
        terms = list(terms) + [y[0] for p, _, i in sy.cs for m, _c in p for y in m]
        for x in {y for q in subterms(terms, lambda x: x.op == "poly") + list(terms) for m in (topoly(q) if q.op == "poly" else ()) for y, _ in m} | \
                set(subterms(terms, lambda x: x.op == "len")):
            if not lin._bvfree(x) and not (x.op == "app" and x.a[0] == "sum"):
                y = self.lengths(self.resolve(x, s))
                if y is not x:
                    s.le(sub(x, y), 0, True)
                    s.le(sub(y, x), 0, True)
                    terms.append(y)
        rs = subterms(terms, lambda x: x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("RS:"))
        states = list(self.states)
        for x in rs:
            b, a = self.rs_state(x)
            states.append(a)
            s.le(sub(len_(b.G), len_(a.G)), 0, True)
            s.le(sub(len_(b.D), len_(a.D)), 0, True)
        for x in subterms(terms, lambda x: x.op == "at"):
            base, i = x.a
            for st in states:
                if base is st.D:
                    a, e = self.drange(x)
                    s.le(sub(a, e), 0, True)
                    s.le(sub(e, len_(st.G)), 0, True)
                    s.gt(a, -1, True)
                    if st.gs is not None and bounded(s, [i, st.ds]).entails_le(st.ds, i):
                        s.le(sub(st.gs, a), 0, True)
                    elif st.gs is not None and bounded(s, [i, st.ds]).entails_le(add(i, ONE), st.ds):
                        s.le(sub(e, st.gs), 0, True)
                elif base is st.G:
                    a, e = self.grange(x)
                    s.le(sub(a, e), 0, True)
                    s.le(sub(e, len_(st.E)), 0, True)
                    s.gt(a, -1, True)
        sums = subterms(terms, lambda x: x.op == "app" and x.a[0] == "sum" and not lin._bvfree(x))
        for x in list(sums):
            i = fresh("i")
            b = open_lam(x.a[2], [i])
            w = s.copy()
            w.gt(i, -1, True)
            w.le(sub(i, x.a[1]), -1, True)
            c = self.lengths(self.resolve(b, w))
            if c is not b:
                y = app("sum", x.a[1], lam(1, [i], c))
                s.le(sub(x, y), 0, True)
                s.le(sub(y, x), 0, True)
                sums.append(y)
        for x in sums:
            s.gt(x, -1, True)
            s.le(x, MAXLEN, True)
            for y in sums:
                if x is not y and x.a[2] is y.a[2]:
                    n, m = x.a[1], y.a[1]
                    if bounded(s, [n, m]).entails_le(add(n, ONE), m):
                        z = assume(open_lam(x.a[2], [n]), lits or {})
                        s.le(sub(x if z.op == "case" else add(x, z), y), 0, True)
                    elif bounded(s, [n, m]).entails_le(n, m):
                        s.le(sub(x, y), 0, True)
        return self.products(s, terms)

    def resolve(self, t, s):
        """elements of lists put together from parts, where the part is known"""
        def f(x):
            if x.op != "at" or x.a[0].op != "seq":
                return None
            i = x.a[1]
            for y in seqitems(x.a[0]):
                n = ONE if y.op == "one" else len_(y)
                b = bounded(s, [i, n])
                if b.entails_le(add(i, ONE), n):
                    return self.resolve(y.a[0] if y.op == "one" else open_each(y, i) if y.op == "each" else at(y, i), s)
                if not b.entails_le(n, i):
                    return None
                i = sub(i, n)
            return None
        return tm.rewrite(t, f)

    def products(self, s, terms):
        """consequences multiplied with quantities that occur in products and are not negative"""
        polys = [topoly(t) for t in subterms(terms, lambda x: x.op == "poly")]
        cs = {y for d in polys for m in d if len(m) > 1 for y, _ in m}
        cs |= {y for p, _, i in s.cs for m, _c in p if len(m) > 1 for y, _ in m}
        cs = [c for c in cs if tm.is_nonneg(c) and c.op == "fld" and c.a[0].op == "app"]
        out = s.copy()
        for c in cs:
            for p, strict, integer in list(s.cs):
                if not integer or not any(m for m, _c in p) or any(y is c for m, _c in p for y, _ in m):
                    continue
                q = ZERO
                for m, k in p:
                    x = num(k)
                    for y, e in m:
                        for _ in range(e):
                            x = mul(x, y)
                    q = add(q, x)
                out.le(mul(q, c), 0, True)
        return out

    # ------------------------------------------------------------ deciding
    def holds(self, cond, pcs=()):
        """None if the condition holds on every path, else a path on which it could fail"""
        bad = not_(tobool(cond))
        for p in pcs:
            bad = and_(tobool(p), bad)
        bad = self.lengths(bad)
        for l, s in failing(bad):
            if not impossible(l, self.facts(s, list(l), l)):
                return l
        return None

    def elems(self, t, pc=TRUE):
        """every element a list can have: (element, condition)"""
        if pc is FALSE:
            return
        if t.op == "case":
            for i, k in enumerate(t.a[1:]):
                if k is not UNDEF:
                    lit = case2(t.a[0], [boolc(i == j) for j in range(len(t.a) - 1)])
                    yield from self.elems(k, and_(pc, lit))
            return
        for x in seqitems(t):
            if x.op == "one":
                yield x.a[0], pc
            elif x.op == "each":
                k = fresh("k")
                yield from self.elems(open_each(x, k), and_(pc, lt_int(k, x.a[1])))
            elif x.op == "case":
                yield from self.elems(x, pc)
            elif x.op == "upd":
                yield from self.elems(x.a[0], pc)
                yield x.a[2], pc
            else:
                k = fresh("k")
                yield at(x, k), and_(pc, lt_int(k, len_(x)))

    def well_formed(self, E, G, D, pc=TRUE):
        """[(obligation, path it could fail on)] of the ranges of a state"""
        out = []
        for x, c in self.elems(G, pc):
            a, e = self.grange(x)
            out.append(("a geometry's range does not end before its start", self.holds(le_int(a, e), [c])))
            out.append(("a geometry's range lies within the elements", self.holds(le_int(e, len_(E)), [c])))
        for x, c in self.elems(D, pc):
            a, e = self.drange(x)
            out.append(("a draw's range does not end before its start", self.holds(le_int(a, e), [c])))
            out.append(("a draw's range lies within the geometries", self.holds(le_int(e, len_(G)), [c])))
        return out

    def preserved(self, E, G, D):
        """the invariant of a group after one shape"""
        S = self.S
        out = [("geometries of enclosing groups stay", self.holds(le_int(S.gs, len_(G))))]
        out += self.well_formed(E, G, D)
        for d, pc in self.split(D):
            its = list(seqitems(d))
            x = its[0] if its else None
            D0 = S.S["draws"]
            if x is D0 or x is not None and x.op == "slice" and x.a[0] is D0 and x.a[1] is ZERO:
                out.append(("draws of enclosing groups stay", self.holds(le_int(S.ds, len_(x)), [pc])))
                its = its[1:]
            elif x is not None and x.op == "app" and x.a[0].startswith("RS:"):
                b, a = self.rs_state(x)
                if b.D is not D0 or x is not a.D:
                    raise Undecided("draws after a nested group")
                out.append(("draws of a nested group start after those of the group", self.holds(le_int(S.gs, len_(b.G)), [pc])))
                its = its[1:]
            else:
                out.append(("draws of enclosing groups stay", self.holds(le_int(S.ds, ZERO), [pc])))
            for y, c in self.elems(seq(its), pc):
                out.append(("a draw covers no geometry of enclosing groups", self.holds(le_int(S.gs, self.drange(y)[0]), [c])))
        return out

    def split(self, t, pc=TRUE):
        if t.op == "case":
            for i, k in enumerate(t.a[1:]):
                if k is not UNDEF:
                    yield from self.split(k, and_(pc, case2(t.a[0], [boolc(i == j) for j in range(len(t.a) - 1)])))
        elif pc is not FALSE:
            yield t, pc


# ---------------------------------------------------------------- refutation
ROUNDS = 4


class RInputs(Inputs):
    """values of the model, and what they evaluate to, can be anything of their type"""

    def leaf(self, t, why=None):
        x = t
        while x.op in ("fld", "len", "at"):
            x = x.a[0]
        if x.op == "app" and (x.a[0] in EVALS or x.a[0] == "geom"):
            if x.a[0] == "Repeater::transform" or not all(self.argument(y) for y in x.a[1:]):
                return False
            # the parts of a normalised trim are related to each other
            return x.a[0] != "Trim::normalized" or t is x
        if x.op == "app" and (x.a[0] == "HashMap::is_empty" or str(x.a[0]).endswith("value.Value.<T>.evaluate")):
            return all(self.argument(y) for y in x.a[1:])
        if self.search(x):
            return True
        return Inputs.leaf(self, t, why)

    def segments(self, x):
        """the segments of an outline of the model"""
        return x.op == "app" and x.a[0] == "BezPath::segments" and bool(apps_of(x, "geom"))

    def search(self, x):
        """the position of any keyframe, or before, between or after any, can be asked for"""
        if x.op != "app" or x.a[0] != "bsearch" or not Inputs.leaf(self, x.a[1]):
            return False
        o = open_lam(x.a[2], [sym("k#s")])
        at_ = subterms([o], lambda y: y.op == "sgn")
        return len(at_) == 1 and self.linear(at_[0].a[0]) and o.op == "case" and o.a[0] is at_[0]

    def joint(self, lits):
        """decisions that are possible together: nothing else is asked of the times a position is searched in"""
        ls = {x.a[1] for x in subterms(list(lits), lambda x: x.op == "app" and x.a[0] == "bsearch")}
        for a in lits:
            if a.op == "sgn" and subterms([a.a[0]], lambda x: x.op == "at" and x.a[0] in ls):
                return False
        return True

    def argument(self, y):
        return y.op in ("num", "adt", "poly") or self.leaf(y) or y.op == "app" and y.a[0] in EVALS and self.leaf(y)

    def free(self, a, r):
        if a.op == "sgn" and r != 3:
            # one part of a normalised trim against a number between its bounds
            ms = [m for m in topoly(a.a[0]) if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                x = ms[0][0][0]
                p = dict(topoly(a.a[0]))
                c = -p.get((), 0) / p[ms[0]]
                while x.op == "fld":
                    x = x.a[0]
                if x.op == "app" and x.a[0] == "Trim::normalized" and all(self.argument(y) for y in x.a[1:]) and 0 < c < 1 and r != 1:
                    return True
        if (a.op == "sgn" or a.op == "le") and r == 1:
            # an outline can consist of points without any length
            ms = [m for m in topoly(a.a[0]) if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and topoly(a.a[0]).get((), 0) == 0:
                x = ms[0][0][0]
                if x.op == "len" and (a.op == "sgn" or a.a[1] == 0) and self.segments(x.a[0]):
                    return True
                if x.op == "app" and x.a[0] == "sum" and x.a[1].op == "len" and self.segments(x.a[1].a[0]) and apps_of(x.a[2], "ParamCurveArclen::arclen"):
                    return True
        if a.op == "isvar":
            x = a.a[0]
            while x.op == "fld":
                x = x.a[0]
            if x.op == "app" and x.a[0] == "Trim::normalized":
                return all(self.argument(y) for y in x.a[1:])
        return Inputs.free(self, a, r)


def own_panic(o):
    """the panic is the crate's own, or of a library function it is documented for; debug assertions of kurbo, peniko and vello are theirs"""
    f = o.fn
    return bool(f.get("local")) or f.get("crate") in ("core", "alloc", "std", None)


class Check:
    def __init__(self, rep):
        self.rep = rep
        S = self.S = Shapes()
        self.M = S.M
        self.R = Rendering(S)
        if S.ns != 4 or sorted(S.order.values()) != [0, 1, 2, 3]:
            raise Undecided("the shape loop carries %d values" % S.ns)
        syms = [s for d in (getattr(self.M, "asym", {}), self.M.lsym, self.M.ssym) for s in (d.values() if isinstance(d, dict) else d)]
        self.ins = RInputs([s for s in syms if isinstance(s, tm.T)])
        self.undone = []
        self.t0 = time.time()

    def covered(self):
        F = facts()
        r = set()
        for x in (self.M.A, self.M.layer_run, self.M.shape_run):
            if x is not None:
                r |= {F.insts[i]["path"] for i in x.ip.ran}
        return r

    def bad_state(self):
        return [d for _, _, d in self.M.state_obl if d]

    # ------------------------------------------------------------ induction
    def invariant(self):
        """[(what, failing path)] of the invariant that is not shown"""
        S, R = self.S, self.R
        out = []
        for n in ROLES3:
            d = diff(fld(S.init, 0, S.order[n], "()"), self.M.spre[n])
            if d is not None:
                out.append(("a group starts with the %s of its parent" % n, None))
        for v in S.vs:
            try:
                a = {n: R.normal(t) for n, t in S.arm(v).items()}
                n = 0
                for what, l in limited(90, lambda: R.preserved(a["elements"], a["geometries"], a["draws"])):
                    n += 1
                    if l is not None:
                        out.append(("after a %s, %s" % (v, what), l))
                if not any(w.startswith("after a %s," % v) for w, _ in out):
                    self.rep.ok("a %s keeps the ranges of the collected lists valid" % v, S.w, n)
            except (TooMany, Slow, Undecided, Missing, Unsupported, tm.Budget) as e:
                out.append(("after a %s (%s)" % (v, type(e).__name__), None))
        return out

    def calls(self, terms):
        """nested collections start in a state that is well formed"""
        R, S = self.R, self.S
        out = []
        for x in subterms(terms, lambda x: x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("RS:") and not lin._bvfree(x)):
            b, a = R.rs_state(x)
            if all(t is S.S[n] for t, n in zip((b.E, b.G, b.D), ROLES3)):
                continue
            out += [(w, l) for w, l in R.well_formed(b.E, b.G, b.D) if l is not None]
        return out

    def conditions(self, r):
        """failure conditions of the obligations of a run, with the state of the collection as symbols"""
        for o in r.obls:
            if o.kind == "other" or not own_panic(o):
                continue
            c = failure(o)
            if c is FALSE:
                continue
            yield o, c

    def discharge(self):
        """[(obligation, failure condition, path)] that are not shown impossible"""
        out = []
        n = {}
        for r in (self.M.A, self.M.layer_run, self.M.shape_run):
            if r is None:
                continue
            for o, c in self.conditions(r):
                t = self.R.current(c)
                try:
                    bad = self.calls([t])
                    l = limited(60, lambda: self.R.holds(not_(t)))
                    if bad:
                        l = bad[0][1] or {}
                except (TooMany, Slow, Undecided, Missing, Unsupported, tm.Budget) as e:
                    l = {}
                if l is not None:
                    out.append((o, c, l, r))
                else:
                    k = (family(local_frame(o)), o.kind)
                    n[k] = n.get(k, 0) + 1
        for (f, kind), k in sorted(n.items()):
            self.rep.ok("%s of %s never panics" % (kind, f), f, k)
        return out

    # ------------------------------------------------------------ refutation
    def free_path(self, cond, steps=200):
        """a failing path every decision of which some model takes"""
        try:
            for i, (l, s) in enumerate(failing(cond)):
                if all(self.ins.free(a, r) and not self.large(a, r, s) for a, r in l.items()) and self.ins.joint(l):
                    return l
                if i > steps:
                    break
        except (TooMany, Undecided):
            pass
        return None

    def large(self, a, r, s):
        """the decision needs a number too large for any list"""
        x = a.a[0] if a.op == "b" else None
        return x is not None and x.op == "app" and x.a[0] == "fits" and r == 0 and bounded(s, [x.a[1]]).entails_le(num(INTS[x.a[2].a[0]][0]), x.a[1])

    def step(self, state, i, v, start):
        """the state after one shape of kind v at position i of a list that started with state `start`"""
        S = self.S
        st = [None] * S.ns
        for n, j in S.order.items():
            st[j] = state[n]
        o = open_lam(S.l, st + [num(i)])
        o = tm.subst_many(o, {self.M.spre[n]: start[n] for n in start})
        sh = at(S.sh, num(i))
        lits = {mk("isvar", sh, len(S.vs), S.sp): S.vs.index(v)}
        return {n: assume(fld(o, 0, j, "()"), lits) for n, j in S.order.items()}

    def begin(self, state):
        S = self.S
        return {n: tm.subst_many(fld(S.init, 0, j, "()"), {self.M.spre[m]: state[m] for m in state}) for n, j in S.order.items()}

    def empty(self):
        z = {n: EMPTY for n in ROLES3}
        z["drawn_geometry"] = ZERO
        return z

    def programs(self):
        """short lists of shapes, with groups in them"""
        kinds = [v for v in ("Geometry", "Draw", "Repeater", "Trim") if v in self.S.vs]
        flat = [s for n in (1, 2, 3) for s in itertools.product(kinds, repeat=n)]
        out = [s for s in flat] + [s + ("Draw",) for s in flat if len(s) == 3 and s[0] == "Geometry" and s[2] != "Draw"]
        for pre in (("Geometry",), ("Geometry", "Draw"), ("Geometry", "Draw", "Geometry")):
            for inner in [s for s in flat if len(s) < 3] + [("Geometry", "Draw", "Repeater")]:
                for suf in ((), ("Draw",)):
                    out.append(pre + (inner,) + suf)

        def cost(p):
            fl = [v for x in p for v in (x if isinstance(x, tuple) else (x,))]
            t = [i for i, v in enumerate(fl) if v == "Trim"]
            return (len(t) > 1, (len(fl) - 1 - t[0]) if t else 0, len(t), len(fl))
        return sorted(dict.fromkeys(out), key=cost)

    def simulate(self, prog, memo):
        """(state before the last shape, start of its group, its position, its kind, depth) and the state after the list"""
        if prog in memo:
            return memo[prog]
        *head, x = prog
        before, start = self.empty(), None
        if head:
            before = self.simulate(tuple(head), memo)[1]
        if isinstance(x, tuple):
            st0 = before
            state = self.begin(st0)
            for i, v in enumerate(x):
                last = (state, st0, i, v, 1)
                state = self.inner(self.step(state, i, v, st0))
        else:
            z = self.empty()
            st = before if head else self.begin(z)
            last = (st, z, len(head), x, 0)
            state = self.step(st, len(head), x, z)
        memo[prog] = (last, state)
        return memo[prog]

    def inner(self, st):
        """the shapes of a nested group are other shapes, drawn elsewhere"""
        S = self.S
        m = {S.sh: sym("S.inner"), S.xf: sym("S.innerxf")}
        return {n: tm.subst_many(t, m) for n, t in st.items()}

    def refute(self, bad):
        """short lists of shapes on which an obligation fails"""
        S, M = self.S, self.M
        todo = set(range(len(bad)))
        found = {}
        # directly: obligations that do not depend on what has been collected
        for i in sorted(todo):
            o, c, l, r = bad[i]
            if r is not M.shape_run and not subterms([c], lambda x: x.op == "app" and str(x.a[0]).startswith("RS:")):
                for t in self.settled(c):
                    p = self.free_path(t)
                    if p is not None:
                        found[i] = (p, "")
                        break
        todo -= set(found)
        memo = {}
        self.ins.args |= {sym("S.inner"), sym("S.innerxf")}
        t0 = time.time()
        for prog in self.programs():
            if not todo or time.time() - t0 > 240:
                break
            try:
                (prev, start, k, v, depth), last = limited(30, lambda: self.simulate(prog, memo))
            except (TooMany, Slow, Undecided, Missing, Unsupported, tm.Budget):
                continue
            for i in sorted(todo):
                o, c, l, r = bad[i]
                try:
                    if r is M.shape_run:
                        if not self.arm_of(c, v):
                            continue
                        t = self.at_step(c, prev, start, k, v)
                    elif r is M.layer_run and any(x == "Draw" or isinstance(x, tuple) and "Draw" in x for x in prog):
                        t = self.after_group(c, last)
                    else:
                        continue
                    if t is None:
                        continue
                    for u in limited(20, lambda: self.settled(t)):
                        p = limited(20, lambda: self.free_path(u))
                        if p is not None:
                            found[i] = (p, self.shown(prog))
                            break
                except (TooMany, Slow, Undecided, Missing, Unsupported, tm.Budget):
                    pass
            todo -= set(found)
        return found

    def shown(self, prog):
        return ", ".join("a group of (%s)" % ", ".join(x) if isinstance(x, tuple) else x for x in prog)

    def arm_of(self, c, v):
        """may the obligation fail for a shape of this kind?"""
        S = self.S
        for x in subterms([c], lambda x: x.op == "isvar" and x.a[0].op == "at" and x.a[0].a[0] is S.sh):
            if assume(c, {x: S.vs.index(v)}) is FALSE:
                return False
        return True

    def at_step(self, c, prev, start, k, v):
        """a failure condition in iteration k of the collection"""
        S = self.S
        scans = subterms([c], lambda x: x.op == "app" and x.a[0] == "scan" and x.a[1] is S.init and x.a[2] is S.l and x.a[3] is not S.n)
        ks = {x.a[3] for x in scans} | {x.a[1] for x in subterms([c], lambda x: x.op == "at" and x.a[0] is S.sh)}
        ks = {x for x in ks if x.op == "sym"}
        if len(ks) != 1:
            return None
        j = next(iter(ks))
        m = {}
        for x in subterms([c], lambda x: x.op == "app" and x.a[0] == "proj" and x.a[1] in scans):
            for n, i in S.order.items():
                if int(x.a[2].a[0]) == i:
                    m[x] = prev[n]
        t = tm.subst_many(c, m)
        t = tm.subst_many(t, {self.M.spre[n]: start[n] for n in start})
        t = tm.subst(t, j, num(k))
        return assume(tobool(t), {mk("isvar", at(S.sh, num(k)), len(S.vs), S.sp): S.vs.index(v)})

    def after_group(self, c, last):
        """a failure condition after the shapes of a layer"""
        M = self.M
        m = {}
        act = sorted(M.active)
        for x in subterms([c], lambda x: x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("RS:")):
            before = dict(zip(act, x.a[1:]))
            if any(before[n] is not EMPTY for n in ROLES3):
                return None
            for n in act:
                if x.a[0] == "RS:" + M.active[n][-1]:
                    m[x] = tm.subst_many(last[n], {M.ssym[r]: y for r, y in zip(("shapes", "xf", "alpha", "frame"), x.a[1 + len(act):])})
        return tm.subst_many(c, m) if m else None

    def settled(self, t):
        """the condition with element and loop positions tried from the start"""
        todo, out = [tobool(t)], []
        while todo and len(out) < 40:
            t = todo.pop()
            js = sorted(subterms([t], lambda x: x.op == "sym" and x.a[0].startswith("k#")), key=lambda x: x.a[0])
            if not js:
                u = tobool(unroll(t))
                if u is not FALSE:
                    out.append(u)
                continue
            for v in (2, 1, 0):
                u = tobool(unroll(tm.subst(t, js[0], num(v))))
                if u is not FALSE:
                    todo.append(u)
        return out

    # ------------------------------------------------------------
    def run(self):
        rep = self.rep
        inv = self.invariant()
        bad = self.discharge()
        seen = {}
        if inv and not bad:
            # without the invariant nothing below it is shown
            bad = [(o, c, {}, r) for r in (self.M.layer_run, self.M.shape_run) for o, c in self.conditions(r)]
        elif inv:
            have = {id(b[0]) for b in bad}
            bad += [(o, c, {}, r) for r in (self.M.layer_run, self.M.shape_run) for o, c in self.conditions(r) if id(o) not in have]
        found = self.refute(bad) if bad else {}
        for i, (o, c, l, r) in enumerate(bad):
            k = (family(local_frame(o)), o.kind, str(o.sp))
            x = found.get(i)
            if k not in seen or x and not seen[k][1]:
                seen[k] = (o, x, l)
        for (f, kind, _), (o, x, l) in sorted(seen.items()):
            what = "%s of %s never panics" % (kind, f)
            d = {"panic": "%s at %s" % (kind, sp(o.sp)), "fails when": show(o.cond, 0, 5)[:300] + " is false"}
            if x:
                d["path"] = [atom_s(a)[:300] + " -> %d" % q for a, q in list(x[0].items())[:10]]
                if x[1]:
                    d["shapes"] = x[1]
                rep.bad("panic:%s:%s" % (f, kind), what, "%s (%s)" % (f, sp(o.sp)), d)
            elif l or not inv:
                d["path"] = [atom_s(a)[:300] + " -> %d" % q for a, q in list(l.items())[:10]]
                rep.undecided(what, "%s (%s)" % (f, sp(o.sp)), d)
        for what, l in inv:
            rep.undecided("the collected lists stay valid: %s" % what, self.S.w, [atom_s(a)[:200] + " -> %d" % q for a, q in list((l or {}).items())[:8]])
        for r in (self.M.A, self.M.layer_run, self.M.shape_run):
            for u in sorted(r.ip.unknown if r is not None else (), key=str):
                if PANICKY.search("::" + u[1].split("::")[-1]):
                    rep.undecided("no panic in %s" % u[1], S_where(r), "library function without a model")
        for d in self.bad_state():
            rep.undecided("collecting starts with empty lists", self.S.w, d)


def S_where(r):
    return where(r.inst)


def render_rules(rep):
    covered = set()
    try:
        c = Check(rep)
        covered = c.covered()
        c.run()
    except (Undecided, Missing, Unsupported, tm.Budget) as e:
        rep.undecided("no panic while the renderer collects and draws shapes", "runtime::render", "%s: %s" % (type(e).__name__, e))
    report(Totality(render_roots, False, budget=450, covered=covered, inputs=RInputs), rep, "rendering")
