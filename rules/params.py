"""Rules on the animatable groups: what each evaluates to, that all its inputs are evaluated at the frame drawn,
when it is frozen at load, and how values are interpolated."""
from .base import *
from engine import witness
from .layer import Out, diff, foreign, affine_mul, apps
from .model import least, apps_of

VR = "ValueRef"


def opq_eval(skip=None):
    def f(ii, inst, key, args):
        if not inst["local"] or ii == skip:
            return None
        last = inst.get("name") or inst["path"].split("::")[-1]
        if last in ("evaluate", "evaluate_or"):
            p = re.sub(r"::<.*?>", "", inst["path"]).split("::")
            return "::".join(p[-3:]) if p[-2] != "Value" else "Value::evaluate"
        return None
    return f


def ev(v, frame):
    return app("Value::evaluate", v, frame)


def f64c(name, x):
    return app("f64::" + name, x)


def rad(x):
    return mul(x, num(math.pi / 180))


import math


def affine(*xs):
    return adt(adtpath("kurbo::Affine"), 0, seq([one(x) for x in xs]))


def rotate(th):
    s, c = f64c("sin", th), f64c("cos", th)
    return affine(c, s, neg(s), c, ZERO, ZERO)


def translate(x, y):
    return affine(ONE, ZERO, ZERO, ONE, x, y)


def scale_(x, y):
    return affine(x, ZERO, ZERO, y, ZERO, ZERO)


def mulall(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = affine_mul(r, m)
    return r


def run_eval(suffix, **kw):
    ii = least(suffix)
    return Run(ii, opq=opq_eval(ii), **kw)


def alt(out, props, key, what, w, got, *wants):
    """got equals one of several equivalent forms"""
    first = None
    for x in wants:
        d = diff(got, x)
        if d is None:
            out(props, key, what, w, None)
            return
        first = first or d
    out(props, key, what, w, first)


def fields(out, props, name, got, ty, want, w, what):
    for f, x in want.items():
        t = g(got, ty, f)
        xs = x if isinstance(x, tuple) else (x,)
        alt(out, props, "param:%s.%s" % (name, f), "%s: %s of the result comes from %s" % (name, f, what.get(f, f)), w, t, *xs)


def evaluation_rules(rep):
    out = Out(rep.pid, rep)
    P = ("C33",)

    def done(r):
        rep.analysed(r.inst["path"])
        return r, r.args[0], where(r.inst)

    # ---- transform
    if rep.pid in ("C08", "C33"):
        r, s, w = done(run_eval("animated::Transform::evaluate"))
        T = "animated::Transform"
        fr = r.args[1]
        pos = g(s, T, "position")
        PT = "animated::Position"

        def coord(i, c):
            return vcase(pos, PT, Value=lambda: g(ev(path_get(s, T, "position", ("Value", 0)), fr), "Point", c),
                         SplitValues=lambda: ev(fld(path_get(s, T, "position", ("SplitValues", 0)), 0, i, "()"), fr))
        sk, sa = ev(g(s, T, "skew"), fr), rad(ev(g(s, T, "skew_angle"), fr))
        skew = mulall(rotate(neg(sa)), affine(ONE, ZERO, f64c("tan", rad(sk)), ONE, ZERO, ZERO), rotate(sa))
        sc, an = ev(g(s, T, "scale"), fr), ev(g(s, T, "anchor"), fr)
        head = affine_mul(translate(coord(0, "x"), coord(1, "y")), rotate(rad(ev(g(s, T, "rotation"), fr))))
        tail = affine_mul(scale_(mul(g(sc, "Vec2", "x"), num(0.01)), mul(g(sc, "Vec2", "y"), num(0.01))), translate(neg(g(an, "Point", "x")), neg(g(an, "Point", "y"))))
        plain, skewed = affine_mul(head, tail), mulall(head, skew, tail)
        z = fcmp("eq", sk, ZERO)
        zero = [a for a in ({},)]
        # without skew, and with: the code may or may not single out a zero skew
        atm = z.a[0] if z.op == "case" else None
        got = r.value
        oz = [o for o, c in enumerate(z.a[1:]) if c is TRUE][0]
        for o in range(tm.arity(atm)):
            nm = "without skew" if o == oz else "with skew"
            g_ = assume(got, {atm: o})
            what = "a transform %s is translate(position) rotate(degrees) skew scale(percent) translate(-anchor)" % nm
            if o == oz:
                g0 = subst_many(g_, {f64c("tan", rad(sk)): ZERO})
                alt(out, ("C08", "C33"), "transform:" + nm, what, w, pythagoras(g0, sa), pythagoras(plain, sa))
            else:
                alt(out, ("C08", "C33"), "transform:" + nm, what, w, pythagoras(g_, sa), pythagoras(skewed, sa))
    # ---- geometry
    r, s, w = done(run_eval("animated::Rect::evaluate"))
    T, fr = "animated::Rect", r.args[1]
    p, z = ev(g(s, T, "position"), fr), ev(g(s, T, "size"), fr)
    x, y, W, H = g(p, "Point", "x"), g(p, "Point", "y"), g(z, "Size", "width"), g(z, "Size", "height")
    rc = g(r.value, "RoundedRect", "rect")
    KR = "kurbo::Rect"
    lo = lambda a, b: sub(a, mul(b, num(0.5)))
    hi = lambda a, b: add(a, mul(b, num(0.5)))
    fields(out, P, "Rect", rc, KR, {
        "x0": (app("fmin", lo(x, W), hi(x, W)), lo(x, W)), "x1": (app("fmax", lo(x, W), hi(x, W)), hi(x, W)),
        "y0": (app("fmin", lo(y, H), hi(y, H)), lo(y, H)), "y1": (app("fmax", lo(y, H), hi(y, H)), hi(y, H))}, w,
        dict.fromkeys(("x0", "x1", "y0", "y1"), "the position minus or plus half the size"))
    rd = g(r.value, "RoundedRect", "radii")
    rad_ = ev(g(s, T, "corner_radius"), fr)
    a4 = [g(rd, "RoundedRectRadii", f) for f in ("top_left", "top_right", "bottom_right", "bottom_left")]
    ww, hh = (sub(g(rc, KR, "x1"), g(rc, KR, "x0")), sub(g(rc, KR, "y1"), g(rc, KR, "y0")))
    for a in a4:
        alt(out, P, "param:Rect.radii", "Rect: all corners have the corner radius at the frame", w, a,
            app("fmin", app("abs", rad_), mul(app("fmin", ww, hh), num(0.5))), rad_, app("abs", rad_))
    r, s, w = done(run_eval("animated::Ellipse::evaluate"))
    T, fr = "animated::Ellipse", r.args[1]
    p, z = ev(g(s, T, "position"), fr), ev(g(s, T, "size"), fr)
    m = fld(fld(r.value, 0, 0, adtpath("kurbo::Ellipse")), 0, 0, adtpath("kurbo::Affine"))
    hw, hh = mul(g(z, "Size", "width"), num(0.5)), mul(g(z, "Size", "height"), num(0.5))
    for i, wants in enumerate(((app("abs", hw), hw), (ZERO,), (ZERO,), (app("abs", hh), hh), (g(p, "Point", "x"),), (g(p, "Point", "y"),))):
        alt(out, P, "param:Ellipse.%d" % i, "Ellipse: centred on the position, radii half the size", w, at(m, num(i)), *wants)
    # ---- stroke
    r, s, w = done(run_eval("animated::Stroke::evaluate"))
    T, fr = "animated::Stroke", r.args[1]
    ml = g(s, T, "miter_limit")
    fields(out, P, "Stroke", r.value, "kurbo::Stroke", {
        "width": ev(g(s, T, "width"), fr), "join": g(s, T, "join"), "start_cap": g(s, T, "cap"), "end_cap": g(s, T, "cap"),
        "miter_limit": opt(ml, lambda u: u, num(4)), "dash_offset": ZERO, "dash_pattern": EMPTY}, w, {})
    # ---- gradient
    r, s, w = done(run_eval("animated::Gradient::evaluate"))
    T, fr = "animated::Gradient", r.args[1]
    st, en = ev(g(s, T, "start_point"), fr), ev(g(s, T, "end_point"), fr)
    B = "peniko::Brush"
    gr = path_get(r.value, B, ("Gradient", 0))
    out(P, "param:Gradient.kind", "Gradient: evaluates to a gradient brush", w, diff(isv(r.value, B, "Gradient"), TRUE))
    GK = "GradientKind"
    kd = g(gr, "peniko::Gradient", "kind")
    radial = tobool(g(s, T, "is_radial"))
    dx, dy = sub(g(en, "Point", "x"), g(st, "Point", "x")), sub(g(en, "Point", "y"), g(st, "Point", "y"))
    RG, LG = "RadialGradientPosition", "LinearGradientPosition"
    wk = ite(radial, adt(adtpath(GK), vidx(GK, "Radial"), new(RG, start_center=st, start_radius=ZERO, end_center=st,
             end_radius=f64c("sqrt", add(mul(dx, dx), mul(dy, dy))))), adt(adtpath(GK), vidx(GK, "Linear"), new(LG, start=st, end=en)))
    kd = tm.rewrite(kd, lambda x: f64c("sqrt", add(mul(*(x.a[1],) * 2), mul(*(x.a[2],) * 2))) if x.op == "app" and x.a[0] in ("f64::hypot", "hypot") and len(x.a) == 3 else None)
    out(P, "param:Gradient.points", "Gradient: linear from start to end, or radial around the start through the end", w, diff(kd, wk))
    sp = g(gr, "peniko::Gradient", "stops")
    cs = g(s, T, "stops")
    out(P, "param:Gradient.stops", "Gradient: its stops at the frame", w, diff(valueref(sp), valueref(app("model::ColorStops::evaluate", cs, fr))))
    # ---- repeater, trim
    r, s, w = done(run_eval("animated::Repeater::evaluate"))
    T, fr = "animated::Repeater", r.args[1]
    d = {f: ev(g(s, T, f), fr) for f in ("offset", "anchor_point", "position", "rotation", "scale", "start_opacity", "end_opacity")}
    if rep.pid in ("C33", "C25"):
        fields(out, ("C33", "C25"), "Repeater", r.value, "fixed::Repeater", d, w, {})
        c = g(r.value, "fixed::Repeater", "copies")
        e = ev(g(s, T, "copies"), fr)
        alt(out, ("C33", "C25"), "param:Repeater.copies", "Repeater: the number of copies is the rounded value at the frame", w, c,
            mk("app", "toint", f64c("round", e), mk("str", "usize")) if c.op != "app" else rebuildlike(c, e))
    r, s, w = done(run_eval("animated::Trim::evaluate"))
    T, fr = "animated::Trim", r.args[1]
    fields(out, ("C33", "C24"), "Trim", r.value, "fixed::Trim", {f: ev(g(s, T, f), fr) for f in ("start", "end", "offset")}, w, {})
    # ---- star: every parameter is evaluated, at the frame
    if rep.pid == "C33":
        r, s, w = done(run_eval("animated::Star::evaluate"))
        o = r.out(2)
        used = set()
        es = [x for x in apps_of(o) if x.a[0] == "Value::evaluate"]
        for x in es:
            out(P, "star-frame", "every parameter of a star is evaluated at the frame being drawn", w, diff(x.a[2], r.args[1]))
            used.add(x.a[1])
        for f in facts().adt(adtpath("animated::Star"))["variants"][0]["f"]:
            if tyhead(f["ty"]) == adtpath("Value"):
                out(P, "star-param:" + f["n"], "the outline of a star depends on its " + f["n"].replace("_", " "), w,
                    g(s, "animated::Star", f["n"]) in used)
    # ---- brush
    r, s, w = done(run_eval("animated::Brush::evaluate"))
    al, fr = r.args[1], r.args[2]
    AB = "animated::Brush"
    v = r.value
    sol = assume(v, {mk("isvar", s, 2, adtpath(AB)): vidx(AB, "Solid")})
    gra = assume(v, {mk("isvar", s, 2, adtpath(AB)): vidx(AB, "Gradient")})
    gb = app("animated::Gradient::evaluate", path_get(s, AB, ("Gradient", 0)), fr)
    out(("C33", "C09"), "param:Brush.gradient", "a gradient brush is its gradient at the frame, with the alpha", w, diff(gra, app("Brush::multiply_alpha", gb, al)))
    col = path_get(s, AB, ("Solid", 0))
    vals = [x for x in apps_of(sol) if x.a[0] == "Value::evaluate"]
    want = None
    if len(vals) == 1:
        want = [y for y in (sol,)]
        x = vals[0]
        out(("C33", "C09"), "param:Brush.solid", "a solid brush is its colour at the frame", w, diff(mk("x", x.a[1], x.a[2]), mk("x", col, fr)))
        y = subst_many(sol, {x: sym("C")})
        mm = [z for z in apps_of(y) if z.a[0] in ("AlphaColor::multiply_alpha", "Brush::multiply_alpha", "DynamicColor::multiply_alpha")]
        ok = len(mm) == 1 and mm[0].a[2] is al and occurs(mm[0].a[1], sym("C"))
        if ok or not mm and not foreign(({}, y, sym("C"))):
            out(("C33", "C09"), "param:Brush.alpha", "a solid brush is multiplied by the alpha once", w, ok, show(y, 0, 5)[:400])
        elif len(mm) == 1:
            out(("C33", "C09"), "param:Brush.alpha", "a solid brush is multiplied by the alpha once", w, diff(mm[0].a[2], al))
        else:
            out(("C33", "C09"), "param:Brush.alpha", "a solid brush is multiplied by the alpha once", w, False, show(y, 0, 5)[:400])
    else:
        rep.undecided("a solid brush is its colour at the frame", w, show(sol, 0, 4)[:300]) if rep.pid in ("C33", "C09") else None
    # ---- model enums
    for nm in ("Transform", "Stroke", "Repeater", "ColorStops", "Trim"):
        r, s, w = done(run_eval("model::%s::evaluate" % nm))
        M = "model::" + nm
        v = valueref(r.value)
        fx = assume(v, {mk("isvar", s, 2, adtpath(M)): vidx(M, "Fixed")})
        an = assume(v, {mk("isvar", s, 2, adtpath(M)): vidx(M, "Animated")})
        out(("C07",), "collapsed:" + nm, "a frozen %s is the same constant at every frame" % nm, w, diff(fx, path_get(s, M, ("Fixed", 0))))
        out(("C33", "C07"), "model:" + nm, "an animated %s is evaluated at the frame" % nm, w,
            diff(an, app("animated::%s::evaluate" % nm, path_get(s, M, ("Animated", 0)), r.args[1])))
    r, s, w = done(run_eval("model::Brush::evaluate"))
    M, v = "model::Brush", valueref(r.value)
    al, fr = r.args[1], r.args[2]
    fx = assume(v, {mk("isvar", s, 2, adtpath(M)): vidx(M, "Fixed")})
    an = assume(v, {mk("isvar", s, 2, adtpath(M)): vidx(M, "Animated")})
    c = path_get(s, M, ("Fixed", 0))
    mulc = app("Brush::multiply_alpha", c, al)
    alt(out, ("C07", "C09"), "collapsed:Brush", "a frozen brush is the same constant at every frame, times the alpha", w, fx,
        ite(fcmp("eq", al, ONE), c, mulc), mulc)
    out(("C33", "C07", "C09"), "model:Brush", "an animated brush is evaluated at the frame with the alpha", w, diff(an, app("animated::Brush::evaluate", path_get(s, M, ("Animated", 0)), al, fr)))
    # ---- value references
    for fn in ("as_ref", "into_owned"):
        F = facts()
        c = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and x.get("name") == fn and "ValueRef" in x["path"]]
        if not c:
            continue
        r = Run(min(c))
        rep.analysed(r.inst["path"])
        out(("C07",), "valueref:" + fn, "%s of a value reference is the value" % fn, where(r.inst), diff(r.value, valueref(r.args[0])))
    # ---- geometry dispatch
    r, s, w = done(run_eval("model::Geometry::evaluate"))
    G, fr = "model::Geometry", r.args[1]
    o = r.out(2)
    prior = sym(r.names[2])
    n = len(facts().adt(adtpath(G))["variants"])
    for i, v in enumerate(facts().adt(adtpath(G))["variants"]):
        t = assume(o, {mk("isvar", s, n, adtpath(G)): i})
        pl = fld(s, i, 0, adtpath(G))
        what = "geometry of kind %s is appended to the path as evaluated at the frame" % v["n"]
        if v["n"] == "Fixed":
            out(("C33", "C22", "C07"), "geometry:Fixed", "a frozen outline is appended unchanged at every frame", w, diff(t, seq([prior, pl])))
            continue
        e = [x for x in apps_of(t) if x.a[0].split("/")[0] == "animated::%s::evaluate" % v["n"]]
        if len(e) != 1:
            out(("C33", "C22"), "geometry:" + v["n"], what, w, False if not e else True, "it is not evaluated" if not e else "")
            continue
        x = e[0]
        out(("C33", "C22"), "geometry:" + v["n"], what, w, diff(mk("x", x.a[1], x.a[2]), mk("x", pl, fr)))
        if "/" in x.a[0]:
            out(("C33", "C22"), "geometry-path:" + v["n"], what, w, diff(t, app(x.a[0], pl, fr, prior)))
        else:
            items = list(seqitems(t))
            ok = items and items[0] is prior and len(items) == 2 and occurs(items[1], x)
            if ok:
                out(("C33", "C22"), "geometry-path:" + v["n"], what, w, None)
            else:
                out(("C33", "C22"), "geometry-path:" + v["n"], what, w, diff(t, seq([prior, app("Shape::path_elements", x, num(0.1))])))
    # ---- repeater transform
    if rep.pid in ("C25", "C33"):
        r, s, w = done(run_eval("fixed::Repeater::transform"))
        T = "fixed::Repeater"
        t = add(g(s, T, "offset"), r.args[1])
        p, a, sc = g(s, T, "position"), g(s, T, "anchor_point"), g(s, T, "scale")
        X, Y = (lambda q: g(q, "Point", "x")), (lambda q: g(q, "Point", "y"))
        pw = lambda q: f64c("powf", q) if False else app("f64::powf", mul(q, num(0.01)), t)
        want = mulall(translate(add(mul(t, X(p)), X(a)), add(mul(t, Y(p)), Y(a))), rotate(rad(mul(t, g(s, T, "rotation")))),
                      scale_(pw(g(sc, "Vec2", "x")), pw(g(sc, "Vec2", "y"))), translate(neg(X(a)), neg(Y(a))))
        out(("C25", "C33"), "repeater-transform", "copy i is transformed by offset+i times the repeater transform about the anchor", w, diff(r.value, want))


def rebuildlike(c, e):
    if c.a[0] == "toint":
        return mk("app", "toint", f64c("round", e), *c.a[2:])
    return mk("app", "toint", f64c("round", e), mk("str", "usize"))


def pythagoras(t, th):
    """sin^2 + cos^2 = 1 for one angle"""
    s, c = f64c("sin", th), f64c("cos", th)
    one_ = sub(ONE, mul(s, s))

    def f(x):
        if x.op != "poly":
            return None
        d = tm.topoly(x)
        r = ZERO
        ch = False
        for m, co in d.items():
            term = num(co)
            for y, e in m:
                if y is c and e >= 2:
                    term = mul(term, one_)
                    e -= 2
                    ch = True
                for _ in range(e):
                    term = mul(term, y)
            r = add(r, term)
        return r if ch else None
    return tm.rewrite(t, f)


def valueref(t):
    """the value behind a ValueRef"""
    P = adtpath(VR)

    def f(x):
        if x.op == "adt" and x.a[0] == P:
            return x.a[2]
        if x.op == "case":
            return case(x.a[0], [c if c is UNDEF else f(c) for c in x.a[1:]])
        return variant_case(x, 2, P, lambda i: fld(x, i, 0, P))
    return f(t)


# ------------------------------------------------------------------ interpolation
def leaves_of(t, path=()):
    """(path, numeric leaf) of a value built from constructors"""
    if t.op == "adt":
        if t.a[0].endswith("PhantomData"):
            return []
        r = []
        for i, x in enumerate(t.a[2:]):
            r += leaves_of(x, path + (("f", t.a[0], t.a[1], i),))
        return r
    if t.op == "seq":
        r = []
        for i, x in enumerate(t.a):
            if x.op != "one":
                raise Undecided("interpolation builds a list of unknown length")
            r += leaves_of(x.a[0], path + (("i", i),))
        return r
    return [(path, t)]


def follow(t, path):
    for p in path:
        t = fld(t, p[2], p[3], p[1]) if p[0] == "f" else at(t, num(p[1]))
    return t


def lift_adt(t):
    """push decisions below constructors"""
    if t.op == "case":
        ks = [c if c is UNDEF else lift_adt(c) for c in t.a[1:]]
        live = [k for k in ks if k is not UNDEF]
        if live and all(k.op == "adt" and k.a[:2] == live[0].a[:2] and len(k.a) == len(live[0].a) for k in live):
            return adt(live[0].a[0], live[0].a[1], *[lift_adt(case(t.a[0], [k if k is UNDEF else k.a[2 + i] for k in ks])) for i in range(len(live[0].a) - 2)])
        return case(t.a[0], ks)
    if t.op == "adt":
        return adt(t.a[0], t.a[1], *[lift_adt(x) for x in t.a[2:]])
    return t


def opq_scalar(ii, inst, key, args):
    if inst.get("name") == "tween" and (inst.get("impl_self") or "") == "f64":
        return "scalar tween"
    return None


def tween_rules(rep):
    out = Out(rep.pid, rep)
    F = facts()
    impls = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and x.get("name") == "tween" and (x.get("impl_trait") or "").endswith("::Tween")]
    if not impls:
        raise Missing("implementations of Tween")
    P = ("C06",)
    for ii in sorted(impls):
        inst = F.insts[ii]
        nm = (inst.get("impl_self") or "?").split("<")[0].split("::")[-1]
        w = where(inst)
        rep.analysed(inst["path"])
        for wt, name, src in ((ZERO, "start", 0), (ONE, "end", 1)):
            r = Run(ii, args={2: wt})
            want = r.args[src]
            bad = None
            for path, leaf in leaves_of(lift_adt(r.value)):
                bad = bad or diff(leaf, follow(want, path))
            out(P, "%s:%s" % (name, nm), "interpolating %s at weight %d is exactly the %s value" % (nm, src, name), w, bad)
        r = Run(ii)
        A, B, t, e = r.args
        if nm != "f64":
            # through the scalar interpolation: every component with the weight and the easing given
            ro = Run(ii, opq=opq_scalar)
            A2, B2, t2, e2 = ro.args
            lo = leaves_of(lift_adt(ro.value))
            for path, leaf in lo:
                if leaf.op == "app" and leaf.a[0] == "f32":
                    leaf = leaf.a[1]
                cn = "".join(str(p[3]) if p[0] == "f" else "[%d]" % p[1] for p in path)
                if leaf.op == "app" and leaf.a[0] == "scalar tween":
                    _, a_, b_, wt, ez = leaf.a
                    out(P, "eased:%s" % nm, "component %s of %s follows the easing it is given" % (cn, nm), w, diff(ez, e2))
                    d = diff(wt, t2)
                    if d is None or not (wt.op == "app" and wt.a[0] in ("fclamp", "fmin", "fmax")):
                        out(P, "weighted:%s" % nm, "component %s of %s uses the weight it is given" % (cn, nm), w, d)
        lv = leaves_of(lift_adt(r.value))
        X, Y = sym("X"), sym("Y")
        first = None
        for path, leaf in lv:
            l = subst_many(leaf, {follow(A, path): X, follow(B, path): Y}) if path else subst_many(leaf, {A: X, B: Y})
            cn = "".join(str(p[3]) if p[0] == "f" else "[%d]" % p[1] for p in path)
            clean = not occurs(l, A) and not occurs(l, B)
            out(P, "component:%s" % nm, "component %s of %s depends only on the same component of both ends" % (cn or "value", nm), w, clean, show(l, 0, 6)[:600])
            if not clean:
                continue
            if first is None:
                first = l
            elif l is not first:
                out(P, "uniform:%s" % nm, "all components of %s interpolate the same way" % nm, w, diff(l, first))
        if first is not None and nm == "f64":
            easing_rule(out, first, X, Y, t, e, w)


def easing_rule(out, l, X, Y, t, e, w):
    """between the ends: X + (Y-X)*y(u), (x(u), y(u)) the cubic (0,0) out in (1,1), x(u) = t"""
    l0 = subst_many(l, {X: ZERO, Y: ONE})
    evs = [x for x in apps_of(l0) if x.a[0].endswith("ParamCurve::eval")]
    E = "Easing"
    P = ("C06",)
    ex = lambda h, c: g(g(e, E, h), "EasingHandle", c)
    for x in evs:
        if x.a[1].op != "adt" or not x.a[1].a[0].endswith("CubicBez"):
            continue
        cb = x.a[1]
        pt = lambda a, b: new("Point", x=a, y=b)
        want = new("CubicBez", p0=pt(ZERO, ZERO), p1=pt(ex("o", "x"), ex("o", "y")), p2=pt(ex("i", "x"), ex("i", "y")), p3=pt(ONE, ONE))
        out(P, "easing-curve", "the easing curve runs from (0,0) to (1,1) by the out and then the in handle", w, diff(cb, want))
        for s in [y for y in apps_of(x.a[2]) if y.a[0].endswith("solve_cubic")]:
            x1, x2 = ex("o", "x"), ex("i", "x")
            ws = [neg(t), mul(num(3), x1), mul(num(3), sub(x2, mul(num(2), x1))), add(sub(ONE, mul(num(3), x2)), mul(num(3), x1))]
            out(P, "easing-solve", "the easing curve is entered where its x is the weight", w, diff(mk("x", *s.a[1:]), mk("x", *ws)))
    between(out, l, X, Y, t, e, w)
    # the interpolated value is X + (Y-X)*eased
    es = {x for x in apps_of(l0) if x.a[0].endswith("ParamCurve::eval")}
    if es:
        s_ = {x: sym("E%d" % i) for i, x in enumerate(sorted(es, key=lambda q: q.id))}
        lm = subst_many(l, s_)
        want = None
        for x, v in s_.items():
            y = g(v, "Point", "y")
            if occurs(lm, v):
                d = lift("mid", lambda q: q, lm)
                got = [c for c in _alts(lm) if occurs(c, v)]
                for c in got:
                    out(P, "easing-mix", "the value moves from the start to the end value by the eased weight", w, diff(c, add(X, mul(sub(Y, X), y))))


def between(out, l, X, Y, t, e, w):
    """values other than the eased one: only where the two agree"""
    ex = lambda h, c: g(g(e, "Easing", h), "EasingHandle", c)
    hs = [ex("o", "x"), ex("o", "y"), ex("i", "x"), ex("i", "y")]
    inputs = {X, Y, t, *hs}
    paths = []

    def go(u, lits):
        if u is UNDEF or len(paths) > 400:
            return
        if u.op == "case":
            for o, k in enumerate(u.a[1:]):
                go(k, {**lits, u.a[0]: o})
            return
        if not any(x.a[0].endswith(("ParamCurve::eval", "solve_cubic")) for x in apps_of(u)):
            paths.append((lits, u))
    go(l, {})
    bad = None
    for lits, u in paths:
        if any(x.a[0].endswith(("ParamCurve::eval", "solve_cubic")) for at_ in lits for k in tm._kids(at_.op, at_.a) for x in apps_of(k)):
            continue  # which root: decided with the curve

        def goal(ev):
            # linear easing: the weight is the fraction
            if not 0 < ev.val(t) < 1 or any(ev.outcome(a) != o for a, o in lits.items()):
                return False
            return abs(ev.val(u) - (ev.val(X) + (ev.val(Y) - ev.val(X)) * ev.val(t))) > 1e-9
        lin = ({hs[0]: 0, hs[1]: 0, hs[2]: 1, hs[3]: 1}, {hs[0]: 0.25, hs[1]: 0.25, hs[2]: 0.75, hs[3]: 0.75})
        env = witness.search(lambda q: q in inputs, goal, n=3000, pins=lin)
        if env is not None:
            bad = "%s; %s" % ({show(k, 0, 3): v for k, v in env.items()}, show(u, 0, 5)[:300])
            break
    out(("C06",), "easing-between", "strictly between the ends the value lies on the easing curve", w, bad is None, bad)


def _alts(t):
    if t.op == "case":
        r = []
        for c in t.a[1:]:
            if c is not UNDEF:
                r += [x for x in _alts(c) if x not in r]
        return r
    return [t]


# ------------------------------------------------------------------ freezing
class Freeze:
    def __init__(self):
        self.F = facts()

    def fixed(self, t, ty, depth=0):
        """are all animatable inputs of t (of declared type ty) fixed?"""
        F = self.F
        ty = ty.strip()
        if depth > 6:
            raise Undecided("deeply nested animatable type")
        h = tyhead(ty)
        if h == adtpath("Value"):
            return isv(t, "Value", "Fixed")
        if ty.startswith("("):
            r = TRUE
            for i, x in enumerate(split_tuple(ty)):
                r = and_(r, self.fixed(fld(t, 0, i, "()"), x, depth + 1))
            return r
        m = re.match(r"^(std|core|alloc)::option::Option<(.*)>$", ty)
        if m:
            return opt(t, lambda u: self.fixed(u, m.group(2), depth + 1), TRUE)
        try:
            a = F.adt(h)
        except Exception:
            a = None
        if a is None or not a["local"]:
            return FALSE if adtpath("Time") in ty or adtpath("Value") in ty else TRUE
        if h == adtpath("Time"):
            return FALSE
        vs = []
        for v, var in enumerate(a["variants"]):
            r = TRUE
            for i, f in enumerate(var["f"]):
                r = and_(r, self.fixed(fld(t, v, i, h), f["ty"], depth + 1))
            vs.append(r)
        if len(vs) == 1:
            return vs[0]
        return variant_case(t, len(vs), h, lambda i: vs[i])


def split_tuple(s):
    s = s.strip()[1:-1]
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def freeze_rules(rep):
    out = Out(rep.pid, rep)
    F = facts()
    Z = Freeze()
    P = ("C07",)
    seen = 0
    for i, x in enumerate(F.insts):
        if not (x["local"] and x.get("body") and x.get("name") in ("is_fixed", "into_model")):
            continue
        if any(isinstance(t, int) for t in x["args"]) and F.types[x["args"][0]]["k"] != "param":
            continue
        self_ty = x.get("impl_self") or ""
        h = tyhead(self_ty)
        w = where(x)
        nm = h.split("::")[-2] + "::" + h.split("::")[-1] if "::" in h else h
        a = F.adt(h)
        if x["name"] == "is_fixed":
            r = Run(i)
            rep.analysed(x["path"])
            fx = Z.fixed(r.args[0], h)
            out(P, "is_fixed:" + nm, "%s says it is fixed only if every animatable input is" % nm, w, implies(tobool(r.value), fx))
            seen += 1
            continue
        seen += 1
        r = Run(i, opq=opq_leaf)
        rep.analysed(x["path"])
        s = r.args[0]
        fx = Z.fixed(s, h)
        res = r.value
        # variants of the result: the one carrying the animated value itself, and the frozen one
        ret = None
        st, sn = [res], set()
        while st:
            y = st.pop()
            if y in sn:
                continue
            sn.add(y)
            if y.op == "adt":
                ret = ret or y.a[0]
            elif y.op == "case":
                st.extend(y.a[1:])
        if ret is None or F.adt(ret) is None:
            raise Undecided("%s: result of into_model" % nm)
        av = [k for k, v in enumerate(F.adt(ret)["variants"]) if len(v["f"]) == 1 and tyhead(v["f"][0]["ty"]) == h]
        if len(av) != 1:
            raise Undecided("%s: into_model yields %s" % (nm, ret))
        an = variant_case(res, len(F.adt(ret)["variants"]), ret, lambda k: boolc(k == av[0]))
        out(P, "freeze:" + nm, "%s is frozen only when every animatable input is fixed" % nm, w, implies(not_(tobool(an)), fx))
        keep = variant_case(res, len(F.adt(ret)["variants"]), ret, lambda k: fld(res, k, 0, ret) if k == av[0] else s)
        out(P, "keep:" + nm, "an animated %s is kept as it is" % nm, w, diff(keep, s))
        # the constant
        fv = vidx(ret.split("::", 1)[1] if False else ret, "Fixed") if any(v["n"] == "Fixed" for v in F.adt(ret)["variants"]) else None
        if fv is None:
            raise Undecided("%s has no frozen form" % ret)
        c = fld(res, fv, 0, ret)
        try:
            ei = least("%s::evaluate" % nm)
        except Missing:
            raise Undecided("%s has no evaluate" % nm)
        einst = F.insts[ei]
        argc = einst["body"]["argc"]
        fr = sym("frame")
        args = [s, fr] if argc == 2 else [s, ONE, fr] if argc == 3 and nm.endswith("Brush") else [s, fr, EMPTY]
        cells = {}
        if argc == 3 and not nm.endswith("Brush"):
            cells[("arg", 2)] = EMPTY
            args[2] = mk("mref", ("arg", 2))
        e = Run(ei, args=args, cells=cells, opq=opq_leaf)
        rep.analysed(einst["path"])
        val = defrost(e.value if not cells else e.out(2))
        c = defrost(c)
        # on paths where it is frozen
        frozen = variant_case(res, len(F.adt(ret)["variants"]), ret, lambda k: boolc(k == fv))
        got = ite(tobool(frozen), c, UNIT)
        want = ite(tobool(frozen), tm.restrict(val, tobool(frozen)), UNIT)
        d = diff(got, want)
        if d is not None and (occurs(d[2], fr)):
            # the difference may be an evaluation that cannot happen for fixed inputs
            lits = {}
        out(P, "constant:" + nm, "the constant of a frozen %s is what its evaluation yields at any frame" % nm, w, d)
    if not seen:
        raise Missing("is_fixed")


def opq_leaf(ii, inst, key, args):
    """evaluations of single values stay opaque; of a fixed one the result is known (see value_rules, collapsed:*)"""
    p = re.sub(r"::<.*?>", "", inst["path"])
    if inst["local"] and (p.endswith("Value::evaluate") or p.endswith("Value::evaluate_or")):
        return "Value::evaluate"
    if inst["local"] and p.endswith("model::ColorStops::evaluate"):
        return "ColorStops::evaluate"
    return None


def defrost(t):
    def f(x):
        if x.op == "app" and x.a[0] == "Value::evaluate":
            return path_get(defrost(x.a[1]), "Value", ("Fixed", 0))
        if x.op == "app" and x.a[0] == "ColorStops::evaluate":
            return adt(adtpath(VR), 0, path_get(defrost(x.a[1]), "model::ColorStops", ("Fixed", 0)))
        return None
    return tm.rewrite(t, f)


def implies(a, b):
    """None if a -> b for all outcomes"""
    c = and_(a, not_(b))
    if c is FALSE:
        return None
    d = diff(c, FALSE)
    return d
