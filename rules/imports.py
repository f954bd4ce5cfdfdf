"""Rules on the importer: what of the file reaches the model."""
from .base import *
from .layer import Out, diff, foreign, cubes

KINDS = [("animated_properties::value::FloatValue", "Value<f64>", "Scalar"),
         ("animated_properties::position::Position", "Value<kurbo::Point>", "PosPoint"),
         ("animated_properties::multi_dimensional::MultiDimensional", "Value<kurbo::Point>", "MultiPoint"),
         ("animated_properties::multi_dimensional::MultiDimensional", "Value<kurbo::Vec2>", "MultiVec2"),
         ("animated_properties::multi_dimensional::MultiDimensional", "Value<kurbo::Size>", "MultiSize"),
         ("animated_properties::color_value::ColorValue", "Value<peniko::color::AlphaColor", "ColorOf"),
         ("animated_properties::gradient_colors::GradientColors", "model::ColorStops", "StopsOf"),
         ("helpers::bezier::Bezier", "(std::vec::Vec<kurbo::Point>, bool)", "SplineOf"),
         ("animated_properties::shape_property::ShapeProperty", "Option<runtime::model::Geometry>", "GeometryOf")]


def fnty(inst):
    F = facts()
    L = inst["body"]["locals"]
    n = inst["body"]["argc"]
    return [F.types[L[i + 1]]["s"] for i in range(n)], F.types[L[0]]["s"]


_conv = {}


def conversions():
    """instance -> kind, for the conversion functions of the importer, found by their types"""
    if not _conv:
        F = facts()
        for i, x in enumerate(F.insts):
            if not (x["local"] and x.get("body") and x["body"]["argc"] == 1):
                continue
            a, r = fnty(x)
            for p, q, k in KINDS:
                if a[0].startswith("&") and a[0].split("<")[0].rstrip(">").endswith(p) and q in r and r.startswith(("runtime", "std", "core", "alloc", "(")):
                    _conv[i] = k
    return _conv


def shape_fn():
    F = facts()
    out = []
    for i, x in enumerate(F.insts):
        if x["local"] and x.get("body") and x["body"]["argc"] == 1:
            a, r = fnty(x)
            if a[0].startswith("&") and a[0].endswith("shapes::AnyShape") and "Option<runtime::model::Shape>" in r:
                out.append(i)
    return out


_runs = {}


def run_conv(ii, a):
    key = (ii, a)
    if key not in _runs:
        _runs[key] = Run(ii, args={0: a}, opq=opq()).value
    return _runs[key]


def opq(inline=(), shapes=True, shape_roots=None):
    """the conversions between file and model values stand for themselves; `inline`: kinds that are analysed here"""
    C = conversions()
    S = (shape_roots or callers_outside(shape_fn()) or shape_fn()) if shapes else []

    def f(ii, inst, key, args):
        k = C.get(ii)
        if k is None and ii in S:
            k = "ShapeOf"
        if k is not None and k not in inline:
            def call(c):
                def leaf(a):
                    if a is UNDEF:
                        return a
                    if a.op == "adt":
                        return run_conv(ii, a)
                    return app(k, a)
                return tm.lift("conv:%d" % ii, leaf, c.args[0])
            return call
        if inst.get("name") == "into_model" and inst["local"]:
            return lambda c: tm.lift("into_model", lambda a: a if a is UNDEF else app("into_model", a), c.args[0])
        return None
    return f


# ---------------------------------------------------------------- comparison
STRUCT = {"scan", "proj", "hget", "hitems", "firstk", "sum", "hremoved", "hprev", "hget!"}


def applies(t):
    """number of applications per function symbol"""
    seen, out = set(), {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, tm.T):
            continue
        seen.add(x)
        if x.op == "app":
            n = x.a[0] if isinstance(x.a[0], str) else str(x.a[0])
            out[n] = out.get(n, 0) + 1
        elif x.op in ("hmap", "upd"):
            out[x.op] = out.get(x.op, 0) + 1
        for c in tm._kids(x.op, x.a):
            st.append(c)
    return out


class Imp:
    def __init__(self, rep):
        self.rep = rep
        self.out = Out(rep.pid, rep)
        self.kinds = set(conversions().values()) | ({"ShapeOf"} if shape_fn() else set())
        self.where = ""

    def __call__(self, props, key, what, got, *wants):
        if self.rep.pid not in props:
            return
        first = None
        for w in wants:
            d = diff(got, w)
            if d is None:
                self.rep.ok(what, self.where)
                return
            first = first or d
        u = self.unknown(first)
        if u:
            self.rep.undecided(what, self.where, "the analysis has no rule for %s" % ", ".join(sorted(u)))
        else:
            self.out(props, key, what, self.where, first)

    def unknown(self, d):
        """reasons why a mismatch proves nothing"""
        lits, a, b = d
        ca, cb = applies(a), applies(b)
        out = set()
        for k in [k for _, _, k in KINDS] + ["ShapeOf"]:
            if k in cb and k not in self.kinds:
                out.add("a conversion of kind " + k)
        for n in ca:
            if n in STRUCT | {"upd"} and n not in cb:
                out.add(n)
        for n in cb:
            if n in STRUCT and n not in ca and any(x in STRUCT | {"upd", "hmap"} for x in ca):
                out.add(n)
        return out


def strip(t):
    """a value without the choice between its frozen and its animated form"""
    def leaf(a):
        if a is UNDEF:
            return a
        if a.op == "app" and a.a[0] == "into_model":
            return leaf2(a.a[1])
        if a.op == "adt" and a.a[0] in MODELS() and a.a[1] in MODELS()[a.a[0]]:
            return a.a[2]
        return a

    def leaf2(x):
        return tm.lift("strip2", lambda y: y, x)
    return tm.lift("strip", leaf, t)


_models = {}


def MODELS():
    if not _models:
        for n in ("Transform", "Stroke", "Repeater", "ColorStops", "Brush", "Trim"):
            p = adtpath("model::" + n)
            _models[p] = {vidx("model::" + n, "Animated")}
        p = adtpath("model::Geometry")
        _models[p] = {vidx("model::Geometry", "Star")}
    return _models


_co = {}


def callers_outside(S):
    """members of S that are called from outside S"""
    k = tuple(S)
    if k not in _co:
        _co[k] = _callers_outside(S)
    return _co[k]


def _callers_outside(S):
    F = facts()
    used = set()
    for i, x in enumerate(F.insts):
        if x.get("body") and i not in S and x["local"]:
            for j in F.callees(i):
                used.add(j)
    return [i for i in S if i in used]


def find_fn(args, ret, what):
    F = facts()
    c = []
    for i, x in enumerate(F.insts):
        if x["local"] and x.get("body") and x["body"]["argc"] == len(args) and x["kind"] == "item":
            a, r = fnty(x)
            if all(p in y for p, y in zip(args, a)) and ret(r):
                c.append(i)
    if not c:
        raise Undecided("no function %s" % what)
    return c


# ---------------------------------------------------------------- terms of file values
AL = "schema::layers::AnyLayer"
KIND = {"Null": (), "Solid": (), "Image": (), "Shape": (), "Precomposition": ()}
VIS = "schema::layers::visual::VisualLayer"
LAY = "schema::layers::layer::Layer"
ML = "runtime::model::Layer"


def value_fixed(x):
    return adt(adtpath("Value"), vidx("Value", "Fixed"), x)


def sc(t):
    return app("Scalar", t)


def conv(kind, t):
    return app(kind, t)


def default_pt(ty, x, y):
    a, b = {"Point": ("x", "y"), "Vec2": ("x", "y"), "Size": ("width", "height")}[ty]
    return value_fixed(new("kurbo::" + ty, **{a: num(x), b: num(y)}))


def opt_sc(t, d):
    return opt(t, sc, value_fixed(num(d)))


def is_true(t):
    """an optional integer boolean of the file is set"""
    return opt(t, lambda u: isv(u, "BoolInt", "True"), FALSE)


def opt_bool(t):
    return opt(t, tobool, FALSE)


def xf_fields(xf):
    """field -> expected value of the transform loaded from the file's transform xf"""
    T = "schema::helpers::transform::Transform"
    G = lambda *f: path_get(xf, T, *f)
    AP, PR, AR = "animated::Position", "AnyTransformP", "AnyTransformR"
    p = G("position")
    sp = G("position", ("SplitPosition", 0))
    SV = tyhead(facts().adt(adtpath(PR))["variants"][vidx(PR, "SplitPosition")]["f"][0]["ty"])
    pos = vcase(p, PR,
                Position=lambda: adt(adtpath(AP), vidx(AP, "Value"), conv("PosPoint", G("position", ("Position", 0)))),
                SplitPosition=lambda: adt(adtpath(AP), vidx(AP, "SplitValues"), tup(sc(path_get(sp, SV, "x")), sc(path_get(sp, SV, "y")))))
    rot = opt(G("rotation"), lambda u: vcase(u, AR, Rotation=lambda: sc(path_get(u, AR, ("Rotation", 0))),
              SplitRotation=lambda: sc(path_get(u, AR, ("SplitRotation", "z_rotation")))), value_fixed(ZERO))
    return {
        "anchor": opt(G("anchor_point"), lambda u: conv("PosPoint", u), default_pt("Point", 0, 0)),
        "position": pos,
        "rotation": rot,
        "scale": opt(G("scale"), lambda u: conv("MultiVec2", u), default_pt("Vec2", 100, 100)),
        "skew": opt_sc(G("skew"), 0),
        "skew_angle": opt_sc(G("skew_axis"), 0),
    }, opt_sc(G("opacity"), 100)


def check_xf(I, name, props, got, xf):
    want, _ = xf_fields(xf)
    got = strip(got)
    for f, w in want.items():
        ps = props + (("C26",) if f != "position" else ())
        I(ps, "%s.transform.%s" % (name, f), "%s: transform %s comes from that property of the file, with its default when absent" % (name, f),
          g(got, "animated::Transform", f), w)


# ---------------------------------------------------------------- layers
BLEND = ("Multiply Screen Overlay Darken Lighten ColorDodge ColorBurn HardLight SoftLight Difference Exclusion Hue Saturation Color "
         "Luminosity").split()


def mix(m):
    return new("peniko::BlendMode", mix=unit("peniko::Mix", m), compose=unit("peniko::Compose", "SrcOver"))


def compose(m):
    return new("peniko::BlendMode", mix=unit("peniko::Mix", "Normal"), compose=unit("peniko::Compose", m))


def vis_of(L, kind):
    return path_get(L, AL, (kind, 0), "visual_layer")


def lay(v, *f):
    return path_get(v, VIS, "layer", *f)


def index_of(L):
    return vcase(L, AL, **{k: (lambda k=k: opt(lay(vis_of(L, k), "index"), lambda u: u, ZERO)) for k in KIND})


def lookup(S, key):
    """position in the layer array S of the layer with this index"""
    j = fresh("j")
    m = mk("hmap", each(len_(S), j, seq([one(tup(index_of(at(S, j)), j))])))
    return mk("app", "hget", m, key)


def is_mask_of(v):
    h = opt_bool(lay(v, "hidden"))
    return and_(not_(h), is_true(path_get(v, VIS, "matte_target")))


def prev_matte(S, K):
    """the matte source a matted layer without a reference uses"""
    s, k = fresh("s"), fresh("k")
    L = at(S, k)

    def step(kind):
        v = vis_of(L, kind)
        m = path_get(v, VIS, "matte_mode")
        return ite(is_mask_of(v), some(k), opt(m, lambda u: NONE, s))
    body = vcase(L, AL, **{n: (lambda n=n: step(n)) for n in KIND})
    return mk("app", "proj", mk("app", "scan", tup(NONE), lam(2, [s, k], tup(body)), K), ZERO)


MATTE = {"Alpha": "SrcIn", "Luma": "SrcIn", "InvertedAlpha": "SrcOut", "InvertedLuma": "SrcOut"}


def layer_array(I, where_, LT, S):
    """LT: the layers made of the file's layers S"""
    name = where_
    A = ("C10", "C13", "C14", "C11")
    I(A, where_ + ":count", "%s: every layer of the file is loaded, once and in order" % where_, len_(LT), len_(S))
    K = sym("K")
    LK = at(LT, K)
    src = at(S, K)
    n = len(facts().adt(adtpath(AL))["variants"])
    for kind in KIND:
        A1 = {mk("isvar", src, n, adtpath(AL)): vidx(AL, kind)}
        L = assume(LK, A1)
        v = vis_of(src, kind)
        V = lambda *f: path_get(v, VIS, *f)
        nm = "%s, %s layer" % (where_, kind.lower())
        kk = "%s.%s" % ("precomp" if "precomp" in where_ else "top", kind)
        F_ = lambda f: g(L, ML, f)

        def c(props, f, what, *wants, got=None):
            I(props, kk + "." + f, "%s: %s" % (nm, what), F_(f) if got is None else got, *[assume(w, A1) for w in wants])
        c(("C14", "C31"), "name", "its name is the one in the file", opt(V("layer", "visual_object", "name"), lambda u: u, EMPTY))
        check_xf(I, kk, ("C14", "C08"), F_("transform"), V("transform"))
        c(("C14", "C09", "C26"), "opacity", "its opacity is that of the file, 100% when absent", xf_fields(V("transform"))[1])
        b = V("blend_mode")
        nb = len(facts().adt(adtpath("constants::blend_mode::BlendMode"))["variants"])
        bp = adtpath("constants::blend_mode::BlendMode")
        got = F_("blend_mode")
        c(("C14", "C15", "C26"), "blend_mode.absent", "an absent blend mode is normal", NONE, got=assume(got, {mk("isvar", b, 2, OPT): 0}))
        for m in ["Normal", "Add"] + BLEND:
            w = NONE if m == "Normal" else some(compose("Plus")) if m == "Add" else some(mix(m))
            c(("C15", "C14") if m == "Overlay" else ("C15",), "blend_mode." + m, "blend mode %s keeps its meaning" % m, w,
              got=assume(got, {mk("isvar", b, 2, OPT): 1, mk("isvar", unwrap(b), nb, bp): vidx("constants::blend_mode::BlendMode", m)}))
        c(("C14", "C26", "C27"), "stretch", "its time stretch is that of the file, 1 when absent", opt(V("layer", "time_stretch"), lambda u: u, ONE))
        if kind == "Precomposition":
            PL = "schema::layers::precomposition::PrecompositionLayer"
            p = path_get(src, AL, (kind, 0))
            c(("C14", "C26", "C27"), "start_frame", "its start frame is that of the file", path_get(p, PL, "start_time"))
            c(("C14",), "width", "its width is that of the file", path_get(p, PL, "width"))
            c(("C14",), "height", "its height is that of the file", path_get(p, PL, "height"))
        else:
            c(("C14", "C26"), "start_frame", "its start frame is that of the file, 0 when absent", opt(V("layer", "start_time"), lambda u: u, ZERO))
            c(("C14",), "width", "only precompositions have a size", ZERO)
            c(("C14",), "height", "only precompositions have a size", ZERO)
        rg = adtpath("std::ops::Range")
        c(("C14", "C10"), "frames.start", "it starts at the in-point", V("layer", "in_point"), got=fld(F_("frames"), 0, 0, rg))
        c(("C14", "C10"), "frames.end", "it ends at the out-point", V("layer", "out_point"), got=fld(F_("frames"), 0, 1, rg))
        # masks
        ms = V("masks_properties")
        MK = "schema::helpers::mask::Mask"
        RM = "runtime::model::Mask"

        def masks(u):
            j = fresh("j")
            m = at(u, j)
            gm = app("GeometryOf", unwrap(path_get(m, MK, "shape")))
            e = opt(path_get(m, MK, "shape"), lambda s: opt(gm, lambda q: seq([one(new(
                RM, mode=mix("Normal"), geometry=q, opacity=opt_sc(path_get(m, MK, "opacity"), 100)))]), EMPTY), EMPTY)
            return each(len_(u), j, e)
        c(("C14", "C32", "C26"), "masks", "its masks are those of the file that have a shape, in order", opt(ms, masks, EMPTY))
        c(("C14", "C10"), "is_mask", "it is a matte source when the file marks it so and it is not hidden", is_mask_of(v), got=tobool(F_("is_mask")))
        # content
        CT = "runtime::model::Content"
        hid = opt_bool(lay(v, "hidden"))
        h0 = [o for o in cubes(not_(hid))]
        h1 = [o for o in cubes(hid)]
        ct = F_("content")
        for o in h1:
            c(("C10", "C14"), "content.hidden", "a hidden layer has no content", unit(CT, "None"), got=assume(ct, o))
        for o in h0:
            got = assume(ct, o)
            if kind == "Shape":
                sh = path_get(src, AL, (kind, 0), "shapes")
                j = fresh("j")
                r = app("ShapeOf", at(sh, j))
                w = adt(adtpath(CT), vidx(CT, "Shape"), each(len_(sh), j, opt(r, lambda q: seq([one(q)]), EMPTY)))
                c(("C11", "C14", "C22", "C10"), "content.shapes", "its shapes are the supported shapes of the file in their order", w, got=got)
            elif kind == "Precomposition":
                PL = "schema::layers::precomposition::PrecompositionLayer"
                p = path_get(src, AL, (kind, 0))
                c(("C14", "C27"), "content.name", "it draws the asset with the id it refers to", path_get(p, PL, "ref_id"), got=path_get(got, CT, ("Instance", "name")))
                c(("C14", "C27", "C22"), "content.time_remap", "its time remap is that of the file, none when absent",
                  opt(path_get(p, PL, "time_remap"), lambda u: some(sc(u)), NONE), got=path_get(got, CT, ("Instance", "time_remap")))
                c(("C14", "C27"), "content.kind", "it is a precomposition", TRUE, got=isv(got, CT, "Instance"))
            else:
                c(("C14", "C10"), "content", "a %s layer has no content" % kind.lower(), unit(CT, "None"), got=got)
        # references
        pi = V("layer", "parent_index")
        c(("C13", "C14", "C27"), "parent", "its parent is the layer of the same array whose index is the parent index, if any",
          opt(pi, lambda u: lookup(S, u), NONE))
        mm = V("matte_mode")
        MM = "MatteMode"
        mi = V("matte_layer_index")
        ml = F_("mask_layer")
        c(("C13", "C14"), "mask_layer.none", "without a matte mode it is not matted", NONE, got=assume(ml, {mk("isvar", mm, 2, OPT): 0}))
        nmm = len(facts().adt(adtpath(MM))["variants"])
        for m, cm in MATTE.items():
            A2 = {mk("isvar", mm, 2, OPT): 1, mk("isvar", unwrap(mm), nmm, adtpath(MM)): vidx(MM, m)}
            got = assume(ml, A2)
            want = compose(cm)
            c(("C15", "C32"), "matte_mode." + m, "matte mode %s keeps its meaning" % m, want, got=opt(got, lambda u: fld(u, 0, 0, "()"), want))
            ref = opt(got, lambda u: some(fld(u, 0, 1, "()")), NONE)
            if m != "Alpha" and kind != "Shape":
                continue
            c(("C13", "C14", "C32"), "matte.explicit", "its explicit matte source is the layer of the same array with that index, if any",
              lookup(S, mk("app", "toint", unwrap(mi), mk("str", "usize"))), got=assume(ref, {mk("isvar", mi, 2, OPT): 1}))
            c(("C13", "C14", "C32"), "matte.implicit", "without a reference the matte source is the nearest preceding unused one",
              prev_matte(S, K), got=assume(ref, {mk("isvar", mi, 2, OPT): 0}))


def composition_fn():
    c = find_fn(["schema::"], lambda r: r.endswith("runtime::Composition"), "from a parsed animation to a composition")
    c = [i for i in c if fnty(facts().insts[i])[0][0].endswith("Animation")]
    if not c:
        raise Undecided("no function from a parsed animation to a composition")
    return c[0]


_comp = {}


def composition_run():
    if "r" not in _comp:
        _comp["r"] = Run(composition_fn(), opq=opq())
    return _comp["r"]


def layer_rules(rep):
    I = Imp(rep)
    r = composition_run()
    rep.analysed(r.inst["path"], *sorted({x for x in getattr(r.ip, "fns", ())}))
    I.where = where(r.inst)
    a = r.args[0]
    AN, RC = "schema::animation::animation::Animation", "runtime::Composition"
    V = r.value
    G = lambda *f: path_get(a, AN, *f)
    rg = adtpath("std::ops::Range")
    P = ("C19",)
    I(P, "frames.start", "the frame range starts at the in-point of the file", fld(g(V, RC, "frames"), 0, 0, rg), G("in_point"))
    I(P, "frames.end", "the frame range ends at the out-point of the file", fld(g(V, RC, "frames"), 0, 1, rg), G("out_point"))
    for f in ("frame_rate", "width", "height"):
        I(P, f, "the %s is that of the file" % f.replace("_", " "), g(V, RC, f), G(f))
    layer_array(I, "top level", g(V, RC, "layers"), G("composition", "layers"))
    for f, nm in ((small_composition, "a small composition is loaded"), (few_layers, "compositions of few layers")):
        try:
            f(I)
        except Undecided as e:
            rep.undecided(nm, I.where, str(e))
    # assets
    m = g(V, RC, "assets")
    as_ = G("assets")
    AA = "schema::assets::AnyAsset"
    na = len(facts().adt(adtpath(AA))["variants"])
    got = m.a[0] if m.op == "hmap" else None
    if got is None:
        rep.undecided("the assets of the file are loaded", I.where, "the asset table is not a map built from the asset list")
        return
    Q = ("C27", "C13", "C14", "C11", "C10", "C31")
    I(("C27",), "assets.absent", "without assets the asset table is empty", assume(got, {mk("isvar", as_, 2, OPT): 0}), EMPTY)
    got = assume(got, {mk("isvar", as_, 2, OPT): 1})
    it = list(seqitems(got))
    if len(it) != 1 or it[0].op != "each":
        rep.undecided("the assets of the file are loaded", I.where, "the asset table is not one pass over the asset list")
        return
    I(("C27",), "assets.all", "every asset of the file is considered", it[0].a[1], len_(unwrap(as_)))
    k = sym("A")
    src = at(unwrap(as_), k)
    body = open_each(it[0], k)
    iv = mk("isvar", src, na, adtpath(AA))
    for i, v in enumerate(facts().adt(adtpath(AA))["variants"]):
        e = assume(body, {iv: i})
        if v["n"] != "Precomposition":
            I(("C27",), "assets." + v["n"], "an asset of kind %s is no precomposition" % v["n"], e, EMPTY)
            continue
        its = list(seqitems(e))
        if len(its) != 1 or its[0].op != "one":
            I(("C27",), "assets.precomp", "a precomposition is entered under its id", len_(e), ONE)
            continue
        e = its[0].a[0]
        pc = path_get(src, AA, (v["n"], 0))
        PT = tyhead(v["f"][0]["ty"])
        I(("C27", "C14"), "assets.id", "a precomposition is entered under its id", fld(e, 0, 0, "()"), path_get(pc, PT, "asset", "id"))
        layer_array(I, "precomposition", fld(e, 0, 1, "()"), path_get(pc, PT, "composition", "layers"))


def small_composition(I):
    """lists of known length, with unknown elements"""
    F = facts()
    AN, CO, RC = "schema::animation::animation::Animation", "schema::animation::composition::Composition", "runtime::Composition"
    MK, RM, CT = "schema::helpers::mask::Mask", "runtime::model::Mask", "runtime::model::Content"
    if I.rep.pid in ("C32", "C14", "C11", "C22", "C31"):
        for kind in KIND:
            v = F.adt(adtpath(AL))["variants"][vidx(AL, kind)]
            ms = [filled(MK, tag="m%d" % i, shape=some(sym("shape%d" % i)), opacity=some(sym("op%d" % i))) for i in range(3)]
            vis = filled(VIS, tag="v", masks_properties=some(seq([one(m) for m in ms])), layer=filled(LAY, tag="l", hidden=NONE),
                         matte_mode=NONE, blend_mode=NONE)
            kw = {"visual_layer": vis}
            if kind == "Shape":
                kw["shapes"] = seq([one(sym("s%d" % i)) for i in range(3)])
            L = adt(adtpath(AL), vidx(AL, kind), filled(tyhead(v["f"][0]["ty"]), tag="x", **kw))
            a = filled(AN, composition=filled(CO, layers=seq([one(L)])), assets=NONE)
            r = Run(composition_fn(), args={0: a}, opq=opq())
            nm = "a %s layer on its own" % kind.lower()
            lt = g(r.value, RC, "layers")
            I(("C14", "C11"), "one." + kind, nm + " is loaded", len_(lt), ONE)
            got = g(at(lt, ZERO), ML, "masks")
            gs = [app("GeometryOf", sym("shape%d" % i)) for i in range(3)]
            have = {q: b for x in gs for q, b in tm.literals(is_some(x)).items()}
            want = seq([one(new(RM, mode=mix("Normal"), geometry=unwrap(gs[i]), opacity=sc(sym("op%d" % i)))) for i in range(3)])
            I(("C14", "C32"), "one.%s.masks" % kind, nm + " with three masks has these three in order", assume(got, have), want)
            if kind == "Shape":
                hs = [app("ShapeOf", sym("s%d" % i)) for i in range(3)]
                have = {q: b for x in hs for q, b in tm.literals(is_some(x)).items()}
                want = seq([one(unwrap(x)) for x in hs])
                I(("C14", "C11", "C22"), "one.Shape.shapes", nm + " with three shapes has these three in order",
                  assume(path_get(g(at(lt, ZERO), ML, "content"), CT, ("Shape", 0)), have), want)
    if I.rep.pid in ("C27", "C19", "C14"):
        AA = "schema::assets::AnyAsset"
        v = F.adt(adtpath(AA))["variants"][vidx(AA, "Precomposition")]
        PT = tyhead(v["f"][0]["ty"])
        aty = [f["ty"] for f in F.adt(adtpath(PT))["variants"][0]["f"] if f["n"] == "asset"]
        pc = filled(PT, tag="pc", asset=filled(tyhead(aty[0]), tag="as", id=sym("ID")), composition=filled(CO, tag="co", layers=EMPTY))
        a = filled(AN, composition=filled(CO, layers=EMPTY), assets=some(seq([one(adt(adtpath(AA), vidx(AA, "Precomposition"), pc))])))
        r = Run(composition_fn(), args={0: a}, opq=opq())
        m = g(r.value, RC, "assets")
        its = hmap_items(m)
        if its is None:
            I.rep.undecided("an empty precomposition is entered under its id", I.where, "the asset table is not a map with known entries")
        else:
            I(("C27", "C19", "C14"), "asset.id", "an empty precomposition is entered under its id", its, seq([one(tup(sym("ID"), EMPTY))]))


# layers of a composition: (index, start, references): p parent, s matte source, m matted, t its explicit source, h hidden
def ly(ind, start, **refs):
    return ind, start, refs


FEW = {
    "indices that do not ascend": [ly(7, 4), ly(2, 9), ly(5, 1)],
    "starts that do not ascend": [ly(1, 30), ly(2, 20), ly(3, 10), ly(4, 0)],
    "parents behind and ahead": [ly(3, 4, p=8), ly(8, 9, p=5), ly(5, 1, p=3)],
    "a parent that is missing": [ly(1, 0, p=4), ly(2, 1, p=1)],
    "a parent without an index": [ly(None, 0), ly(4, 5, p=0), ly(2, 3, p=4)],
    "parent index 0 without such a layer": [ly(4, 0, p=0), ly(3, 0)],
    "a layer that is its own parent": [ly(4, 1, p=4), ly(6, 0, p=4)],
    "a parent by index, not by position": [ly(5, 1), ly(6, 2), ly(1, 3), ly(2, 0, p=1)],
    "a matte and its source": [ly(4, 2, s=1), ly(2, 1, m=1)],
    "two mattes of one source": [ly(1, 2, s=1), ly(2, 1, m=1), ly(3, 0, m=1)],
    "a layer between a matte and its source": [ly(6, 2, s=1), ly(2, 1), ly(3, 0, m=1)],
    "two sources": [ly(1, 2, s=1), ly(2, 1, s=1), ly(3, 0, m=1), ly(4, 5, m=1)],
    "a source behind its matte": [ly(1, 2, m=1), ly(2, 1, s=1)],
    "a source that is matted": [ly(1, 2, s=1), ly(2, 1, s=1, m=1), ly(3, 0, m=1)],
    "a source that is matted by another": [ly(4, 0, s=1), ly(1, 2, s=1, m=1, t=4), ly(3, 0, m=1), ly(9, 0, m=1)],
    "an explicit source": [ly(4, 2, s=1), ly(2, 1, s=1), ly(3, 0, m=1, t=4), ly(9, 0, m=1)],
    "an explicit source ahead": [ly(4, 2, m=1, t=9), ly(2, 1), ly(9, 0, s=1), ly(3, 0, m=1)],
    "an explicit source that is no matte source": [ly(4, 2), ly(2, 1, s=1), ly(3, 0, m=1, t=4), ly(5, 0, m=1)],
    "an explicit source that is missing": [ly(4, 2, s=1), ly(2, 1, m=1, t=7), ly(3, 0, m=1)],
    "an explicit source without a matte mode": [ly(4, 2, s=1), ly(2, 1, t=4), ly(3, 0, m=1)],
    "a hidden source": [ly(4, 2, s=1, h=1), ly(2, 1, m=1)],
    "a hidden source after another": [ly(4, 2, s=1), ly(6, 0, s=1, h=1), ly(2, 1, m=1)],
    "a hidden matted layer": [ly(4, 2, s=1), ly(6, 0, m=1, h=1), ly(2, 1, m=1)],
    "a hidden parent": [ly(4, 2, h=1), ly(6, 0, p=4)],
    "mattes and parents at once": [ly(2, 8, s=1, p=5), ly(5, 3, m=1, p=9), ly(9, 1, s=1), ly(4, 0, m=1, p=2)],
}


def few_layers(I):
    """compositions of a few layers with given indices, references and matte flags, all else unknown"""
    if I.rep.pid not in ("C10", "C11", "C13", "C14", "C27"):
        return
    F = facts()
    AN, CO, RC = "schema::animation::animation::Animation", "schema::animation::composition::Composition", "runtime::Composition"
    AA, BI = "schema::assets::AnyAsset", "BoolInt"
    rg = adtpath("std::ops::Range")
    pcv = F.adt(adtpath(AA))["variants"][vidx(AA, "Precomposition")]
    PT = tyhead(pcv["f"][0]["ty"])
    flag = lambda b: some(unit(BI, "True")) if b else NONE
    for nm, ls in FEW.items():
        kinds = ("Null", "Shape", "Solid", "Null")
        src = []
        for i, (ind, start, q) in enumerate(ls):
            v = F.adt(adtpath(AL))["variants"][vidx(AL, kinds[i])]
            vis = filled(VIS, tag="v%d" % i, masks_properties=NONE, blend_mode=NONE, matte_target=flag(q.get("s")),
                         matte_mode=some(unit("MatteMode", "Alpha")) if q.get("m") else NONE, matte_layer_index=some(num(q["t"])) if "t" in q else NONE,
                         layer=filled(LAY, tag="l%d" % i, hidden=some(TRUE) if q.get("h") else NONE, index=NONE if ind is None else some(num(ind)),
                                      parent_index=some(num(q["p"])) if "p" in q else NONE, in_point=num(start), out_point=num(start + 50), start_time=NONE, time_stretch=NONE))
            kw = {"visual_layer": vis}
            if kinds[i] == "Shape":
                kw["shapes"] = EMPTY
            src.append(one(adt(adtpath(AL), vidx(AL, kinds[i]), filled(tyhead(v["f"][0]["ty"]), tag="x%d" % i, **kw))))
        pos = lambda ref: ([some(num(i)) for i, l in enumerate(ls) if (l[0] or 0) == ref] or [NONE])[-1]
        # a second composition with the same indices elsewhere: references must not reach it
        co = filled(CO, tag="c", layers=seq(src))
        other = filled(CO, tag="d", layers=seq(src[::-1]))
        pc = adt(adtpath(AA), vidx(AA, "Precomposition"), filled(PT, tag="pc", composition=other))
        r = Run(composition_fn(), args={0: filled(AN, composition=co, assets=some(seq([one(pc)])))}, opq=opq())
        lt = g(r.value, RC, "layers")
        I(("C14", "C11", "C10"), "few." + nm, nm + ": every layer is loaded", len_(lt), num(len(ls)))
        prev = None
        for i, (ind, start, q) in enumerate(ls):
            L = at(lt, num(i))
            f = lambda n: g(L, ML, n)
            w = "%s, layer %d: " % (nm, i + 1)
            I(("C11", "C14"), "few.%s.%d.order" % (nm, i), w + "layers keep the order of the file", fld(f("frames"), 0, 0, rg), num(start))
            I(("C13", "C14", "C27"), "few.%s.%d.parent" % (nm, i), w + "its parent", f("parent"), pos(q["p"]) if "p" in q else NONE)
            s = bool(q.get("s") and not q.get("h"))
            want = NONE
            if q.get("m"):
                want = pos(q["t"]) if "t" in q else NONE if prev is None else some(num(prev))
            I(("C13", "C14"), "few.%s.%d.matte" % (nm, i), w + "its matte source", opt(f("mask_layer"), lambda u: some(fld(u, 0, 1, "()")), NONE), want)
            I(("C14", "C10"), "few.%s.%d.is_mask" % (nm, i), w + "whether it is a matte source", tobool(f("is_mask")), boolc(s))
            prev = i if s else None if q.get("m") else prev


def hmap_items(m):
    """the entries of a map, whatever the decisions"""
    if m.op == "case":
        ks = [hmap_items(k) for k in m.a[1:]]
        return None if any(k is None for k in ks) else tm.case2(m.a[0], ks)
    if m.op == "hmap":
        return m.a[0]
    return m if m is EMPTY else None


# ---------------------------------------------------------------- shapes
AS = "schema::shapes::AnyShape"
CAPS = {"Butt": "Butt", "Round": "Round", "Square": "Square"}
JOINS = {"Bevel": "Bevel", "Round": "Round", "Miter": "Miter"}


def shape_root():
    S = shape_fn()
    if not S:
        raise Undecided("no conversion of shapes")
    r = callers_outside(S) or S
    if len(r) != 1:
        raise Undecided("several conversions of shapes")
    return r[0]


def shape_rules(rep):
    I = Imp(rep)
    ii = shape_root()
    r = Run(ii, opq=opq(shape_roots=[ii]))
    rep.analysed(r.inst["path"])
    I.where = where(r.inst)
    s = r.args[0]
    vs = facts().adt(adtpath(AS))["variants"]
    iv = mk("isvar", s, len(vs), adtpath(AS))
    SH, GE, DR = "runtime::model::Shape", "runtime::model::Geometry", "runtime::model::Draw"

    def case_of(kind):
        return assume(r.value, {iv: vidx(AS, kind)})

    def P(kind, *f):
        v = vs[vidx(AS, kind)]
        return path_get(path_get(s, AS, (kind, 0)), tyhead(v["f"][0]["ty"]), *f)

    def payload(kind, got, variant, what):
        I(("C22",), "%s.kind" % kind, "a %s is loaded as %s" % (kind, what), opt(got, lambda u: isv(u, SH, variant), FALSE), TRUE)
        return opt(got, lambda u: path_get(u, SH, (variant, 0)), UNDEF)

    def fields(kind, props, ty, got, want):
        for f, w in want.items():
            I(props, "%s.%s" % (kind, f), "%s: its %s comes from that field of the file" % (kind, f.replace("_", " ")), g(got, ty, f),
              *(w if isinstance(w, tuple) else (w,)))

    def geometry(kind, variant, ty, want):
        p = payload(kind, case_of(kind), "Geometry", "a geometry")
        p = strip(p)
        I(("C22",), "%s.geometry" % kind, "a %s is loaded as %s geometry" % (kind, variant), isv(p, GE, variant) if variant != "Star" or p.op == "adt" and p.a[0] == adtpath(GE) else TRUE, TRUE)
        q = path_get(p, GE, (variant, 0)) if variant != "Star" else p
        fields(kind, ("C22", "C33"), ty, q, want)
        return q
    geometry("Ellipse", "Ellipse", "animated::Ellipse", {"position": conv("PosPoint", P("Ellipse", "position")), "size": conv("MultiSize", P("Ellipse", "size"))})
    geometry("Rectangle", "Rect", "animated::Rect", {"position": conv("PosPoint", P("Rectangle", "position")), "size": conv("MultiSize", P("Rectangle", "size")),
                                                     "corner_radius": sc(P("Rectangle", "rounded_corner_radius"))})
    # path
    pg = app("GeometryOf", P("Path", "shape_property"))
    got = case_of("Path")
    I(("C22",), "Path", "a path is loaded as the geometry of its shape property", got,
      opt(pg, lambda u: some(adt(adtpath(SH), vidx(SH, "Geometry"), u)), NONE))
    # star and polygon
    PS = "PolyStar"
    st = P(PS, "star_type")
    nst = len(facts().adt(adtpath("StarType"))["variants"])
    zero = value_fixed(ZERO)
    own = {"position": conv("PosPoint", P(PS, "position")), "outer_radius": sc(P(PS, "outer_radius")), "outer_roundness": sc(P(PS, "outer_roundness")),
           "rotation": sc(P(PS, "rotation")), "points": sc(P(PS, "points"))}
    q = geometry(PS, "Star", "animated::Star", own)
    ist = mk("isvar", st, nst, adtpath("StarType"))
    T = "animated::Star"
    I(("C22", "C15"), PS + ".is_polygon", "a polygon is a polygon and a star a star", tobool(g(q, T, "is_polygon")), isv(st, "StarType", "Polygon"))
    qs = assume(q, {ist: vidx("StarType", "Star")})
    for f in ("inner_radius", "inner_roundness"):
        I(("C22", "C33"), PS + "." + f, "star: its %s comes from that field of the file" % f.replace("_", " "), g(qs, T, f), opt(P(PS, f), sc, zero))
    # draws
    for kind in ("Fill", "Stroke", "GradientFill", "GradientStroke"):
        d = payload(kind, case_of(kind), "Draw", "a fill or stroke")
        I(("C22", "C09"), kind + ".opacity", "%s: its opacity comes from that field of the file" % kind, g(d, DR, "opacity"), sc(P(kind, "shape_style", "opacity")))
        k = g(d, DR, "stroke")
        if "Stroke" in kind:
            I(("C22",), kind + ".stroke", "a %s strokes" % kind, is_some(k), TRUE)
            t = strip(opt(k, lambda u: u, UNDEF))
            B = lambda f: P(kind, "base_stroke", f)
            AT = "animated::Stroke"
            fields(kind, ("C22", "C33"), AT, t, {"width": sc(B("width")), "miter_limit": B("miter_limit")})
            for f, src, ty, kt, tab in (("cap", B("line_cap"), "LineCap", "kurbo::Cap", CAPS), ("join", B("line_join"), "LineJoin", "kurbo::Join", JOINS)):
                n = len(facts().adt(adtpath(ty))["variants"])
                for a, b in tab.items():
                    I(("C15", "C22"), "%s.%s.%s" % (kind, f, a), "%s: line %s %s keeps its meaning" % (kind, f, a),
                      assume(g(t, AT, f), {mk("isvar", src, 2, OPT): 1, mk("isvar", unwrap(src), n, adtpath(ty)): vidx(ty, a)}), unit(kt, b))
        else:
            I(("C22",), kind + ".stroke", "a %s fills" % kind, k, NONE)
        b = strip(g(d, DR, "brush"))
        AB, AG = "animated::Brush", "animated::Gradient"
        if kind.startswith("Gradient"):
            I(("C22",), kind + ".brush", "a %s has a gradient brush" % kind, isv(b, AB, "Gradient"), TRUE)
            q = path_get(b, AB, ("Gradient", 0))
            G = lambda f: P(kind, "gradient", f)
            fields(kind, ("C22", "C33"), AG, q, {"start_point": conv("MultiPoint", G("start_point")), "end_point": conv("MultiPoint", G("end_point"))})
            I(("C22", "C21"), kind + ".stops", "%s: its stops come from the colours of the file" % kind, g(q, AG, "stops"), app("StopsOf", G("colors")))
            gt = G("gradient_type")
            ng = len(facts().adt(adtpath("GradientType"))["variants"])
            for v in ("Linear", "Radial"):
                I(("C15", "C22"), "%s.gradient_type.%s" % (kind, v), "%s: gradient type %s keeps its meaning" % (kind, v),
                  assume(tobool(g(q, AG, "is_radial")), {mk("isvar", gt, 2, OPT): 1, mk("isvar", unwrap(gt), ng, adtpath("GradientType")): vidx("GradientType", v)}),
                  boolc(v == "Radial"))
        else:
            I(("C22",), kind + ".brush", "a %s has a solid brush of its colour" % kind, b,
              adt(adtpath(AB), vidx(AB, "Solid"), conv("ColorOf", P(kind, "color" if kind == "Fill" else "stroke_color"))))
    # trim
    t = strip(payload("Trim", case_of("Trim"), "Trim", "a trim"))
    fields("Trim", ("C22", "C33"), "animated::Trim", t, {f: sc(P("Trim", f)) for f in ("start", "end", "offset")})
    # unsupported kinds
    for k in ("PuckerBloat", "Merge", "OffsetPath", "Twist", "RoundedCorners", "Transform"):
        if facts().variant(adtpath(AS), k) is not None:
            I(("C22",), "unsupported." + k, "an unsupported %s is skipped" % k, case_of(k), NONE)
    # groups
    got = case_of("Group")
    items = P("Group", "shapes")
    gi = opt(got, lambda u: path_get(u, SH, ("Group", 0)), EMPTY)
    gx = opt(got, lambda u: path_get(u, SH, ("Group", 1)), UNDEF)
    I(("C22",), "Group.kind", "a group is loaded as a group", opt(got, lambda u: isv(u, SH, "Group"), TRUE), TRUE)
    its = list(seqitems(drop_empty(gi)))
    nm = "a group keeps all its supported children in order"
    if len(its) != 1 or its[0].op != "each":
        rep.undecided(nm, I.where, "the children are not one pass over the items")
    else:
        I(("C22", "C11"), "Group.all", nm, its[0].a[1], len_(items))
        k = sym("I")
        body = open_each(its[0], k)
        e = at(items, k)
        q = mk("isvar", e, len(vs), adtpath(AS))
        so = app("ShapeOf", e)
        w = opt(so, lambda u: seq([one(u)]), EMPTY)
        for i, v in enumerate(vs):
            b = assume(body, {q: i})
            if v["n"] == "Transform":
                I(("C22",), "Group.item.Transform", "the transform item of a group is not one of its shapes", b, EMPTY, w)
            else:
                I(("C22", "C11"), "Group.item." + v["n"], nm, b, assume(w, {q: i}))
    # its transform
    if I.rep.pid in ("C22", "C08", "C09", "C26"):
        a, k = fresh("s"), fresh("k")
        e = at(items, k)
        TS = "schema::shapes::transform::TransformShape"
        xf = path_get(path_get(e, AS, ("Transform", 0)), TS, "transform")
        w, op = xf_fields(xf)
        AT, GT = "animated::Transform", "runtime::model::GroupTransform"
        gt = some(new(GT, transform=app("into_model", new(AT, **w)), opacity=op))
        body = vcase(e, AS, Transform=lambda: gt, _=lambda: a)
        last = mk("app", "proj", mk("app", "scan", tup(NONE), lam(2, [a, k], tup(body)), len_(items)), ZERO)
        body1 = vcase(e, AS, Transform=lambda: opt(a, lambda u: a, gt), _=lambda: a)
        first = mk("app", "proj", mk("app", "scan", tup(NONE), lam(2, [a, k], tup(body1)), len_(items)), ZERO)
        I(("C22", "C08", "C09", "C26"), "Group.transform", "a group takes its transform and opacity from its transform item, with their defaults when absent", gx, last, first)


    small_groups(rep, I, ii)


# what a child of a group becomes: the variant of the model's shape, None when it is not loaded
LEAVES = {"Ellipse": "Geometry", "Rectangle": "Geometry", "Fill": "Draw", "Stroke": "Draw", "GradientFill": "Draw", "Trim": "Trim", "Twist": None, "Merge": None}
GROUPS = [("Ellipse",), ("Ellipse", "Rectangle"), ("Ellipse", "Ellipse", "Fill"), ("Fill", "Ellipse"), ("Fill",), ("Stroke", "GradientFill"), ("Trim",), ("Trim", "Ellipse"),
          ("Twist", "Ellipse"), ("Ellipse", "Merge", "Fill"), ("Twist", "Merge"), (),
          ("Transform",), ("Transform", "Ellipse"), ("Ellipse", "Transform"), ("Ellipse", "Transform", "Fill"), ("Transform", "Ellipse", "Fill"),
          ("Twist", "Transform", "Ellipse"), ("Transform", "Twist"), ("Transform", "Trim", "Rectangle"), ("Ellipse", "Fill", "Stroke", "Transform")]


def small_groups(rep, I, ii):
    """groups of few items, each of a given kind: their children, in order, and their transform"""
    if rep.pid not in ("C22", "C08", "C09", "C26"):
        return
    SH, AT, GT = "runtime::model::Shape", "animated::Transform", "runtime::model::GroupTransform"
    TS = "schema::shapes::transform::TransformShape"
    F = facts()
    vs = F.adt(adtpath(AS))["variants"]
    gty = tyhead(vs[vidx(AS, "Group")]["f"][0]["ty"])
    for n in range(max(map(len, GROUPS)) + 1):
        es = [sym("item%d" % i) for i in range(n)]
        v = Run(ii, opq=opq(shape_roots=[ii]), args={0: adt(adtpath(AS), vidx(AS, "Group"), filled(gty, shapes=seq([one(e) for e in es])))}).value
        for cfg in GROUPS:
            if len(cfg) != n or any(F.variant(adtpath(AS), k) is None for k in cfg):
                continue
            lits, kids, xf = {}, [], NONE
            for e, k in zip(es, cfg):
                lits[mk("isvar", e, len(vs), adtpath(AS))] = vidx(AS, k)
                so = app("ShapeOf", e)
                if k == "Transform":
                    w, op = xf_fields(path_get(path_get(e, AS, ("Transform", 0)), TS, "transform"))
                    xf = some(new(GT, transform=app("into_model", new(AT, **w)), opacity=op))
                    lits[mk("isvar", so, 2, OPT)] = 0
                elif LEAVES[k] is None:
                    lits[mk("isvar", so, 2, OPT)] = 0
                else:
                    lits[mk("isvar", so, 2, OPT)] = 1
                    lits[mk("isvar", unwrap(so), len(F.adt(adtpath(SH))["variants"]), adtpath(SH))] = vidx(SH, LEAVES[k])
                    kids.append(one(unwrap(so)))
            got = assume(v, lits)
            nm = "a group of " + (", ".join(cfg) or "nothing")
            if not kids:
                # a group of nothing shows nothing, with or without a place in the model
                I(("C22",), nm, nm + ": no shapes", opt(got, lambda u: path_get(u, SH, ("Group", 0)), EMPTY), EMPTY)
                continue
            I(("C22",), nm, nm + ": its shapes, in order", opt(got, lambda u: path_get(u, SH, ("Group", 0)), EMPTY), seq(kids))
            I(("C22", "C08", "C09", "C26"), nm + " transform", nm + ": its transform is that of its transform item", opt(got, lambda u: path_get(u, SH, ("Group", 1)), UNDEF), xf)


def drop_empty(t):
    """the list without the special case of an empty result"""
    if t.op == "case":
        ks = [k for k in t.a[1:] if k is not UNDEF and k is not EMPTY]
        if ks and all(k is ks[0] for k in ks):
            return ks[0]
    return t


# ---------------------------------------------------------------- single values
TM = "value::Time"
EH = "value::EasingHandle"
KC = "KeyframeComponent"
KB = "schema::animated_properties::keyframe_base::KeyframeBase"
KH = "schema::animated_properties::keyframe_bezier_handle::KeyframeBezierHandle"


def comp(c, i=ZERO):
    return vcase(c, KC, ArrayOfValues=lambda: at(path_get(c, KC, ("ArrayOfValues", 0)), i), SingleValue=lambda: path_get(c, KC, ("SingleValue", 0)))


def handle(h):
    return new(EH, x=comp(path_get(h, KH, "x_coordinate")), y=comp(path_get(h, KH, "y_coordinate")))


def filled(ty, **kw):
    """a value of this type with these fields, its other fields unknown (named after the prefix tag)"""
    tag_ = kw.pop("tag", "p")
    fs = facts().adt(adtpath(ty))["variants"][0]["f"]
    return new(ty, **{("f" if f["n"].isdigit() else "") + f["n"]: kw.get(f["n"], sym(tag_ + "." + f["n"])) for f in fs})


def nonempty(t, *arrays, n=1):
    """t where these arrays have n elements"""
    return subst_many(t, {mk("len", a): num(n) for a in arrays})


def comp_arrays(h):
    return [path_get(path_get(h, KH, c), KC, ("ArrayOfValues", 0)) for c in ("x_coordinate", "y_coordinate")]


def check_time(I, name, t, base):
    """one keyframe time: frame, hold mark and handles (each handle on its own)"""
    B = lambda f: path_get(base, KB, f)
    I(("C34",), name + ".frame", "%s: each keyframe has its own time" % name, g(t, TM, "frame"), B("time"))
    I(("C05", "C34", "C26"), name + ".hold", "%s: each keyframe has its own hold mark, none when absent" % name, tobool(g(t, TM, "hold")), is_true(B("hold")))
    for f in ("in_tangent", "out_tangent"):
        h = B(f)
        w = opt(h, lambda u: some(handle(u)), NONE)
        ar = comp_arrays(unwrap(h))
        I(("C34", "C26"), "%s.%s" % (name, f), "%s: the %s of each keyframe is its own, none when absent" % (name, f.replace("_tangent", "-handle")),
          nonempty(g(t, TM, f), *ar), nonempty(w, *ar))


def each_one(I, t, src, what, key, props=("C34",)):
    """element K of a list with one entry per element of src"""
    I(props, key, what, len_(t), len_(src))
    return at(t, sym("K"))


def scalar_rules(I, ii):
    r = Run(ii, opq=opq(inline=("Scalar",)))
    I.where = where(r.inst)
    I.rep.analysed(r.inst["path"])
    FV = "schema::animated_properties::value::FloatValue"
    a = path_get(r.args[0], FV, "animated_property", "value")
    K = "AnimatedPropertyK"
    nv = len(facts().adt(adtpath(K))["variants"])
    q = mk("isvar", a, nv, adtpath(K))
    st = assume(r.value, {q: vidx(K, "Static")})
    I(("C34", "C22"), "Scalar.static", "a constant number is loaded as itself", st, value_fixed(path_get(a, K, ("Static", 0))))
    an = assume(r.value, {q: vidx(K, "AnimatedValue")})
    keyed(I, "Scalar", an, path_get(a, K, ("AnimatedValue", 0)), lambda e: e, lambda v: at(v, ZERO), (1, 2), True)
    AP = "animated_property::AnimatedProperty"
    three_keyframes(I, "Scalar", ii, lambda l: filled(FV, animated_property=filled(AP, value=adt(adtpath(K), vidx(K, "AnimatedValue"), l))),
                    lambda k, i: k, lambda v: at(v, ZERO), 1)


def keyed(I, name, an, ks, kf_of, val_of, lens, separate):
    """an animated value made of the keyframes ks"""
    V, A = "Value", "model::value::Animated"
    if not has_adt(A):
        A = "Animated"
    I(("C34", "C07"), name + ".animated", "%s: a keyframed value is animated" % name, isv(an, V, "Animated"), TRUE)
    x = path_get(an, V, ("Animated", 0))
    ts, vals = g(x, A, "times"), g(x, A, "values")
    KF = "schema::animated_properties::keyframe::Keyframe"
    k = sym("K")
    it, iv = list(seqitems(ts)), list(seqitems(vals))
    if len(it) != 1 or len(iv) != 1 or it[0].op != "each" or iv[0].op != "each":
        I.rep.undecided("%s: every keyframe is loaded" % name, I.where, "not one pass over the keyframes")
        return
    I(("C34",), name + ".all", "%s: every keyframe is loaded" % name, it[0].a[1], len_(ks))
    bt, bv = open_each(it[0], k), open_each(iv[0], k)
    kf = kf_of(at(ks, k))
    base = path_get(kf, KF, "base")
    value = path_get(kf, KF, "value")
    B = lambda f: path_get(base, KB, f)
    if separate and bt.op == "seq" and len(bt.a) == 1 and bt.a[0].op == "one":
        I(("C34",), name + ".lengths", "%s: there are as many times as values" % name, len_(ts), len_(vals))
        check_time(I, name, at(bt, ZERO), base)
        for n in lens:
            I(("C34", "C22"), name + ".value", "%s: each keyframe has its own value" % name, nonempty(at(bv, ZERO), value, n=n), nonempty(val_of(value), value, n=n))
        return
    # one or more entries per keyframe: every combination of handle forms
    ih, oh = B("in_tangent"), B("out_tangent")
    n2 = len(facts().adt(adtpath(KC))["variants"])
    forms = [None] + [(x, y) for x in ("ArrayOfValues", "SingleValue") for y in ("ArrayOfValues", "SingleValue")]

    def lits(h, f):
        q = mk("isvar", h, 2, OPT)
        if f is None:
            return {q: 0}
        d = {q: 1}
        for c, v in zip(("x_coordinate", "y_coordinate"), f):
            d[mk("isvar", path_get(unwrap(h), KH, c), n2, adtpath(KC))] = vidx(KC, v)
        return d
    ar = comp_arrays(unwrap(ih)) + comp_arrays(unwrap(oh))
    hold = is_true(B("hold"))
    for fi in forms:
        for fo in forms:
            A = dict(lits(ih, fi))
            A.update(lits(oh, fo))
            t, v = assume(bt, A), assume(bv, A)
            nm = "in-handle %s, out-handle %s" % tuple("absent" if f is None else "/".join(x[:5].lower() for x in f) for f in (fi, fo))
            for n in (1, 2):
                t1, v1 = nonempty(t, *ar, n=n), nonempty(v, *ar, n=n)
                I(("C34",), name + ".count", "%s, %s: as many times as values" % (name, nm), len_(t1), len_(v1))
                m = len_(t1)
                if m.op != "num":
                    I.rep.undecided("%s, %s: entries of a keyframe" % (name, nm), I.where, "number of entries not known")
                    continue
                I(("C34",), name + ".some", "%s, %s: every keyframe is loaded" % (name, nm), boolc(m.a[0] >= 1), TRUE)
                for i in range(int(m.a[0])):
                    e = at(t1, num(i))
                    I(("C34",), name + ".frame", "%s: each keyframe has its own time" % name, g(e, TM, "frame"), B("time"))
                    I(("C05", "C34", "C26"), name + ".hold", "%s: each keyframe has its own hold mark, none when absent" % name, tobool(g(e, TM, "hold")), hold)
                    for f, h, mine, other in (("in_tangent", ih, fi, fo), ("out_tangent", oh, fo, fi)):
                        x = g(e, TM, f)
                        if mine is None:
                            I(("C34", "C26"), "%s.%s.absent" % (name, f), "%s: an absent handle stays absent" % name, x, NONE)
                            continue
                        if other is None:
                            continue  # with one handle only, none may be used
                        ws = []
                        for j in (i, 0):
                            ws.append(some(assume(new(EH, x=comp(path_get(unwrap(h), KH, "x_coordinate"), num(j)), y=comp(path_get(unwrap(h), KH, "y_coordinate"), num(j))), A)))
                        I(("C34",), "%s.%s" % (name, f), "%s, %s: each keyframe has its own %s" % (name, nm, f.replace("_tangent", "-handle")), x, *ws)
                    for ln in lens:
                        I(("C34", "C22"), name + ".value", "%s: each keyframe has its own value" % name, nonempty(at(v1, num(i)), value, n=ln), nonempty(val_of(value), value, n=ln))


def three_keyframes(I, name, ii, wrap, kf_of, val_of, arr_len):
    """three keyframes that may have equal times and values: all are loaded, in their order"""
    KF = "schema::animated_properties::keyframe::Keyframe"
    if I.rep.pid not in ("C34",):
        return
    ks = []
    for i in range(3):
        v = seq([one(sym("v%d%d" % (i, j))) for j in range(arr_len)])
        base = filled(KB, tag="b%d" % i, time=sym("t%d" % i), in_tangent=NONE, out_tangent=NONE, hold=NONE)
        ks.append(filled(KF, tag="k%d" % i, base=base, value=v))
    r = Run(ii, args={0: wrap(seq([one(kf_of(k, i)) for i, k in enumerate(ks)]))}, opq=opq(inline=(name,)))
    A = "model::value::Animated"
    if not has_adt(A):
        A = "Animated"
    x = path_get(noround(r.value), "Value", ("Animated", 0))
    ts, vals = g(x, A, "times"), g(x, A, "values")
    I(("C34",), name + ".three", "%s: three keyframes, whatever their times, are loaded as three" % name, len_(ts), num(3))
    I(("C34",), name + ".three", "%s: three keyframes, whatever their values, are loaded as three" % name, len_(vals), num(3))
    for i in range(3):
        I(("C34",), name + ".three", "%s: keyframe %d of three has its own time" % (name, i + 1), g(at(ts, num(i)), TM, "frame"), sym("t%d" % i))
        I(("C34",), name + ".three", "%s: keyframe %d of three has its own value" % (name, i + 1), at(vals, num(i)),
          noround(val_of(seq([one(sym("v%d%d" % (i, j))) for j in range(arr_len)]))))


def vec_of(ty):
    a, b = {"Point": ("x", "y"), "Vec2": ("x", "y"), "Size": ("width", "height")}[ty]
    return lambda v: new("kurbo::" + ty, **{a: at(v, ZERO), b: at(v, ONE)})


def f32of(x):
    return app("f32", x)


def multi_rules(I, ii, kind):
    r = Run(ii, opq=opq(inline=(kind,)))
    I.where = where(r.inst)
    I.rep.analysed(r.inst["path"])
    if kind == "PosPoint":
        P = "schema::animated_properties::position::Position"
        a = path_get(r.args[0], P, "value")
        K, S, A = "PositionValueK", "Static", "Animated"
        PK = "PositionKeyframe"
        kf_of = lambda e: path_get(e, PK, "keyframe")
    else:
        P = {"ColorOf": "schema::animated_properties::color_value::ColorValue"}.get(kind, "schema::animated_properties::multi_dimensional::MultiDimensional")
        a = path_get(r.args[0], P, "animated_property", "value")
        K, S, A = "AnimatedPropertyK", "Static", "AnimatedValue"
        kf_of = lambda e: e
    nv = len(facts().adt(adtpath(K))["variants"])
    q = mk("isvar", a, nv, adtpath(K))
    lens = (2, 3)
    if kind == "ColorOf":
        lens = (3, 4)
        val = lambda v: color(v)
    else:
        val = vec_of({"PosPoint": "Point", "MultiPoint": "Point", "MultiVec2": "Vec2", "MultiSize": "Size"}[kind])
    st = assume(r.value, {q: vidx(K, S)})
    v = path_get(a, K, (S, 0))
    for n in lens:
        I(("C34", "C22"), kind + ".static", "%s: a constant is loaded component by component" % kind, noround(nonempty(st, v, n=n)), noround(nonempty(value_fixed(val(v)), v, n=n)))
    an = assume(r.value, {q: vidx(K, A)})
    keyed(I, kind, noround(an), path_get(a, K, (A, 0)), kf_of, val, lens, False)
    AP = "animated_property::AnimatedProperty"
    ani = lambda l: adt(adtpath(K), vidx(K, A), l)
    if kind == "PosPoint":
        three_keyframes(I, kind, ii, lambda l: filled(P, value=ani(l)), lambda k, i: filled(PK, tag="pk%d" % i, keyframe=k), val, lens[0])
    else:
        three_keyframes(I, kind, ii, lambda l: filled(P, animated_property=filled(AP, value=ani(l))), lambda k, i: k, val, lens[0])


def noround(t):
    """without rounding to single precision; colours as their components"""
    def f(x):
        if x.op == "app" and x.a[0] in ("f32", "tofloat") and len(x.a) >= 2:
            return x.a[1]
        if x.op == "adt" and isinstance(x.a[0], str) and x.a[0].endswith("::AlphaColor"):
            return x.a[2]
        return None
    return tm.rewrite(t, f)


def color(v):
    return seq([one(at(v, num(0))), one(at(v, num(1))), one(at(v, num(2))), one(ONE)])


def value_conv_rules(rep):
    I = Imp(rep)
    C = conversions()
    if not C:
        raise Undecided("no conversions")
    for ii, k in C.items():
        if k == "Scalar":
            scalar_rules(I, ii)
        elif k in ("PosPoint", "MultiPoint", "MultiVec2", "MultiSize", "ColorOf"):
            multi_rules(I, ii, k)
        elif k == "SplineOf":
            spline_rules(I, ii)
        elif k == "GeometryOf":
            geometry_rules(I, ii)
        elif k == "StopsOf":
            stops_rules(I, ii)


# ---------------------------------------------------------------- paths
def spline_rules(I, ii):
    r = Run(ii, opq=opq(inline=("SplineOf",)))
    I.where = where(r.inst)
    I.rep.analysed(r.inst["path"])
    BZ = "schema::helpers::bezier::Bezier"
    b = r.args[0]
    V = lambda f: path_get(b, BZ, f)
    I(("C23", "C26", "C22"), "Spline.closed", "a path is closed when the file says so, open when absent", tobool(fld(r.value, 0, 1, "()")), opt_bool(V("closed")))
    pts = fld(r.value, 0, 0, "()")
    vs, it, ot = V("vertices"), V("in_tangents"), V("out_tangents")
    pt = lambda a, k: new("kurbo::Point", x=at(at(a, k), ZERO), y=at(at(a, k), ONE))
    zero = new("kurbo::Point", x=ZERO, y=ZERO)
    P = ("C23", "C22", "C34")
    for n in (1, 2, 3):
        for a, c in ((n, n), (0, n), (n, 0), (n - 1, n), (n, n - 1)):
            # n vertices, a in-tangents, c out-tangents
            m = {mk("len", vs): num(n), mk("len", it): num(a), mk("len", ot): num(c)}
            full = (a, c) == (n, n)
            t = known_lengths(pts, {vs: n, it: a, ot: c})
            want = seq([one(x) for k in range(n) for x in (
                pt(vs, num(k)), pt(it, num(k)) if k < a else zero, pt(ot, num(k)) if k < c else zero)])
            I(P, "Spline.points", "a path of %d vertices%s is loaded as vertex, in-tangent, out-tangent of each vertex in order" % (
                n, "" if full else ", %d in- and %d out-tangents (the missing ones zero)" % (a, c)), t, want)


def known_lengths(t, lens):
    """t when the lists have these lengths, its lists spelled out"""
    def spell(a, n):
        return seq([one(mk("at", a, num(k))) for k in range(n)])
    t = subst_many(t, {mk("len", a): num(n) for a, n in lens.items()})

    def f(x):
        if x.op == "each" and x.a[1].op == "num" and 0 <= x.a[1].a[0] <= 12:
            return seq([y for k in range(int(x.a[1].a[0])) for y in seqitems(open_each(x, num(k)))])
        return None
    t = tm.rewrite(t, f)

    def h(x):
        if x.op == "at" and x.a[1].op == "num" and x.a[0].op == "seq":
            parts = []
            for p in x.a[0].a:
                parts.extend(seqitems(spell(p, lens[p])) if p in lens else [p])
            return at(seq(parts), x.a[1])
        return None
    return tm.rewrite(t, h)


def geometry_rules(I, ii):
    SP = "ShapeProperty"
    K = "ShapePropertyK"
    GE = "runtime::model::Geometry"
    F = facts()
    fs = F.adt(adtpath(SP))["variants"][0]["f"]

    def prop(v):
        return new(SP, **{(("f" if f["n"].isdigit() else "") + f["n"]): (v if f["n"] == "value" else sym("p." + f["n"])) for f in fs})
    I.where = where(F.insts[ii])
    I.rep.analysed(F.insts[ii]["path"])
    # a constant path
    if I.rep.pid in ("C23", "C22"):
        b = sym("bezier")
        r = Run(ii, args={0: prop(adt(adtpath(K), vidx(K, "Static"), b))}, opq=opq(inline=("GeometryOf",)))
        so = app("SplineOf", b)
        tp = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and x.get("name") == "to_path" and x["body"]["argc"] == 3]
        outs = []
        for t in tp:
            try:
                q = Run(t, args={0: fld(so, 0, 0, "()"), 1: tobool(fld(so, 0, 1, "()")), 2: EMPTY})
                outs.append(q.out(2))
            except Exception:
                pass
        outs = [o for o in outs if o is not None]
        if outs:
            I(("C23", "C22"), "Path.static", "a constant path is loaded as the outline of its vertices and tangents", r.value,
              *[some(adt(adtpath(GE), vidx(GE, "Fixed"), o)) for o in outs])
        else:
            I.rep.undecided("a constant path is loaded as the outline of its vertices and tangents", I.where, "no outline function")
    # an animated path: every keyframe with its own start shape
    if I.rep.pid not in ("C23", "C34", "C05", "C22", "C26"):
        return
    KF = "ShapeKeyframe"
    n = sym("N")
    k = sym("K")
    SK = "SplineKeyframeValues"
    AS_ = "animated::Spline"
    for ends in (True, False):
        j = fresh("j")
        kf = lambda x: new(KF, base=app("base", x), start=some(seq([one(app("start", x))])), end=some(seq([one(app("end", x))])) if ends else NONE)
        r = Run(ii, args={0: prop(adt(adtpath(K), vidx(K, "Animated"), each(n, j, seq([one(kf(j))]))))}, opq=opq(inline=("GeometryOf",)))
        nm = "Path keyframes %s end shape" % ("with an" if ends else "without")
        got = opt(r.value, lambda u: u, UNDEF)
        I(("C34", "C23"), "Path.animated", "%s: an animated path is loaded" % nm, is_some(r.value), TRUE)
        I(("C34", "C23"), "Path.spline", "%s: an animated path is loaded as one" % nm, isv(got, GE, "Spline"), TRUE)
        sp = path_get(got, GE, ("Spline", 0))
        ts, vals = g(sp, AS_, "times"), g(sp, AS_, "values")
        I(("C34",), "Path.all", "%s: every keyframe is loaded" % nm, len_(ts), n)
        I(("C34",), "Path.lengths", "%s: as many times as values" % nm, len_(vals), n)
        check_time(I, "Path", at(ts, k), app("base", k))
        v = at(vals, k)
        I(("C34", "C23"), "Path.start", "%s: each keyframe has its own start shape" % nm, g(v, SK, "start"), fld(app("SplineOf", app("start", k)), 0, 0, "()"))
        I(("C34", "C23"), "Path.end", "%s: each keyframe has its own end shape, if any" % nm, g(v, SK, "end"),
          some(fld(app("SplineOf", app("end", k)), 0, 0, "()")) if ends else NONE)
    # closedness: two keyframes
    c = lambda x: tobool(fld(app("SplineOf", sym(x)), 0, 1, "()"))
    p = lambda x: fld(app("SplineOf", sym(x)), 0, 0, "()")
    lst = lambda x: some(seq([one(sym(x))]))
    for s1, e0, want in ((True, False, or_(c("s0"), c("s1"))), (False, True, None), (False, False, None)):
        kfs = seq([one(new(KF, base=sym("b0"), start=lst("s0"), end=lst("e0") if e0 else NONE)),
                   one(new(KF, base=sym("b1"), start=lst("s1") if s1 else NONE, end=NONE))])
        r = Run(ii, args={0: prop(adt(adtpath(K), vidx(K, "Animated"), kfs))}, opq=opq(inline=("GeometryOf",)))
        got = opt(r.value, lambda u: u, UNDEF)
        I(("C34", "C23"), "Path.animated2", "an animated path is loaded", is_some(r.value), TRUE)
        sp = path_get(got, GE, ("Spline", 0))
        if want is not None:
            I(("C23",), "Path.closed", "a morphing path whose shapes are closed is closed, one whose shapes are open is open", tobool(g(sp, AS_, "is_closed")), want,
              c("s0"), c("s1"), and_(c("s0"), c("s1")))
        else:
            w = p("e0") if e0 else p("s0")
            I(("C34",), "Path.last-start", "a last path keyframe without a shape has the %s of the one before" % ("end shape" if e0 else "start shape"),
              g(at(g(sp, AS_, "values"), ONE), SK, "start"), w)
            kfs = seq([one(new(KF, base=sym("b"), start=lst("s"), end=lst("e")))] + list(seqitems(kfs)))
            r = Run(ii, args={0: prop(adt(adtpath(K), vidx(K, "Animated"), kfs))}, opq=opq(inline=("GeometryOf",)))
            sp = path_get(opt(r.value, lambda u: u, UNDEF), GE, ("Spline", 0))
            I(("C34",), "Path.last-start", "the last of three path keyframes without a shape has the %s of the one before" % ("end shape" if e0 else "start shape"),
              g(at(g(sp, AS_, "values"), num(2)), SK, "start"), w)


# ---------------------------------------------------------------- gradient stops
def stops_rules(I, ii):
    F = facts()
    I.where = where(F.insts[ii])
    I.rep.analysed(F.insts[ii]["path"])
    GC, MD, AP, K = "gradient_colors::GradientColors", "multi_dimensional::MultiDimensional", "animated_property::AnimatedProperty", "AnimatedPropertyK"

    def colors(val, count):
        return filled(GC, colors=filled(MD, animated_property=filled(AP, value=val)), count=num(count))
    CS = "runtime::model::ColorStops"
    ACS = "animated::ColorStops"
    for count, alphas in ((1, 0), (2, 0), (3, 0), (2, 2), (2, 1), (1, 2)):
        data = [sym("v%d" % i) for i in range(4 * count + 2 * alphas)]
        lst = seq([one(x) for x in data])
        nm = "%d stops, %d alpha pairs" % (count, alphas)
        r1 = Run(ii, args={0: colors(adt(adtpath(K), vidx(K, "Static"), lst), count)}, opq=opq(inline=("StopsOf",)))
        kf = filled("schema::animated_properties::keyframe::Keyframe", value=lst, base=sym("base"))
        r2 = Run(ii, args={0: colors(adt(adtpath(K), vidx(K, "AnimatedValue"), seq([one(kf)])), count)}, opq=opq(inline=("StopsOf",)))
        a1, a2 = noround(r1.value), noround(r2.value)
        P = ("C21",)
        I(P, "stops.static", "%s: constant colours are loaded as constant stops" % nm, isv(a1, CS, "Fixed"), TRUE)
        I(P + ("C07",), "stops.animated", "%s: keyframed colours are loaded as animated stops" % nm, isv(a2, CS, "Animated"), TRUE)
        f1 = path_get(a1, CS, ("Fixed", 0))
        if f1.op == "adt" and len(f1.a) == 3:
            f1 = f1.a[2]
        x2 = path_get(a2, CS, ("Animated", 0))
        I(P, "stops.count", "%s: animated stops have the count of the file" % nm, g(x2, ACS, "count"), num(count))
        ts, vals = g(x2, ACS, "frames"), g(x2, ACS, "values")
        I(("C21", "C34"), "stops.keyframes", "%s: each keyframe is one list of values" % nm, len_(vals), ONE)
        I(("C21", "C34"), "stops.times", "%s: each keyframe has one time" % nm, len_(ts), ONE)
        check_time(I, "Stops", at(ts, ZERO), sym("base"))
        row = at(vals, ZERO)
        I(P, "stops.length", "%s: there are as many constant stops as the count says" % nm, len_(f1), num(count))
        I(P, "stops.length", "%s: there are five values per animated stop" % nm, len_(row), num(5 * count))
        for s in range(count):
            e = at(f1, num(s))
            co = fld(e, 0, 1, adtpath("peniko::ColorStop")) if has_adt("peniko::ColorStop") else None
            comps = [fld(e, 0, 0, adtpath("peniko::ColorStop"))] + [at(arr(co), num(i)) for i in range(4)]
            for kind, vals_ in (("constant", comps), ("animated", [at(row, num(5 * s + i)) for i in range(5)])):
                for i, c in enumerate(("offset", "red", "green", "blue")):
                    I(P, "stops.%s" % c, "%s: the %s of a %s stop is its own number of the file" % (nm, c, kind), vals_[i], data[4 * s + i])
                al = vals_[4]
                own = data[4 * s]
                if not alphas:
                    I(P, "stops.alpha", "%s: a %s stop without alpha data is opaque" % (nm, kind), al, ONE)
                    continue
                pairs = data[4 * count:]
                used = {d for d in data if occurs(al, d)}
                if not used <= set(pairs) | {own}:
                    I.out(P, "stops.alpha-source", "%s: the alpha of a %s stop comes from the alpha pairs" % (nm, kind), I.where, False,
                          "it depends on " + ", ".join(show(d) for d in used - set(pairs) - {own}))
                    continue
                I.out(P, "stops.alpha-source", "%s: the alpha of a %s stop comes from the alpha pairs" % (nm, kind), I.where, None)
                if alphas == 2:
                    for q in (0, 1):
                        al_ = pairs[2 * q + 1]
                        conc = {pairs[0]: num(tm.Fr(1, 4)), pairs[2]: num(tm.Fr(3, 4))}
                        got = subst_many(al, {own: pairs[2 * q], **conc})
                        got = subst_many(got, conc)
                        I(P, "stops.alpha-at", "%s: a %s stop at the offset of an alpha pair has that alpha (sample offsets)" % (nm, kind), got, app("fmin", ONE, al_), al_)


def order(a, b):
    """decisions for a < b"""
    c = fcmp("lt", a, b)
    return list(tm.literals(c).items())


def arr(c):
    """components of a colour"""
    for _ in range(6):
        if c is None or c.op == "seq":
            return c
        if c.op == "app" and c.a[0] == "DynamicColor::from_alpha_color":
            c = c.a[1]
            continue
        if c.op == "adt":
            n = [x for x in c.a[2:] if isinstance(x, tm.T) and x.op in ("seq", "adt", "app")]
            if not n:
                return c
            c = n[0]
            continue
        return c
    return c
