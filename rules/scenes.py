"""Small animations: the whole renderer on compositions whose structure, transforms, opacities and times are given and whose
outlines, brushes, strokes and names are unknown.  The source is interpreted from Renderer::append down; the calls it makes on
its sink are compared with those the properties ask for, which a short reference description of them lists."""
from .base import *
from .render import Head, boundary, is_scene_ty, ty_is, ML
from . import imports as im
from .layer import Out
from .panics import limited, Slow

SHP, GEO, DRW, CON, GTX, MSK = ("runtime::model::" + x for x in ("Shape", "Geometry", "Draw", "Content", "GroupTransform", "Mask"))
PE_ = "PathEl"
DEEP = 12
LONG = 20  # seconds for one animation, 20 times what one takes
TOO_MANY = 4  # animations that take longer before the rest is given up
KEEP = ("Brush::evaluate", "Brush::multiply_alpha", "Stroke::evaluate")


# ---------------------------------------------------------------- affine maps (columns a b, c d, e f), as in kurbo
def mulx(p, q):
    a, b, c, d, e, f = p
    u, v, w, x, y, z = q
    return (a * u + c * v, b * u + d * v, a * w + c * x, b * w + d * x, a * y + c * z + e, b * y + d * z + f)


ID = (1, 0, 0, 1, 0, 0)
# maps that do not commute
MAPS = [(2, 0, 0, 1, 3, 5), (1, 0, 1, 2, 7, 1), (1, 1, 0, 3, 2, 4), (3, 0, 0, 2, 1, 8), (1, 2, 0, 1, 5, 9), (2, 1, 1, 1, 4, 6)]
FM = {i: m for i, m in enumerate(MAPS)}


def tr_(x, y):
    return (1, 0, 0, 1, x, y)


# ---------------------------------------------------------------- descriptions of animations
def G(k):
    return ("G", k)


def D(k, op=50):
    return ("D", k, op, False)


def S(k, op=50):
    return ("D", k, op, True)


def Gr(*xs, m=None, op=None):
    return ("Gr", xs, None if m is None and op is None else (map_(m), 100 if op is None else op))


NOTHING = ("T", 30, 30)
ALL = ("T", 0, 100)
PART = ("T", 20, 70)


class A:
    """an animated quantity: each value holds from its time on, the first one also before"""

    def __init__(self, *steps):
        self.steps = steps

    def at(self, frame):
        v = self.steps[0][1]
        for t, x in self.steps:
            if t <= frame:
                v = x
        return v


def val(x, frame):
    return x.at(frame) if isinstance(x, A) else x


def mat(m, frame):
    return tr_(*m.at(frame)) if isinstance(m, A) else m


def map_(m):
    return ID if m is None else m if isinstance(m, A) else MAPS[m]


def R(n, so=100, eo=100, offset=0, pos=(10, 20)):
    return ("R", n, so, eo, offset, pos)


def L(name, *shapes, m=None, op=50, frames=(0, 100), parent=None, masks=(), matte=None, src=False, inst=None, t0=0, stretch=1, empty=False):
    return dict(name=name, shapes=None if inst or empty else shapes, m=map_(m), op=op, frames=frames, parent=parent, masks=masks, matte=matte, src=src,
                inst=inst, t0=t0, stretch=stretch)


def scene(*layers, frame=10, alpha=1, m=None, before=None, **assets):
    return dict(layers=layers, assets=assets, frame=frame, alpha=alpha, before=before, m=ID if m is None else MAPS[m])


# ---------------------------------------------------------------- the calls the properties ask for
class Oracle:
    def __init__(self, sc):
        self.sc, self.ev, self.within = sc, [], []

    def run(self):
        sc = self.sc
        self.set(sc["layers"], sc["m"], Fr(sc["alpha"]), Fr(sc["frame"]))
        return self.ev

    def set(self, ls, xf, alpha, frame):
        # the last is painted first
        for i in reversed(range(len(ls))):
            if not ls[i]["src"]:
                self.layer(ls, i, xf, alpha, frame)

    def layer(self, ls, i, xf, alpha, frame):
        l = ls[i]
        if any(l is k for k in self.within):
            return
        self.within.append(l)
        self.layer_(ls, i, xf, alpha, frame)
        self.within.pop()

    def layer_(self, ls, i, xf, alpha, frame):
        l = ls[i]
        if not l["frames"][0] <= frame < l["frames"][1]:
            return
        ev = self.ev
        ev.append(("begin", l["name"], i))
        own, p = mat(l["m"], frame), l["parent"]
        seen = 0
        while p is not None and p < len(ls) and seen < len(ls):
            seen += 1
            own, p = mulx(mat(ls[p]["m"], frame), own), ls[p]["parent"]
        own = mulx(xf, own)
        pops = len(l["masks"])
        if l["matte"] is not None:
            mode, src = l["matte"]
            ev.append(("push", "Normal"))
            if src < len(ls):
                self.layer(ls, src, xf, alpha, frame)
            ev.append(("push", mode))
            pops += 2
        alpha = alpha * val(l["op"], frame) / 100
        for k in l["masks"]:
            ev.append(("clip", own, val(k, frame)))
        if l["inst"] is not None:
            if l["inst"] in self.sc["assets"]:
                self.set(self.sc["assets"][l["inst"]], own, alpha, (frame - l["t0"]) / Fr(l["stretch"]))
        elif l["shapes"] is not None:
            _, ds = self.shapes(l["shapes"], own, alpha, frame)
            for k, stroke, a, f, gs in reversed(ds):
                ev.append(("draw", k, stroke, a, f, [(t, tuple(o)) for t, o in gs]))
        ev.extend([("pop",)] * pops)
        ev.append(("end",))

    def shapes(self, xs, xf, alpha, frame):
        """the geometries (transform, outlines) and draws of one group; a draw refers to the geometries themselves, which a trim may empty"""
        gs, ds = [], []
        for x in xs:
            if x[0] == "G":
                gs.append([xf, [val(x[1], frame)]])
            elif x[0] == "D":
                ds.append([x[1], x[3], alpha * val(x[2], frame) / 100, frame, list(gs)])
            elif x[0] == "Gr":
                m, op = x[2] or (ID, 100)
                g2, d2 = self.shapes(x[1], mulx(xf, mat(m, frame)), alpha * val(op, frame) / 100, frame)
                gs += g2
                ds += d2
            elif x[0] == "T":
                p, q = val(x[1], frame), val(x[2], frame)
                for g_ in gs:
                    if p == q:
                        g_[1] = []
                    elif abs(q - p) < 100:
                        g_[1] = [k.replace(" trimmed", "") + " trimmed" for k in g_[1]]
            else:
                _, n, so, eo, off, (px, py) = x
                n, off = val(n, frame), val(off, frame)
                so, eo = Fr(val(so, frame)) / 100, Fr(val(eo, frame)) / 100
                copies = {id(g_): [[mulx(g_[0], tr_((off + i) * px, (off + i) * py)), g_[1]] for i in range(n)] for g_ in gs}
                new_ds = []
                for i in range(n):
                    a = so + ((eo - so) / n if n > 1 else 0) * i
                    if a <= 0:
                        continue
                    for k, st, al, f, sel in ds:
                        new_ds.append([k, st, al * a, f, [c for g_ in sel for c in copies[id(g_)]]])
                gs = [c for g_ in gs for c in copies[id(g_)]]
                ds = new_ds
        return gs, ds


# ---------------------------------------------------------------- the same animations as values of the model
class Build:
    def __init__(self, sc, old=None):
        self.sc = sc
        self.path, self.brush, self.stroke = (old.path, old.brush, old.stroke) if old else ({}, {}, {})

    def affine(self, m):
        return affine(m)

    def fixed(self, x, conv=lambda x: num(Fr(x))):
        if isinstance(x, A):
            return adt(adtpath("Value"), vidx("Value", "Animated"), new("Animated", times=self.times(x), values=seq([one(conv(v)) for t, v in x.steps])))
        return im.value_fixed(conv(x))

    def times(self, x):
        return seq([one(new("Time", frame=num(Fr(t)), in_tangent=NONE, out_tangent=NONE, hold=TRUE)) for t, v in x.steps])

    def outline(self, k):
        a, b = sym("%s.from" % k), sym("%s.to" % k)
        self.path[a], self.path[b] = (k, "from"), (k, "to")
        P = adtpath(PE_)
        return seq([one(adt(P, vidx(PE_, "MoveTo"), a)), one(adt(P, vidx(PE_, "LineTo"), b))])

    def geometry(self, k):
        if isinstance(k, A):
            # paths of one vertex
            ks = []
            for t, v in k.steps:
                q = pt("Point", sym(v + ".x"), sym(v + ".y"))
                self.path[q] = (v, "spot")
                ks.append(new("SplineKeyframeValues", start=seq([one(q), one(pt("Point", ZERO, ZERO)), one(pt("Point", ZERO, ZERO))]), end=NONE))
            return adt(adtpath(GEO), vidx(GEO, "Spline"), new("animated::Spline", is_closed=FALSE, times=self.times(k), values=seq([one(x) for x in ks])))
        return adt(adtpath(GEO), vidx(GEO, "Fixed"), self.outline(k))

    def xform(self, m):
        T = "runtime::model::Transform"
        if isinstance(m, A):
            P = "animated::Position"
            pos = adt(adtpath(P), vidx(P, "Value"), self.fixed(m, lambda v: pt("Point", num(v[0]), num(v[1]))))
            return adt(adtpath(T), vidx(T, "Animated"), new("animated::Transform", anchor=im.value_fixed(pt("Point", ZERO, ZERO)), position=pos, rotation=self.fixed(0),
                                                             scale=im.value_fixed(pt("Vec2", num(100), num(100))), skew=self.fixed(0), skew_angle=self.fixed(0)))
        return adt(adtpath("runtime::model::Transform"), vidx("runtime::model::Transform", "Fixed"), affine(m))

    def shape(self, x):
        V = lambda v, *f: adt(adtpath(SHP), vidx(SHP, v), *f)
        if x[0] == "G":
            return V("Geometry", self.geometry(x[1]))
        if x[0] == "D":
            b, s = sym("%s.brush" % x[1]), sym("%s.stroke" % x[1])
            self.brush[b], self.stroke[s] = x[1], x[1]
            return V("Draw", new(DRW, stroke=some(s) if x[3] else NONE, brush=b, opacity=self.fixed(x[2])))
        if x[0] == "Gr":
            t = NONE if x[2] is None else some(new(GTX, transform=self.xform(x[2][0]), opacity=self.fixed(x[2][1])))
            return V("Group", seq([one(self.shape(y)) for y in x[1]]), t)
        if x[0] == "T":
            T = "runtime::model::Trim"
            if isinstance(x[1], A) or isinstance(x[2], A):
                return V("Trim", adt(adtpath(T), vidx(T, "Animated"), new("animated::Trim", start=self.fixed(x[1]), end=self.fixed(x[2]), offset=self.fixed(0))))
            return V("Trim", adt(adtpath(T), vidx(T, "Fixed"), new("fixed::Trim", start=num(x[1]), end=num(x[2]), offset=ZERO)))
        _, n, so, eo, off, (px, py) = x
        T = "runtime::model::Repeater"
        at0, by, sz = pt("Point", ZERO, ZERO), pt("Point", num(px), num(py)), pt("Vec2", num(100), num(100))
        if any(isinstance(y, A) for y in x):
            fx = im.value_fixed
            return V("Repeater", adt(adtpath(T), vidx(T, "Animated"), new("animated::Repeater", copies=self.fixed(n), offset=self.fixed(off), anchor_point=fx(at0), position=fx(by),
                                                                           rotation=fx(ZERO), scale=fx(sz), start_opacity=self.fixed(so), end_opacity=self.fixed(eo))))
        return V("Repeater", adt(adtpath(T), vidx(T, "Fixed"), new("fixed::Repeater", copies=num(n), offset=num(off), anchor_point=at0, position=by,
                                                                    rotation=ZERO, scale=sz, start_opacity=num(so), end_opacity=num(eo))))

    def layer(self, l):
        if l["inst"] is not None:
            ct = adt(adtpath(CON), vidx(CON, "Instance"), mk("str", l["inst"]), NONE)
        elif l["shapes"] is None:
            ct = unit(CON, "None")
        else:
            ct = adt(adtpath(CON), vidx(CON, "Shape"), seq([one(self.shape(x)) for x in l["shapes"]]))
        nm = mk("str", l["name"])
        mt = NONE if l["matte"] is None else some(tup(im.compose(l["matte"][0]), num(l["matte"][1])))
        ms = seq([one(im.filled(MSK, tag="mask", mode=im.mix("Normal"), geometry=self.geometry(k))) for k in l["masks"]])
        rg = new("Range", start=num(l["frames"][0]), end=num(l["frames"][1]))
        return im.filled(ML, tag="l", name=nm, parent=NONE if l["parent"] is None else some(num(l["parent"])), transform=self.xform(l["m"]), opacity=self.fixed(l["op"]),
                         frames=rg, stretch=num(Fr(l["stretch"])), start_frame=num(l["t0"]), masks=ms, is_mask=boolc(l["src"]), mask_layer=mt, content=ct, blend_mode=NONE)

    def composition(self):
        sc = self.sc
        ls = lambda xs: seq([one(self.layer(l)) for l in xs])
        return im.filled("runtime::Composition", tag="c", layers=ls(sc["layers"]), width=num(640), height=num(480),
                         assets=mk("hmap", seq([one(tup(mk("str", n), ls(xs))) for n, xs in sc["assets"].items()])))

    def run(self):
        return self.render(Run(root_inst("Renderer::new")).value)[0]

    def render(self, me):
        """the calls, and the renderer afterwards"""
        sc = self.sc
        if sc["before"]:
            # what the same renderer rendered before
            _, me = Build(sc["before"], self).render(me)
        ii = root_inst("Renderer::append")
        h = Head(ii)
        cells = {("scene",): EMPTY, ("self",): me}
        args, fs = [], [num(Fr(sc["frame"])), num(Fr(sc["alpha"]))]
        for i in range(len(h.tys)):
            t = h.tstr(i)
            if is_scene_ty(h, i):
                args.append(mk("mref", ("scene",)))
            elif t.get("path") == adtpath("Renderer"):
                args.append(mk("mref", ("self",)))
            elif ty_is(t, "Composition"):
                args.append(self.composition())
            elif t["s"] == "kurbo::Affine":
                args.append(affine(sc["m"]))
            elif t["s"] == "f64" and fs:
                args.append(fs.pop(0))
            else:
                raise Missing("parameters of Renderer::append")

        def opq(ii, inst, key, a):
            k = boundary(ii, inst, key, a)
            return k if k in KEEP else None

        def rec(ip, fr, st, i, a, sp):
            x = facts().insts[i]
            if sum(1 for y in ip.stack if y[0] == (x["path"], tuple(x["args"]))) > DEEP:
                raise Undecided("%s calls itself more than %d times" % (x["path"], DEEP))
            return ip.invoke(i, a, st)
        r = Run(ii, args, cells, opq=opq, rec=rec, concrete=40)
        return r.cells[("scene",)], r.cells[("self",)]


def pt(ty, a, b):
    return new(ty, x=a, y=b)


def affine(m):
    return adt(adtpath("Affine"), 0, seq([one(num(Fr(x))) for x in m]))


# ---------------------------------------------------------------- the calls the source makes
class Reader:
    def __init__(self, b):
        self.b = b

    def give_up(self, t):
        raise Undecided("a call with %s" % show(t, 0, 4)[:300])

    def n(self, t):
        if t.op != "num":
            self.give_up(t)
        return t.a[0]

    def xf(self, t):
        if t.op != "adt" or len(t.a) != 3 or t.a[2].op != "seq" or len(t.a[2].a) != 6:
            self.give_up(t)
        return tuple(self.n(x.a[0]) for x in t.a[2].a)

    def usual(self, t):
        """a path where the outlines that are measured have segments, and a length"""
        for _ in range(40):
            lits = {}
            for a in tm.atoms_of(t):
                q = a.a[0]
                if a.op == "sgn" and a.a[1] == 0 and q.op == "app" and q.a[0] == "sum":
                    lits[a] = 2
                elif a.op == "le" and a.a[1] == 0 and q.op == "len" and q.a[0].op == "app" and q.a[0].a[0] == "BezPath::segments":
                    lits[a] = 0
            if not lits:
                return t
            t = tm.assume(t, lits)
        return t

    def outline(self, t):
        """the outlines a path consists of"""
        if t.op == "adt" and t.a[0].endswith("Rect"):
            return ("rect",)
        out, start = [], None
        P = adtpath(PE_)
        if t.op != "seq" or any(x.op != "one" for x in t.a):
            t = self.usual(t)
        for x in seqitems(t):
            if x.op != "one" or x.a[0].op != "adt" or x.a[0].a[0] != P or len(x.a[0].a) != 3 or x.a[0].a[2] not in self.b.path:
                # a part computed from these outlines
                if x.op != "each":
                    self.give_up(t)
                out.extend(sorted({k + " trimmed" for q, (k, w) in self.b.path.items() if occurs(x, q if w != "spot" else q.a[2])}))
                continue
            k, what = self.b.path[x.a[0].a[2]]
            if what == "spot":
                out.append(k)
            elif what == "from":
                out.append(k)
                start = k
            elif start != k:
                out.append("part of " + k)
            else:
                start = None
        return tuple(out)

    def frame_brush(self, t):
        a = Fr(1)
        while t.op == "app" and t.a[0] == "Brush::multiply_alpha":
            a *= self.n(t.a[2])
            t = t.a[1]
        if t.op != "app" or t.a[0] != "Brush::evaluate" or t.a[1] not in self.b.brush:
            self.give_up(t)
        return self.b.brush[t.a[1]], a * self.n(t.a[2]), self.n(t.a[3])

    def mode(self, t):
        F = facts()
        if t.op == "adt" and len(t.a) == 2 and t.a[0].endswith(("::Mix", "::Compose")):
            return F.adt(t.a[0])["variants"][t.a[1]]["n"]
        if t.op != "adt" or len(t.a) != 4 or t.a[2].op != "adt" or t.a[3].op != "adt":
            self.give_up(t)
        F = facts()
        mix, comp = (F.adt(x.a[0])["variants"][x.a[1]]["n"] for x in (t.a[2], t.a[3]))
        return comp if mix == "Normal" and comp != "SrcOver" else mix

    def events(self, t):
        out = []
        for x in seqitems(t):
            if x.op != "one" or x.a[0].op != "adt" or not x.a[0].a[0].startswith("ev:"):
                self.give_up(x)
            e = x.a[0]
            k, f = e.a[0][3:], e.a[2:]
            if k == "push_clip_layer":
                o = self.outline(f[1])
                out.append(("clip", self.xf(f[0]), o[0] if len(o) == 1 else o))
            elif k == "push_layer":
                if self.n(f[1]) != 1:
                    out.append(("faded",))
                out.append(("push", self.mode(f[0])))
            elif k == "pop_layer":
                out.append(("pop",))
            elif k == "begin_layer_group":
                if f[0].op != "str":
                    self.give_up(f[0])
                out.append(("begin", f[0].a[0], int(self.n(f[1]))))
            elif k == "end_layer_group":
                out.append(("end",))
            elif k == "draw":
                kb, a, fr = self.frame_brush(f[2])
                st = f[0]
                if st is NONE:
                    stroke = False
                else:
                    u = unwrap(st)
                    if u.op != "app" or u.a[0] != "Stroke::evaluate" or u.a[1] not in self.b.stroke:
                        self.give_up(st)
                    stroke = True
                    if self.b.stroke[u.a[1]] != kb or self.n(u.a[2]) != fr:
                        stroke = "the stroke of %s at frame %s" % (self.b.stroke[u.a[1]], u.a[2].a[0])
                out.append(("draw", kb, stroke, a, fr, [(self.xf(f[1]), self.outline(f[3]))]))
            else:
                self.give_up(e)
        return out


def tidy(evs):
    """draws of one brush joined, the outlines of one transform together; what draws nothing left out"""
    out = []
    for e in evs:
        if e[0] == "draw":
            gs = [(t, k) for t, o in e[5] for k in o]
            if not gs:
                continue
            if out and out[-1][0] == "draw" and out[-1][1:5] == e[1:5]:
                gs = out.pop()[5] + gs
            e = e[:5] + (gs,)
        out.append(e)
    return [e[:5] + (tuple(sorted(e[5])),) if e[0] == "draw" else e for e in out]


def words(e):
    if e is None:
        return "nothing more"
    f = lambda x: str(float(x)) if isinstance(x, Fr) and x.denominator != 1 else str(x)
    m = lambda t: "[%s]" % " ".join(f(Fr(x)) for x in t)
    if e[0] == "draw":
        return "%s %s with alpha %s at frame %s painting %s" % ("stroke" if e[2] else "fill", e[1], f(e[3]), f(e[4]), ", ".join("%s under %s" % (k, m(t)) for t, k in e[5]))
    if e[0] == "clip":
        return "a clip to %s under %s" % (e[2], m(e[1]))
    return {"begin": "begin of layer %s", "push": "a layer of mode %s", "pop": "a pop", "end": "end of a layer", "faded": "a translucent layer"}[e[0]] % (
        ("%s at %s" % e[1:] if e[0] == "begin" else e[1]) if e[0] in ("begin", "push") else ())


_SHAPE_SCENES = {
    "one fill": ("C28 C09", [G("a"), D("x")]),
    "two outlines under one fill": ("C28", [G("a"), G("b"), D("x")]),
    "an outline and its fill twice": ("C28 C11", [G("a"), D("x"), G("b"), D("y")]),
    "a fill before its outline": ("C28", [D("x"), G("a")]),
    "a stroke and a fill": ("C28 C11 C33", [G("a"), S("x"), D("y")]),
    "three paints": ("C11", [G("a"), D("x"), S("y"), D("z", 20)]),
    "a nested outline": ("C28", [G("a"), Gr(G("b")), D("x")]),
    "a nested outline under its own transform": ("C28 C08", [G("a"), Gr(G("b"), m=0), G("c"), D("x")]),
    "a nested fill": ("C28", [G("a"), Gr(D("x")), D("y")]),
    "a nested fill with its outline": ("C28 C11", [G("a"), Gr(G("b"), D("x")), G("c"), D("y")]),
    "a nested fill first": ("C28", [Gr(G("a"), D("x")), G("b"), D("y")]),
    "two nested strokes": ("C28", [Gr(G("a"), S("x")), Gr(G("b"), S("y")), D("z")]),
    "a nested stroke": ("C28", [G("a"), Gr(G("b"), S("x")), D("y")]),
    "paints at three depths": ("C28 C09", [G("a"), Gr(G("b"), Gr(G("c"), D("x"), op=50), D("y"), op=25), D("z")]),
    "transforms at three depths": ("C08 C28", [G("a"), Gr(G("b"), Gr(G("c"), m=1), m=0), Gr(G("d"), m=2), D("x")]),
    "groups of one transform": ("C28 C08", [Gr(G("a"), m=0), Gr(G("b"), m=0), D("x"), Gr(G("c"), m=0), D("y")]),
    "group opacities": ("C09", [Gr(G("a"), D("x", 20), Gr(G("b"), D("y", 40), op=50), op=50), G("c"), D("z", 60)]),
    "an empty group": ("C28", [G("a"), Gr(), D("x"), Gr(D("y")), G("b")]),
    "a fill after a nested outline already filled": ("C28", [Gr(G("a"), D("x")), Gr(G("b")), D("y")]),
    "an outline trimmed away": ("C24", [G("a"), NOTHING, D("x")]),
    "an outline after one trimmed away": ("C24", [G("a"), NOTHING, G("b"), D("x")]),
    "a full trim": ("C24", [G("a"), ALL, G("b"), D("x")]),
    "a full trim after an empty one": ("C24", [G("a"), NOTHING, ALL, G("b"), D("x")]),
    "two empty trims": ("C24", [G("a"), NOTHING, G("b"), NOTHING, G("c"), D("x")]),
    "a nested trim": ("C24", [G("a"), Gr(G("b"), NOTHING), D("x")]),
    "a nested trim without outlines": ("C24", [G("a"), Gr(NOTHING), D("x")]),
    "a nested trim before any fill": ("C24", [G("a"), Gr(G("b"), NOTHING, G("c")), G("d"), D("x")]),
    "a nested trim after a fill": ("C24", [G("a"), D("x"), Gr(G("b"), NOTHING, G("c"), D("y")), D("z")]),
    "a trim over a nested outline": ("C24", [Gr(G("a")), NOTHING, G("b"), D("x")]),
    "a trim over a nested outline of another transform": ("C24", [Gr(G("a"), m=0), Gr(G("b"), m=1), NOTHING, Gr(G("c"), m=1), D("x")]),
    "a nested full trim after an empty one": ("C24", [G("a"), Gr(G("b"), ALL), Gr(G("c"), NOTHING, ALL), D("x")]),
    "two copies": ("C25", [G("a"), D("x"), R(2)]),
    "three copies of two outlines": ("C25", [G("a"), G("b"), D("x"), R(3)]),
    "copies of two paints": ("C25", [G("a"), D("x"), G("b"), D("y"), R(2)]),
    "copies with an offset": ("C25", [G("a"), D("x"), R(3, offset=2)]),
    "copies that fade": ("C25", [G("a"), D("x"), R(4, 100, 20)]),
    "copies that appear": ("C25", [G("a"), D("x"), R(2, 0, 80)]),
    "one copy that fades": ("C25", [G("a"), D("x"), R(1, 60, 20)]),
    "no copies": ("C25", [G("a"), D("x"), R(0), G("b"), D("y")]),
    "copies, then more": ("C25 C28", [G("a"), D("x"), R(2), G("b"), D("y")]),
    "copies under a transform": ("C25 C08", [Gr(G("a"), D("x"), R(2), m=0), G("b"), D("y")]),
    "copies of a group": ("C25", [Gr(G("a"), D("x"), m=0), G("b"), D("y"), R(2)]),
    "nested copies": ("C25", [G("a"), Gr(G("b"), D("x"), R(2)), G("c"), D("y")]),
    "nested copies without a paint": ("C25 C28", [G("a"), D("w"), Gr(G("b"), R(2)), D("x")]),
    "copies of copies": ("C25", [G("a"), D("x"), R(2), R(3, pos=(5, 7))]),
    "copies of copies in a group": ("C25", [Gr(G("a"), D("x"), R(2)), G("b"), D("y"), R(2, pos=(1, 2))]),
    "copies after an outer paint": ("C25", [G("z"), D("w"), Gr(G("a"), D("x"), G("b"), D("y"), R(2)), D("v")]),
    "copies of a nested outline not painted itself": ("C25", [G("a"), Gr(G("b"), m=1), D("x"), G("c"), D("y"), R(2)]),
    "copies of what is left of a trim": ("C25 C24", [G("a"), NOTHING, G("b"), D("x"), R(2)]),
    "a part": ("C24", [G("a"), PART, D("x")]),
    "a part of two outlines of two transforms": ("C24", [Gr(G("a"), m=0), Gr(G("b"), m=1), PART, D("x")]),
    "almost nothing trimmed": ("C24", [G("a"), ("T", 0, Fr(199, 2)), D("x"), G("b"), D("y")]),
    "almost all trimmed": ("C24", [G("a"), ("T", 50, Fr(501, 10)), D("x")]),
    "a trim backwards": ("C24", [G("a"), ("T", 70, 20), D("x")]),
    "a part after a paint": ("C24", [G("a"), D("x"), PART, D("y")]),
    "an outline after a part": ("C24 C28", [G("a"), PART, G("b"), D("x")]),
    "a part of the nested outlines": ("C24", [G("z"), Gr(G("a"), PART, G("b"), D("x")), G("c"), D("y")]),
    "a part of nested outlines of other transforms": ("C24", [G("z"), Gr(G("y"), m=1), Gr(Gr(G("a"), m=2), G("b"), PART, m=0), G("c"), D("x")]),
    "a part in a group behind": ("C24", [Gr(G("a"), m=0), Gr(G("b"), m=1), Gr(G("c"), m=2), Gr(G("d"), PART, D("x"), m=3), D("y")]),
    "a part, then nothing": ("C24", [G("a"), PART, D("x"), G("b"), NOTHING, G("c"), D("y")]),
    "nothing, then a part": ("C24", [G("a"), NOTHING, G("b"), PART, G("c"), D("x")]),
    "nothing outside, a part inside": ("C24", [G("a"), Gr(G("b"), NOTHING), Gr(G("c"), PART), G("d"), D("x")]),
    "two parts": ("C24", [G("a"), PART, G("b"), ("T", 0, 50), G("c"), D("x")]),
    "parts of copies": ("C24 C25", [G("a"), D("x"), R(2), PART, G("b"), D("y")]),
    "copies of parts": ("C24 C25", [G("a"), PART, D("x"), R(2), G("b"), D("y")]),
    "a part, full": ("C24", [G("a"), PART, Gr(G("b"), ALL), ALL, D("x")]),
    "an animated trim": ("C24 C33", [G("a"), ("T", 0, A((0, 0), (10, 50), (11, 100))), G("b"), D("x")]),
    "an animated trim soon": ("C24 C33", [G("a"), ("T", A((0, 0), (Fr(21, 2), 50)), 50), G("b"), D("x")]),
    "no copies, then copies": ("C25", [G("a"), D("x"), R(0), G("b"), D("y"), R(2)]),
    "no copies in a group, then copies": ("C25", [Gr(G("a"), D("x"), R(0)), Gr(G("b"), D("y"), R(2)), G("c"), D("z")]),
    "no copies after copies": ("C25", [G("a"), D("x"), R(2), R(0), G("b"), D("y")]),
    "a copy outside of no copies": ("C25", [G("w"), D("v"), Gr(G("a"), D("x"), R(0)), G("b"), D("y"), R(2)]),
    "copies that do not appear": ("C25", [G("a"), D("x"), R(2, 0, 0), G("b"), D("y")]),
    "animated copies": ("C25 C33", [G("a"), D("x"), R(A((0, 1), (10, 3), (11, 4)))]),
    "copies with an animated offset and animated alphas": ("C25 C33", [G("a"), D("x"), R(2, A((0, 10), (10, 80), (11, 100)), A((0, 100), (9, 20), (11, 0)), A((10, 3), (11, 4)))]),
    "an animated outline": ("C33", [G(A((0, "a"), (10, "b"), (11, "c"))), D("x")]),
    "animated opacities": ("C33 C09", [G("a"), D("x", A((0, 10), (10, 30), (11, 60))), Gr(G("b"), D("y"), op=A((0, 50), (10, 25)))]),
    "animated group transforms": ("C33 C08", [G("a"), Gr(G("b"), D("y"), m=A((0, (1, 2)), (10, (4, 8)), (11, (6, 4))), op=80), D("x")]),
    "a trim of copies": ("C25 C24", [G("a"), R(2), NOTHING, G("b"), D("x")]),
}

sq_ = lambda k, **kw: L(k, G("o" + k), D("p" + k), **kw)
IN = lambda k, name, **kw: L(k, inst=name, **kw)

EARLY = Fr(23, 2)  # a frame between two frames
STEP = lambda u, v: A((0, u), (EARLY, v), (12, u))  # v in the half frame after EARLY only

_LAYER_SCENES = {
    "two layers": ("C11 C31 C12", scene(sq_("a"), sq_("b"))),
    "layers that begin and end": ("C10", scene(sq_("a", frames=(0, 10)), sq_("b", frames=(10, 20)), sq_("c", frames=(11, 20)), sq_("d", frames=(0, 11)))),
    "a fractional frame": ("C10 C33", scene(sq_("a", frames=(0, 10)), sq_("b", frames=(9, 11)), frame=Fr(19, 2))),
    "a negative frame": ("C10", scene(sq_("a", frames=(-5, 10)), sq_("b", frames=(0, 11)), frame=-3)),
    "an empty range": ("C10", scene(sq_("a", frames=(10, 10)), sq_("b", frames=(20, 0)), sq_("c"))),
    "a layer without content": ("C10 C31", scene(L("a", empty=True), sq_("b"))),
    "a transform of the caller": ("C08 C09", scene(sq_("a", m=0), sq_("b", m=1), m=2, alpha=Fr(1, 4))),
    "a parent": ("C08 C09", scene(sq_("a", m=0, parent=1, op=40), sq_("b", m=1, op=20), m=2)),
    "a chain of parents": ("C08", scene(sq_("a", m=0, parent=2), sq_("b", m=1), sq_("c", m=3, parent=1), sq_("d", m=4, parent=0), m=2)),
    "a parent that is not active": ("C08 C10", scene(sq_("a", m=0, parent=1), sq_("b", m=1, frames=(20, 30), parent=2), L("c", m=3, empty=True))),
    "a parent that does not exist": ("C08", scene(sq_("a", m=0, parent=7), sq_("b", m=1, parent=0))),
    "a parent that is a matte source": ("C08 C10", scene(sq_("a", m=0, parent=1), sq_("b", m=1, src=True))),
    "matte sources": ("C10", scene(sq_("a", src=True), sq_("b"), sq_("c", src=True))),
    "a matte": ("C32 C01 C31", scene(sq_("a", src=True, m=0, op=30), sq_("b", m=1, matte=("SrcIn", 0)), m=2, alpha=Fr(1, 2))),
    "an inverted matte further down": ("C32 C31", scene(sq_("a", matte=("SrcOut", 2)), sq_("b"), sq_("c", src=True))),
    "a matte source that is drawn too": ("C32 C10", scene(sq_("a"), sq_("b", matte=("SrcIn", 0)))),
    "a matte source that is not active": ("C32 C01 C10", scene(sq_("a", src=True, frames=(20, 30)), sq_("b", matte=("SrcIn", 0)), sq_("c"))),
    "a matte source that does not exist": ("C32 C01", scene(sq_("a", matte=("SrcIn", 9)), sq_("b"))),
    "a matte source that is matted": ("C32 C01", scene(sq_("a", src=True), sq_("b", src=True, matte=("SrcOut", 0)), sq_("c", matte=("SrcIn", 1)))),
    "a matted layer that is not active": ("C32 C10", scene(sq_("a", src=True), sq_("b", frames=(20, 30), matte=("SrcIn", 0)))),
    "two layers matted by one": ("C32 C31", scene(sq_("a", src=True), sq_("b", matte=("SrcIn", 0)), sq_("c", matte=("SrcOut", 0)))),
    "a matte without content": ("C32 C01", scene(L("a", empty=True, src=True), L("b", empty=True, matte=("SrcIn", 0)))),
    "a matte with a parent": ("C08 C32", scene(sq_("a", src=True, m=0, parent=2), sq_("b", m=1, matte=("SrcIn", 0), parent=2), sq_("c", m=3), m=4)),
    "a mask": ("C32 C01", scene(sq_("a", m=0, masks=("u",)), sq_("b"), m=1)),
    "three masks": ("C32 C01", scene(sq_("a", m=0, masks=("u", "v", "w"), parent=1), sq_("b", m=2, masks=("t",)))),
    "masks of an empty layer": ("C32 C01", scene(L("a", empty=True, masks=("u", "v")), sq_("b"))),
    "masks and a matte": ("C32 C01", scene(sq_("a", src=True, m=1, masks=("u",)), sq_("b", m=0, masks=("v", "w"), matte=("SrcIn", 0)), sq_("c"))),
    "masks of a layer without outlines": ("C32 C12", scene(L("a", D("x"), masks=("u",)), L("b", G("g"), D("y")))),
    "an outline that is not painted": ("C12 C28", scene(L("a", G("g"), D("x")), L("b", G("h")), L("c", D("y")))),
    "copies in two layers": ("C12 C25", scene(L("a", G("g"), D("x"), R(2)), L("b", G("h"), D("y"), R(3)))),
    "trims in two layers": ("C12 C24", scene(L("a", G("g"), NOTHING, D("x")), L("b", G("h"), D("y")), L("c", G("i"), NOTHING, G("j"), D("z")))),
    "a precomposition": ("C27 C31 C09", scene(IN("a", "A", m=0, op=30), sq_("b"), m=1, A=(sq_("c", m=2, op=40), sq_("d", frames=(5, 11))))),
    "a precomposition with a start": ("C27 C33", scene(IN("a", "A", t0=4), A=(sq_("c", frames=(6, 7)), sq_("d", frames=(0, 6)), sq_("e", frames=(7, 20))))),
    "a stretched precomposition": ("C27 C33", scene(IN("a", "A", t0=4, stretch=2), A=(sq_("c", frames=(3, 4)), sq_("d", frames=(0, 3)), sq_("e", frames=(4, 20))))),
    "a compressed precomposition": ("C27", scene(IN("a", "A", t0=2, stretch=Fr(1, 2)), A=(sq_("c", frames=(16, 17)), sq_("d", frames=(0, 16))))),
    "a precomposition before its start": ("C27 C10", scene(IN("a", "A", t0=20), A=(sq_("c", frames=(-10, 0)), sq_("d")))),
    "a precomposition that is not active": ("C27 C10", scene(IN("a", "A", frames=(11, 20)), A=(sq_("c"),))),
    "a precomposition that does not exist": ("C27 C31", scene(IN("a", "B"), sq_("b"), A=(sq_("c"),))),
    "one of two precompositions": ("C27", scene(IN("a", "B"), A=(sq_("c"),), B=(sq_("d"), sq_("e")))),
    "a precomposition twice": ("C27 C12 C03", scene(IN("a", "A", m=0, t0=5), IN("b", "A", m=1, stretch=5), A=(sq_("c"), sq_("d", frames=(0, 3))))),
    "precompositions in each other": ("C27 C09 C08 C33", scene(IN("a", "A", m=0, t0=1, stretch=3, op=40), A=(sq_("x"), IN("c", "B", m=1, t0=1, stretch=2, op=20)), B=(sq_("d", m=2, op=60), sq_("e", frames=(1, 2))))),
    "matte sources in a precomposition": ("C10 C27", scene(IN("a", "A"), A=(sq_("c", src=True), sq_("d")))),
    "a matte in a precomposition": ("C32 C27 C31", scene(sq_("s", src=True), IN("a", "A", m=0, op=20), A=(sq_("c"), sq_("d", src=True), sq_("e", m=1, matte=("SrcIn", 1))))),
    "parents in a precomposition": ("C08 C27", scene(sq_("p", m=3), IN("a", "A", m=0, parent=0), A=(sq_("c", m=1, parent=1), sq_("d", m=2)))),
    "a precomposition as a matte": ("C32 C27", scene(IN("a", "A", m=0, src=True), sq_("b", matte=("SrcOut", 0)), A=(sq_("c"),))),
    "a matted precomposition": ("C32 C27 C01", scene(sq_("a", src=True), IN("b", "A", m=0, matte=("SrcIn", 0), masks=("u",)), A=(sq_("c", masks=("v",)), sq_("d")))),
    "a precomposition before and after a mask": ("C32 C01", scene(IN("a", "A", masks=("u",)), sq_("b"), A=(sq_("c", masks=("v",)),))),
    "an empty precomposition": ("C27 C01", scene(IN("a", "A", masks=("u",)), sq_("b"), A=())),
    "no layers": ("C01 C11", scene()),
    "a layer in itself": ("C03 C01", scene(IN("a", "A"), A=(sq_("b"), IN("c", "A", m=0), sq_("d")))),
    "precompositions in a circle": ("C03 C01", scene(IN("a", "A", m=0), sq_("z"), A=(IN("b", "B", m=1), sq_("x")), B=(IN("c", "C", m=2),), C=(sq_("y"), IN("d", "A", m=3, masks=("u",))))),
    "precompositions in each other twice": ("C03", scene(IN("a", "A", m=0), IN("b", "B", m=1), A=(IN("c", "B", m=2), sq_("x")), B=(IN("d", "A", m=3), sq_("y")))),
    "a precomposition twice in another": ("C03 C27", scene(IN("a", "A"), A=(IN("b", "B", m=0), IN("c", "B", m=1)), B=(sq_("x"),))),
    "a layer that is its own matte": ("C03 C01 C32", scene(sq_("a", matte=("SrcIn", 0)), sq_("b"))),
    "layers that are each other's matte": ("C03 C01 C32", scene(sq_("a", src=True, matte=("SrcIn", 1)), sq_("b", src=True, matte=("SrcOut", 0)), sq_("c", matte=("SrcIn", 0)))),
    "mattes in a circle of three": ("C03 C01", scene(sq_("a", matte=("SrcIn", 1)), sq_("b", matte=("SrcIn", 2)), sq_("c", matte=("SrcIn", 0)))),
    "a matte whose source contains the layer": ("C03 C01", scene(IN("a", "A", src=True), IN("b", "B", matte=("SrcIn", 0)), A=(IN("c", "B"),), B=(IN("d", "A"), sq_("x")))),
    "a parent that is its own parent": ("C03", scene(L("a", empty=True, parent=0), sq_("b"))),
    "many masks": ("C32 C01", scene(sq_("a", m=0, masks=tuple("u%d" % i for i in range(10))), sq_("b"))),
    "many layers": ("C11 C31", scene(*[sq_("l%d" % i) for i in range(18)])),
    "many ancestors": ("C08", scene(*[sq_("l%d" % i, m=i % 6, parent=i + 1 if i < 17 else None) for i in range(18)])),
    "a matte of a translucent layer under masks": ("C32 C09", scene(sq_("a", src=True, op=30, masks=("u",)), sq_("b", op=60, m=0, masks=("v",), matte=("SrcIn", 0)), alpha=Fr(1, 2))),
    "an unnamed precomposition": ("C31", scene(IN("", "A"), A=(sq_("b"), L("", G("g"), D("x"))))),
    "precomposition and layer of one name": ("C31 C27", scene(IN("A", "A"), A=(sq_("A"),))),
    "an opaque caller": ("C09", scene(sq_("a", op=100), alpha=2)),
    "a caller that shows nothing": ("C09 C31 C01", scene(sq_("a"), IN("b", "A", masks=("u",)), alpha=0, A=(sq_("c"),))),
    "invisible layers": ("C09 C31 C01", scene(sq_("a", op=0, masks=("u",)), sq_("b", op=0, src=True), sq_("c", matte=("SrcIn", 1)))),
    "animated opacities of layers": ("C33 C09", scene(sq_("a", op=STEP(20, 70)), IN("b", "A", op=STEP(10, 40)), frame=EARLY, A=(sq_("c", op=STEP(50, 60)),))),
    "animated transforms of layers": ("C33 C08", scene(sq_("a", m=STEP((1, 2), (3, 5)), parent=1), sq_("b", m=STEP((2, 9), (8, 1)), parent=2), L("c", empty=True, m=STEP((4, 4), (6, 7))), frame=EARLY, m=0)),
    "animated masks": ("C33 C32", scene(sq_("a", m=0, masks=(STEP("u", "v"), "w", STEP("s", "t"))), frame=EARLY)),
    "an animated matte": ("C33 C32", scene(L("a", G(STEP("f", "g")), D("x", STEP(20, 60)), m=STEP((1, 2), (3, 5)), op=STEP(10, 30), src=True), L("b", G(STEP("h", "i")), S("y", STEP(10, 20)), matte=("SrcOut", 0)), frame=EARLY)),
    "animated shapes of a layer": ("C33", scene(L("a", Gr(G(STEP("f", "g")), D("x", STEP(20, 60)), R(STEP(1, 3), STEP(100, 40)), m=STEP((1, 2), (3, 5)), op=STEP(30, 90)), G("b"), ("T", 0, STEP(0, 100)), S("y", STEP(15, 25))), frame=EARLY)),
    "animated layers of a precomposition": ("C33 C27", scene(IN("a", "A", m=STEP((1, 2), (3, 5)), t0=20, stretch=2, op=STEP(20, 60)), frame=43, A=(L("b", G(STEP("f", "g")), D("x", STEP(20, 60)), m=STEP((3, 2), (7, 5)), op=STEP(10, 30), parent=1), sq_("c", m=STEP((1, 2), (3, 5)))))),
    "another animation before": ("C12", scene(sq_("a", m=0), sq_("b"), before=scene(L("x", G("f"), NOTHING, D("p")), sq_("y"), sq_("z")))),
    "the same animation at another frame before": ("C12", scene(sq_("a", m=STEP((1, 2), (3, 5)), parent=1, op=STEP(20, 60)), sq_("b", m=STEP((2, 9), (8, 1)), frames=(12, 20)), frame=EARLY,
                                                                before=scene(sq_("a", m=STEP((1, 2), (3, 5)), parent=1, op=STEP(20, 60)), sq_("b", m=STEP((2, 9), (8, 1)), frames=(12, 20)), frame=12))),
    "another animation of as many layers before": ("C12", scene(sq_("a", m=0, parent=1), sq_("b", m=1), before=scene(sq_("a", m=2, parent=1), sq_("b", m=3)))),
    "another animation with such assets before": ("C12", scene(IN("a", "A", m=0), A=(sq_("b"),), before=scene(IN("a", "A", m=1), A=(sq_("c"), sq_("d"))))),
    "masks before": ("C12", scene(sq_("a", masks=("u",)), sq_("b", masks=("v", "w")), before=scene(sq_("a", masks=("s", "t")), L("c", empty=True, masks=("r",))))),
    "copies and parts before": ("C12", scene(L("a", G("g"), D("x"), R(2)), L("b", G("h"), PART, D("y")), before=scene(L("a", G("k"), PART, D("z"), R(3)), L("c", G("l"), D("w"), R(0)), L("b", G("m"), ALL)))),
    "unpainted outlines before": ("C12", scene(L("a", D("x")), L("b", G("h"), D("y")), before=scene(L("a", G("k")), L("c", G("l"), NOTHING)))),
    "paints alone before": ("C12", scene(L("a", G("g"), D("x")), before=scene(L("a", D("z")), L("b", S("w"), R(2))))),
    "cycles before": ("C12 C03", scene(sq_("a", matte=("SrcIn", 1)), sq_("b"), before=scene(sq_("a", matte=("SrcIn", 1)), sq_("b", matte=("SrcIn", 0))))),
}

WHAT = {"C01": "what is opened is closed", "C03": "a layer may be drawn more than once side by side", "C08": "transforms", "C09": "alphas", "C10": "which layers draw",
        "C11": "painting order", "C12": "layers do not disturb each other", "C24": "what a trim removes", "C25": "copies", "C27": "precompositions", "C28": "what a paint covers",
        "C31": "layer groups", "C32": "masks and mattes", "C33": "frames"}

_done = {}


def scenes():
    for n, (ps, xs) in _SHAPE_SCENES.items():
        # alone, and between two other layers under a transform
        yield n, ps.split(), scene(L("a", *xs))
        yield n + ", between other layers", ps.split(), scene(sq_("q"), L("a", *xs, m=5, op=80), L("r", G("r"), S("r")), m=4, alpha=Fr(1, 2), frame=12)
    for n, (ps, s) in _LAYER_SCENES.items():
        yield n, ps.split(), s


def compare(name, s):
    """None when the source makes the calls asked for, else what differs; Undecided when that is not known"""
    key = name
    if key not in _done:
        try:
            b = Build(s)
            ev = limited(LONG, lambda: Reader(b).events(b.run()))
            # everything happens inside one clip to the composition
            if ev and ev[0][0] == "clip" and ev[0][2] == "rect" and ev[-1] == ("pop",):
                ev = ev[1:-1]
            got, want = tidy(ev), tidy(Oracle(s).run())
            d = None
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                at_ = lambda l: l[i] if i < len(l) else None
                d = "%s: call %d is %s where %s is due" % (name, i + 1, words(at_(got)), words(at_(want)))
            _done[key] = d
        except Undecided as e:
            _done[key] = e
        except Slow:
            _done[key] = Undecided("not interpreted within %d seconds" % LONG)
        except (Missing, Unsupported, tm.Budget, RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError) as e:
            # a shape of code or value the reading of calls was not written for
            _done[key] = Undecided("%s: %s" % (type(e).__name__, str(e)[:200]))
    if isinstance(_done[key], Undecided):
        raise _done[key]
    return _done[key]


def scene_rules(rep):
    pid = rep.pid
    out = Out(pid, rep)
    ii = root_inst("Renderer::append")
    w = where(facts().insts[ii])
    rep.analysed(*sorted({facts().insts[i]["path"] for i in facts().reach([ii])}))
    slow = 0
    for n, ps, s in scenes():
        if pid not in ps:
            continue
        what = "small animation, %s (%s)" % (WHAT[pid], n)
        if slow >= TOO_MANY:
            rep.undecided(what, w, "given up: the others took too long")
            continue
        try:
            d = compare(n, s)
        except Undecided as e:
            rep.undecided(what, w, str(e))
            slow += "not interpreted within" in str(e)
            continue
        out((pid,), "scene." + n, what, w, d is None, d)
