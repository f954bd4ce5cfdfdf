"""C20: the Vello implementation of the render sink forwards every operation once and unchanged."""
from .base import *
from .layer import foreign
from engine.terms import OPT


def _opq(ii, inst, key, args):
    if inst["path"].startswith("vello::Scene::"):
        n = inst["path"].split("::")[-1]
        if n == "new":
            return "Scene::new"
        return lambda c: c.ip.event(c.st, n, c.args)
    if inst["local"] and inst["path"].endswith("Renderer::append"):
        return "Renderer::append"
    return None


def _plain(t):
    """without conversions into the type an operation takes"""
    def f(x):
        if x.op == "app" and x.a[0] in ("Into::into", "From::from") and len(x.a) == 2:
            return x.a[1]
        return x
    return tm.rewrite(t, f)


def sink_rules(rep):
    F = facts()
    nz = None
    try:
        nz = unit("peniko::Fill", "NonZero")
    except Missing:
        try:
            nz = unit("Fill", "NonZero")
        except Missing as e:
            rep.undecided("the sink operations", "", "not found: %s" % e)
            return
    NONE = adt(OPT, 0)
    S = sym("self")
    ev = lambda n, *a: one(adt("ev:" + n, 0, *a))
    ops = {
        "push_layer": (("self", "blend", "alpha", "transform", "shape"), "a layer is pushed with the non-zero rule and the given blend, alpha, transform and shape",
                       lambda a: ev("push_layer", nz, a[1], a[2], a[3], a[4])),
        "push_clip_layer": (("self", "transform", "shape"), "a clip is pushed with the non-zero rule and the given transform and shape",
                            lambda a: ev("push_clip_layer", nz, a[1], a[2])),
        "pop_layer": (("self",), "a layer is popped", lambda a: ev("pop_layer")),
        "draw": (("self", "stroke", "transform", "brush", "shape"), "a shape is stroked with the given stroke or filled with the non-zero rule, with the given transform and brush",
                 lambda a: opt(a[1], lambda s: ev("stroke", s, a[2], a[3], NONE, a[4]), lambda: ev("fill", nz, a[2], a[3], NONE, a[4]))),
    }
    for name, (params, what, want) in ops.items():
        c = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and (x.get("name") or x["path"].split("::")[-1]) == name and
             (x.get("impl_trait") or "").split("::")[-1].startswith("RenderSink") and "vello::Scene" in (x.get("impl_self") or "")]
        if not c:
            rep.undecided(what, "RenderSink::%s for vello::Scene" % name, "no such function")
            continue
        try:
            best = None
            r = Run(min(c), opq=_opq)
            W = where(r.inst)
            rep.analysed(W)
            # the scene as it was given, through the exclusive reference
            cell = [i for i, a in enumerate(r.args) if a.op == "mref"]
            if len(cell) != 1 or cell[0] != 0:
                raise Undecided("the sink is not taken by exclusive reference")
            vals = [r.cells0[("arg", 0)]] + list(r.args[1:])
            got = _plain(r.out(0))
            exp = tm.seq([vals[0], want(vals)])
            d = diff(got, exp)
            if d is None:
                rep.ok(what, W)
            else:
                u = {x for x in foreign(d) if not x.startswith(("scene", "Scene"))} - {"Into::into", "From::from"}
                if u:
                    rep.undecided(what, W, "the analysis has no rule for %s" % ", ".join(sorted(u)))
                else:
                    rep.bad("sink:" + name, what, W, explain(d))
        except (Undecided, Unsupported) as e:
            rep.undecided(what, name, str(e))
    what = "a scene is the result of rendering the composition once, at the given frame, transform and alpha, into a new scene"
    try:
        ii = root_inst("render_to_vello_scene")
        r = Run(ii, opq=_opq)
        W = where(r.inst)
        rep.analysed(W)
        vals = [r.cells0.get(("arg", i), a) for i, a in enumerate(r.args)]
        new_ = app("Scene::new")
        exp = app("Renderer::append/out5", *vals, new_)
        d = diff(r.value, exp)
        if d is None:
            rep.ok(what, W)
        else:
            u = unknown_apps(r.value) - KNOWN_APPS - {"Scene::new", "Renderer::append/out5", "Renderer::append/out0", "Renderer::append"}
            if u:
                rep.undecided(what, W, "the analysis has no rule for %s" % ", ".join(sorted(u)))
            else:
                rep.bad("sink:scene", what, W, explain(d))
    except (Undecided, Unsupported) as e:
        rep.undecided(what, "render_to_vello_scene", str(e))
    except Missing as e:
        rep.undecided(what, "render_to_vello_scene", "not found: %s" % e)
