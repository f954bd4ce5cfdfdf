"""Renderer rules: what one call of Renderer::append feeds to its sink, as event terms.

append, the recursive layer renderer and the recursive shape collector are analysed separately; calls of a recursive
function are summarised (assume/guarantee): a layer call is one R event, a shape call is an opaque update of the state."""
from .base import *

ML = "runtime::model::Layer"
STATE = {}


def boundary(ii, inst, key, args):
    """public evaluation functions have their own rules and are kept as functions of (object, frame)"""
    if not inst["local"]:
        return None
    if key in ("PTR",):
        return None
    if key == "Geometry::evaluate":
        def m(c):
            c.set(2, seq([c.val(2), app("geom", c.val(0), c.args[1])]))
            return UNIT
        return m
    if key in EVALS and "::model::" in inst["path"]:
        return key
    return None


def flat_state(ty, t):
    """leaf fields (name path, term) of the renderer state, through local structs"""
    F = facts()
    out = []

    def go(path, cur, p):
        a = F.adt(p)
        for i, f in enumerate(a["variants"][0]["f"]):
            h = tyhead(f.get("ty"))
            sub_ = F.adt(h)
            c = fld(cur, 0, i, p)
            if sub_ is not None and sub_["local"] and sub_["kind"] == "struct" and len(sub_["variants"]) == 1 and "<" not in (f.get("ty") or ""):
                go(path + (f["n"],), c, h)
            else:
                out.append((path + (f["n"],), c))
    go((), t, ty)
    return out


def make_state(ty, get):
    """state value with leaf (path) = get(path)"""
    F = facts()

    def go(path, p):
        a = F.adt(p)
        fs = []
        for i, f in enumerate(a["variants"][0]["f"]):
            h = tyhead(f.get("ty"))
            sub_ = F.adt(h)
            if sub_ is not None and sub_["local"] and sub_["kind"] == "struct" and len(sub_["variants"]) == 1 and "<" not in (f.get("ty") or ""):
                fs.append(go(path + (f["n"],), h))
            else:
                fs.append(get(path + (f["n"],)))
        return adt(p, 0, *fs)
    return go((), ty)


class Head:
    """a recursive function and the roles of its parameters"""

    def __init__(self, ii):
        F = facts()
        self.ii = ii
        self.inst = F.insts[ii]
        b = self.inst["body"]
        self.tys = [F.types[b["locals"][i + 1]] for i in range(b["argc"])]
        dbg = {}
        for d in b["dbg"]:
            if len(d) > 2 and d[2] and len(d[1]) == 1:
                dbg[d[2]] = d[0]
        self.names = [dbg.get(i + 1, "arg%d" % i) for i in range(b["argc"])]
        self.roles = None
        self.extra = {}

    def tstr(self, i):
        F = facts()
        t = self.tys[i]
        while t["k"] in ("ref", "ptr"):
            t = F.types[t["t"]]
        return t


def ty_is(t, *names):
    s = t["s"]
    return any(s == n or s.endswith("::" + n) for n in names)


class Roles:
    pass


def is_scene_ty(h, i):
    """a &mut parameter that is not the state nor a model type is the sink"""
    t0 = h.tys[i]
    return t0["k"] == "ref" and t0.get("mut") and h.tstr(i)["k"] in ("param", "alias", "other", "dyn")


class RenderModel:
    def __init__(self, shapes=False):
        F = self.F = facts()
        self.problems = []  # (kind, text)
        self.renderer_ty = adtpath("Renderer")
        self.append = root_inst("Renderer::append")
        self.new = root_inst("Renderer::new")
        self.clean = Run(self.new).value
        self.leaves = [p for p, _ in flat_state(self.renderer_ty, self.clean)]
        self.clean_leaf = dict(flat_state(self.renderer_ty, self.clean))
        names = {p[-1]: p for p in self.leaves}
        self.active = {}
        for n in ("elements", "geometries", "draws", "drawn_geometry"):
            if n in names:
                self.active[n] = names[n]
        self.local = F.reach([self.append])
        comps = F.sccs(self.local)
        self.heads = {}
        for comp in comps:
            for e in self.heads_of(comp):
                self.heads[e] = Head(e)
        # the layer head takes a sink, the shape head takes shapes
        self.layer_heads = [h for h in self.heads.values() if any(ty_is(h.tstr(i), "model::Layer") or "model::Layer]" in h.tstr(i)["s"] for i in range(len(h.tys)))]
        self.shape_heads = [h for h in self.heads.values() if any("model::Shape]" in h.tstr(i)["s"] or "model::Shape>" in h.tstr(i)["s"] for i in range(len(h.tys))) and h not in self.layer_heads]
        self.dirty = False
        self.record = True
        self.state_obl = []  # (where, pc, description, ok)
        self.Rseen = []
        self.RSseen = []
        self.run_append()
        self.run_layer()
        self.S = None
        if shapes:
            self.run_shapes()

    def heads_of(self, comp):
        """the functions every cycle of the component passes through: one drawing a single layer or a list of shapes when
        that one breaks every cycle, otherwise those called from outside"""
        F = self.F
        ent = set()
        for i in self.local:
            if i not in comp:
                ent |= (F.callees(i) & set(comp))
        best = None
        for e in comp:
            if "{closure" in F.insts[e]["path"] or F.sccs(set(comp) - {e}):
                continue
            h = Head(e)
            ts = [h.tstr(i) for i in range(len(h.tys))]
            r = 0 if any(ty_is(t, "model::Layer") for t in ts) else 1 if any("model::Shape]" in t["s"] or "model::Shape>" in t["s"] for t in ts) else None
            if r is not None and (best is None or (r, e not in ent) < best[0]):
                best = ((r, e not in ent), e)
        return {best[1]} if best else ent

    # ------------------------------------------------------------ helpers
    def head_of(self, ii):
        F = self.F
        inst = F.insts[ii]
        for h in self.heads.values():
            if h.ii == ii or (h.inst["path"] == inst["path"] and not any(True for _ in ())):
                return h
        return None

    def leafvals(self, st, h, args):
        """values of the parameters of h, state parameters removed"""
        out = {}
        for i in range(len(h.tys)):
            t = h.tstr(i)
            a = args[i]
            out[i] = a
        return out

    def state_arg(self, h):
        for i in range(len(h.tys)):
            if h.tys[i]["k"] == "ref" and h.tys[i].get("mut") and h.tstr(i).get("path") and h.tstr(i)["path"].startswith("runtime::render"):
                return i
        return None

    def call(self, ip, fr, st, ii, args, sp):
        """a call of a recursive function"""
        h = self.head_of(ii)
        if h is None:
            return NotImplemented
        if h in self.layer_heads:
            return self.call_layer(h, ip, st, args, sp)
        return self.call_shapes(h, ip, st, args, sp)

    def val(self, ip, st, a):
        return ip.load(st, a) if ip._isref(a) else a

    def state_at(self, ip, st, h, args):
        i = self.state_arg(h)
        if i is None:
            return None, None, None
        ref = args[i]
        v = ip.load(st, ref)
        p = h.tstr(i)["path"]
        return ref, p, v

    def prefix(self, p):
        """leaf path prefix of a state struct type inside the renderer"""
        if p == self.renderer_ty:
            return ()
        F = self.F

        def go(path, q):
            for f in F.adt(q)["variants"][0]["f"]:
                hh = tyhead(f.get("ty"))
                if hh == p:
                    return path + (f["n"],)
                a = F.adt(hh)
                if a is not None and a["local"] and a["kind"] == "struct" and hh.startswith("runtime::render"):
                    r = go(path + (f["n"],), hh)
                    if r is not None:
                        return r
            return None
        return go((), self.renderer_ty)

    def check_clean(self, ip, st, p, v, which, where_):
        pre = self.prefix(p)
        if pre is None:
            raise Undecided("state of type %s" % p)
        for path, t in flat_state(p, v):
            full = pre + path
            if full not in which:
                continue
            want = self.clean_leaf[full]
            t2 = restrict(t, st.pc) if t.op == "case" else t
            d = diff(under_pc(t2, st.pc), want)
            if self.record:
              self.state_obl.append((where_, ".".join(full), d))

    def call_layer(self, h, ip, st, args, sp):
        vals = {}
        ref, p, v = self.state_at(ip, st, h, args)
        if ref is not None:
            pre = self.prefix(p)
            if self.dirty:
                ip.store(st, ref, make_state(p, lambda q: fresh("dirty")))
            else:
                self.check_clean(ip, st, p, v, set(self.leaves), ("layer", self.cur, sp))
                ip.store(st, ref, make_state(p, lambda q: self.clean_leaf[pre + q]))
        sc = None
        for i in range(len(h.tys)):
            if is_scene_ty(h, i):
                sc = args[i]
            else:
                vals[i] = self.val(ip, st, args[i])
        if h.roles is None:
            self.assign_roles(h, vals, ip)
        if sc is None:
            raise Undecided("recursive layer function without a sink parameter")
        ev = self.role_event(h, vals)
        if not self.dirty and self.record:
            self.Rseen.append((self.cur, ev, st.pc))
        cur = ip.load(st, sc)
        ip.store(st, sc, seq([cur, one(ev)]))
        return UNIT

    def assign_roles(self, h, vals, ip):
        anim, frame, xf, alpha = self.asym
        layers = path_get(anim, "runtime::Composition", "layers")
        roles = {}
        f64s = []
        for i in range(len(h.tys)):
            if is_scene_ty(h, i):
                roles[i] = "scene"
                continue
            if i == self.state_arg(h):
                roles[i] = "state"
                continue
            t = h.tstr(i)
            s = t["s"]
            if ty_is(t, "Composition"):
                roles[i] = "anim"
            elif s in ("[runtime::model::Layer]", "std::vec::Vec<runtime::model::Layer>"):
                roles[i] = "layers"
            elif ty_is(t, "model::Layer"):
                roles[i] = "layer"
            elif s == "kurbo::Affine":
                roles[i] = "xf"
            elif s == "f64":
                f64s.append(i)
            elif s == "usize":
                roles[i] = "index" if "index" not in roles.values() else "extra"
            else:
                roles[i] = "extra"
        for i in f64s:
            if vals[i] is frame:
                roles[i] = "frame"
            elif vals[i] is alpha:
                roles[i] = "alpha"
        left = [i for i in f64s if i not in roles]
        for i in left:
            n = h.names[i]
            roles[i] = n if n in ("alpha", "frame") and n not in roles.values() else "extra"
        need = {"layer", "xf", "alpha", "frame"}
        miss = need - set(roles.values())
        if miss:
            raise Undecided("parameters of the layer function: no %s" % ", ".join(sorted(miss)))
        h.roles = roles
        for i, r in roles.items():
            if r == "extra":
                h.extra[i] = vals[i]

    ROLES = ("layers", "layer", "index", "xf", "alpha", "frame")

    def role_event(self, h, vals):
        d = {}
        ex = []
        for i, r in h.roles.items():
            if r in ("state", "scene"):
                continue
            if r == "extra":
                ex.append(vals[i])
            else:
                d[r] = vals[i]
        if "layers" not in d:
            d["layers"] = UNIT
        if "index" not in d:
            d["index"] = UNIT
        anim = d.get("anim", UNIT)
        return adt("ev:R", 0, *[d[r] for r in self.ROLES], anim, tup(*ex))

    # ------------------------------------------------------------ append
    def run_append(self):
        self.A = self.append_body()
        self.append_events = self.A.cells[("scene",)]
        # a fresh state again at the end
        for path, t in flat_state(self.renderer_ty, self.A.cells[("self",)]):
            self.state_obl.append((("exit", "append", None), ".".join(path), diff(t, self.clean_leaf[path])))

    def dirty_append(self):
        """events of append on a renderer in an arbitrary state"""
        self.dirty = True
        try:
            return self.append_body().cells[("scene",)]
        finally:
            self.dirty = False

    def dirty_layer(self):
        self.dirty = True
        try:
            return self.layer_body(self.L, self.L.extra)[1]
        finally:
            self.dirty = False

    def append_body(self):
        F = self.F
        h = Head(self.append)
        args = [None] * len(h.tys)
        cells = {}
        self.asym = [None] * 4
        for i in range(len(h.tys)):
            t = h.tstr(i)
            if is_scene_ty(h, i):
                cells[("scene",)] = EMPTY
                args[i] = mk("mref", ("scene",))
            elif t.get("path") == self.renderer_ty:
                cells[("self",)] = make_state(self.renderer_ty, lambda q: fresh("dirty")) if self.dirty else self.clean
                args[i] = mk("mref", ("self",))
            elif ty_is(t, "Composition"):
                args[i] = self.asym[0] = sym("anim")
            elif t["s"] == "kurbo::Affine":
                args[i] = self.asym[2] = sym("xf")
            elif t["s"] == "f64":
                k = 1 if self.asym[1] is None else 3
                args[i] = self.asym[k] = sym("frame" if k == 1 else "alpha")
            else:
                raise Missing("parameters of Renderer::append")
        if any(x is None for x in self.asym):
            raise Missing("parameters of Renderer::append")
        self.cur = "append"

        def opq(ii, inst, key, args_):
            hh = self.head_of(ii)
            if hh is not None:
                def m(c):
                    return self.call(c.ip, c.fr, c.st, ii, c.args, c.sp)
                return m
            return boundary(ii, inst, key, args_)
        self.opq = opq
        return Run(self.append, args, cells, opq=opq)

    # ------------------------------------------------------------ layer
    def run_layer(self, symbolic_extra=False):
        if len(self.layer_heads) == 0:
            self.L = None
            return
        if len(self.layer_heads) > 1:
            raise Undecided("several recursive layer functions")
        h = self.layer_heads[0]
        if h.roles is None:
            raise Undecided("the layer function is not called from append")
        self.L = h
        self.lsym = {}
        self.layer_run, self.layer_events = self.layer_body(h, h.extra)

    def layer_body(self, h, extra):
        args = [None] * len(h.tys)
        cells = {("scene",): EMPTY}
        for i, r in h.roles.items():
            if r == "scene":
                args[i] = mk("mref", ("scene",))
            elif r == "state":
                p = h.tstr(i)["path"]
                pre = self.prefix(p)
                cells[("self",)] = make_state(p, lambda q: fresh("dirty") if self.dirty else self.clean_leaf[pre + q])
                args[i] = mk("mref", ("self",))
            elif r == "extra":
                args[i] = extra[i]
            else:
                args[i] = sym("L." + r)
                self.lsym[r] = args[i]
        self.cur = h.inst["path"].split("::")[-1]

        def rec(ip, fr, st, ii, a, sp):
            return self.call(ip, fr, st, ii, a, sp)

        def opq(ii, inst, key, a):
            hh = self.head_of(ii)
            if hh is not None and hh is not h:
                def m(c):
                    return self.call(c.ip, c.fr, c.st, ii, c.args, c.sp)
                return m
            if hh is h:
                def m(c):
                    if len(c.ip.stack) == 0:
                        return NotImplemented
                    return self.call(c.ip, c.fr, c.st, ii, c.args, c.sp)
                return m
            return boundary(ii, inst, key, a)
        r = Run(h.ii, args, cells, opq=opq, rec=rec)
        if ("self",) in r.cells and not self.dirty and self.record:
            p = h.tstr(self.state_arg(h))["path"]
            pre = self.prefix(p)
            for path, t in flat_state(p, r.cells[("self",)]):
                self.state_obl.append((("exit", self.cur, None), ".".join(pre + path), diff(t, self.clean_leaf[pre + path])))
        return r, r.cells[("scene",)]

    # ------------------------------------------------------------ shapes
    def shape_roles(self, h, vals):
        roles = {}
        f64s = []
        for i in range(len(h.tys)):
            t = h.tstr(i)
            s = t["s"]
            if i == self.state_arg(h):
                roles[i] = "state"
            elif "model::Shape]" in s or "model::Shape>" in s:
                roles[i] = "shapes"
            elif s == "kurbo::Affine":
                roles[i] = "xf"
            elif s == "f64":
                f64s.append(i)
            else:
                roles[i] = "extra"
        fr = self.lsym.get("frame")
        for i in f64s:
            if vals[i] is fr and "frame" not in roles.values():
                roles[i] = "frame"
        for i in f64s:
            if i not in roles:
                n = h.names[i]
                if "frame" in roles.values():
                    roles[i] = "alpha" if "alpha" not in roles.values() else "extra"
                else:
                    roles[i] = n if n in ("alpha", "frame") else "extra"
        miss = {"state", "shapes", "xf", "alpha", "frame"} - set(roles.values())
        if miss:
            raise Undecided("parameters of the shape function: no %s" % ", ".join(sorted(miss)))
        h.roles = roles
        for i, r in roles.items():
            if r == "extra":
                h.extra[i] = vals[i]

    SROLES = ("shapes", "xf", "alpha", "frame")

    def call_shapes(self, h, ip, st, args, sp):
        vals = {i: self.val(ip, st, args[i]) for i in range(len(h.tys))}
        if h.roles is None:
            self.shape_roles(h, vals)
        ref, p, v = self.state_at(ip, st, h, args)
        pre = self.prefix(p)
        act = set(self.active.values())
        if not self.dirty:
            self.check_clean(ip, st, p, v, set(self.leaves) - act, ("shapes", self.cur, sp))
        cur = {pre + q: t for q, t in flat_state(p, v)}
        byrole = {r: vals[i] for i, r in h.roles.items()}
        ops = [cur[x] for n, x in sorted(self.active.items())] + [byrole[r] for r in self.SROLES]
        if not self.dirty and self.record:
            self.RSseen.append((self.cur, [byrole[r] for r in self.SROLES], [cur[x] for n, x in sorted(self.active.items())], st.pc))

        def leaf(q):
            full = pre + q
            if full in act:
                return app("RS:" + full[-1], *ops)
            return fresh("dirty") if self.dirty else self.clean_leaf[full]
        ip.store(st, ref, make_state(p, leaf))
        return UNIT

    def rs(self, state, shapes, xf, alpha, frame):
        """state (dict name->term) after collecting shapes"""
        ops = [state[n] for n in sorted(self.active)] + [shapes, xf, alpha, frame]
        return {n: app("RS:" + self.active[n][-1], *ops) for n in self.active}

    def run_shapes(self):
        if not self.shape_heads:
            self.S = None
            return
        if len(self.shape_heads) > 1:
            raise Undecided("several recursive shape functions")
        h = self.S = self.shape_heads[0]
        if h.roles is None:
            raise Undecided("the shape function is not called from the layer function")
        if len(self.active) != 4:
            raise Undecided("renderer state fields %s" % sorted(self.active))
        args = [None] * len(h.tys)
        cells = {}
        self.ssym = {}
        self.spre = {n: sym("S0." + n) for n in self.active}
        for i, r in h.roles.items():
            if r == "state":
                p = h.tstr(i)["path"]
                pre = self.prefix(p)
                inv = {x: self.spre[n] for n, x in self.active.items()}
                cells[("self",)] = make_state(p, lambda q: inv.get(pre + q, self.clean_leaf[pre + q]))
                args[i] = mk("mref", ("self",))
            elif r == "extra":
                args[i] = h.extra[i]
            else:
                args[i] = sym("S." + r)
                self.ssym[r] = args[i]
        self.cur = h.inst["path"].split("::")[-1]

        def opq(ii, inst, key, a):
            hh = self.head_of(ii)
            if hh is h:
                def m(c):
                    if len(c.ip.stack) == 0:
                        return NotImplemented
                    return self.call(c.ip, c.fr, c.st, ii, c.args, c.sp)
                return m
            return boundary(ii, inst, key, a)
        r = self.shape_run = Run(h.ii, args, cells, opq=opq, rec=lambda ip, fr, st, ii, a, sp: self.call(ip, fr, st, ii, a, sp))
        pt = h.tstr(self.state_arg(h))["path"]
        pre = self.prefix(pt)
        self.shape_final = {pre + q: t for q, t in flat_state(pt, r.cells[("self",)])}


def under_pc(t, pc):
    if pc is TRUE:
        return t
    if t.op == "case":
        return restrict(t, pc)
    return assume(t, tm.literals(pc))


class BatchView:
    """the private records of the collected shapes, by the types of their fields"""

    def __init__(self, M):
        F = facts()
        self.M = M
        fty = {}

        def go(path, p):
            a = F.adt(p)
            for f in a["variants"][0]["f"]:
                h = tyhead(f.get("ty"))
                sub_ = F.adt(h)
                fty[path + (f["n"],)] = f.get("ty")
                if sub_ is not None and sub_["local"] and sub_["kind"] == "struct" and "<" not in (f.get("ty") or ""):
                    go(path + (f["n"],), h)
        go((), M.renderer_ty)
        if len(M.active) != 4:
            raise Undecided("renderer state fields %s" % sorted(M.active))
        el = lambda n: re.sub(r"^.*Vec<(.*)>$", r"\1", fty[M.active[n]])
        self.dty = el("draws")
        self.gty = el("geometries")
        self.dfld = self.roles(self.dty, {"stroke": "Option<kurbo::Stroke>", "brush": "peniko::Brush",
                                          "alpha": "f64", "geometry": "Range<usize>"})
        self.gfld = self.roles(self.gty, {"elements": "Range<usize>", "transform": "kurbo::Affine"})
        self.rp = adtpath("std::ops::Range")

    def roles(self, p, want):
        F = facts()
        a = F.adt(p)
        if a is None or a["kind"] != "struct":
            raise Undecided("type %s of the renderer state" % p)
        out = {}
        fs = a["variants"][0]["f"]
        if len(fs) != len(want):
            raise Undecided("fields of %s" % p)
        for r, t in want.items():
            c = [i for i, f in enumerate(fs) if (f.get("ty") or "") == t or (f.get("ty") or "").endswith("::" + t)]
            if len(c) != 1:
                raise Undecided("field of type %s in %s" % (t, p))
            out[r] = c[0]
        return out

    def d(self, t, r):
        if r in ("start", "end"):
            return fld(fld(t, 0, self.dfld["geometry"], self.dty), 0, 0 if r == "start" else 1, self.rp)
        return fld(t, 0, self.dfld[r], self.dty)

    def ge(self, t, r):
        if r in ("start", "end"):
            return fld(fld(t, 0, self.gfld["elements"], self.gty), 0, 0 if r == "start" else 1, self.rp)
        return fld(t, 0, self.gfld[r], self.gty)

    def draw(self, stroke, brush, alpha, a, b):
        v = {"stroke": stroke, "brush": brush, "alpha": alpha, "geometry": adt(self.rp, 0, a, b)}
        o = [None] * 4
        for r, i in self.dfld.items():
            o[i] = v[r]
        return adt(self.dty, 0, *o)

    def geo(self, a, b, xf):
        v = {"elements": adt(self.rp, 0, a, b), "transform": xf}
        o = [None] * 2
        for r, i in self.gfld.items():
            o[i] = v[r]
        return adt(self.gty, 0, *o)

    def brush(self, d):
        al = self.d(d, "alpha")
        br = self.d(d, "brush")
        return ite(fcmp("eq", al, ONE), br, app("Brush::multiply_alpha", br, al))

    def draw_events(self, D):
        """collected draws, last first, each over its geometries in order"""
        n = len_(D["draws"])
        k, j = fresh("k"), fresh("j")
        d = at(D["draws"], sub(sub(n, ONE), k))
        s, e = self.d(d, "start"), self.d(d, "end")
        gm = at(D["geometries"], add(s, j))
        ev = adt("ev:draw", 0, self.d(d, "stroke"), self.ge(gm, "transform"), self.brush(d),
                 slice_(D["elements"], self.ge(gm, "start"), self.ge(gm, "end")))
        return each(n, k, each(monus(e, s), j, seq([one(ev)])))
