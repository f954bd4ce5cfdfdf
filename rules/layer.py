"""Rules on the sink calls of Renderer::append and of one layer.

The events one call of the layer function emits are a term over the public fields of the layer; recursive calls are R
events (assume/guarantee), the shape collector is an opaque state update."""
from .base import *
import re
from engine import lin, witness
from .render import RenderModel, BatchView, under_pc

SINK = ("begin_layer_group", "end_layer_group", "push_layer", "push_clip_layer", "pop_layer", "draw")


def kind(e):
    return e.a[0][3:] if e.op == "adt" and isinstance(e.a[0], str) and e.a[0].startswith("ev:") else None


def args_(e):
    return e.a[2:]


RI = {r: i for i, r in enumerate(RenderModel.ROLES)}


def rarg(e, role):
    return e.a[2 + RI[role]]


def tag(name, *xs):
    return seq([one(adt("ev:" + name, 0, *xs))])


def mapev(t, f):
    """events mapped by f(event)->sequence"""
    return flatmap(t, f)


def walk(t, lits=None):
    """(event, decisions on the path, binder symbols) of every event occurrence"""
    lits = lits or {}
    out = []

    def go(s, lits, ks):
        for it in seqitems(s):
            if it.op == "one":
                out.append((it.a[0], lits, ks))
            elif it.op == "each":
                k = fresh("k")
                go(open_each(it, k), lits, ks + [(k, it.a[1])])
            elif it.op == "case":
                for o, c in enumerate(it.a[1:]):
                    if c is UNDEF:
                        continue
                    l2 = dict(lits)
                    l2[it.a[0]] = o
                    go(c, l2, ks)
            elif it.op == "seq":
                go(it, lits, ks)
            else:
                raise Undecided("event sequence of form %s" % it.op)
    go(t, lits, [])
    return out


def force_fields(t, ty, field, value):
    """t with every occurrence of `<x>.field` (type ty) replaced by value"""
    p, v, i = fidx(ty, field)
    seen, m = set(), {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fld" and x.a[1] == v and x.a[2] == i and x.a[3] == p:
            m[x] = value
        if x.op == "case" and x.a[0].op == "b":
            pass
        for c in tm._kids(x.op, x.a):
            st.append(c)
    return subst_many(t, m) if m else t


def sig(e):
    return kind(e) or "?"


class LayerRules:
    def __init__(self, M=None):
        self.M = M or RenderModel()
        self.B = BatchView(self.M)
        M = self.M
        if M.L is None:
            raise Undecided("the layer function is not recursive")
        l = self.l = M.lsym
        missing = {"layers", "layer", "index", "xf", "alpha", "frame", "anim"} - set(l)
        if missing:
            raise Undecided("layer function without %s" % ", ".join(sorted(missing)))
        self.events = M.layer_events
        self.prep()

    # ------------------------------------------------------------ set-up
    def prep(self):
        M, l = self.M, self.l
        L = self.layer_sym = l["layer"]
        G = lambda *ch: path_get(L, "runtime::model::Layer", *ch)
        self.G = G
        self.layers, self.index, self.xf, self.alpha, self.frame, self.anim = (l[k] for k in ("layers", "index", "xf", "alpha", "frame", "anim"))
        # the collected shapes of the layer
        rs = set()
        seen = set()
        st = [self.events]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("RS:"):
                rs.add(x)
            for c in tm._kids(x.op, x.a):
                st.append(c)
        keys = {x.a[1:] for x in rs}
        self.rs_keys = keys
        self.D = {n: sym("D." + n) for n in self.M.active}
        self.ev = self.events
        if len(keys) == 1:
            m = {}
            for x in rs:
                n = [n for n, p in self.M.active.items() if p[-1] == x.a[0][3:]][0]
                m[x] = self.D[n]
            self.ev = subst_many(self.events, m)
        self.shape_calls = [(a, s, pc) for w, a, s, pc in M.RSseen if w == M.layer_run.inst["path"].split("::")[-1]]
        # every layer-transform term in use
        self.T = None
        xs = {a[1] for a, s, pc in self.shape_calls}
        if len(xs) == 1:
            self.T = next(iter(xs))
        self.where = where(M.L.inst)
        self.awhere = where(M.F.insts[M.append])
        # frame gate: start <= frame < end
        st_, en = path_get(L, "runtime::model::Layer", "frames"), None
        rp = "std::ops::Range"
        fr = G("frames")
        self.start = fld(fr, 0, 0, adtpath(rp))
        self.end = fld(fr, 0, 1, adtpath(rp))
        self.gate = and_(fcmp("le", self.start, self.frame), fcmp("lt", self.frame, self.end))
        self.on = assume(self.ev, {}) if False else None
        self.ev_on = restrict(self.ev, self.gate) if self.ev.op == "case" else self.ev
        self.ev_on = self.strip_gate(self.ev_on)

    def strip_gate(self, t):
        """resolve decisions on the frame gate to `inside`"""
        for a in (sub(self.frame, self.start), sub(self.frame, self.end)):
            pass
        lits = tm.literals(tobool_case(self.gate))
        return assume(t, lits) if lits else t

    # ------------------------------------------------------------ expected events
    def rect(self, anim):
        w = path_get(anim, "runtime::Composition", "width")
        h = path_get(anim, "runtime::Composition", "height")
        return new("kurbo::Rect", x0=ZERO, y0=ZERO, x1=w, y1=h)

    def Rx(self, layers, layer, index, xf, alpha, frame):
        return tag("R", layers, layer, index, xf, alpha, frame, self.anim, UNIT)

    def norm(self, e):
        """event with incidental differences removed: extra arguments of the recursion, the two spellings of a
        blend mode with default composition"""
        k = kind(e)
        if k == "R":
            return tag("R", *(list(e.a[2:8]) + [self.anim, UNIT]))
        if k == "push_layer":
            return tag("push_layer", self.blend(e.a[2]), *e.a[3:])
        return seq([one(e)])

    def blend(self, b):
        """peniko::BlendMode of the argument (impl Into<BlendMode>)"""
        if b.op == "case":
            return case2(b.a[0], [self.blend(k) if k is not UNDEF else UNDEF for k in b.a[1:]])
        mixp, cp, bp = adtpath("peniko::Mix"), adtpath("peniko::Compose"), adtpath("peniko::BlendMode")
        if b.op == "adt" and b.a[0] == mixp:
            return new("peniko::BlendMode", mix=b, compose=unit("peniko::Compose", "SrcOver"))
        if b.op == "adt" and b.a[0] == cp:
            return new("peniko::BlendMode", mix=unit("peniko::Mix", "Normal"), compose=b)
        return b

    def asset_layers(self):
        name = path_get(self.G("content"), "runtime::model::Content", ("Instance", "name"))
        return app("hget", path_get(self.anim, "runtime::Composition", "assets"), name)

    def expected(self, idx_rev=True):
        """the sink calls of an active layer"""
        G = self.G
        rect = self.rect(self.anim)
        ml = G("mask_layer")
        mode = fld(unwrap(ml), 0, 0, "()")
        mi = fld(unwrap(ml), 0, 1, "()")
        nl = tag("push_layer", self.blend(unit("peniko::Mix", "Normal")), ONE, self.xf, rect)
        matte = opt(ml, lambda u: seq([
            nl,
            case2_bool(lt_int(mi, len_(self.layers)), self.Rx(self.layers, at(self.layers, mi), mi, self.xf, self.alpha, self.frame), EMPTY),
            tag("push_layer", mode, ONE, self.xf, rect)]), EMPTY)
        masks = G("masks")
        k = fresh("k")
        clips = each(len_(masks), k, seq([tag("push_clip_layer", self.T, app("geom", path_get(at(masks, k), "runtime::model::Mask", "geometry"), self.frame))]))
        alpha = mul(mul(self.alpha, app("Value::evaluate", G("opacity"), self.frame)), num(0.01))
        content = self.content(alpha, idx_rev)
        pops = seq([each(len_(masks), fresh("k"), tag("pop_layer")), opt(ml, lambda u: seq([tag("pop_layer"), tag("pop_layer")]), EMPTY)])
        return seq([tag("begin_layer_group", G("name"), self.index), matte, clips, content, pops, tag("end_layer_group")])

    def local_frame(self):
        return div(sub(self.frame, self.G("start_frame")), self.G("stretch"))

    def content(self, alpha, idx_rev=True):
        G = self.G
        al = self.asset_layers()
        v = unwrap(al)
        k = fresh("k")
        n = len_(v)
        i = sub(sub(n, ONE), k) if idx_rev else k
        x = at(v, i)
        inst = opt(al, lambda u: each(n, k, case2_bool(path_get(x, "runtime::model::Layer", "is_mask"), EMPTY,
                                                       self.Rx(v, x, i, self.T, alpha, self.local_frame()))), EMPTY)
        return vcase(G("content"), "runtime::model::Content", **{"None": EMPTY, "Instance": inst, "Shape": self.B.draw_events(self.D)})


def case2_bool(c, x, y):
    return ite(c, x, y)


def tobool_case(t):
    return t


def cubes(c):
    """the condition c as alternatives of decisions"""
    out = []

    def go(t, lits):
        if t is TRUE:
            out.append(lits)
            return
        if t is FALSE or t is UNDEF:
            return
        if t.op != "case":
            raise Undecided("condition")
        for o, k in enumerate(t.a[1:]):
            l2 = dict(lits)
            l2[t.a[0]] = o
            go(k, l2)
    go(tobool(c), {})
    return out


def holds(a, b, lits):
    """a equals b on the path with these decisions"""
    return diff(assume(a, lits), assume(b, lits))


class Out:
    """obligation collector: every clause names the properties it belongs to"""

    def __init__(self, pid, rep):
        self.pid, self.rep = pid, rep

    def __call__(self, props, key, what, where_, d, detail=None):
        """d: None (holds) or a difference"""
        if self.pid not in props:
            return
        if d is None or d is True:
            self.rep.ok(what, where_)
            return
        if d is False:
            self.rep.bad(key, what, where_, detail or "")
            return
        u = foreign(d)
        for e in getattr(d, "others", ()):
            # what the analysis has no model of may not matter, but some other mismatch may be plain
            if not u:
                break
            if not foreign(e):
                d, u = e, None
        if u:
            self.rep.undecided(what, where_, "the analysis has no model of %s" % ", ".join(sorted(u)))
            return
        self.rep.bad(key, what, where_, json.dumps(explain(d), indent=1))


BENIGN = {"geom", "fsub", "app", "multiply_alpha"}
CHOICE = {"imax": None, "imin": None, "fmax": None, "fmin": None, "fclamp": None, "abs": None, "monus": None}


def choices(t):
    """alternatives for a clipping function: one of its arguments"""
    n = t.a[0]
    a = t.a[1:]
    if n == "abs":
        return [a[0], neg(a[0])]
    if n == "monus":
        return [sub(a[0], a[1]) if len(a) > 1 else a[0], ZERO]
    return list(a)


def leaf(t):
    """a value as it stands in the input"""
    while t.op in ("fld", "item", "at"):
        t = t.a[0]
        if not hasattr(t, "op"):
            return False
    return t.op == "sym"


def const(t):
    return t.a[0] if t.op == "num" else None


NONNEG = re.compile(r"opacity|alpha|width|height|size|radius|round|miter|copies|points|limit|length|colou?r|time$")


def free_name(t):
    """the name of an input that can be anything (a field of the model or file, a parameter, an evaluated property), or None"""
    if t.op == "app" and t.a[0] in EVALS:
        return free_name(t.a[1]) or t.a[0]
    if t.op == "len":
        n = free_name(t.a[0])
        return n and "len " + n
    if t.op == "fld":
        return free_name(t.a[0]) and (tm.FIELD_NAMES.get((t.a[3], t.a[1], t.a[2])) or "field")
    if t.op in ("item", "at"):
        return free_name(t.a[0])
    if t.op == "sym" and "#" not in t.a[0]:
        return t.a[0]
    return None


def frees(t):
    """the inputs an arithmetic expression consists of, None if it holds anything else"""
    if t.op == "num":
        return {}
    if t.op == "poly":
        r = {}
        for m in t.a:
            for x, _ in m[1:]:
                f = frees(x)
                if f is None:
                    return None
                r.update(f)
        return r
    n = free_name(t)
    return n and {t: n}


def state_root(t):
    while t.op in ("fld", "item", "at", "len"):
        t = t.a[0]
    return t.op == "sym" and re.match(r"(S\d?|C|self|cur|state)\b", t.a[0])


FLOATCLIP = {"fmin", "fmax", "fclamp", "abs"}


def free_number(t):
    """an input that can be any number, whatever the code does"""
    if t.op == "num" or t.op == "app" and t.a[0] not in EVALS:
        return False
    if t.op == "fld" and tm.FIELD_NAMES.get((t.a[3], t.a[1], t.a[2])) == "frame":
        return False  # times of keyframes are tied to the frame they were found by
    return free_name(t) is not None


def effective_at(x, lits):
    """an assignment of the free inputs on the path with these decisions makes the clipping function pick each of its arguments"""
    n, args = x.a[0], list(x.a[1:])
    if n not in FLOATCLIP:
        return False
    inv = set()

    def collect(t):
        st, out = [t], set()
        while st:
            y = st.pop()
            if y.op == "num":
                continue
            if free_number(y):
                out.add(y)
            elif y.op == "poly":
                for m in y.a:
                    st.extend(z for z, _ in m[1:])
            elif y.op == "app" and y.a[0] in FLOATCLIP | {"f32"}:
                st.extend(y.a[1:])
            else:
                return None
        return out
    inv = collect(x)
    if not inv or any(y.op == "len" for y in inv):
        return False
    rel = []
    for at_, o in lits.items():
        ps = list(tm._kids(at_.op, at_.a))
        if not any(occurs(p, y) for p in ps for y in inv):
            continue
        if at_.op != "sgn":
            if at_.op == "isvar" and not any(occurs(y, at_.a[0]) for y in inv):
                continue
            if at_.op == "isvar" and any(y is not at_.a[0] and occurs(y, at_.a[0]) for y in inv):
                continue  # which variant holds the input
            return False
        rel.append((at_, o))
    alts = [args[0], neg(args[0])] if n == "abs" else ([args[0]] if n == "fclamp" else args)
    for a_ in alts:
        def goal(e):
            if any(e.outcome(at_) != o for at_, o in rel):
                return False
            return abs(e.val(x) - e.val(a_)) > 1e-9
        if witness.search(free_number, goal) is None:
            return False
    return True


def effective(x):
    """a clipping function that certainly changes some value: two unrelated inputs, or one clipped where inputs are not naturally limited"""
    n, args = x.a[0], list(x.a[1:])
    fs = [frees(y) for y in args]
    if any(f is None for f in fs):
        return False
    allf = {}
    for f in fs:
        allf.update(f)
    if not allf:
        return False
    integral = n in ("imin", "imax", "monus")
    if integral:
        # lengths and positions kept by the code itself are tied to each other; lists of different things are not
        for t, nm in allf.items():
            if state_root(t) and not nm.startswith("len "):
                return False
    if n == "monus":
        return False
    one = len(allf) == 1
    only, nm = next(iter(allf.items()))
    if n == "abs":
        return not (one and args[0] is only and NONNEG.search(nm))
    if sum(1 for f in fs if f) > 1:
        # two different quantities
        ns = {nm for nm in allf.values()}
        return len(ns) > 1
    c = [const(y) for y in args if const(y) is not None]
    if len(c) + 1 != len(args):
        return False
    lo = [c[0]] if n in ("fmax", "imax") else ([min(c)] if n == "fclamp" else [])
    hi = [c[0]] if n in ("fmin", "imin") else ([max(c)] if n == "fclamp" else [])
    if any(v > 1e-6 for v in lo) or any(v < 10000 and v not in (1, 100, 255, 360) for v in hi):
        return True
    return bool(lo) and not integral and one and only in args and lo[0] >= 0 and not NONNEG.search(nm)


def conclusive(d):
    """a mismatch that involves clipping functions (min, max, ..) counts only if it remains whichever argument they return"""
    lits, a, b = d
    cs = []
    seen, st = set(), [a]
    both = set()
    st2 = [b]
    while st2:
        x = st2.pop()
        if x in both:
            continue
        both.add(x)
        st2.extend(tm._kids(x.op, x.a))
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] in CHOICE and x not in both and not x.h and not effective(x) and not effective_at(x, lits):
            cs.append(x)
        st.extend(tm._kids(x.op, x.a))
    if not cs:
        return True
    if len(cs) > 4:
        return False

    def go(i, m):
        if i == len(cs):
            x, y = subst_many(a, m), subst_many(b, m)
            return diff(x, y) is not None
        return all(go(i + 1, {**m, cs[i]: c}) for c in choices(cs[i]))
    return go(0, {})


def foreign(d):
    """functions without a model in a mismatching code term"""
    lits, a, b = d
    ua, ub = unknown_apps(a), unknown_apps(b)
    out = set()
    for n in ua - ub:
        if n in KNOWN_APPS or n in CHOICE or n.startswith(("RS:", "scan", "proj", "cmp_", "f64::")) or n in EVALS or n in BENIGN or "::model::" in n:
            continue
        if n.split("::")[0] in ("Value", "Transform", "Brush", "Repeater", "Trim", "Stroke", "Gradient", "Geometry", "ColorStops", "Lerp", "Tween"):
            continue
        out.add(n)
    if not out and not conclusive(d):
        out.add("a clipping function that may have no effect")
    return out


class Layer(LayerRules):
    """clauses"""

    def run(self, pid, rep):
        out = Out(pid, rep)
        self.out = out
        rep.analysed(self.M.append_inst["path"] if hasattr(self.M, "append_inst") else facts().insts[self.M.append]["path"],
                     *sorted({facts().insts[i]["path"] for i in self.M.local}))
        getattr(self, "p_" + pid)(rep)

    # every event occurrence: (event, decisions, binders) of append and of an active layer
    def top_events(self):
        return walk(mapev(self.M.append_events, self.norm_top))

    def norm_top(self, e):
        k = kind(e)
        if k == "push_layer":
            return tag("push_layer", self.blend(e.a[2]), *e.a[3:])
        return seq([one(e)])

    def layer_variants(self):
        ev = mapev(self.ev, self.norm)
        return [(c, assume(ev, c)) for c in cubes(self.gate)]

    def layer_events(self):
        out = []
        for c, t in self.layer_variants():
            for e, l, ks in walk(t):
                l2 = dict(c)
                l2.update(l)
                out.append((e, l2, ks))
        return out

    def own_alpha(self):
        return mul(mul(self.alpha, app("Value::evaluate", self.G("opacity"), self.frame)), num(0.01))

    def is_matte_call(self, e, lits):
        return assume(rarg(e, "layers"), lits) is self.layers

    # ------------------------------------------------------------ recursive calls
    def R_clauses(self):
        out = self.out
        anim, frame, xf, alpha = self.M.asym
        n = {"top": 0, "matte": 0, "instance": 0}
        for e, l, ks in self.top_events():
            if kind(e) != "R":
                continue
            n["top"] += 1
            w = self.awhere
            ls = path_get(anim, "runtime::Composition", "layers")
            f = lambda r: rarg(e, r)
            out(("C10", "C11", "C27", "C31"), "top-layers", "top-level layers are looked up in the composition's layers", w, holds(f("layers"), ls, l))
            out(("C31",), "top-index", "a top-level layer is reported with its own position", w, holds(f("layer"), at(ls, f("index")), l))
            out(("C08",), "top-transform", "a top-level layer is drawn under the caller's transform", w, holds(f("xf"), xf, l))
            out(("C09",), "top-alpha", "a top-level layer gets the caller's alpha", w, holds(f("alpha"), alpha, l))
            out(("C33", "C27", "C10"), "top-frame", "a top-level layer is drawn at the caller's frame", w, holds(f("frame"), frame, l))
        al = self.asset_layers()
        for e, l, ks in self.layer_events():
            if kind(e) != "R":
                continue
            w = self.where
            f = lambda r: rarg(e, r)
            if self.is_matte_call(e, l):
                n["matte"] += 1
                mi = fld(unwrap(self.G("mask_layer")), 0, 1, "()")
                out(("C32", "C13"), "matte-layer", "the matte source drawn is the one the layer refers to", w, holds(f("layer"), at(self.layers, mi), l))
                out(("C31",), "matte-index", "a matte source is reported with its own position", w, holds(f("index"), mi, l))
                out(("C08", "C32"), "matte-transform", "a matte source is drawn under the transform its layer array is drawn under", w, holds(f("xf"), self.xf, l))
                out(("C09", "C32"), "matte-alpha", "a matte source gets the alpha its layer array is drawn with", w, holds(f("alpha"), self.alpha, l))
                out(("C33", "C32", "C27"), "matte-frame", "a matte source is drawn at the frame of the matted layer", w, holds(f("frame"), self.frame, l))
            else:
                n["instance"] += 1
                out(("C27", "C08"), "instance-layers", "the layers of a precomposition layer are those of the referenced asset", w, holds(f("layers"), unwrap(al), l))
                out(("C31", "C27"), "instance-index", "a layer of a precomposition is reported with its own position", w, holds(f("layer"), at(f("layers"), f("index")), l))
                out(("C08", "C27"), "instance-transform", "layers of a precomposition are drawn under the precomposition layer's composed transform", w, holds(f("xf"), self.T, l))
                out(("C09", "C27"), "instance-alpha", "layers of a precomposition get the layer's alpha times its opacity", w, holds(f("alpha"), self.own_alpha(), l))
                out(("C27", "C33"), "instance-frame", "layers of a precomposition are drawn at local frame (frame - start) / stretch", w, holds(f("frame"), self.local_frame(), l))
        return n

    def shape_clauses(self):
        out = self.out
        L = self.where
        for a, s, pc in self.shape_calls:
            sh = path_get(self.G("content"), "runtime::model::Content", ("Shape", 0))
            for c in cubes(pc):
                out(("C22", "C28"), "layer-shapes", "the shapes drawn are those of the layer", L, holds(a[0], sh, c))
                out(("C09",), "layer-alpha", "shapes are drawn with the layer's alpha times its opacity", L, holds(a[2], self.own_alpha(), c))
                out(("C33",), "layer-frame", "shapes are evaluated at the layer's frame", L, holds(a[3], self.frame, c))
        out(("C08", "C09", "C28", "C33"), "one-collection", "a shape layer collects its shapes once", L, len(self.rs_keys) == 1,
            "the layer's shapes are collected %d times" % len(self.rs_keys))

    # ------------------------------------------------------------ sink nesting
    def p_C01(self, rep):
        for name, ev, w in (("append", self.M.append_events, self.awhere), ("layer", self.M.layer_events, self.where)):
            probs = []
            d = depth(ev, ZERO, probs, {})
            counted(d)
            self.out(("C01",), name + "-balance", "pushes and pops of %s balance on every path" % name, w,
                     None if d is ZERO else diff(d, ZERO) or True)
            self.out(("C01",), name + "-underflow", "%s never pops a layer it has not pushed" % name, w, not probs, "; ".join(probs[:3]))
            st = groups(ev, {0}, [])
            err = []
            groups(ev, {0}, err)
            self.out(("C01",), name + "-groups", "layer-group begin and end match in %s" % name, w, not err and st <= {0}, "; ".join(err[:3]) or "a group is left open")

    def p_C03(self, rep):
        c03(self, self.out)

    def p_C31(self, rep):
        n = self.R_clauses()
        nb = 0
        for e, l, ks in self.layer_events():
            if kind(e) == "begin_layer_group":
                nb += 1
                self.out(("C31",), "begin-name", "layer-group begin reports the layer's name", self.where, holds(e.a[2], self.G("name"), l))
                self.out(("C31",), "begin-index", "layer-group begin reports the layer's position", self.where, holds(e.a[3], self.index, l))
        self.out(("C31",), "begin-missing", "every drawn layer begins a layer group", self.where, nb > 0, "no layer-group begin")
        for c, t in self.layer_variants():
            err = []
            st = bracket(t, {0}, err)
            self.out(("C31",), "bracket", "all sink calls of a layer lie between its layer-group begin and end", self.where, not err and st == {2}, "; ".join(err[:3]) or "states %s" % sorted(st))

    # ------------------------------------------------------------ views
    def view(self, t, keep):
        """events reduced to what `keep` (kind -> function of the event giving a sequence, or None) retains"""
        def f(e):
            g_ = keep.get(kind(e))
            if g_ is None:
                return EMPTY
            return g_(e)
        return mapev(t, f)

    def cmp_views(self, props, key, what, keep, anyorder=False, force=None):
        exps = [self.expected(True)] + ([self.expected(False)] if anyorder else [])
        for c, t in self.layer_variants():
            ds = []
            for x in exps:
                a, b = self.view(t, keep), self.view(assume(x, c), keep)
                if force:
                    a, b = force(a), force(b)
                d = diff(a, b)
                if d is None:
                    ds = None
                    break
                ds.append(d)
            self.out(props, key, what, self.where, None if ds is None else ds[0])
            if ds is not None:
                break

    def tagof(self, *roles):
        return lambda e: tag(kind(e), *[rarg(e, r) for r in roles])

    def plain(self, e):
        return tag(kind(e))

    def same(self, e):
        return seq([one(e)])

    def inst_only(self, f):
        return lambda e: EMPTY if rarg(e, "layers") is self.layers else f(e)

    def matte_only(self, f):
        return lambda e: f(e) if rarg(e, "layers") is self.layers else EMPTY

    def unmask(self, t):
        return force_fields(t, "runtime::model::Layer", "is_mask", FALSE)

    # ------------------------------------------------------------ properties
    def p_C10(self, rep):
        # inactive layers emit nothing
        for c in cubes(not_(self.gate)):
            t = assume(self.ev, c)
            self.out(("C10",), "inactive", "a layer emits nothing outside [in point, out point)", self.where, None if t is EMPTY else diff(t, EMPTY) or True)
        self.cmp_views(("C10",), "active", "an active layer is drawn; layers of precompositions marked as matte source are not",
                       {"begin_layer_group": self.plain, "R": self.inst_only(self.tagof("layer")), "draw": self.plain}, anyorder=True)
        self.top_view(("C10",), {"R": self.tagof("layer")}, "top-mattes", "every top-level layer that is not a matte source is drawn, matte sources are not", anyorder=True)
        self.R_clauses()

    def top_expected(self, idx_rev=True):
        anim, frame, xf, alpha = self.M.asym
        ls = path_get(anim, "runtime::Composition", "layers")
        k = fresh("k")
        n = len_(ls)
        i = sub(sub(n, ONE), k) if idx_rev else k
        x = at(ls, i)
        body = ite(path_get(x, "runtime::model::Layer", "is_mask"), EMPTY,
                   tag("R", ls, x, i, xf, alpha, frame, anim, UNIT))
        return seq([tag("push_clip_layer", xf, self.rect(anim)), each(n, k, body), tag("pop_layer")])

    def top_view(self, props, keep, key, what, anyorder=False, force=None):
        anim = self.M.asym[0]

        def nm(e):
            if kind(e) == "R":
                return tag("R", *(list(e.a[2:8]) + [anim, UNIT]))
            return self.norm_top(e)
        t = mapev(self.M.append_events, nm)
        ds = []
        for x in [self.top_expected(True)] + ([self.top_expected(False)] if anyorder else []):
            a, b = self.view(t, keep), self.view(x, keep)
            if force:
                a, b = force(a), force(b)
            d = diff(a, b)
            if d is None:
                ds = None
                break
            ds.append(d)
        self.out(props, key, what, self.awhere, None if ds is None else ds[0])

    def p_C12(self, rep):
        M = self.M
        bad = [x for x in M.state_obl if x[2] is not None]
        why = {}
        if bad:
            # the state is not back to that of a new renderer everywhere; does any call depend on it?
            for name, f, ev in (("append", M.dirty_append, M.append_events), ("layer", M.dirty_layer, M.layer_events)):
                d = diff(mapev(f(), self.norm_top), mapev(ev, self.norm_top))
                why[name] = d
            if all(d is None for d in why.values()):
                bad = []
        for (k, cur, sp), leaf, d in M.state_obl:
            what = {"exit": "%s leaves %s as in a new renderer" % (cur, leaf),
                    "layer": "%s calls the layer function with %s as in a new renderer" % (cur, leaf),
                    "shapes": "%s collects shapes with %s empty" % (cur, leaf)}[k]
            w = self.where if cur != "append" else self.awhere
            if d is None or not bad:
                self.out(("C12",), "", what, w, None)
            else:
                self.out(("C12",), "state:%s:%s:%s" % (k, cur, leaf), what, w, d)
        # the shapes of a layer are collected into an empty batch
        for a, s, pc in self.shape_calls:
            for n, t in zip(sorted(M.active), s):
                self.out(("C12",), "batch:" + n, "a layer starts collecting with empty %s" % n, self.where, diff(under_pc(t, pc), M.clean_leaf[M.active[n]]))

    def p_C11(self, rep):
        self.top_view(("C11",), {"R": self.tagof("layer")}, "top-order", "top-level layers are painted from the last to the first", force=self.unmask)
        self.cmp_views(("C11",), "instance-order", "layers of a precomposition are painted from the last to the first",
                       {"R": self.inst_only(self.tagof("layer"))}, force=self.unmask)
        self.cmp_views(("C11",), "draw-order", "collected draws are painted from the last to the first, each over its geometries in order",
                       {"draw": lambda e: tag("draw", *self.draw_index(e))})

    def draw_index(self, e):
        """(draws, geometries) indices a draw event refers to"""
        out = []
        for n in ("draws", "geometries"):
            xs = set()
            seen = set()
            st = [e]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "at" and x.a[0] is self.D[n]:
                    xs.add(x.a[1])
                    if n == "geometries":
                        continue
                for c in tm._kids(x.op, x.a):
                    st.append(c)
            out.append(tup(*sorted(xs, key=lambda t: t.id)))
        return out

    def p_C27(self, rep):
        self.cmp_views(("C27",), "instance", "a precomposition layer draws exactly the layers of the referenced asset, under its transform and opacity, at its local frame",
                       {"R": self.inst_only(self.tagof("layers", "layer", "xf", "alpha", "frame"))}, anyorder=True, force=self.unmask)
        self.R_clauses()
        self.transform_clauses(("C27",), only=("own",))

    def p_C32(self, rep):
        pl = lambda e: seq([one(e)])
        self.cmp_views(("C32",), "isolation", "masks clip all content; a matted layer is: isolation layer, matte source, layer with the matte mode, content, pops",
                       {"R": lambda e: self.tagof("layers", "layer", "frame", "xf")(e) if rarg(e, "layers") is self.layers else tag("instance"),
                        "push_layer": pl, "push_clip_layer": pl, "pop_layer": self.plain, "draw": self.plain,
                        "begin_layer_group": self.plain, "end_layer_group": self.plain}, force=self.unmask)
        self.R_clauses()
        self.top_view(("C32",), {"R": self.plain, "push_layer": pl, "push_clip_layer": pl, "pop_layer": self.plain}, "bounds",
                      "the whole render is clipped to the composition's size under the caller's transform", force=self.unmask)

    def p_C33(self, rep):
        self.R_clauses()
        self.shape_clauses()
        n = 0
        for e, l, ks in self.layer_events():
            if kind(e) == "push_clip_layer":
                g_ = e.a[3]
                for x in apps(g_, "geom"):
                    n += 1
                    self.out(("C33",), "mask-frame", "mask outlines are evaluated at the frame being drawn", self.where, holds(x.a[2], self.frame, l))
        self.frames_in(self.M.layer_events, self.frame, self.where)
        self.draw_args(("C33",), "stroke")

    def frames_in(self, t, frame, w):
        for nm in EVALS:
            for x in apps(t, nm):
                if nm in ("Brush::evaluate",):
                    fr = x.a[3]
                elif nm in ("Repeater::transform", "Trim::normalized"):
                    continue
                else:
                    fr = x.a[2]
                self.out(("C33",), "eval-frame:" + nm, "%s is evaluated at the frame being drawn" % nm, w, diff(fr, frame))

    def p_C09(self, rep):
        self.R_clauses()
        self.shape_clauses()
        self.draw_args(("C09",), "brush")

    def p_C28(self, rep):
        self.shape_clauses()
        self.draw_args(("C28",), "path")
        self.draw_args(("C28",), "transform")

    def p_C22(self, rep):
        self.shape_clauses()

    def p_C08(self, rep):
        self.R_clauses()
        for e, l, ks in self.layer_events():
            k = kind(e)
            if k == "push_clip_layer":
                self.out(("C08",), "mask-transform", "mask clips are placed under the layer's composed transform", self.where, holds(e.a[2], self.T, l))
        for e, l, ks in self.top_events():
            if kind(e) == "push_clip_layer":
                self.out(("C08",), "clip-transform", "the composition's clip is placed under the caller's transform", self.awhere, holds(e.a[2], self.M.asym[2], l))
        self.draw_args(("C08",), "transform")
        self.transform_clauses(("C08",))

    def draw_args(self, props, which):
        """each draw event against its own draw and geometry record"""
        B = self.B
        n = 0
        for e, l, ks in self.layer_events():
            if kind(e) != "draw":
                continue
            n += 1
            di, gi = self.draw_index(e)
            if len(di.a) != 3 or len(gi.a) != 3:
                self.out(props, "draw-" + which, "a draw event belongs to one draw and one geometry", self.where, False,
                         "draw %s, geometry %s" % (show(di, 0, 4)[:200], show(gi, 0, 4)[:200]))
                continue
            d, gm = at(self.D["draws"], di.a[2]), at(self.D["geometries"], gi.a[2])
            if which == "brush":
                self.out(props, "draw-brush", "the brush is the draw's brush times its alpha", self.where, self.brush_diff(e.a[4], d, l))
            elif which == "transform":
                self.out(props, "draw-transform", "a draw is placed under its geometry's transform", self.where, holds(e.a[3], B.ge(gm, "transform"), l))
            elif which == "stroke":
                self.out(props, "draw-stroke", "a draw uses the draw's stroke", self.where, holds(e.a[2], B.d(d, "stroke"), l))
            elif which == "path":
                self.out(props, "draw-path", "a draw covers its geometry's outline", self.where, holds(
                    e.a[5], slice_(self.D["elements"], B.ge(gm, "start"), B.ge(gm, "end")), l))
        self.out(props, "draw-count", "collected draws are drawn", self.where, n > 0, "no draw event")

    def brush_diff(self, b, d, l):
        B = self.B
        al = B.d(d, "alpha")
        br = B.d(d, "brush")
        g1 = fcmp("eq", al, ONE)
        for c in cubes(g1):
            t = assume(assume(b, l), c)
            if all(diff(t, w) is not None for w in (br, app("Brush::multiply_alpha", br, al), app("Brush::multiply_alpha", br, ONE))):
                return diff(t, br)
        for c in cubes(not_(g1)):
            t = assume(assume(b, l), c)
            dd = diff(t, app("Brush::multiply_alpha", br, al))
            if dd is not None:
                return dd
        return None

    # ------------------------------------------------------------ the layer transform
    def transform_clauses(self, props, only=None):
        check_transform(self, props, only)


def apps(t, name):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] == name:
            out.append(x)
        for c in tm._kids(x.op, x.a):
            st.append(c)
    return out


# ---------------------------------------------------------------- nesting
PUSH = ("push_layer", "push_clip_layer")


def delta1(e):
    k = kind(e)
    return 1 if k in PUSH else -1 if k == "pop_layer" else 0


def delta(t):
    """net number of open layers"""
    r = ZERO
    for it in seqitems(t):
        if it.op == "one":
            r = add(r, num(delta1(it.a[0])))
        elif it.op == "each":
            k = fresh("k")
            d = delta(open_each(it, k))
            if occurs(d, k):
                r = add(r, app("sum", it.a[1], lam(1, [k], d)))
            else:
                r = add(r, mul(it.a[1], d))
        elif it.op == "case":
            r = add(r, case2(it.a[0], [delta(c) if c is not UNDEF else UNDEF for c in it.a[1:]]))
        else:
            raise Undecided("event sequence of form %s" % it.op)
    return r


def nonneg(t):
    if t.op == "case":
        return all(k is UNDEF or nonneg(k) for k in t.a[1:])
    return is_nonneg(t)


def everywhere_nonneg(d, lits):
    """d is not negative, whatever the cases inside it decide"""
    if nonneg(d):
        return True
    try:
        return all(nonneg(ts[0]) for ts, _, _ in lin.iter_leaves([assume(d, lits)], lits, limit=200))
    except lin.TooMany:
        return False


def counted(d):
    """a depth that compares how often something happened in a loop with a count kept in another way proves nothing"""
    st, sums, rest = [d], False, False
    while st:
        x = st.pop()
        if x.op == "case":
            st.extend(k for k in x.a[1:] if k is not UNDEF)
            continue
        for m in x.a if x.op == "poly" else ((1, (x, 1)),):
            for y, _ in m[1:]:
                if y.op == "app" and y.a[0] == "sum":
                    sums = True
                elif frees(y) is None:
                    rest = True
    if sums and rest:
        raise Undecided("a loop opens different numbers of layers per iteration, another loop closes as many as counted otherwise")


def depth(t, d0, probs, lits):
    """depth after t when it starts at depth d0; notes every point where it may become negative"""
    d = d0
    for it in seqitems(t):
        if it.op == "one":
            dd = delta1(it.a[0])
            d = add(d, num(dd))
            if dd < 0 and not everywhere_nonneg(d, lits):
                counted(d)
                probs.append("pop at depth %s" % show(d, 0, 4)[:200])
        elif it.op == "each":
            k = fresh("k")
            body = open_each(it, k)
            c = delta(body)
            n = it.a[1]
            if occurs(c, k):
                # iterations open different numbers of layers
                total = app("sum", n, lam(1, [k], c))
                if everywhere_nonneg(c, lits):
                    depth(body, d, probs, lits)
                elif everywhere_nonneg(neg(c), lits):
                    # every iteration closes layers: the last one ends lowest
                    depth(body, neg(c), probs, lits)
                    if not everywhere_nonneg(add(d, total), lits):
                        counted(add(d, total))
                        probs.append("a loop pops down to depth %s" % show(add(d, total), 0, 4)[:200])
                else:
                    raise Undecided("some iterations of a loop open layers, others close some")
                d = add(d, total)
                continue
            if c is ZERO or everywhere_nonneg(c, lits):
                depth(body, d, probs, lits)
            else:
                # the last iteration starts lowest
                depth(body, add(d, mul(c, sub(n, ONE))), probs, lits)
            d = add(d, mul(n, c))
        elif it.op == "case":
            outs = []
            for o, c in enumerate(it.a[1:]):
                if c is UNDEF:
                    outs.append(UNDEF)
                    continue
                l2 = {it.a[0]: o}
                outs.append(depth(c, assume(d, l2), probs, {**lits, **l2}))
            d = case2(it.a[0], outs)
        else:
            raise Undecided("event sequence of form %s" % it.op)
    return d


def automaton(t, states, step, err):
    """states after t, for a finite automaton over event kinds; loop bodies must not change the state"""
    s = set(states)
    for it in seqitems(t):
        if it.op == "one":
            n = set()
            for q in s:
                r = step(q, it.a[0])
                if r is None:
                    err.append("%s in state %s" % (kind(it.a[0]), q))
                else:
                    n.add(r)
            s = n
        elif it.op == "each":
            body = open_each(it, fresh("k"))
            for _ in range(8):
                n = s | automaton(body, s, step, err)
                if n == s:
                    break
                s = n
        elif it.op == "case":
            n = set()
            for c in it.a[1:]:
                if c is not UNDEF:
                    n |= automaton(c, s, step, err)
            s = n
        else:
            raise Undecided("event sequence of form %s" % it.op)
    return s


def groups(t, st, err):
    def step(q, e):
        k = kind(e)
        if k == "begin_layer_group":
            return q + 1 if q < 4 else None
        if k == "end_layer_group":
            return q - 1 if q > 0 else None
        return q
    return automaton(t, st, step, err)


def bracket(t, st, err):
    def step(q, e):
        k = kind(e)
        if k == "begin_layer_group":
            return 1 if q == 0 else None
        if k == "end_layer_group":
            return 2 if q == 1 else None
        return 1 if q == 1 else None
    return automaton(t, st, step, err)


# ---------------------------------------------------------------- parent chains
def is_scan(t):
    return t.op == "app" and t.a[0] == "scan"


def unroll(t, trips):
    """scans with the given trip terms replaced by numbers, unrolled"""
    t = subst_many(t, trips)
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "app" and x.a[0] == "proj" and is_scan(x.a[1]) and x.a[1].a[3].op == "num":
            sc = x.a[1]
            init, l, n = sc.a[1], sc.a[2], int(sc.a[3].a[0])
            st = [fld(init, 0, i, "()") for i in range(l.a[1] - 1)]
            for k in range(n):
                o = open_lam(l, st + [num(k)])
                st = [fld(o, 0, i, "()") for i in range(len(st))]
            j = x.a[2]
            r = go(st[int(j.a[0])])
        else:
            ks = [go(c) for c in tm._kids(x.op, x.a)]
            r = x if all(a is b for a, b in zip(ks, tm._kids(x.op, x.a))) else rebuild(x, ks)
        memo[x] = r
        return r
    for _ in range(4):
        n = go(t)
        memo.clear()
        if n is t:
            break
        t = n
    return t


def affine_mul(a, b):
    """kurbo's Affine product"""
    p = adtpath("kurbo::Affine")
    A = [at(fld(a, 0, 0, p), num(i)) for i in range(6)]
    B = [at(fld(b, 0, 0, p), num(i)) for i in range(6)]
    m = [add(mul(A[0], B[0]), mul(A[2], B[1])), add(mul(A[1], B[0]), mul(A[3], B[1])),
         add(mul(A[0], B[2]), mul(A[2], B[3])), add(mul(A[1], B[2]), mul(A[3], B[3])),
         add(add(mul(A[0], B[4]), mul(A[2], B[5])), A[4]), add(add(mul(A[1], B[4]), mul(A[3], B[5])), A[5])]
    return adt(p, 0, seq([one(x) for x in m]))


def check_transform(R, props, only=None):
    """The layer transform T is a fold over the parent chain.  Its loop is uniform in the iteration, so its value for
    chains of 0..4 ancestors and the condition under which it stops determine it."""
    out, T, w = R.out, R.T, R.where
    if T is None:
        out(props, "transform", "a layer has one composed transform", w, False, "several transforms are used")
        return
    ML = "runtime::model::Layer"
    ev = lambda l: app("Transform::evaluate", path_get(l, ML, "transform"), R.frame)
    trips = {x for x in apps(T, "firstk")}
    outer = [x for x in trips if not any(x is not y and occurs_term(y, x) for y in trips)]
    chain = [R.layer_sym]
    layers = R.layers
    if not trips:
        # no loop: a layer without ancestors only
        d = diff(T, affine_mul(R.xf, ev(R.layer_sym)))
        out(props, "transform-parents", "the transforms of all ancestors apply", w, False if d is None else d, "parents are ignored")
        return
    if len(outer) != 1:
        raise Undecided("parent chain with %d searches" % len(outer))
    F0 = outer[0]
    # ancestors
    idx = []
    l = R.layer_sym
    want = ev(l)
    for n in range(0, 1 if only else 5):
        t = unroll(T, {F0: num(n)})
        lits = {}
        x = R.layer_sym
        wants = ev(x)
        for i in range(n):
            par = path_get(x, ML, "parent")
            lits[mk("isvar", par, 2, OPT)] = 1
            x = at(layers, unwrap(par))
            wants = affine_mul(ev(x), wants)
        d = diff(assume(t, lits), affine_mul(R.xf, wants))
        out(props, "transform-order", "with %d ancestors the transform is caller x outermost x ... x own" % n, w, d)
        if d is not None:
            return
    if only:
        return
    # when the walk stops
    l_ = F0.a[1]
    k = fresh("k")
    body = open_lam(l_, [k])
    for n in range(0, 5):
        b = unroll(subst(body, k, num(n)), {})
        lits = {}
        x = R.layer_sym
        for i in range(n):
            par = path_get(x, ML, "parent")
            lits[mk("isvar", par, 2, OPT)] = 1
            inr = lt_int(unwrap(par), len_(layers))
            lits.update(cubes(inr)[0])
            x = at(layers, unwrap(par))
        par = path_get(x, ML, "parent")
        at_ = mk("isvar", par, 2, OPT)
        b = assume(b, lits)
        out(props, "walk-end", "the walk over %d ancestors stops at a layer without parent" % n, w, None if assume(b, {at_: 0}) is TRUE else diff(assume(b, {at_: 0}), TRUE) or True)
        inr = lt_int(unwrap(par), len_(layers))
        l1 = dict(cubes(not_(inr))[0])
        l1[at_] = 1
        l1.update(lits)
        out(props, "walk-missing", "a reference to a missing layer ends the chain", w, None if assume(b, l1) is TRUE else diff(assume(b, l1), TRUE) or True)
        # a chain of n+1 different ancestors needs at least n+2 layers
        l2 = dict(cubes(inr)[0])
        l2[at_] = 1
        l2.update(lits)
        l2.update(cubes(lt_int(num(n + 1), len_(layers)))[0])
        b2 = assume(b, l2)
        out(props, "walk-early", "the walk visits every ancestor", w, None if b2 is FALSE else diff(b2, FALSE) or True)


def occurs_term(t, s):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is s:
            return True
        for c in tm._kids(x.op, x.a):
            st.append(c)
    return False


# ---------------------------------------------------------------- termination
def eventually(E, k):
    """is E true for all large enough k, whatever else holds?  (decisions on k - bound or bound - k only)"""
    if E is TRUE:
        return True
    if E is FALSE or E is UNDEF or E.op != "case":
        return E is UNDEF
    a = E.a[0]
    if a.op == "le" and occurs(a.a[0], k):
        c = ZERO
        rest = []
        for m, co in tm.topoly(a.a[0]).items():
            if len(m) == 1 and m[0][0] is k and m[0][1] == 1:
                c = co
            else:
                rest.append(m)
        if isinstance(c, (int, float)) or hasattr(c, "numerator"):
            if not any(occurs(y, k) for m in rest for y, e in m):
                return eventually(E.a[2] if c < 0 else E.a[1], k)
    return all(c is UNDEF or eventually(c, k) for c in E.a[1:])


def follows_links(E):
    return bool(apps(E, "scan"))


def loop_clauses(out, pid, runs):
    """every loop that was analysed leaves after finitely many iterations"""
    seen = set()
    for r in runs:
        for inst, header, kind_, E, k, n, stack in r.ip.loops_log:
            key = "%s:%s" % (inst["path"], kind_)
            w = where(inst)
            if kind_ in ("counted", "once", "unrolled"):
                if (w, header) not in seen:
                    seen.add((w, header))
                    out((pid,), "", "loop of %s runs a fixed number of times" % inst["path"], w, None)
                continue
            if kind_ == "search" and E is not None and eventually(E, k):
                out((pid,), "", "loop of %s stops after a bounded number of iterations" % inst["path"], w, None)
                continue
            if kind_ == "diverges" or follows_links(E):
                out((pid,), "loop:" + inst["path"], "loop of %s stops after a bounded number of iterations" % inst["path"], w, False,
                    "the loop is left only when: %s" % (show(E, 0, 8)[:600] if E is not None else "never"))
            else:
                out.rep.undecided("loop of %s stops" % inst["path"], w, "exit condition %s" % (show(E, 0, 6)[:300] if E is not None else "none"))


def guard_clauses(R, out):
    """recursion of the layer function: a layer that is already being drawn is not drawn again"""
    M, h = R.M, R.M.L
    w = R.where
    # the call graph below append: recursive groups other than the two heads have no argument
    for comp in M.F.sccs(M.local):
        heads = [i for i in comp if i in M.heads]
        if not heads:
            out(("C03",), "recursion:" + M.F.insts[min(comp)]["path"], "recursion of %s is bounded" % M.F.insts[min(comp)]["path"], w, False, "unknown recursion")
    if not h.extra:
        out(("C03",), "recursion-guard", "the layer function does not recurse into a layer that is being drawn", w, False,
            "precomposition instances and matte sources are followed without any record of the layers being drawn")
        return
    X = {i: sym("X%d" % i) for i in h.extra}
    M.record = False
    try:
        r, ev = M.layer_body(h, X)
    finally:
        M.record = True
    order = sorted(h.extra)
    pos = {i: n for n, i in enumerate([i for i, ro in h.roles.items() if ro == "extra"])}
    ats = [a for a in tm.atoms_of(ev) if any(occurs(tm_case(a), x) for x in X.values())]
    guard = None
    for a in ats:
        for o in range(tm.arity(a)):
            if all(assume(assume(ev, c), {a: o}) is EMPTY for c in cubes(R.gate)):
                guard = (a, o)
    if guard is None:
        out(("C03",), "recursion-guard", "the layer function does not recurse into a layer that is being drawn", w, False,
            "no condition on %s stops the recursion" % ", ".join(h.names[i] for i in order))
        return
    a, o = guard
    t = tm_case(a)
    used = [i for i in order if occurs(t, X[i])]
    kinds = set()
    for i in used:
        x = X[i]
        ids = [p for p in apps(t, "ptreq") + apps(t, "eq")]
        if any(occurs(p, x) and occurs(p, R.layer_sym) for p in ids):
            kinds.add("identity")
        elif a.op == "le":
            kinds.add("counter")
    ok = False
    if "identity" in kinds:
        # the guard holds when the layer is the first, the last, or any recorded one
        ok = all(any_form(t, X[i], R.layer_sym) for i in used)
    elif "counter" in kinds:
        ok = True
    out(("C03",), "guard-form", "the guard is true for every layer recorded as being drawn", w, ok, "guard: %s" % show(t, 0, 8)[:600])
    n = 0
    for e, l, ks in walk(ev):
        if kind(e) != "R":
            continue
        n += 1
        ex = e.a[-1]
        for i in used:
            v = fld(ex, 0, pos[i], "()")
            v = assume(v, l)
            if "identity" in kinds:
                its = seqitems(v)
                good = any(it is X[i] for it in its) and any(it.op == "one" and it.a[0] is R.layer_sym for it in its)
                out(("C03",), "guard-record", "recursive calls record the layer being drawn", w, good, "recorded: %s" % show(v, 0, 6)[:300])
            else:
                d = sub(v, X[i])
                good = d.op == "num" and d.a[0] != 0
                out(("C03",), "guard-record", "recursive calls count the depth", w, good, "depth: %s" % show(v, 0, 6)[:300])
    out(("C03",), "guard-calls", "recursive calls of the layer function are analysed", w, n > 0, "no recursive call")
    # apart from the guard, the record has no influence
    for c in cubes(R.gate):
        a1 = mapev(assume(assume(ev, c), {a: 1 - o}), R.norm)
        b1 = mapev(assume(R.events, c), R.norm)
        out(("C03", "C27", "C10"), "guard-only", "the record of layers being drawn only prevents drawing a layer inside itself", w, diff(a1, b1))


def tm_case(a):
    return mk("case", a, *[num(i) for i in range(tm.arity(a))])


def any_form(t, x, layer):
    """the decision t searches x for layer: substituting a record that contains the layer decides it"""
    s1, s2 = sym("Y1"), sym("Y2")
    for p in apps(t, "firstk"):
        l = p.a[1]
        k = fresh("k")
        b = open_lam(l, [k])
        e = at(x, k)
        good = [q for q in apps(b, "ptreq") + apps(b, "eq") if (q.a[1] is e and q.a[2] is layer) or (q.a[2] is e and q.a[1] is layer)]
        if not good:
            continue
        inr = cubes(lt_int(k, len_(x)))
        if not inr:
            continue
        b = assume(b, inr[0])
        if subst(b, good[0], TRUE) is not subst(b, good[0], FALSE):
            return True
    return False


def c03(R, out, more=()):
    M = R.M
    runs = [M.A, M.layer_run] + list(more)
    loop_clauses(out, "C03", runs)
    guard_clauses(R, out)
    if M.S is not None:
        # shape recursion is on a part of the shape list it was given
        for w, a, s, pc in M.RSseen:
            if w != M.S.inst["path"].split("::")[-1]:
                continue
            p = part_of(a[0], M.ssym["shapes"])
            out(("C03",), "shape-recursion", "shape groups recurse into their own children", where(M.S.inst), p, "recursion on %s" % show(a[0], 0, 5)[:300])


def part_of(t, s):
    """t is a proper component of s"""
    n = 0
    while t is not s:
        if t.op == "fld" or t.op == "at":
            t = t.a[0]
            n += 1
        elif t.op == "case":
            return all(k is UNDEF or part_of(k, s) for k in t.a[1:])
        else:
            return False
    return n > 0
