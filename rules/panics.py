"""C02 (loading never panics) and C38 (rendering never panics): every place that can panic, discharged on every path that reaches it.

The functions reachable from the entry points are analysed one by one, callees first.  A function all of whose panic sites
are impossible for arbitrary arguments is total, and stands for itself in its callers; the others are analysed again as part of
each caller, up to the entry points, where the arguments are arbitrary files or models."""
import re, signal, time
from .base import *
from .effects import mentions, bodies, family, sp
from .layer import cubes
from engine import lin, interp
from engine.lin import Sys, iter_leaves, expand, TooMany

RES = "std::result::Result"
MAXLEN = 1 << 48  # no list in memory is longer
SERIAL = re.compile(r"\bserde(_core)?::(Serialize|ser::)|std::fmt::(Display|Debug)|^<.* as .*Serialize")


class Slow(Exception):
    pass


def limited(seconds, f):
    def h(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, h)
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    t0 = time.monotonic()
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            # the limit of the whole check
            signal.setitimer(signal.ITIMER_REAL, max(0.01, left - (time.monotonic() - t0)))


def trait_of(p):
    return p.split("<")[0].split("::")[-1] if p else None


class Graph:
    """who mentions whom, by path; trait methods without a known implementation mean all local ones"""

    def __init__(self):
        F = self.F = facts()
        self.by_path, self.by_method, self.closures = {}, {}, {}
        for n, i in enumerate(F.insts):
            if not i["local"]:
                continue
            self.by_path.setdefault(i["path"], []).append(n)
            self.closures.setdefault(family(i["path"]), set()).add(i["path"])
            if i.get("impl_trait") and i.get("name"):
                self.by_method.setdefault((trait_of(i["impl_trait"]), i["name"]), set()).add(i["path"])
        self.memo = {}

    def out(self, path):
        r = self.memo.get(path)
        if r is not None:
            return r
        F = self.F
        r = set()
        for p in self.closures.get(path, {path}):
            for n in self.by_path.get(p, ()):
                i = F.insts[n]
                for b in bodies(i) if i.get("body") else ():
                    for t in mentions(F, b):
                        ty = F.types[t]
                        ii = ty.get("inst")
                        if ii is not None:
                            # a closure is run by whoever is handed it; its code counts as its creator's
                            if F.insts[ii]["local"] and "{closure" not in F.insts[ii]["path"]:
                                r.add(family(F.insts[ii]["path"]))
                        elif ty.get("trait"):
                            r |= self.by_method.get((trait_of(ty["trait"]), ty["path"].split("::")[-1]), set())
                        elif ty["path"] in self.by_path:
                            r.add(ty["path"])
                for c in i.get("callees") or []:
                    if c in self.by_path:
                        r.add(c)
        r.discard(path)
        self.memo[path] = r
        return r

    def reach(self, roots):
        seen, st = set(), [r for r in roots]
        while st:
            p = st.pop()
            if p not in seen:
                seen.add(p)
                st.extend(self.out(p))
        return seen

    def insts(self, path):
        """the instances with a body, least specialised first"""
        F = self.F
        c = [n for n in self.by_path.get(path, ()) if F.insts[n].get("body")]

        def spec(n):
            return (sum(-1 for t in F.insts[n]["args"] if isinstance(t, int) and F.types[t]["k"] == "param"), n)
        return sorted(c, key=spec)

    def body(self, path):
        c = self.insts(path)
        return c[0] if c else None

    def small(self, path):
        """an accessor or another short function without loops: it is always analysed in place"""
        n = self.body(path)
        b = self.F.insts[n]["body"]
        return len(b["blocks"]) <= 14 and not cyclic(b) and not self.out(path)


def cyclic(b):
    from engine.interp import CFG
    return bool(CFG(b).back)


def load_roots(G):
    F = facts()
    r = set()
    for n, i in enumerate(F.insts):
        if not i["local"]:
            continue
        tr = trait_of(i.get("impl_trait") or "")
        if tr in ("Deserialize", "Visitor", "DeserializeSeed") or tr == "FromStr" or \
                (i.get("pub") and i.get("name") in ("from_slice", "from_str", "from_json", "from_value", "from_reader")):
            r.add(family(i["path"]))
        if "{closure" in i["path"] and family(i["path"]) not in G.by_path:
            r.add(family(i["path"]))   # initialisers of statics
    return r


def render_roots(G):
    F = facts()
    r = set()
    for n, i in enumerate(F.insts):
        if i["local"] and i.get("pub") and i["path"].startswith(("runtime::render::Renderer::", "runtime::render::Renderer>::")):
            r.add(i["path"])
    return r


def sites(F, i):
    """the places of a function that can panic: assertions, calls that never return, panicking library calls"""
    out = []
    for b in bodies(i):
        for blk in b["blocks"]:
            if not blk:
                continue
            t = blk["t"]
            if t[0] == "assert" and t[3] != "other":
                out.append((t[3], sp(blk.get("sp"))))
            elif t[0] == "call" and t[1][0] == "k":
                ty = F.types[t[1][1]["t"]]
                if ty["k"] != "fndef":
                    continue
                ii = ty.get("inst")
                if t[4] is None or PANICKY.search(ty["path"]):
                    out.append((ty["path"], sp(blk.get("sp"))))
    return out


PANICKY = re.compile(r"(Option|Result)::<.*>::(unwrap|expect|unwrap_err|expect_err)$|ops::Index(Mut)?::index|::(remove|swap_remove|insert|drain|split_at\w*|split_off|"
                     r"chunks\w*|rchunks\w*|windows|step_by|copy_from_slice|clone_from_slice|clamp|rotate_left|rotate_right|copy_within|swap|"
                     r"with_capacity|reserve|reserve_exact|borrow|borrow_mut|splice|range|truncate|div_euclid|pow|abs|from_digit|into_inner)$")


# ---------------------------------------------------------------- deciding one obligation
INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "usize": (0, (1 << 64) - 1), "u128": (0, (1 << 128) - 1),
        "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-(1 << 31), (1 << 31) - 1), "i64": (-(1 << 63), (1 << 63) - 1),
        "isize": (-(1 << 63), (1 << 63) - 1), "capacity": (0, 1 << 52)}


def bounded(sy, qs):
    """sy with what is known of the integers in qs: lengths, quotients, remainders"""
    s = sy.copy()
    seen = set()
    st = [m[0][0] for q in qs for m in topoly(q) if m and len(m) == 1 and m[0][1] == 1]
    for p, _, integer in s.cs:
        st += [m[0][0] for m, _c in p if m and len(m) == 1 and m[0][1] == 1]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "len":
            s.le(x, MAXLEN, True)
        if tm.is_nonneg(x):
            s.gt(x, -1, True)
        if x.op == "fld" and declared(x) in INTS:
            s.le(x, INTS[declared(x)][1], True)
        if x.op == "app" and x.a[0] in ("idiv", "irem"):
            a, b = x.a[1], x.a[2]
            st += [m[0][0] for q in (a, b) for m in topoly(q) if m and len(m) == 1 and m[0][1] == 1]
            if x.a[0] == "idiv" and b.op == "num" and b.a[0] > 0:
                s.le(sub(mul(x, b), a), 0, True)
                s.gt(sub(mul(x, b), a), -b.a[0], True)
            elif x.a[0] == "idiv":
                s.le(sub(x, a), 0, True)
            else:
                s.le(sub(x, a), 0, True)
                if b.op == "num" or sy.entails_le(num(1), b):
                    s.le(sub(x, b), -1, True)
    return s


def declared(x):
    """the declared type of a field"""
    F = facts()
    a = F.adt(x.a[3]) if isinstance(x.a[3], str) else None
    if a is None or x.a[1] >= len(a["variants"]) or x.a[2] >= len(a["variants"][x.a[1]]["f"]):
        return None
    return a["variants"][x.a[1]]["f"][x.a[2]].get("ty")


def fits(sy, v, ts):
    lo, hi = INTS[ts]
    s = bounded(sy, [v])
    return s.entails_le(v, num(hi)) and s.entails_le(num(lo), v)


def failure(o):
    """the condition under which an obligation fails"""
    bad = not_(tobool(o.cond))
    for p in o.pcs:
        bad = and_(tobool(p), bad)
    return bad


def failing(bad, limit=3000):
    """the paths on which a condition holds, one by one: (decisions, constraints); TooMany after `limit` steps"""
    bad = expand(bad)
    budget = [limit]

    def go(t, l0, s0):
        for ts, lits, sy in iter_leaves([t], l0, s0, budget=budget):
            v = ts[0]
            if v is FALSE or v is UNDEF:
                continue
            if v is not TRUE:
                w = tobool(v)
                if w is v:
                    raise Undecided("condition %s" % show(v, 0, 3)[:100])
                yield from go(w, lits, sy)
                continue
            if not impossible(lits, sy):
                yield lits, sy
    yield from go(bad, {}, Sys())


def impossible(lits, sy):
    for a, r in lits.items():
        x = a.a[0] if a.op in ("b", "bool") else None
        if x is not None and x.op == "app" and x.a[0] == "fits" and r == 0 and fits(sy, x.a[1], x.a[2].a[0]):
            return True
    return not bounded(sy, []).feasible()


# ---------------------------------------------------------------- refuting: is the failing path one that an input can take?
NUMERIC = {"toint", "tofloat", "round", "floor", "ceil", "f64::round", "f64::floor", "f64::ceil", "f64::trunc", "f64::abs", "abs", "trunc", "neg"}
INPUT_APPS = re.compile(r"^(serde_json::(de::|value::)?from_|from_value:|Deserialize::deserialize$)")
# functions of the input of which nothing more is known: any result is possible
READERS = re.compile(r"^(serde_json::)?(Value|Map|Number)::(get|as_\w+|is_\w+|pointer|first_key_value)$|^(std::)?(str|string|String)::(from_utf8|parse|find|rfind|split_once|strip_\w+)$|FromStr::from_str$")


class Inputs:
    """which quantities are parts of the input, and can have any value of their type"""

    def __init__(self, args):
        self.args = set(args)
        self.hidden = self._hidden()
        self.lists = set()      # lists whose condition is part of the question
        self.firsts = set()

    @staticmethod
    def _hidden():
        """fields that are not read as they are in the file, and the functions that read them"""
        out = {}
        for a in facts().adts:
            if not a["local"]:
                continue
            for vi, v in enumerate(a["variants"]):
                for fi, f in enumerate(v["f"]):
                    for q in list(f.get("attrs") or []) + list(v.get("attrs") or []):
                        p = (q.get("m") or {}).get("p") if isinstance(q, dict) else None
                        if p in ("deserialize_with", "with", "skip", "skip_deserializing", "from", "try_from"):
                            out[(a["path"], vi, fi)] = q["m"].get("v") if p == "deserialize_with" else None
        return out

    def leaf(self, t, why=None):
        """a part of the input: fields, elements and lengths of it"""
        while True:
            if t in self.args or t in self.lists or t in self.firsts:
                return True
            if t.op == "fld":
                if (t.a[3], t.a[1], t.a[2]) in self.hidden:
                    return False
                t = t.a[0]
            elif t.op == "len":
                t = t.a[0]
            elif t.op == "at":
                if not self.index(t.a[1]):
                    return False
                t = t.a[0]
            elif t.op == "app" and INPUT_APPS.match(str(t.a[0])):
                return True
            elif t.op == "app" and READERS.search(str(t.a[0])):
                return all(self.value(y) for y in t.a[1:])
            elif t.op == "sym":
                return t.a[0].startswith("k#")
            else:
                return False

    def index(self, q):
        return all(m == () or (len(m) == 1 and m[0][1] == 1 and self.leaf(m[0][0])) for m in topoly(q))

    def quantity(self, x):
        """an input number, or a rounding or conversion of one"""
        while x.op == "app" and x.a[0] in NUMERIC:
            x = x.a[1]
            p = topoly(x)
            ms = [m for m in p if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                x = ms[0][0][0]
        if x.op == "app" and x.a[0] in ("idiv", "irem") and x.a[2].op == "num":
            return self.index(x.a[1])
        return self.leaf(x)

    def linear(self, q):
        return all(m == () or (len(m) == 1 and m[0][1] == 1 and self.quantity(m[0][0])) for m in topoly(q))

    def joint(self, lits):
        return True

    def free(self, a, r):
        """may the decision come out like this for some input, whatever the other inputs are?"""
        if a.op == "isvar":
            x = a.a[0]
            if x.op == "app" and x.a[0] == "hget":
                return self.value(x.a[2]) and r == 0
            return self.leaf(x)
        if a.op == "le":
            return self.linear(a.a[0])
        if a.op == "sgn":
            return r != 3 and self.linear(a.a[0])
        if a.op == "b":
            x = a.a[0]
            if x.op == "app" and x.a[0] == "fits":
                return r == 1 or any(m and self.quantity(m[0][0]) and m[0][0].op != "len" for m in topoly(x.a[1])) and self.linear(x.a[1])
            if x.op == "app" and x.a[0] in ("charb", "eq"):
                return all(self.value(y) for y in x.a[1:])
            return self.leaf(x)
        return False

    def value(self, x):
        return x.op in ("str", "num") or self.leaf(x)


def nan_free(lits, inputs):
    """no number in a file is NaN: comparisons of two of them are never unordered"""
    for a, r in lits.items():
        if a.op == "sgn" and r == 3:
            ms = [m for m in topoly(a.a[0]) if m != ()]
            if len(ms) <= 2 and all(len(m) == 1 and m[0][1] == 1 and inputs.leaf(m[0][0]) for m in ms):
                return True
    return False


def read_condition(fn, raw):
    """the condition under which a deserialising function accepts the list `raw` unchanged; None if it changes it"""
    r = Run(root_inst(fn))
    src = apps_of(r.value, "Deserialize::deserialize")
    if len(src) != 1:
        return None
    whole = src.pop()
    read = fld(whole, 0, 0, RES)
    res = []

    def go(t):
        if t.op == "case":
            return case2(t.a[0], [go(k) if k is not UNDEF else UNDEF for k in t.a[1:]])
        if t.op == "adt" and t.a[0] == RES:
            if t.a[1] == 0:
                res.append(t.a[2])
                return TRUE
            return FALSE
        return FALSE
    c = go(r.value)
    if any(x is not read for x in res):
        return None
    c = subst(c, read, raw)
    return subst(c, whole, adt(RES, 0, raw))


def apps_of(t, name):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, tm.T):
            continue
        seen.add(x)
        if x.op == "app" and x.a[0] == name:
            out.add(x)
        st.extend(tm._kids(x.op, x.a))
    return out


def subterms(ts, pred):
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, tm.T):
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(tm._kids(x.op, x.a))
    return out


def with_read_conditions(lits, ins):
    """the failing path together with what the custom deserialisers guarantee about the lists it looks at: [(decisions, constraints)]"""
    atoms = [mk("case", a, *[num(i) for i in range(tm.arity(a))]) for a in lits]
    raws = subterms(atoms, lambda x: x.op == "fld" and ins.hidden.get((x.a[3], x.a[1], x.a[2])))
    raws = [x for x in raws if x not in ins.lists]
    if not raws:
        return None
    cond = TRUE
    for a, r in lits.items():
        cond = and_(cond, tobool(mk("case", a, *[boolc(i == r) for i in range(tm.arity(a))])))
    for raw in raws:
        c = read_condition(ins.hidden[(raw.a[3], raw.a[1], raw.a[2])], raw)
        if c is None:
            return None
        ins.lists.add(raw)
        idx = {x.a[1] for x in subterms(atoms + [c], lambda x: x.op == "at" and x.a[0] is raw) if not lin._bvfree(x)}
        fs = [x for x in apps_of(c, "firstk") if not lin._bvfree(x)]
        for f in fs:
            ins.firsts.add(f)
        for f in fs:
            for e in idx | {f}:
                pe = tobool(open_lam(f.a[1], [e]))
                c = and_(c, pe if e is f else or_(le_int(f, e), not_(pe)))
        cond = and_(cond, c)
    return list(failing(cond))


def opaque_in(lits):
    """names of the functions that stand for themselves in the decisions"""
    out = set()
    for a in lits:
        for n in unknown_apps(mk("case", a, *[num(i) for i in range(tm.arity(a))])):
            out.add(n)
    return out


def star_points(o, lits):
    """the known finding: the number of points of a star, doubled or used as a capacity, as it is in the file"""
    hit = False
    for a, r in lits.items():
        x = a.a[0] if a.op == "b" else None
        if x is not None and x.op == "app" and x.a[0] == "fits" and r == 0:
            for m in topoly(x.a[1]):
                if m == ():
                    continue
                if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "app" or m[0][0].a[0] != "toint" or not of_points(m[0][0]):
                    return False
            hit = True
    return hit


def of_points(t):
    """an expression of the point count of a star and nothing else of it"""
    F = facts()
    names = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fld":
            a = F.adt(x.a[3])
            if a and a["path"].endswith(("::Star", "::PolyStar", "::PolystarShape", "Polystar")):
                names.add(a["variants"][x.a[1]]["f"][x.a[2]]["n"])
        for c in tm._kids(x.op, x.a):
            st.append(c)
    return names == {"points"}


def borrowed(F, n):
    """is the result a value that may be borrowed? (the engine wraps those)"""
    t = F.types[F.insts[n]["body"]["locals"][0]]
    if t["k"] != "adt":
        return False
    a = F.adts[t["adt"]]
    return a["local"] and {x["n"] for x in a["variants"]} == {"Borrowed", "Owned"}


def unroll(t):
    """the state of a loop after a known small number of iterations"""
    def f(x):
        if x.op == "app" and x.a[0] == "scan" and x.a[3].op == "num" and 0 <= x.a[3].a[0] <= 2:
            st, l = unroll(x.a[1]), x.a[2]
            for i in range(int(x.a[3].a[0])):
                st = unroll(open_lam(l, [proj_(st, j) for j in range(l.a[1] - 1)] + [num(i)]))
            return st
        if x.op == "app" and x.a[0] == "proj":
            y = unroll(x.a[1])
            if y is not x.a[1]:
                return proj_(y, int(x.a[2].a[0]))
        return None
    return tm.rewrite(t, f)


def proj_(t, i):
    if t.op == "adt":
        return t.a[2 + i]
    return lift(("pj", i), lambda y: proj_(y, i) if y.op != "case" and y is not t else app("proj", y, num(i)), t)


# ---------------------------------------------------------------- the rule
class Open:
    """an obligation that is not discharged: its failure condition, a failing path, and whether a file can take it"""

    def __init__(self, o, cond, path, free):
        self.o, self.cond, self.path, self.free = o, cond, path, free


class Totality:
    def __init__(self, roots, load, budget=500, covered=(), inputs=Inputs):
        self.inputs = inputs
        self.F = facts()
        self.G = Graph()
        self.load = load
        self.t0 = time.time()
        self.budget = budget
        R = self.G.reach(roots(self.G))
        self.own = sorted(p for p in R if self.G.body(p) is not None and not self.F.insts[self.G.body(p)].get("derived") and
                          "::_::" not in p and "{closure" not in p)
        self.total, self.failed, self.known, self.open = set(), {}, {}, {}
        self.unknown = {}
        self.means = {}
        self.ran = set()
        self.callers = {}
        for p in self.own:
            for q in self.G.out(p):
                self.callers.setdefault(q, set()).add(p)
        # functions analysed in place of their callers elsewhere
        self.done = {p for p in self.own if p in covered}
        while True:
            more = {p for p in self.done if self.callers.get(p, set()) & set(self.own) - self.done}
            if not more:
                break
            self.done -= more

    def order(self):
        out, seen = [], set()

        def visit(p):
            if p in seen:
                return
            seen.add(p)
            for q in sorted(self.G.out(p)):
                visit(q)
            out.append(p)
        for p in self.own:
            visit(p)
        return [p for p in out if p in set(self.own)]

    def recursive(self, p):
        return p in self.G.reach(self.G.out(p))

    def nm(self, path):
        return path.replace("::", ".")

    def attempt(self, n, seconds, entry=False):
        """[Open] of one instance; callees that are total, or could not be analysed, stand for themselves; so do the other
        functions analysed before, together with the conditions under which they panic"""
        opaque = {p for p in self.total | set(self.failed) | set(self.open) if not self.G.small(p)}

        def opq(ii, inst, key, args):
            if not inst["local"] or inst["path"] not in opaque:
                return None
            # whoever is handed a closure runs it
            if any(isinstance(t, int) and "{closure" in self.F.types[t]["s"] for t in inst["args"]):
                return None
            if inst["path"] in self.open:
                return self.summary(inst["path"]) if not self.generic(ii) else None
            return self.nm(inst["path"])

        def go():
            r = Run(n, opq=opq, loop_before=True)
            ins = self.inputs(r.args)
            bad = []
            for o in r.obls:
                if o.kind != "other":
                    x = self.explore(o, failure(o), ins, n, entry)
                    if x is not None:
                        bad.append(x)
            return bad, r
        bad, r = limited(seconds, go)
        self.ran |= {self.F.insts[i]["path"] for i in r.ip.ran}
        for u in r.ip.unknown:
            self.unknown.setdefault(u, set()).add(self.F.insts[n]["path"])
        return bad, r

    def generic(self, ii):
        return any(isinstance(t, int) and (self.F.types[t]["k"] in ("param", "closure") or "{closure" in self.F.types[t]["s"]) for t in self.F.insts[ii]["args"])

    def summary(self, p):
        """a call of a function with open obligations: they have to hold for the arguments"""
        bad, r = self.open[p]

        def call(c):
            vals = [c.val(i) if c.ip._isref(a) else a for i, a in enumerate(c.args)]
            if len(vals) != len(r.names) or any(interp._has_mref(v) for v in vals):
                return NotImplemented
            m = {sym(nm): v for nm, v in zip(r.names, vals)}
            seen = set()
            for x in bad:
                cond = tm.subst_many(x.cond, m)
                if cond is not FALSE and cond not in seen and c.ip.obls is not None:
                    seen.add(cond)
                    c.ip.obls.append(interp.Obl(x.o.kind, x.o.fn, x.o.sp, not_(cond), (c.st.pc,), x.o.info, x.o.stack + (p,)))
            return c.ip.boundary(c.fr, c.st, c.ii, c.inst, self.nm(p), c.args, c.dty, c.argtys)
        return call

    def explore(self, o, cond, ins, n, entry):
        """does the failure condition of an obligation hold on some path?  At an entry, on one that some file takes?"""
        best = None
        for rnd in range(4):
            names, over = set(), False
            found = None
            k = 0
            try:
                for l, s in self.kept(o, cond, ins, n):
                    k += 1
                    here = {x for x in opaque_in(l) if x in self.names()}
                    if all(ins.free(a, x) for a, x in l.items()) and ins.joint(l):
                        return Open(o, cond, l, True)
                    found = found or l
                    names |= here
                    if k > 300 or not entry and not here:
                        break
            except TooMany:
                over = True
            if found is None:
                if not over:
                    return None
                if best is None:
                    raise TooMany()
                break
            best = Open(o, cond, found, False)
            if entry:
                w = self.witness(o, cond, ins, n)
                if w is not None:
                    return w
            if not names:
                break
            try:
                c2 = self.expand_calls(cond, names)
            except (tm.Budget, Missing, Undecided, Unsupported):
                break
            if c2 is cond:
                break
            cond = c2
        return best

    def witness(self, o, cond, ins, n):
        """the first iterations of the loops are tried on their own"""
        ks = sorted({x for x in subterms([cond], lambda x: x.op == "sym" and x.a[0].startswith("k#"))}, key=lambda x: x.a[0])
        ks += [x for x in subterms([cond], lambda x: x.op == "len" and ins.leaf(x.a[0]) and not lin._bvfree(x)) if any(y.a[3] is x for y in apps_of(cond, "scan"))]
        for v in (0, 1, 2):
            for j in ks:
                c = tobool(unroll(tm.subst(cond, j, num(v))))
                try:
                    for i, (l, s) in enumerate(self.kept(o, c, ins, n)):
                        if all(ins.free(a, x) for a, x in l.items()) and ins.joint(l):
                            return Open(o, cond, l, True)
                        if i > 100:
                            break
                except (TooMany, Undecided):
                    pass
        return None

    def names(self):
        return {self.nm(q): q for q in list(self.total) + list(self.failed) + list(self.open)}

    def meaning(self, p):
        """(argument symbols, result, results left behind &mut arguments) of a function, its callees standing for themselves"""
        r = self.means.get(p)
        if r is None:
            n = self.G.body(p)
            opaque = {q for q in self.total | set(self.failed) | set(self.open) if not self.G.small(q)} - {p}

            def opq(ii, inst, key, args):
                if inst["local"] and inst["path"] in opaque and \
                        not any(isinstance(t, int) and "{closure" in self.F.types[t]["s"] for t in inst["args"]):
                    return self.nm(inst["path"])
                return None
            if self.generic(n) or borrowed(self.F, n):
                r = ()
            else:
                x = limited(min(20, self.left()), lambda: Run(n, opq=opq))
                r = ([sym(nm) for nm in x.names], x.value, [x.out(i) for i in range(len(x.args))])
            self.means[p] = r
        return r

    def expand_calls(self, t, names):
        """calls of analysed functions replaced by what they return"""
        which = self.names()

        def f(x):
            if x.op != "app" or not isinstance(x.a[0], str):
                return None
            m = re.match(r"(.*)/out(\d+)$", x.a[0])
            nm = m.group(1) if m else x.a[0]
            if nm not in names or nm not in which:
                return None
            try:
                d = self.meaning(which[nm])
            except Slow:
                d = ()
            if not d or len(d[0]) != len(x.a) - 1:
                return None
            v = d[2][int(m.group(2))] if m else d[1]
            if v is None or v is UNDEF:
                return None
            args = [self.expand_calls(y, names) for y in x.a[1:]]
            return tm.subst_many(v, dict(zip(d[0], args)))
        return tm.rewrite(t, f)

    def kept(self, o, cond, ins, n):
        """failing paths, without the decisions no file can take, and the finding that is known"""
        for l, s in failing(cond):
            if self.load and nan_free(l, ins):
                continue
            if star_points(o, l):
                self.known["star-points-overflow"] = (o, self.F.insts[n])
                continue
            more = with_read_conditions(l, ins) if self.load else None
            yield from [(l, s)] if more is None else more

    def left(self):
        return max(5, self.budget - (time.time() - self.t0))

    def run(self):
        ent = set(self.entries())
        for p in self.order():
            if p in self.done:
                continue
            n = self.G.body(p)
            try:
                bad, r = self.attempt(n, min(60, self.left()), p in ent)
                if bad and self.generic(n):
                    mono = [x for x in self.G.insts(p) if x != n]
                    if mono:
                        bad = [y for x in mono for y in self.attempt(x, min(60, self.left()), p in ent)[0]]
            except Exception as e:
                self.failed[p] = "%s: %s" % (type(e).__name__, str(e)[:160])
                continue
            if bad:
                self.open[p] = (bad, r)
            else:
                self.total.add(p)

    def entries(self):
        own = set(self.own) - self.done
        return [p for p in self.own if not (self.callers.get(p, set()) & own) or (self.F.insts[self.G.body(p)].get("pub") and self.entry_type(p))]

    def entry_type(self, p):
        i = self.F.insts[self.G.body(p)]
        return i.get("name") in ("from_slice", "from_str", "from_json")

    def key(self, o):
        return (o.kind, o.fn["path"], str(o.sp))

    def path(self, lits):
        out = []
        for a, r in list(lits.items())[:10]:
            try:
                out.append("%s -> %d" % (atom_s(a), r))
            except Exception:
                pass
        return out


def nsites(T, p):
    n = 0
    for q in T.G.closures.get(p, {p}):
        for x in T.G.insts(q)[:1]:
            n += len(sites(T.F, T.F.insts[x]))
    return n


def local_frame(o):
    """the innermost function of the crate the panic happens in"""
    F = facts()
    if o.fn.get("local"):
        return o.fn["path"]
    for x in reversed([*reversed(o.stack)]):
        if any(i["local"] and i["path"] == x for i in F.insts):
            return x
    return o.fn["path"]


def report(T, rep, entries_what):
    T.run()
    F = T.F
    rep.analysed(*T.own)
    for p in sorted(T.total):
        rep.ok("%s cannot panic, whatever its arguments" % p, where(F.insts[T.G.body(p)]), max(1, nsites(T, p)))
    for p, why in sorted(T.failed.items()):
        rep.undecided("no panic in %s" % p, where(F.insts[T.G.body(p)]), why)
    ent = set(T.entries())
    seen = {}
    for p in sorted(T.open):
        if p not in ent:
            if T.recursive(p):
                rep.undecided("no panic in %s" % p, where(F.insts[T.G.body(p)]), "recursive, and not total on its own")
            else:
                rep.ok("the panic sites of %s are decided in its callers" % p, where(F.insts[T.G.body(p)]), max(1, nsites(T, p)))
            continue
        for x in T.open[p][0]:
            k = T.key(x.o)
            if k not in seen or x.free and not seen[k][1]:
                seen[k] = [x.o, x.free, T.path(x.path), p]
    for k, (o, refuted, path, p) in sorted(seen.items(), key=lambda x: str(x[0])):
        f = family(local_frame(o))
        what = "%s of %s never panics" % (o.kind, f)
        d = {"panic": "%s at %s" % (o.kind, sp(o.sp)), "fails when": show(o.cond, 0, 5)[:300] + " is false", "path": path, "from": p}
        if refuted:
            rep.bad("panic:%s:%s" % (f, o.kind), what, "%s (%s)" % (f, sp(o.sp)), d)
        else:
            rep.undecided(what, "%s (%s)" % (f, sp(o.sp)), d)
    for key, (o, i) in sorted(T.known.items()):
        rep.bad(key, "%s of %s never panics" % (o.kind, family(local_frame(o))), "%s (%s)" % (family(local_frame(o)), sp(o.sp)), show(o.cond, 0, 5)[:300])
    # closures that were never executed, and functions without a model
    for p in T.own:
        if p in T.done:
            continue
        for q in sorted(T.G.closures.get(p, ())):
            if q not in T.ran and p not in T.failed:
                s = [x for n in T.G.insts(q)[:1] for x in sites(F, F.insts[n])]
                if s:
                    rep.undecided("no panic in %s" % q, q, "not reached by the analysis; %d possible panics" % len(s))
    for u, ps in sorted(T.unknown.items(), key=str):
        if PANICKY.search("::" + u[1].split("::")[-1]) and not u[1].startswith(("import.", "runtime.", "schema.")):
            rep.undecided("no panic in %s" % u[1], sorted(ps)[0], "library function without a model")


def load_rules(rep):
    report(Totality(load_roots, True), rep, "loading")
