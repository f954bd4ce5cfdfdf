"""Shared infrastructure of the rules: facts of the current tree, analysis of one function, reporting."""
import json, os, re, subprocess, sys, time, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import terms as tm
from engine.terms import *
from engine.facts import Facts
from engine.interp import Interp, Unsupported

REPO = "/repo"


def add(a, b):
    return lift("add", tm.add, a, b)


def sub(a, b):
    return lift("sub", tm.sub, a, b)


def mul(a, b):
    return lift("mul", tm.mul, a, b)


def div(a, b):
    return lift("fdiv", tm.div, a, b)



class Missing(Exception):
    """a public anchor of the rules does not exist (any more)"""


class Undecided(Exception):
    """the analysis cannot decide this obligation"""


_F = None


def facts():
    global _F
    if _F is None:
        out = os.path.join(ROOT, "build", "facts.%d.json" % os.getpid())
        os.makedirs(os.path.dirname(out), exist_ok=True)
        pre = os.environ.get("VERIF_FACTS")  # development only: analyse an already extracted tree
        if pre:
            _F = Facts(pre)
        else:
            r = subprocess.run(["bash", os.path.join(ROOT, "tools", "extract.sh"), out], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(out):
                sys.stdout.write(r.stdout.decode("utf-8", "replace")[-4000:])
                raise SystemExit(2)
            _F = Facts(out)
            os.unlink(out)
    return _F


# ---------------------------------------------------------------- typed access to terms by public names
def adtpath(name):
    """full path of the unique crate-local (or foreign) ADT with this path suffix"""
    F = facts()
    c = [a["path"] for a in F.adts if a["path"] == name or a["path"].endswith("::" + name)]
    c = sorted(set(c))
    if len(c) > 1:
        l = [p for p in c if F.adt(p)["local"]]
        if len(l) == 1:
            return l[0]
    if len(c) != 1:
        raise Missing("type %s (%d candidates)" % (name, len(c)))
    return c[0]


def has_adt(name):
    try:
        adtpath(name)
        return True
    except Missing:
        return False


def vidx(ty, variant):
    p = adtpath(ty)
    v = facts().variant(p, variant)
    if v is None:
        raise Missing("variant %s::%s" % (ty, variant))
    return v


def fidx(ty, field, variant=None):
    p = adtpath(ty)
    v = 0 if variant is None else vidx(ty, variant)
    if isinstance(field, int):
        return p, v, field
    i = facts().field(p, field, v)
    if i is None:
        raise Missing("field %s.%s" % (ty, field))
    return p, v, i


def g(t, ty, field, variant=None):
    """t.field, t of type ty (as `variant`)"""
    p, v, i = fidx(ty, field, variant)
    return fld(t, v, i, p)


def path_get(t, ty, *chain):
    """t.a.b.c with types looked up from the declared field types"""
    F = facts()
    cur, curty = t, adtpath(ty)
    for f in chain:
        a = F.adt(curty)
        if isinstance(f, tuple):
            var, f = f
            v = F.variant(curty, var)
        else:
            v = 0
        fs = a["variants"][v]["f"]
        i = f if isinstance(f, int) else F.field(curty, f, v)
        if i is None or i >= len(fs):
            raise Missing("field %s.%s" % (curty, f))
        cur = fld(cur, v, i, curty)
        curty = tyhead(fs[i].get("ty"))
    return cur


def tyhead(s):
    """path of the ADT a declared field type denotes (through references and boxes)"""
    s = (s or "").strip()
    while True:
        t = re.sub(r"^&('\w+ )?(mut )?", "", s)
        m = re.match(r"^(std|alloc)::boxed::Box<(.*)>$", t)
        if m:
            t = m.group(2)
        if t == s:
            break
        s = t
    return s.split("<")[0]


def new(ty, variant=None, **fields):
    """value of type ty with all fields given by name (f0, f1.. for tuple fields)"""
    F = facts()
    p = adtpath(ty)
    v = 0 if variant is None else vidx(ty, variant)
    fs = F.adt(p)["variants"][v]["f"]
    out = []
    names = [f["n"] for f in fs]
    for k in fields:
        kk = k[1:] if k[0] == "f" and k[1:].isdigit() else k
        if kk not in names and k not in names:
            raise Missing("field %s.%s" % (ty, k))
    for f in fs:
        n = f["n"]
        if n in fields:
            out.append(fields[n])
        elif "f" + n in fields:
            out.append(fields["f" + n])
        else:
            raise Missing("field %s.%s is new" % (ty, n))
    return adt(p, v, *out)


def unit(ty, variant):
    return adt(adtpath(ty), vidx(ty, variant))


def vcase(t, ty, **arms):
    """decision on the variant of t; arms: variant=function or term; _ = default"""
    F = facts()
    p = adtpath(ty)
    vs = [v["n"] for v in F.adt(p)["variants"]]
    for k in arms:
        if k != "_" and k not in vs:
            raise Missing("variant %s::%s" % (ty, k))

    def f(i):
        a = arms.get(vs[i], arms.get("_"))
        return a() if callable(a) else a
    return variant_case(t, len(vs), p, f)


def isv(t, ty, variant):
    return vcase(t, ty, **{variant: TRUE, "_": FALSE})


def opt(t, f_some, none):
    """match t {Some(x) => f_some(x), None => none}"""
    return variant_case(t, 2, OPT, lambda i: f_some(unwrap(t)) if i == 1 else (none() if callable(none) else none))


# ---------------------------------------------------------------- instances
def generic_insts(suffix):
    F = facts()
    return [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and
            (x["path"] == suffix or x["path"].endswith("::" + suffix))]


def root_inst(suffix, argpred=None):
    """the polymorphic (least specialised) instance with this path suffix"""
    F = facts()
    c = generic_insts(suffix)
    if argpred:
        c = [i for i in c if argpred(F.insts[i])]
    if not c:
        raise Missing("function %s" % suffix)
    def spec(i):
        n = 0
        for t in F.insts[i]["args"]:
            if isinstance(t, int) and F.types[t]["k"] == "param":
                n -= 1
        return (n, i)
    return min(c, key=spec)


def where(inst):
    sp = inst.get("span") or ""
    return "%s (%s)" % (inst["path"], sp) if sp else inst["path"]


def key_is(inst, key, *names):
    return key in names


EVALS = ("Value::evaluate", "Value::evaluate_or", "Transform::evaluate", "Repeater::evaluate", "Trim::evaluate",
         "Stroke::evaluate", "Brush::evaluate", "ColorStops::evaluate", "Gradient::evaluate", "Star::evaluate",
         "Spline::evaluate", "Rect::evaluate", "Ellipse::evaluate", "Geometry::evaluate", "Repeater::transform", "Trim::normalized")


class Run:
    """one analysis of one function"""

    def __init__(self, ii, args=None, cells=None, opq=None, rec=None, names=None, loop_before=False, concrete=0):
        F = facts()
        self.F = F
        self.ii = ii
        self.inst = F.insts[ii]
        ip = self.ip = Interp(F)
        ip.opaque_pred = opq
        ip.rec_handler = rec
        ip.loop_before = loop_before
        ip.concrete = concrete
        b = self.inst["body"]
        n = b["argc"]
        if args is None:
            args = {}
        if cells is None:
            cells = {}
        dbg = {}
        for d in b["dbg"]:
            if len(d) > 2 and d[2] and len(d[1]) == 1:
                dbg[d[2]] = d[0]
        self.args = []
        self.names = []
        self.syms = []
        for i in range(n):
            ty = F.types[b["locals"][i + 1]]
            nm = dbg.get(i + 1, "arg%d" % i)
            self.names.append(nm)
            a = args[i] if isinstance(args, (list, tuple)) else args.get(nm, args.get(i))
            if a is None:
                a = sym(nm)
            if ty["k"] == "ref" and ty.get("mut") and a.op != "mref":
                cells[("arg", i)] = a
                a = mk("mref", ("arg", i))
            self.args.append(a)
        self.cells0 = dict(cells)
        t = time.time()
        self.value, self.cells, self.obls, self.pc = ip.run(ii, self.args, cells)
        self.time = time.time() - t

    def out(self, i):
        return self.cells.get(("arg", i))


# ---------------------------------------------------------------- reporting
def text(d):
    if isinstance(d, dict):
        return "; ".join("%s: %s" % (k, v) for k, v in d.items())
    return str(d or "")


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.fns = set()
        self.notes = []
        self.t0 = time.time()

    def ok(self, what, where_="", n=1):
        self.obs.append({"obligation": what, "where": where_, "status": "holds", "n": n})

    def bad(self, key, what, where_="", detail=""):
        self.obs.append({"obligation": what, "where": where_, "status": "VIOLATED", "key": str(key), "detail": text(detail), "n": 1})

    def undecided(self, what, where_="", detail=""):
        self.obs.append({"obligation": what, "where": where_, "status": "undecided", "detail": text(detail), "n": 1})

    def analysed(self, *fns):
        for f in fns:
            self.fns.add(f)

    def check(self, cond, key, what, where_="", detail=""):
        if cond:
            self.ok(what, where_)
        else:
            self.bad(key, what, where_, detail)
        return cond


def known_calls():
    return KNOWN_APPS


# uninterpreted function symbols the rules themselves know about; anything else in a mismatching term is a
# function without a model, about which nothing can be concluded
KNOWN_APPS = set("""ovf fits proj scan firstk hget hitems toint tofloat inv monus fsub eq lt min max fmin fmax clamp abs
round floor ceil sqrt sin cos tan powf powi hypot atan2 rem_euclid exp ln isnan ptreq f32 sum idiv irem unord not
closure nan""".split())


def unknown_apps(t, extra=()):
    seen, out = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            out.add(x.a[0] if isinstance(x.a[0], str) else str(x.a[0]))
        for c in tm._kids(x.op, x.a):
            st.append(c)
    return out


def diff(a, b):
    """None if a and b are equal for all outcomes; otherwise (decisions, a', b')"""
    why = []
    try:
        if equal(a, b, why=why):
            return None
    except tm.Budget as e:
        raise Undecided(str(e))
    if why:
        d = Diff(why[0])
        d.others = why[1:]
        return d
    return Diff(({}, a, b))


class Diff(tuple):
    """the first mismatch of two terms; others: further ones, under other decisions"""
    others = ()


def explain(d):
    lits, a, b = d
    conds = []
    for at_, o in lits.items():
        try:
            kids = [num(i) for i in range(tm.arity(at_))]
            conds.append("%s -> outcome %d" % (atom_s(at_), o))
        except Exception:
            pass
    return {"when": conds[:12], "code": show(a, 0, 7)[:1500], "rule": show(b, 0, 7)[:1500]}


def atom_s(a):
    return show(mk("case", a, *[mk("num", i) if False else tm.num(i) for i in range(tm.arity(a))]), 0, 4)[:200]
