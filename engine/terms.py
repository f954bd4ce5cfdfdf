"""Hash-consed value terms for the value-flow analysis.

A term denotes the value a MIR local/place can hold, as a function of the analysed function's inputs.
Conditionals are decision diagrams over *atoms* (comparisons, discriminants, opaque booleans); numbers are
canonical polynomials; collections are sequence terms (concatenations of elements, splices, and `each`
comprehensions); loops that have no closed form are `scan`/`firstk` terms with bound variables named by height,
so that alpha-equivalent terms are the same object.
"""
import time
from fractions import Fraction as Fr
import math, sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "a", "id", "h", "fv", "am", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_TAB = {}
_n = [0]
_bits = {}


def _bit(key):
    b = _bits.get(key)
    if b is None:
        b = 1 << (len(_bits) % 251)  # Bloom mask: "may contain"
        _bits[key] = b
    return b


def _kids(op, a):
    if op == "poly":
        for m in a:
            for i in range(1, len(m)):
                yield m[i][0]
    else:
        for x in a:
            if isinstance(x, T):
                yield x


def mk(op, *a):
    key = (op,) + a
    t = _TAB.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _n[0] += 1
    t.id = _n[0]
    h = 0
    fv = 0
    am = 0
    for k in _kids(op, a):
        if k.h > h:
            h = k.h
        fv |= k.fv
        am |= k.am
    if op in ("each", "scan", "firstk", "sum", "lam"):
        lv = a[0]
        top = lv + a[1] - 1 if op == "scan" or op == "lam" else lv
        if top > h:
            h = top
        # bound levels are closed here
    elif op == "bv":
        fv = _bit(("bv", a[0]))
    elif op == "sym":
        fv = _bit(("sym", a[0]))
    elif op == "case":
        am |= _bit(("atom", group(a[0])))
    t.h = h
    t.fv = fv
    t.am = am
    _TAB[key] = t
    return t


def group(atom):
    if atom.op == "le":
        return ("le", atom.a[0].id)
    if atom.op == "sgn":
        return ("sgn", atom.a[0].id)
    return ("x", atom.id)


_symn = [0]


def sym(name):
    return mk("sym", name)


def fresh(prefix):
    _symn[0] += 1
    return mk("sym", "%s#%d" % (prefix, _symn[0]))


UNDEF = mk("undef")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("adt", "()", 0)


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- numbers
def _snap(c):
    """Round coefficients that are not small rationals to 12 significant digits."""
    if c.denominator <= 1000000 and abs(c.numerator) < 10 ** 25:
        return c
    f = float(c)
    if f == 0 or math.isinf(f):
        return c
    return Fr("%.12g" % f)


def num(x):
    if isinstance(x, int):
        return mk("num", Fr(x))
    if isinstance(x, float):
        if math.isnan(x):
            return mk("fconst", "nan")
        if math.isinf(x):
            return mk("fconst", "inf" if x > 0 else "-inf")
        return mk("num", _snap(Fr(repr(x))))
    return mk("num", _snap(Fr(x)))


ZERO = num(0)
ONE = num(1)


def topoly(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return {m[1:]: m[0] for m in t.a}
    return {((t, 1),): Fr(1)}


def frompoly(d):
    d = {m: _snap(c) for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    return mk("poly", *[(c,) + m for m, c in items])


def add(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    d = dict(topoly(a))
    for m, c in topoly(b).items():
        d[m] = d.get(m, 0) + c
    return frompoly(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mulm(m1, m2):
    e = {}
    for x, k in m1:
        e[x] = e.get(x, 0) + k
    for x, k in m2:
        e[x] = e.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in e.items() if k), key=lambda p: p[0].id))


def mul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == "fconst" or b.op == "fconst":
        return mk("app", "fmul", *sorted((a, b)))
    d = {}
    pb = topoly(b)
    for m1, c1 in topoly(a).items():
        for m2, c2 in pb.items():
            m = _mulm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return frompoly(d)


def inv(a):
    if a is UNDEF:
        return UNDEF
    if a.op == "num":
        if a.a[0] == 0:
            return mk("app", "inv", a)
        return num(1 / a.a[0])
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        r = num(1 / c)
        for x, e in m:
            for _ in range(e):
                r = mul(r, mk("app", "inv", x))
        return r
    lead = min(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]) if mc[0] else ((1 << 60, 0),))[1]
    if lead != 1:
        q = frompoly({m: c / lead for m, c in p.items()})
        return mul(num(1 / lead), mk("app", "inv", q))
    return mk("app", "inv", a)


def div(a, b):
    return mul(a, inv(b))


def isnum(t):
    return t.op == "num"


def is_nonneg(t):
    """Syntactically nonnegative (unsigned atoms)."""
    for m, c in topoly(t).items():
        if c < 0 or any(signed(x) for x, _ in m):
            return False
    return True


def signed(x):
    """an integer that may be negative"""
    return x.op == "app" and x.a[0] == "toint" and x.a[2].a[0].startswith("i")


# ---------------------------------------------------------------- cases
def arity(atom):
    if atom.op in ("le", "b"):
        return 2
    if atom.op == "sgn":
        return 4
    if atom.op == "isvar":
        return atom.a[1]
    raise AssertionError(atom.op)


def case(atom, kids):
    """Multiway decision; UNDEF children are don't-cares."""
    real = [k for k in kids if k is not UNDEF]
    if not real:
        return UNDEF
    f = real[0]
    same = True
    for k in real:
        if k is not f:
            same = False
            break
    if same:
        return f
    if atom.op == "isvar" and kids[0] is atom.a[0] and atom.a[2] == OPT:
        return case(atom, [NONE] + list(kids[1:]))
    if len(real) < len(kids) and atom.op in ("le", "b"):
        return f
    # canonical raw boolean
    if atom.op == "b" and kids[0] is FALSE and kids[1] is TRUE:
        return atom.a[0]
    # enum eta: rebuild of the scrutinee
    if atom.op == "isvar" and all(k is not UNDEF for k in kids):
        x = atom.a[0]
        ok = True
        for i, k in enumerate(kids):
            if k.op != "adt" or k.a[1] != i:
                ok = False
                break
            if k.a[0] != atom.a[2]:
                ok = False
                break
            for j, f2 in enumerate(k.a[2:]):
                if not (f2.op == "fld" and f2.a[0] is x and f2.a[1] == i and f2.a[2] == j):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return x
    # adt with the same variant on every side: push in
    if f.op == "adt" and all(k.op == "adt" and k.a[:2] == f.a[:2] and len(k.a) == len(f.a) for k in real):
        n = len(f.a) - 2
        return adt(f.a[0], f.a[1], *[
            case2(atom, [k.a[2 + i] if k is not UNDEF else UNDEF for k in kids]) for i in range(n)])
    if f.op == "iter" and all(k.op == "iter" for k in real):
        return mk("iter", case2(atom, [k.a[0] if k is not UNDEF else UNDEF for k in kids]),
                  case2(atom, [k.a[1] if k is not UNDEF else UNDEF for k in kids]))
    # sequences with a common prefix
    if any(k.op == "seq" for k in real):
        lists = [seqitems(k) if k is not UNDEF else None for k in kids]
        rl = [l for l in lists if l is not None]
        p = 0
        while all(len(l) > p for l in rl) and all(l[p] is rl[0][p] for l in rl):
            p += 1
        if p:
            rest = case(atom, [seq(l[p:]) if l is not None else UNDEF for l in lists])
            return seq(list(rl[0][:p]) + [rest])
    return mk("case", atom, *kids)


def case2(atom, kids):
    """case() whose children may have smaller atoms on top: reorder."""
    if all(k.op != "case" or k.a[0].id > atom.id for k in kids):
        return case(atom, kids)
    return _reorder(atom, tuple(kids))


_reo = {}


def _reorder(atom, kids):
    key = (atom, kids)
    r = _reo.get(key)
    if r is not None:
        return r
    top = atom
    for k in kids:
        if k.op == "case" and k.a[0].id < top.id:
            top = k.a[0]
    if top is atom:
        res = []
        for i, k in enumerate(kids):
            if k.op == "case" and k.a[0] is atom:
                k = k.a[1 + i]
            res.append(k)
        r = case(atom, res)
    else:
        r = case(top, [_reorder(atom, tuple((k.a[1 + o] if k.op == "case" and k.a[0] is top else k) for k in kids))
                       for o in range(arity(top))])
    _reo[key] = r
    return r


_mc = {}


def lift(name, f, *ts):
    """Apply f to the leaves of the top-level decision structure of ts (memoised under name)."""
    key = (name,) + ts
    r = _mc.get(key)
    if r is not None:
        return r
    top = None
    for t in ts:
        if t.op == "case" and (top is None or t.a[0].id < top.id):
            top = t.a[0]
    if top is None:
        for t in ts:
            if t is UNDEF:
                r = UNDEF
                break
        else:
            r = f(*ts)
    else:
        kids = []
        for o in range(arity(top)):
            kids.append(lift(name, f, *[(t.a[1 + o] if t.op == "case" and t.a[0] is top else t) for t in ts]))
        r = case2(top, kids)
    _mc[key] = r
    return r


def tobool(t):
    if t.op == "bool" or t is UNDEF:
        return t
    if t.op == "case":
        return t if _isboolc(t) else lift("tobool", tobool, t)
    return mk("case", mk("b", t), FALSE, TRUE)


_ibc = {}


def _isboolc(t):
    """is every leaf of the case a boolean constant?"""
    r = _ibc.get(t)
    if r is None:
        r = _ibc[t] = all(k is UNDEF or k.op == "bool" or k.op == "case" and _isboolc(k) for k in t.a[1:])
    return r


def _isconstb(t):
    return t is TRUE or t is FALSE


_bo = {}


def and_(x, y):
    x = tobool(x)
    y = tobool(y)
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    if x is FALSE or y is FALSE:
        return FALSE
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    key = ("and", x, y)
    r = _bo.get(key)
    if r is None:
        r = _bo[key] = _bapply(and_, x, y)
    return r


def or_(x, y):
    x = tobool(x)
    y = tobool(y)
    if x is FALSE:
        return y
    if y is FALSE:
        return x
    if x is TRUE or y is TRUE:
        return TRUE
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    key = ("or", x, y)
    r = _bo.get(key)
    if r is None:
        r = _bo[key] = _bapply(or_, x, y)
    return r


def _bapply(f, x, y):
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    top = x.a[0]
    if y.a[0].id < top.id:
        top = y.a[0]
    kids = [tobool(f(_cof(x, top, o), _cof(y, top, o))) for o in range(arity(top))]
    return _bcase(top, kids)


def _cof(x, top, o):
    if x.op == "case" and x.a[0] is top:
        return x.a[1 + o]
    return x


def _bcase(atom, kids):
    """Boolean case kept in expanded (path condition) form."""
    real = [k for k in kids if k is not UNDEF]
    if not real:
        return UNDEF
    if all(k is real[0] for k in real):
        return real[0]
    return mk("case", atom, *kids)


def not_(x):
    x = tobool(x)
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x is UNDEF:
        return x
    key = ("not", x)
    r = _bo.get(key)
    if r is None:
        r = _bo[key] = _bcase(x.a[0], [not_(k) for k in x.a[1:]])
    return r


def canonb(x):
    """value form of a boolean (collapses a single opaque atom to the raw term)"""
    if x.op == "case" and x.a[0].op == "b" and x.a[1] is FALSE and x.a[2] is TRUE:
        return x.a[0].a[0]
    return x


_it = {}


def ite(g, a, b):
    """value a when g, else b."""
    if a is b:
        return a
    g = tobool(g)
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if g is UNDEF:
        return UNDEF
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a.op == "adt" and b.op == "adt" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        return adt(a.a[0], a.a[1], *[ite(g, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "iter" and b.op == "iter":
        return mk("iter", ite(g, a.a[0], b.a[0]), ite(g, a.a[1], b.a[1]))
    if a.op == "hmap" and b.op == "hmap":
        return mk("hmap", ite(g, a.a[0], b.a[0]))
    if a.op == "clo" and b.op == "clo" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
        return mk("clo", a.a[0], *[ite(g, x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == "seq" or b.op == "seq":
        la, lb = seqitems(a), seqitems(b)
        p = 0
        while p < len(la) and p < len(lb) and la[p] is lb[p]:
            p += 1
        if p:
            return seq(list(la[:p]) + [ite(g, seq(la[p:]), seq(lb[p:]))])
    key = (g, a, b)
    r = _it.get(key)
    if r is not None:
        return r
    top = g.a[0]
    if a.op == "case" and a.a[0].id < top.id:
        top = a.a[0]
    if b.op == "case" and b.a[0].id < top.id:
        top = b.a[0]
    kids = [ite(_cof(g, top, o), _cof(a, top, o), _cof(b, top, o)) for o in range(arity(top))]
    r = case2(top, kids)
    _it[key] = r
    return r


# ---------------------------------------------------------------- comparisons
def _leadkey(mc):
    return tuple((x.id, e) for x, e in mc[0])


def le_int(a, b, unsigned=True):
    """a <= b over integers"""
    return lift(("le", unsigned), lambda x, y: _le_int(x, y, unsigned), a, b)


def _le_int(a, b, unsigned):
    if a is b:
        return TRUE
    p = topoly(sub(a, b))
    c = p.pop((), Fr(0))
    if not p:
        return boolc(c <= 0)
    # q + c <= 0
    den = 1
    for v in p.values():
        den = den * v.denominator // math.gcd(den, v.denominator)
    g = 0
    for v in p.values():
        g = math.gcd(g, int(v * den))
    p = {m: v * den / g for m, v in p.items()}
    k = -c * den / g  # q <= k
    lead = min(p.items(), key=_leadkey)[1]
    if lead > 0:
        q = frompoly(p)
        return _leatom(q, math.floor(k), unsigned)
    q = frompoly({m: -v for m, v in p.items()})
    # -q <= k  <=> q >= -k <=> not q <= ceil(-k)-1
    return not_(_leatom(q, math.ceil(-k) - 1, unsigned))


def _leatom(q, k, unsigned):
    if unsigned and not any(signed(x) for m in topoly(q) for x, _ in m):
        pos = all(m[0] >= 0 for m in q.a) if q.op == "poly" else True
        if pos and k < 0:
            return FALSE
        if q.op == "poly" and all(m[0] <= 0 for m in q.a) and k >= 0:
            return TRUE
        # len facts: len(slice) etc. are left opaque
    return mk("case", mk("le", q, k), FALSE, TRUE)


def lt_int(a, b, unsigned=True):
    return not_(le_int(b, a, unsigned))


def eq_int(a, b, unsigned=True):
    return and_(le_int(a, b, unsigned), le_int(b, a, unsigned))


def cmp_f(a, b):
    """sign of a - b as a 4-way decision over (N, Z, P, U) -> num -1,0,1 / 'unord'."""
    return lift("cmpf", _cmp_f, a, b)


ORD = {"N": mk("tag", "N"), "Z": mk("tag", "Z"), "P": mk("tag", "P"), "U": mk("tag", "U")}


def _cmp_f(a, b):
    if a.op == "fconst" or b.op == "fconst":
        if a.op == "fconst" and b.op == "fconst":
            if a is b and a.a[0] != "nan":
                return ORD["Z"]
        if (a.op == "fconst" and a.a[0] == "nan") or (b.op == "fconst" and b.a[0] == "nan"):
            return ORD["U"]
        return mk("case", mk("sgn", mk("app", "fsub", a, b), Fr(0)), ORD["N"], ORD["Z"], ORD["P"], ORD["U"])
    p = topoly(sub(a, b))
    c = p.pop((), Fr(0))
    if not p:
        if a is b and a.op != "num" and not isnum(sub(a, ZERO)):
            # x ? x : equal unless NaN
            q, k = a, Fr(0)
            return mk("case", mk("sgn", a, Fr(0)), ORD["Z"], ORD["Z"], ORD["Z"], ORD["U"])
        return ORD["N"] if c < 0 else ORD["P"] if c > 0 else ORD["Z"]
    lead = min(p.items(), key=_leadkey)[1]
    q = frompoly({m: v / abs(lead) * (1 if lead > 0 else -1) for m, v in p.items()})
    k = _snap(-c / lead)  # q ? k
    at = mk("sgn", q, k)
    if lead > 0:
        return mk("case", at, ORD["N"], ORD["Z"], ORD["P"], ORD["U"])
    return mk("case", at, ORD["P"], ORD["Z"], ORD["N"], ORD["U"])


def fcmp(rel, a, b):
    true = {"lt": "N", "le": "NZ", "gt": "P", "ge": "ZP", "eq": "Z", "ne": "NPU"}[rel]
    o = cmp_f(a, b)
    return tobool(lift(("fcmp", rel), lambda t: boolc(t.a[0] in true), o))


# ---------------------------------------------------------------- adts, fields
ADT_FIELDS = {}  # (path, variant) -> number of fields (filled by facts)
ADT_NVAR = {}  # path -> number of variants


def adt(path, var, *fs):
    if fs and fs[0].op == "fld" and fs[0].a[2] == 0:
        b = fs[0].a[0]
        if ADT_NVAR.get(path, 1) == 1 and fs[0].a[3] == path:
            if all(f.op == "fld" and f.a[0] is b and f.a[2] == i and f.a[3] == path for i, f in enumerate(fs)):
                if ADT_FIELDS.get((path, var), len(fs)) == len(fs):
                    return b
    return mk("adt", path, var, *fs)


def tup(*fs):
    return adt("()", 0, *fs)


def fld(base, var, i, path):
    """field i of base (as variant var of adt `path`)"""
    def f(b):
        if b.op == "adt":
            if b.a[1] != var and not (b.a[0] == "()" and var == 0):
                return UNDEF
            return b.a[2 + i] if 2 + i < len(b.a) else UNDEF
        if b.op == "clo":
            return b.a[1 + i]
        if b.op == "iter" and path == "{iter}":
            return b.a[i]
        return mk("fld", b, var, i, path)
    return lift(("fld", var, i, path), f, base)


def setfld(base, var, i, path, v, nf):
    def f(b):
        if b.op == "adt":
            if b.a[1] != var:
                return UNDEF
            l = list(b.a)
            l[2 + i] = v
            return adt(*l)
        if b.op == "clo":
            l = list(b.a)
            l[1 + i] = v
            return mk("clo", *l)
        if b.op == "iter" and path == "{iter}":
            l = list(b.a)
            l[i] = v
            return mk("iter", *l)
        fs = [mk("fld", b, var, j, path) if b is not UNDEF else UNDEF for j in range(nf)]
        fs[i] = v
        return adt(path, var, *fs)
    if base is UNDEF:
        return f(base)
    return lift(("setfld", var, i, path, v, nf), f, base)


def isvar(x, n, path):
    """decision atom on the variant of x"""
    return mk("isvar", x, n, path)


def variant_case(x, n, path, f):
    """f(i) for the variant index of x"""
    def g(b):
        if b.op == "adt":
            return f(b.a[1])
        if n == 1:
            return f(0)
        return case2(isvar(b, n, path), [f(i) for i in range(n)])
    if x.op != "case":
        return g(x) if x is not UNDEF else UNDEF
    # lift without memo (f is a closure)
    return case2(x.a[0], [variant_case(k, n, path, f) for k in x.a[1:]])


OPT = "std::option::Option"
NONE = mk("adt", OPT, 0)


def some(x):
    return UNDEF if x is UNDEF else mk("adt", OPT, 1, x)


def is_some(x):
    return variant_case(x, 2, OPT, lambda i: boolc(i == 1))


def unwrap(x):
    return fld(x, 1, 0, OPT)


def opt_map(x, f):
    return ite(is_some(x), some(f(unwrap(x))), NONE)


# ---------------------------------------------------------------- sequences
def one(e):
    return mk("one", e)


def seqitems(t):
    if t.op == "seq":
        return t.a
    return (t,)


EMPTY = mk("seq")


def seq(items):
    out = []
    for it in items:
        if it is UNDEF:
            continue
        if it.op == "seq":
            out.extend(it.a)
        else:
            out.append(it)
    # merge adjacent slices
    i = 0
    while i + 1 < len(out):
        x, y = out[i], out[i + 1]
        m = _merge(x, y)
        if m is not None:
            out[i:i + 2] = list(seqitems(m))
            i = max(i - 1, 0)
        else:
            i += 1
    if len(out) == 1 and out[0].op != "one":
        return out[0]
    return mk("seq", *out)


def _merge(x, y):
    if x.op == "slice" and y.op == "slice" and x.a[0] is y.a[0] and x.a[2] is y.a[1]:
        return slice_(x.a[0], x.a[1], y.a[2])
    # runs of one constant element
    if x.op == "each" or y.op == "each":
        cx, cy = _run(x), _run(y)
        if cx is not None and cy is not None and cx[1] is cy[1]:
            return each(add(cx[0], cy[0]), fresh("k"), seq([one(cx[1])]))
    return None


def _run(x):
    """(length, element) of a run of one element"""
    if x.op == "one":
        return ONE, x.a[0]
    if x.op == "each" and body_unit(x) and is_nonneg(x.a[1]):
        e = x.a[2].a[0].a[0]
        if not occurs(e, mk("bv", x.a[0])):
            return x.a[1], e
    return None


def each(n, k, body):
    """concatenation of body(k) for k in 0..n (k a fresh symbol)"""
    if n.op == "num":
        c = int(n.a[0])
        if c <= 0:
            return EMPTY
        if c <= 16:
            return seq([subst(body, k, num(i)) for i in range(c)])
    if body is EMPTY or body is UNDEF:
        return EMPTY
    if n.op == "case":
        return lift(("each", k, body), lambda m: each(m, k, body), n)
    # eta
    if body.op == "seq" and len(body.a) == 1 and body.a[0].op == "one":
        e = body.a[0].a[0]
        if e.op == "at" and not occurs(e.a[0], k):
            off = sub(e.a[1], k)
            if not occurs(off, k):
                return slice_(e.a[0], off, add(off, n))
    # a comprehension over a structured sequence S, using S only elementwise
    S = _fusable(n, k, body)
    if S is not None:
        parts = []
        ok = True
        for it in seqitems(S):
            r = _each_item(it, S, k, body)
            if r is None:
                ok = False
                break
            parts.append(r)
        if ok:
            return seq(parts)
    lv = body.h + 1
    return mk("each", lv, n, subst(body, k, mk("bv", lv)))


def _fusable(n, k, body):
    if n.op == "len" and n.a[0].op in ("seq", "each", "slice", "case", "revd"):
        S = n.a[0]
        if S.op == "slice" or S.op == "revd":
            return None
        if S.op == "each" and body_unit(S):
            return None
        atk = mk("at", S, k)
        r = fresh("e")
        b2 = subst(body, atk, r)
        if not occurs(b2, k):
            return S
    return None


def body_unit(e):
    b = e.a[2]
    return b.op == "seq" and len(b.a) == 1 and b.a[0].op == "one"


def _each_item(it, S, k, body):
    atk = mk("at", S, k)
    if it.op == "one":
        return subst(body, atk, it.a[0])
    if it.op == "each":
        kk = fresh("k")
        inner = open_each(it, kk)
        r = _each_items(inner, atk, body)
        if r is None:
            return None
        return each(it.a[1], kk, r)
    if it.op == "case":
        kids = []
        for c in it.a[1:]:
            if c is UNDEF:
                kids.append(UNDEF)
                continue
            r = _each_items(c, atk, body)
            if r is None:
                return None
            kids.append(r)
        return case2(it.a[0], kids)
    kk = fresh("k")
    return each(len_(it), kk, subst(body, atk, at(it, kk)))


def _each_items(s, atk, body):
    parts = []
    for it in seqitems(s):
        if it.op == "one":
            parts.append(subst(body, atk, it.a[0]))
        elif it.op == "each":
            kk = fresh("k")
            r = _each_items(open_each(it, kk), atk, body)
            if r is None:
                return None
            parts.append(each(it.a[1], kk, r))
        elif it.op == "case":
            kids = []
            for c in it.a[1:]:
                if c is UNDEF:
                    kids.append(UNDEF)
                    continue
                r = _each_items(c, atk, body)
                if r is None:
                    return None
                kids.append(r)
            parts.append(case2(it.a[0], kids))
        else:
            kk = fresh("k")
            parts.append(each(len_(it), kk, subst(body, atk, at(it, kk))))
    return seq(parts)


def open_each(e, k):
    return subst(e.a[2], mk("bv", e.a[0]), k)


_lenm = {}


def len_(s):
    r = _lenm.get(s)
    if r is None:
        r = _lenm[s] = _len(s)
    return r


def _len(s):
    if s is UNDEF:
        return UNDEF
    if s.op == "seq":
        r = ZERO
        for it in s.a:
            r = add(r, len_(it))
        return r
    if s.op == "one":
        return ONE
    if s.op == "each":
        l = len_(s.a[2])
        if not occurs(l, mk("bv", s.a[0])):
            return mul(s.a[1], l)
        return mk("len", s)
    if s.op == "slice":
        return sub(s.a[2], s.a[1])
    if s.op == "case":
        return lift("len", len_, s)
    if s.op == "upd":
        return len_(s.a[0])
    if s.op == "revd":
        return len_(s.a[0])
    if s.op == "str":
        return num(len(s.a[0].encode()))
    if s.op == "repeat":
        return mk("fconst", "inf")
    if s.op == "adt" and "::iter::" in str(s.a[0]):
        # an iterator without a model
        from .interp import Unsupported
        raise Unsupported("the elements of %s" % s.a[0])
    return mk("len", s)


def at(s, i):
    if s is UNDEF or i is UNDEF:
        return UNDEF
    if s.op == "case":
        return case2(s.a[0], [at(k, i) for k in s.a[1:]])
    if s.op == "repeat":
        return s.a[0]
    if s.op == "revd":
        return at(s.a[0], sub(sub(len_(s.a[0]), ONE), i))
    if s.op == "slice":
        return at(s.a[0], add(s.a[1], i))
    if s.op == "each" and body_unit(s):
        return subst(s.a[2].a[0].a[0], mk("bv", s.a[0]), i)
    if s.op == "upd":
        if s.a[1] is i:
            return s.a[2]
        d = sub(s.a[1], i)
        if d.op == "num" and d.a[0] != 0:
            return at(s.a[0], i)
        return mk("at", s, i)
    if s.op == "seq":
        off = i
        for n, it in enumerate(s.a):
            if it.op == "one":
                if off is ZERO:
                    return it.a[0]
                if off.op == "num" and off.a[0] < 0:
                    break
                off = sub(off, ONE)
                if off.op != "num" and not _surely_nonneg_after(off):
                    break
            elif it.op == "repeat" and is_nonneg(off):
                return it.a[0]
            else:
                l = len_(it)
                d = sub(off, l)
                if d is ZERO or (d.op == "num" and d.a[0] >= 0):
                    off = d
                    continue
                if n == 0 and len(s.a) >= 1 and not (d.op == "num"):
                    # unknown: keep opaque unless it is the only item
                    break
                if d.op == "num" and d.a[0] < 0 and is_nonneg(off):
                    return at(it, off)
                break
        # from the back: i = len - c
        back = sub(len_(s), i)
        if back.op == "num" and back.a[0] >= 1:
            c = int(back.a[0])
            for it in reversed(s.a):
                if it.op == "one":
                    c -= 1
                    if c == 0:
                        return it.a[0]
                else:
                    break
    return mk("at", s, i)


def _surely_nonneg_after(off):
    return False


def slice_(s, a, b):
    if s is UNDEF:
        return UNDEF
    if a is b:
        return EMPTY
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    L = len_(s)
    if a is ZERO and b is L:
        return s
    if s.op == "repeat":
        k = fresh("k")
        return each(sub(b, a), k, seq([one(s.a[0])]))
    if s.op == "each" and body_unit(s):
        k = fresh("k")
        return each(sub(b, a), k, seq([one(at(s, add(a, k)))]))
    if s.op == "seq":
        # split points at item boundaries
        bounds = [ZERO]
        for it in s.a:
            bounds.append(add(bounds[-1], len_(it)))
        ia = ib = None
        for n, x in enumerate(bounds):
            if x is a and ia is None:
                ia = n
            if x is b:
                ib = n
        if ia is not None and ib is not None and ia <= ib:
            return seq(s.a[ia:ib])
        if ia is not None and ia > 0:
            return slice_(seq(s.a[ia:]), ZERO, sub(b, a))
        if ib is not None and ib < len(s.a):
            return slice_(seq(s.a[:ib]), a, b)
        # a falls inside the first item / b inside the last item
        if ib is not None and len(s.a) > 1:
            first = s.a[0]
            if first.op != "one" and ia is None:
                d = sub(bounds[1], a)
                if d.op == "num" and d.a[0] >= 0 or _le_len(a, first):
                    return seq([slice_(first, a, bounds[1])] + list(s.a[1:]))
        if ia is not None and len(s.a) > 1 and ia == 0:
            if _le_len(b, s.a[0]):
                return slice_(s.a[0], a, b)
    return mk("slice", s, a, b)


def _le_len(a, it):
    d = sub(len_(it), a)
    return is_nonneg(d)


def upd(s, i, v):
    if v.op == "at" and v.a[0] is s and v.a[1] is i:
        return s
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == "case":
        return case2(s.a[0], [upd(k, i, v) for k in s.a[1:]])
    if s.op == "seq":
        # constant index into leading ones, or the last one
        off = i
        for n, it in enumerate(s.a):
            if it.op == "one":
                if off is ZERO:
                    return seq(list(s.a[:n]) + [one(v)] + list(s.a[n + 1:]))
                if off.op != "num":
                    break
                off = sub(off, ONE)
            else:
                l = len_(it)
                d = sub(off, l)
                if d.op == "num" and d.a[0] >= 0:
                    off = d
                    continue
                break
        back = sub(len_(s), i)
        if back.op == "num" and back.a[0] >= 1:
            c = int(back.a[0])
            for n in range(len(s.a) - 1, -1, -1):
                if s.a[n].op == "one":
                    c -= 1
                    if c == 0:
                        return seq(list(s.a[:n]) + [one(v)] + list(s.a[n + 1:]))
                else:
                    break
    return mk("upd", s, i, v)


def rev(s):
    if s.op == "seq":
        return seq([rev(it) if it.op != "one" else it for it in reversed(s.a)])
    if s.op == "revd":
        return s.a[0]
    if s.op == "each":
        k = fresh("k")
        n = s.a[1]
        b = open_each(s, k)
        return each(n, k, rev(subst(b, k, sub(sub(n, ONE), k))))
    if s.op == "case":
        return lift("rev", rev, s)
    if s.op == "one":
        return s
    k = fresh("k")
    L = len_(s)
    return each(L, k, seq([one(at(s, sub(sub(L, ONE), k)))]))


def mapseq(s, f):
    """seq of f(e) for each element e (f: T -> T element)"""
    return flatmap(s, lambda e: seq([one(f(e))]))


def flatmap(s, f):
    parts = []
    for it in seqitems(s):
        if it.op == "one":
            parts.append(f(it.a[0]))
        elif it.op == "each":
            k = fresh("k")
            parts.append(each(it.a[1], k, flatmap(open_each(it, k), f)))
        elif it.op == "case":
            parts.append(case2(it.a[0], [flatmap(c, f) if c is not UNDEF else UNDEF for c in it.a[1:]]))
        else:
            k = fresh("k")
            parts.append(each(len_(it), k, f(at(it, k))))
    return seq(parts)


def lam(n, syms, body):
    """binder over n symbols"""
    lv = body.h + 1
    b = body
    for j, s_ in enumerate(syms):
        b = subst(b, s_, mk("bv", lv + j))
    return mk("lam", lv, n, b)


def open_lam(l, vals):
    b = l.a[2]
    return subst_many(b, {mk("bv", l.a[0] + j): v for j, v in enumerate(vals)})


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(t, ks):
    """re-normalise node t with new children (same order as _kids)"""
    op = t.op
    if op == "poly":
        it = iter(ks)
        r = ZERO
        for m in t.a:
            x = num(m[0])
            for (_, e) in m[1:]:
                y = next(it)
                for _i in range(e):
                    x = mul(x, y)
            r = add(r, x)
        return r
    if op == "case":
        atom, kids = ks[0], ks[1:]
        return case_atom(atom, kids)
    it = iter(ks)
    a = [next(it) if isinstance(x, T) else x for x in t.a]
    return build(op, a)


def build(op, a):
    if op == "adt":
        return adt(*a)
    if op == "fld":
        return fld(a[0], a[1], a[2], a[3])
    if op == "seq":
        return seq(a)
    if op == "each":
        k = fresh("k")
        return each(a[1], k, subst(a[2], mk("bv", a[0]), k)) if a[1].op in ("num", "case") or True else mk(op, *a)
    if op == "len":
        return len_(a[0])
    if op == "at":
        return at(a[0], a[1])
    if op == "slice":
        return slice_(*a)
    if op == "upd":
        return upd(*a)
    if op == "app":
        h = APP.get(a[0])
        if h:
            return h(*a[1:])
        return mk("app", *a)
    if op == "mat":
        return mat(*a)
    if op == "le":
        return ("le", a)
    if op == "sgn":
        return ("sgn", a)
    if op == "b":
        return ("b", a)
    if op == "isvar":
        return ("isvar", a)
    if op in ("lam", "scan", "sum", "firstk"):
        return rebind(op, a)
    return mk(op, *a)


def rebind(op, a):
    lv = a[0]
    if op == "lam":
        n = a[1]
        body = a[2]
        if body.h + 1 == lv:
            return mk(op, *a)
        ks = [fresh("b") for _ in range(n)]
        b = subst_many(body, {mk("bv", lv + j): k for j, k in enumerate(ks)})
        return lam(n, ks, b)
    return mk(op, *a)


def mat(*fs):
    out = []
    for f in fs:
        if f is UNDEF:
            return UNDEF
        if f.op == "mat":
            out.extend(f.a)
        else:
            out.append(f)
    if len(out) == 1:
        return out[0]
    return mk("mat", *out)


IDENT = mk("mat")


def case_atom(atom, kids):
    """rebuild a decision whose atom may itself have been rebuilt (a tuple marker) into a decided value"""
    if isinstance(atom, T):
        return case2(atom, kids)
    op, a = atom
    if op == "le":
        c = le_int(a[0], mk("num", Fr(a[1])), True)
        return ite2(c, kids[1], kids[0])
    if op == "b":
        return ite2(tobool(a[0]), kids[1], kids[0])
    if op == "sgn":
        o = cmp_f(a[0], mk("num", Fr(a[1])))
        return select(o, {"N": kids[0], "Z": kids[1], "P": kids[2], "U": kids[3]})
    if op == "isvar":
        x, n, path = a
        return variant_case(x, n, path, lambda i: kids[i])
    raise AssertionError(op)


def ite2(c, a, b):
    return ite(c, a, b)


def select(o, m):
    if o.op == "tag":
        return m[o.a[0]]
    if o.op == "case":
        return case2(o.a[0], [select(k, m) for k in o.a[1:]])
    return UNDEF


def occurs(t, s):
    """does symbol/bound variable s occur in t"""
    m = s.fv
    if t.fv & m != m:
        return False
    if t is s:
        return True
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        for c in _kids(x.op, x.a):
            if c is s:
                return True
            if c.fv & m == m and c not in seen:
                seen.add(c)
                stack.append(c)
    return False


def subst(t, s, v):
    if s.op in ("sym", "bv") and not (t.fv & s.fv):
        return t
    return subst_many(t, {s: v})


_sm = {}


def subst_many(t, mp):
    if not mp:
        return t
    leaf = all(s.op in ("sym", "bv") for s in mp)
    mask = 0
    for s in mp:
        mask |= s.fv
    memo = {}
    simple = leaf and all(v.op in ("sym", "bv", "num") for v in mp.values())

    def go(x):
        if leaf and not (x.fv & mask):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        elif x.op in ("num", "bool", "str", "sym", "bv", "undef", "tag", "fconst", "fn"):
            r = x
        elif not x.a:
            r = x
        elif x.op == "each" or x.op == "lam":
            # open the binder, so that nothing substituted in is captured
            lv = x.a[0]
            if simple:
                b2 = go(x.a[2])
                if x.op == "each":
                    n2 = go(x.a[1])
                    if b2 is x.a[2] and n2 is x.a[1]:
                        r = x
                    elif b2.h + 1 == lv and n2.op not in ("num", "case"):
                        r = mk("each", lv, n2, b2)
                    else:
                        k = fresh("k")
                        r = each(n2, k, subst(b2, mk("bv", lv), k))
                elif b2 is x.a[2]:
                    r = x
                elif b2.h + 1 == lv:
                    r = mk("lam", lv, x.a[1], b2)
                else:
                    ks = [fresh("b") for _ in range(x.a[1])]
                    r = lam(x.a[1], ks, subst_many(b2, {mk("bv", lv + j): k for j, k in enumerate(ks)}))
            elif x.op == "each":
                k = fresh("k")
                b = subst(x.a[2], mk("bv", lv), k) if mk("bv", lv) not in mp else x.a[2]
                b2, n2 = go(b), go(x.a[1])
                r = x if b2 is b and n2 is x.a[1] else each(n2, k, b2)
            else:
                ks = [fresh("b") for _ in range(x.a[1])]
                b = subst_many(x.a[2], {mk("bv", lv + j): k for j, k in enumerate(ks)})
                b2 = go(b)
                r = x if b2 is b else lam(x.a[1], ks, b2)
        else:
            ks = [go(c) for c in _kids(x.op, x.a)]
            same = True
            for c, d in zip(_kids(x.op, x.a), ks):
                if c is not d:
                    same = False
                    break
            r = x if same else rebuild(x, ks)
        memo[x] = r
        return r
    return go(t)


def rewrite(t, f):
    """apply f (term -> replacement or None) to the outermost matching subterms, binders opened"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is not None:
            memo[x] = r
            return r
        if not x.a or x.op in ("num", "bool", "str", "sym", "bv", "undef", "tag", "fconst", "fn"):
            r = x
        elif x.op == "each":
            k = fresh("k")
            b = subst(x.a[2], mk("bv", x.a[0]), k)
            b2, n2 = go(b), go(x.a[1])
            r = x if b2 is b and n2 is x.a[1] else each(n2, k, b2)
        elif x.op == "lam":
            ks = [fresh("b") for _ in range(x.a[1])]
            b = subst_many(x.a[2], {mk("bv", x.a[0] + j): k for j, k in enumerate(ks)})
            b2 = go(b)
            r = x if b2 is b else lam(x.a[1], ks, b2)
        else:
            kids = list(_kids(x.op, x.a))
            ks = [go(c) for c in kids]
            r = x if all(c is d for c, d in zip(kids, ks)) else rebuild(x, ks)
        memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- assumptions
def decide(atom, lits):
    """outcome of atom forced by lits (dict atom->outcome), or None"""
    o = lits.get(atom)
    if o is not None:
        return o
    if atom.op == "le":
        q, k = atom.a
        for (at2, o2) in lits.items():
            if at2.op == "le" and at2.a[0] is q:
                if o2 == 1 and at2.a[1] <= k:
                    return 1
                if o2 == 0 and at2.a[1] >= k:
                    return 0
    elif atom.op == "sgn":
        q, k = atom.a
        for (at2, o2) in lits.items():
            if at2.op == "sgn" and at2.a[0] is q:
                k2 = at2.a[1]
                if o2 == 3:
                    return 3
                if k2 <= k and o2 == 0 or (k2 < k and o2 == 1):
                    return 0
                if k2 >= k and o2 == 2 or (k2 > k and o2 == 1):
                    return 2
    return None


def assume(t, lits):
    """t simplified under the assumption that every atom of lits has its outcome (deeply)"""
    if not lits:
        return t
    mask = 0
    for at_ in lits:
        mask |= _bit(("atom", group(at_)))
    memo = {}

    def go(x):
        if not (x.am & mask):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "case":
            o = decide(x.a[0], lits)
            if o is not None:
                r = go(x.a[1 + o])
                memo[x] = r
                return r
        ks = [go(c) for c in _kids(x.op, x.a)]
        same = True
        for c, d in zip(_kids(x.op, x.a), ks):
            if c is not d:
                same = False
                break
        r = x if same else rebuild(x, ks)
        if r is not x and isinstance(r, T) and r.op == "case":
            # the atom may have changed into a decided one
            o = decide(r.a[0], lits)
            if o is not None:
                r = go(r.a[1 + o])
        memo[x] = r
        return r
    return go(t)


def literals(c):
    """(atom,outcome) facts implied by the path condition c (top cube)"""
    lits = {}
    while c.op == "case":
        live = [(o, k) for o, k in enumerate(c.a[1:]) if k is not FALSE and k is not UNDEF]
        if len(live) != 1:
            break
        lits[c.a[0]] = live[0][0]
        c = live[0][1]
    return lits


_rs = {}


def restrict(f, c):
    """f simplified on the care set c (outside c the value is irrelevant)"""
    if c is TRUE or f.op != "case":
        if c is FALSE:
            return UNDEF
        return f
    if c is FALSE or c is UNDEF:
        return UNDEF
    key = (f, c)
    r = _rs.get(key)
    if r is not None:
        return r
    ca, fa = c.a[0], f.a[0]
    if ca is fa:
        r = case(fa, [UNDEF if ck is FALSE or ck is UNDEF else restrict(fk, ck) for fk, ck in zip(f.a[1:], c.a[1:])])
        r = _fix(r)
    elif ca.id < fa.id:
        live = [k for k in c.a[1:] if k is not FALSE and k is not UNDEF]
        if group(ca) == group(fa) and ca.op in ("le", "sgn"):
            kids = []
            for o, k in enumerate(c.a[1:]):
                if k is FALSE or k is UNDEF:
                    kids.append(UNDEF)
                else:
                    kids.append(restrict(assume_top(f, {ca: o}), k))
            rr = [k for k in kids if k is not UNDEF]
            if all(k is rr[0] for k in rr):
                r = rr[0]
            else:
                r = _fix(case2(ca, kids))
        else:
            u = FALSE
            for k in live:
                u = or_(u, k)
            r = restrict(f, u)
    else:
        r = _fix(case2(fa, [restrict(k, assume_top(c, {fa: o})) if k is not UNDEF else UNDEF for o, k in enumerate(f.a[1:])]))
    _rs[key] = r
    return r


def _fix(r):
    return r


def assume_top(t, lits):
    """assume on the top decision structure only"""
    if t.op != "case":
        return t
    o = decide(t.a[0], lits)
    if o is not None:
        return assume_top(t.a[1 + o], lits)
    g = {group(a) for a in lits}
    mask = 0
    for a in lits:
        mask |= _bit(("atom", group(a)))
    if not (t.am & mask):
        return t
    kids = [assume_top(k, lits) for k in t.a[1:]]
    if all(x is y for x, y in zip(kids, t.a[1:])):
        return t
    if all(k.op in ("bool", "case", "undef") for k in kids):
        return _bcase(t.a[0], kids)
    return case2(t.a[0], kids)


# ---------------------------------------------------------------- equality
_eqm = {}
EQ_BUDGET = [0, 0]
EQ_SECONDS = 20


class Budget(Exception):
    """an equality could not be decided in time"""


class Mismatch(Exception):
    pass


def atoms_of(t, limit=40):
    """decision atoms in t, innermost first"""
    seen = set()
    out = []

    def go(x):
        if x in seen or not x.am:
            return
        seen.add(x)
        for c in _kids(x.op, x.a):
            go(c)
        if x.op == "case" and x.a[0] not in out:
            out.append(x.a[0])
    go(t)
    return out


WHY_MAX = 6


def equal(a, b, lits=None, why=None, depth=0):
    """are a and b equal for every outcome of the decisions they contain?  why: list collecting the
    first difference (path of decisions, left, right)."""
    EQ_BUDGET[0] = 400000
    EQ_BUDGET[1] = time.time() + EQ_SECONDS
    return _equal(a, b, {}, why)


def _equal(a, b, lits, why):
    if a is b:
        return True
    if a is UNDEF or b is UNDEF:
        return True
    key = (a, b)
    r = _eqm.get(key)
    if r is True or (r is False and why is None):
        return r
    EQ_BUDGET[0] -= 1
    if EQ_BUDGET[0] < 0 or time.time() > EQ_BUDGET[1]:
        raise Budget("equality budget exceeded")
    r = _equal1(a, b, lits, why)
    _eqm[key] = r
    return r


def _struct(a, b):
    """child pairs if a and b have the same shape, else None"""
    if a.op != b.op or a.op == "case":
        return None
    if a.op == "poly":
        if len(a.a) != len(b.a):
            return None
        ps = []
        for m, n in zip(a.a, b.a):
            if m[0] != n[0] or len(m) != len(n):
                return None
            for x, y in zip(m[1:], n[1:]):
                if x[1] != y[1]:
                    return None
                ps.append((x[0], y[0]))
        return ps
    if len(a.a) != len(b.a):
        return None
    ps = []
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            ps.append((x, y))
        elif x != y:
            return None
    return ps


_TEST = [False]


def _equal1(a, b, lits, why):
    if a.op != "case" and b.op != "case":
        ps = _struct(a, b)
        if ps is not None:
            inner = not (a.op in ("adt", "seq", "one", "iter"))
            ok = True
            for x, y in ps:
                if not _equal(x, y, lits, None if inner or why is None else why):
                    ok = False
                    if why is None or inner or len(why) >= WHY_MAX:
                        break
            if ok:
                return True
            if a.op in ("adt",):
                return False
    # split on an innermost atom of either side that speaks of no variable bound inside
    best = None
    h = max(a.h, b.h)
    ats = [at_ for x in (a, b) for at_ in atoms_of(x) if all(k > h for k in free_bvs(at_))]
    for at_ in ats:
        if at_.am == 0 and (best is None or at_.id < best.id):
            best = at_
    if best is None:
        for at_ in ats:
            if best is None or at_.id < best.id:
                best = at_
    if best is None:
        if why is not None and len(why) < WHY_MAX:
            why.append((dict(lits), a, b))
        return False
    same = True
    for o in range(arity(best)):
        l2 = {best: o}
        a2 = assume(a, l2)
        b2 = assume(b, l2)
        if best.op == "isvar" and best.a[2] == OPT:
            # an option known to be absent is None, one known to be present is Some of its content
            x = best.a[0]
            y = adt(OPT, 1, fld(x, 1, 0, OPT)) if o else NONE
            a2, b2 = subst(a2, x, y), subst(b2, x, y)
        if a2 is a and b2 is b:
            if why is not None and len(why) < WHY_MAX:
                why.append((dict(lits), a, b))
            return False
        nl = dict(lits)
        nl[best] = o
        try:
            if not _equal(a2, b2, nl, why):
                same = False
                if why is None or len(why) >= WHY_MAX:
                    return False
        except Budget:
            if same:
                raise
            return False
    return same


_fbm = {}
_NOBV = frozenset()


def free_bvs(t):
    """levels of the bound variables of t that t itself does not bind"""
    r = _fbm.get(t)
    if r is None:
        r = _NOBV
        for c in _kids(t.op, t.a):
            r |= free_bvs(c)
        if t.op == "bv":
            r = frozenset((t.a[0],))
        elif r and t.op in ("each", "scan", "firstk", "sum", "lam"):
            lv = t.a[0]
            n = t.a[1] if t.op in ("scan", "lam") else 1
            r = frozenset(k for k in r if not lv <= k < lv + n)
        _fbm[t] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=0, lim=7):
    if not isinstance(t, T):
        return str(t)
    if depth > lim:
        return "…"
    s = lambda x: show(x, depth + 1, lim)
    o = t.op
    if o == "num":
        f = t.a[0]
        return str(f.numerator) if f.denominator == 1 else "%g" % float(f)
    if o in ("bool", "fconst"):
        return str(t.a[0])
    if o == "tag":
        return t.a[0]
    if o == "str":
        return repr(t.a[0])
    if o == "sym":
        return t.a[0]
    if o == "bv":
        return "$%d" % t.a[0]
    if o == "undef":
        return "⊥"
    if o == "poly":
        ps = []
        for m in t.a:
            c = m[0]
            fs = ["%s%s" % (s(x), "" if e == 1 else "^%d" % e) for x, e in m[1:]]
            cs = str(c.numerator) if c.denominator == 1 else "%g" % float(c)
            ps.append("*".join(([cs] if c != 1 or not fs else []) + fs))
        return "(" + " + ".join(ps) + ")"
    if o == "fld":
        nm = FIELD_NAMES.get((t.a[3], t.a[1], t.a[2]), str(t.a[2]))
        v = VAR_NAMES.get((t.a[3], t.a[1]))
        return show(t.a[0], depth, lim) + ("." if not v or ADT_NVAR.get(t.a[3], 1) == 1 else ".<%s>." % v) + nm
    if o == "adt":
        p = t.a[0].split("::")[-1]
        v = VAR_NAMES.get((t.a[0], t.a[1]), str(t.a[1]))
        if ADT_NVAR.get(t.a[0], 1) > 1:
            p = p + "::" + v
        if p == "()":
            p = ""
        names = [FIELD_NAMES.get((t.a[0], t.a[1], i), "") for i in range(len(t.a) - 2)]
        return p + "{" + ", ".join((n + ":" if n and not n.isdigit() else "") + s(x) for n, x in zip(names, t.a[2:])) + "}"
    if o == "case":
        at_ = t.a[0]
        if at_.op == "isvar":
            return "match %s {%s}" % (s(at_.a[0]), "; ".join(
                "%s=>%s" % (VAR_NAMES.get((at_.a[2], i), i), s(k)) for i, k in enumerate(t.a[1:])))
        if at_.op == "sgn":
            return "cmp(%s,%s){<:%s; =:%s; >:%s; NaN:%s}" % ((s(at_.a[0]), float(at_.a[1])) + tuple(s(k) for k in t.a[1:]))
        return "if %s {%s} else {%s}" % (s(at_), s(t.a[2]), s(t.a[1]))
    if o == "le":
        return "%s<=%d" % (s(t.a[0]), t.a[1])
    if o == "b":
        return s(t.a[0])
    if o == "one":
        return s(t.a[0])
    if o == "seq":
        return "[" + ", ".join(("" if x.op == "one" else "*") + s(x) for x in t.a) + "]"
    if o == "each":
        return "each($%d<%s: %s)" % (t.a[0], s(t.a[1]), s(t.a[2]))
    if o == "at":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "slice":
        return "%s[%s..%s]" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if o == "mref":
        return "&mut(%s)" % (t.a,)
    return o + "(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in t.a) + ")"


FIELD_NAMES = {}
VAR_NAMES = {}

# simplifying constructors for uninterpreted applications (name -> function)
APP = {}


def app(name, *args):
    h = APP.get(name)
    if h:
        return h(*args)
    return mk("app", name, *args)


def _app_inv(x):
    return inv(x)


APP["inv"] = _app_inv_ = lambda x: inv(x) if x.op in ("num", "poly") and not (x.op == "num" and x.a[0] == 0) and _needs(x) else mk("app", "inv", x)


def _needs(x):
    if x.op == "num":
        return True
    p = topoly(x)
    if len(p) == 1:
        return True
    lead = min(p.items(), key=lambda mc: tuple((y.id, e) for y, e in mc[0]) if mc[0] else ((1 << 60, 0),))[1]
    return lead != 1


def monus(a, b):
    """max(a-b, 0)"""
    d = sub(a, b)
    if d.op == "num":
        return num(max(d.a[0], 0))
    if d.op == "case":
        return lift("monus0", lambda x: monus(x, ZERO), d)
    if is_nonneg(d):
        return d
    return mk("app", "monus", d)


def _trunc(x, ts):
    """an integer in a narrower type"""
    if x.op != "num":
        return mk("app", "trunc", x, ts)
    w = {"s": 64}.get(ts.a[0][1]) or int(ts.a[0][1:])
    b = int(x.a[0]) & ((1 << w) - 1)
    if ts.a[0][0] == "i" and b >> (w - 1):
        b -= 1 << w
    return num(b)


APP["trunc"] = _trunc


APP["monus"] = lambda d: monus(d, ZERO)


def fminmax(name, *xs):
    items = []
    for x in xs:
        if x is UNDEF:
            return UNDEF
        if x.op == "app" and x.a[0] == name:
            items.extend(x.a[1:])
        else:
            items.append(x)
    nums = [x for x in items if x.op == "num"]
    rest = sorted({x for x in items if x.op != "num"}, key=lambda t: t.id)
    if nums:
        v = (min if "min" in name else max)(x.a[0] for x in nums)
        if not rest:
            return num(v)
        if name == "imax" and v <= 0 and any(x.op == "len" for x in rest):
            pass
        else:
            rest.append(num(v))
    if len(rest) == 1:
        return rest[0]
    return mk("app", name, *rest)


for _nm in ("fmin", "fmax", "imin", "imax"):
    APP[_nm] = (lambda nm: lambda *xs: fminmax(nm, *xs))(_nm)


def _abs(x):
    if x.op == "num":
        return num(abs(x.a[0]))
    p = topoly(x)
    if p:
        lead = min(p.items(), key=lambda mc: tuple((y.id, e) for y, e in mc[0]) if mc[0] else ((1 << 60, 0),))[1]
        if lead < 0:
            x = neg(x)
    return mk("app", "abs", x)


APP["abs"] = _abs
