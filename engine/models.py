"""Value models of the standard library operations the analysed crate uses (Rust's documented semantics).
Each model maps a call to the term of its result; &mut arguments are updated in place."""
from . import terms as tm
from .terms import *
from .interp import _idiv, _irem, _linear_exit

M = {}
RES = "std::result::Result"
NoI = NotImplemented


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def install(ip):
    ip.models = M


def toseq(v):
    """the elements an iterable value yields"""
    if v.op == "iter":
        return slice_(v.a[0], v.a[1], len_(v.a[0]))
    if v.op == "case":
        return case2(v.a[0], [toseq(k) if k is not UNDEF else UNDEF for k in v.a[1:]])
    if v.op == "adt":
        p = v.a[0]
        if p in ("std::ops::Range", "core::ops::Range"):
            return rangeseq(v.a[2], v.a[3])
        if p.endswith("RangeInclusive"):
            return rangeseq(v.a[2], add(v.a[3], ONE))
        if p.endswith("::RangeFrom"):
            k = fresh("k")
            return mk("inft", lam(1, [k], add(v.a[2], k)))
        if p == OPT:
            return EMPTY if v.a[1] == 0 else seq([one(v.a[2])])
        if p.endswith("option::IntoIter") or p.endswith("option::Item"):
            return toseq(v.a[2])
    return v


def optseq(v):
    return ite(is_some(v), seq([one(unwrap(v))]), EMPTY)


def rangeseq(a, b):
    def f(x, y):
        k = fresh("k")
        return each(monus(y, x), k, seq([one(add(x, k))]))
    return lift("rangeseq", f, a, b)


def it(s):
    return mk("iter", s, ZERO)


def isiter(v):
    return v.op == "iter"


# ------------------------------------------------------------------ references, clones
@model("Clone::clone", "ToOwned::to_owned", "ToString::to_string", "Deref::deref", "AsRef::as_ref", "Borrow::borrow",
       "String::as_str", "Vec::as_slice", "slice::to_vec", "Box::new", "Arc::new", "Option::as_ref", "Option::copied",
       "Option::cloned", "Option::as_deref", "slice::as_ref", "Vec::into_boxed_slice", "str::to_owned", "Cow::into_owned",
       "hint::black_box", "String::from", "convert::identity", "SmallVec::as_slice", "ArrayVec::as_slice",
       "Vec::into_iter_as_slice", "slice::into_vec", "Result::as_ref", "str::to_string", "String::into_bytes", "str::as_bytes",
       "String::as_bytes", "Path::new", "mem::take_copy")
def m_ident(c):
    if c.ii is not None and c.inst.get("crate") not in ("std", "core", "alloc") and c.inst.get("body"):
        return NoI
    p = c.inst["path"]
    if c.ii is not None and c.inst.get("local") and not c.inst.get("derived"):
        return NoI
    if len(c.args) != 1:
        return NoI
    v = c.val(0)
    if v.op == "app" and v.a[0] == "static":
        return static_value(c, v.a[1].a[0])
    if c.ii is not None and "LazyLock" in (c.inst.get("impl_self") or ""):
        return NoI
    return v


def static_value(c, path):
    ip = c.ip
    key = ("static", path)
    r = ip.memo.get(key)
    if r is None:
        s = ip.F.statics.get(path)
        if s is None:
            return mk("app", "static", mk("str", path))
        v = ip.run_body(("static", path), {"path": path, "full": path, "args": [], "promoted": s.get("promoted") or []}, s["body"], [])
        if v.op == "app" and v.a[0] == "lazy":
            v = ip.call_fn(c.fr, c.st, v.a[1], [], c.sp)
        r = ip.memo[key] = v
    return r


@model("LazyLock::new")
def m_lazy(c):
    return mk("app", "lazy", c.args[0])


@model("DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "BorrowMut::borrow_mut", "Box::as_mut", "SmallVec::as_mut_slice")
def m_mutident(c):
    if c.ii is not None and c.inst.get("crate") not in ("std", "core", "alloc") and c.inst.get("body"):
        return NoI
    return c.args[0]


@model("Into::into", "From::from")
def m_into(c):
    # identity conversions have bodies in core (blanket impls); only intercept the reflexive one
    if c.ii is None:
        return NoI
    if not c.inst.get("body"):
        t = c.inst.get("args") or []
        return c.val(0) if len(c.args) == 1 else NoI
    return NoI


@model("mem::swap")
def m_swap(c):
    a, b = c.val(0), c.val(1)
    c.set(0, b)
    c.set(1, a)
    return UNIT


@model("mem::take")
def m_take(c):
    a = c.val(0)
    d = default_of(c, c.dty)
    if d is None:
        return NoI
    c.set(0, d)
    return a


@model("mem::replace")
def m_replace(c):
    a = c.val(0)
    c.set(0, c.args[1])
    return a


@model("mem::drop", "drop::drop", "mem::forget")
def m_drop(c):
    return UNIT


# ------------------------------------------------------------------ vectors, slices
@model("Vec::new", "Vec::with_capacity", "String::new", "SmallVec::new_const", "SmallVec::new", "ArrayVec::new",
       "SmallVec::with_capacity", "String::with_capacity", "BezPath::new", "BezPath::with_capacity")
def m_empty(c):
    if c.inst["path"].split("::")[-1] == "with_capacity":
        c.oblige("capacity", tobool(mk("app", "fits", c.args[0], mk("str", "capacity"))), [c.args[0]])
    if c.F_is("BezPath"):
        return adt("kurbo::BezPath", 0, EMPTY)
    return EMPTY


def default_of(c, tid):
    if tid is None:
        return None
    F = c.ip.F
    t = F.types[tid]
    k = t["k"]
    if k == "adt":
        p = t["path"].split("::")[-1]
        if p in ("Vec", "String", "SmallVec", "ArrayVec"):
            return EMPTY
        if p == "HashMap":
            return mk("hmap", EMPTY)
        if p == "Option":
            return NONE
    if F.is_int(tid) or F.is_float(tid):
        return ZERO
    if t["s"] == "bool":
        return FALSE
    if k == "ref":
        return EMPTY
    return None


@model("Default::default")
def m_default(c):
    if c.ii is not None and c.inst.get("body"):
        return NoI
    d = default_of(c, c.dty)
    return NoI if d is None else d


@model("Vec::push", "SmallVec::push", "String::push", "String::push_str", "ArrayVec::push")
def m_push(c):
    v = c.args[1]
    if c.ip._isref(v) and False:
        v = c.val(1)
    c.set(0, seq([c.val(0), one(v)]))
    return UNIT


@model("Vec::pop")
def m_pop(c):
    s = c.val(0)
    n = len_(s)
    emp = eq_int(n, ZERO)
    last = sub(n, ONE)
    c.set(0, ite(emp, s, slice_(s, ZERO, last)))
    return ite(emp, NONE, some(at(s, last)))


@model("Vec::clear", "SmallVec::clear", "String::clear")
def m_clear(c):
    c.set(0, EMPTY)
    return UNIT


@model("HashMap::clear")
def m_hclear(c):
    c.set(0, mk("hmap", EMPTY))
    return UNIT


@model("Vec::truncate")
def m_trunc(c):
    s = c.val(0)
    n = lift("imin", lambda a, b: app("imin", a, b), c.args[1], len_(s))
    c.set(0, slice_(s, ZERO, n))
    return UNIT


@model("Vec::reserve", "Vec::shrink_to_fit", "SmallVec::reserve", "Vec::reserve_exact", "HashMap::reserve")
def m_reserve(c):
    if len(c.args) > 1:
        c.oblige("capacity", tobool(mk("app", "fits", c.args[1], mk("str", "capacity"))), [c.args[1]])
    return UNIT


@model("Vec::append")
def m_append(c):
    a, b = c.val(0), c.val(1)
    c.set(0, seq([a, b]))
    c.set(1, EMPTY)
    return UNIT


@model("Vec::insert")
def m_insert(c):
    s, i = c.val(0), c.args[1]
    c.oblige("bounds", le_int(i, len_(s)), [i, len_(s)])
    c.set(0, seq([slice_(s, ZERO, i), one(c.args[2]), slice_(s, i, len_(s))]))
    return UNIT


@model("Vec::remove", "Vec::swap_remove")
def m_remove(c):
    s, i = c.val(0), c.args[1]
    n = len_(s)
    c.oblige("bounds", lt_int(i, n), [i, n])
    if c.inst["path"].endswith("swap_remove"):
        last = sub(n, ONE)
        c.set(0, ite(eq_int(i, last), slice_(s, ZERO, last),
                     seq([slice_(s, ZERO, i), one(at(s, last)), slice_(s, add(i, ONE), last)])))
    else:
        c.set(0, seq([slice_(s, ZERO, i), slice_(s, add(i, ONE), n)]))
    return at(s, i)


@model("Vec::split_off")
def m_split_off(c):
    s, i = c.val(0), c.args[1]
    n = len_(s)
    c.oblige("bounds", le_int(i, n), [i, n])
    c.set(0, slice_(s, ZERO, i))
    return slice_(s, i, n)


@model("slice::split_at")
def m_split_at(c):
    s, i = c.val(0), c.args[1]
    n = len_(s)
    c.oblige("bounds", le_int(i, n), [i, n])
    return tup(slice_(s, ZERO, i), slice_(s, i, n))


@model("String::truncate")
def m_strunc(c):
    s, i = c.val(0), c.args[1]
    n = len_(s)
    short = le_int(n, i)
    c.oblige("char boundary", or_(short, tobool(lift("charb", lambda a, b: mk("app", "charb", a, b), s, i))), [s, i])
    c.set(0, ite(short, s, app("strprefix", s, i)))
    return UNIT


@model("Extend::extend", "Vec::extend_from_slice", "Vec::extend", "SmallVec::extend_from_slice", "SmallVec::extend")
def m_extend(c):
    if c.ii is not None and c.inst.get("local"):
        return NoI
    src = consume(c, 1)
    if src is None:
        return NoI
    d = c.val(0)
    if d.op == "hmap":
        c.set(0, mk("hmap", seq([d.a[0], src])))
    elif d.op == "adt" and d.a[0] == "kurbo::BezPath":
        c.set(0, adt("kurbo::BezPath", 0, seq([d.a[2], src])))
    else:
        c.set(0, seq([d, src]))
    return UNIT


@model("Vec::len", "slice::len", "ArrayVec::len", "SmallVec::len", "str::len", "String::len", "ExactSizeIterator::len")
def m_len(c):
    v = c.val(0)
    if v.op == "iter" or "Iterator" in c.inst["path"]:
        v = toseq(v)
    return len_(v)


@model("Vec::is_empty", "slice::is_empty", "SmallVec::is_empty", "str::is_empty", "String::is_empty", "ExactSizeIterator::is_empty")
def m_isempty(c):
    if c.ii is not None and c.inst.get("local"):
        return NoI
    v = c.val(0)
    if v.op == "adt":
        return NoI
    return eq_int(len_(v), ZERO)


@model("HashMap::len", "HashMap::is_empty")
def m_hlen(c):
    return NoI


def index_range(c, s, i):
    """(from, to) for a range index value"""
    L = len_(s)
    if i.op == "adt":
        p = i.a[0].split("::")[-1]
        if p == "Range":
            return i.a[2], i.a[3]
        if p == "RangeFrom":
            return i.a[2], L
        if p == "RangeTo":
            return ZERO, i.a[2]
        if p == "RangeFull":
            return ZERO, L
        if p == "RangeInclusive":
            return i.a[2], add(i.a[3], ONE)
        if p == "RangeToInclusive":
            return ZERO, add(i.a[2], ONE)
    return None


RANGE = "std::ops::Range"


def isrange(c, i):
    if i.op == "adt":
        return "Range" in i.a[0]
    return False


HASHY = ("HashMap<", "BTreeMap<", "serde_json::Map<", "HashMap", "BTreeMap")


def _indexed(c):
    """the type being indexed"""
    t = c.argty(0)
    if t is None:
        return ""
    return t.get("path") or t.get("s") or ""


@model("Index::index")
def m_index(c):
    s, i = c.val(0), c.args[1]
    ty = _indexed(c)
    if ty.endswith(("HashMap", "BTreeMap", "serde_json::Map")):
        k = c.val(1)
        v = hget(s, k)
        c.oblige("key", is_some(v), [s, k])
        return unwrap(v)
    if ty.endswith("serde_json::Value"):
        return NoI
    if c.ip._isref(i):
        i = c.val(1)
    r = index_range(c, s, i)
    if r is None:
        t = c.inst_arg_types()
        rt = c.idx_range_type()
        if rt:
            lo, hi = fld(i, 0, 0, rt), fld(i, 0, 1, rt)
            r = (lo, hi)
    if r is not None:
        lo, hi = r
        c.oblige("bounds", and_(le_int(lo, hi), le_int(hi, len_(s))), [lo, hi, len_(s)])
        _char_bounds(c, ty, s, lo, hi)
        return lift("slice", slice_, s, lo, hi) if s.op != "case" else slice_l(s, lo, hi)
    if s.op == "hmap":
        return unwrap(hget(s, i))
    c.oblige("bounds", lt_int(i, len_(s)), [len_(s), i])
    return at(s, i)


def _char_bounds(c, ty, s, lo, hi):
    if ty in ("str", "std::string::String", "alloc::string::String"):
        for x in (lo, hi):
            if x is not ZERO and x is not len_(s):
                c.oblige("char boundary", tobool(lift("charb", lambda a, b: mk("app", "charb", a, b), s, x)), [s, x])


def slice_l(s, lo, hi):
    return case2(s.a[0], [slice_l(k, lo, hi) if k is not UNDEF else UNDEF for k in s.a[1:]]) if s.op == "case" else lift("slice", slice_, s, lo, hi)


@model("IndexMut::index_mut")
def m_indexmut(c):
    ref, i = c.args[0], c.args[1]
    s = c.val(0)
    if _indexed(c).endswith(("HashMap", "BTreeMap", "serde_json::Map", "serde_json::Value")):
        return NoI
    if not c.ip._isref(ref):
        return NoI
    r = index_range(c, s, i)
    if r is None:
        rt = c.idx_range_type()
        if rt:
            r = (fld(i, 0, 0, rt), fld(i, 0, 1, rt))
    if r is not None:
        lo, hi = r
        c.oblige("bounds", and_(le_int(lo, hi), le_int(hi, len_(s))), [lo, hi, len_(s)])
        return c.ip._ext(ref, mk("rng", lo, hi))
    c.oblige("bounds", lt_int(i, len_(s)), [len_(s), i])
    return c.ip._ext(ref, i)


@model("slice::get", "Vec::get", "slice::get_mut", "Vec::get_mut")
def m_get(c):
    s, i = c.val(0), c.args[1]
    r = index_range(c, s, i)
    mut = c.ip._isref(c.args[0])
    if r is not None:
        lo, hi = r
        ok = and_(le_int(lo, hi), le_int(hi, len_(s)))
        return ite(ok, some(c.ip._ext(c.args[0], mk("rng", lo, hi)) if mut else slice_(s, lo, hi)), NONE)
    ok = lt_int(i, len_(s))
    return ite(ok, some(c.ip._ext(c.args[0], i) if mut else at(s, i)), NONE)


@model("slice::first", "Vec::first")
def m_first(c):
    s = c.val(0)
    return ite(eq_int(len_(s), ZERO), NONE, some(at(s, ZERO)))


@model("slice::last", "Vec::last")
def m_last(c):
    s = c.val(0)
    return ite(eq_int(len_(s), ZERO), NONE, some(at(s, sub(len_(s), ONE))))


@model("slice::last_mut", "Vec::last_mut")
def m_lastmut(c):
    s = c.val(0)
    return ite(eq_int(len_(s), ZERO), NONE, some(c.ip._ext(c.args[0], sub(len_(s), ONE))))


@model("slice::first_mut", "Vec::first_mut")
def m_firstmut(c):
    s = c.val(0)
    return ite(eq_int(len_(s), ZERO), NONE, some(c.ip._ext(c.args[0], ZERO)))


@model("slice::split_at")
def m_splitat(c):
    s = c.val(0)
    i = c.args[1]
    c.oblige("bounds", le_int(i, len_(s)), [i, len_(s)])
    return tup(slice_(s, ZERO, i), slice_(s, i, len_(s)))


@model("slice::iter", "Vec::iter", "HashMap::iter", "HashMap::values", "HashMap::keys", "HashMap::into_iter")
def m_iter(c):
    v = c.val(0)
    if v.op == "hmap" or c.F_is("HashMap"):
        return it(mk("app", "hiter", v))
    return it(v)


@model("slice::iter_mut", "Vec::iter_mut")
def m_itermut(c):
    return it(mutseq(c, c.args[0]))


def mutseq(c, ref):
    s = c.ip.load(c.st, ref)
    if not c.ip._isref(ref):
        return s
    k = fresh("k")
    return each(len_(s), k, seq([one(c.ip._ext(ref, k))]))


@model("slice::chunks_exact", "slice::chunks", "slice::windows")
def m_chunks(c):
    s, n = c.val(0), c.args[1]
    c.oblige("chunk size", lt_int(ZERO, n), [n])
    if c.inst["path"].endswith("chunks_exact"):
        k = fresh("k")
        q = _lidiv(len_(s), n)
        lo = mul(n, k)
        return it(each(q, k, seq([one(slice_(s, lo, add(lo, n)))])))
    if c.inst["path"].endswith("windows"):
        k = fresh("k")
        q = monus(add(len_(s), ONE), n)
        return it(each(q, k, seq([one(slice_(s, k, add(k, n)))])))
    return NoI


def _lidiv(a, b):
    return lift("idiv", _idiv, a, b)


@model("IntoIterator::into_iter")
def m_intoiter(c):
    if c.ii is not None and c.inst.get("local"):
        return NoI
    a = c.args[0]
    if c.ip._isref(a):
        v = c.val(0)
        if v.op == "iter" or (v.op == "case" and any(k.op == "iter" for k in v.a[1:])):
            return a
        if v.op == "adt" and "Range" in v.a[0]:
            return a
        if v.op == "adt" and v.a[0] == OPT:
            return NoI
        return it(mutseq(c, a))
    v = a
    if v.op == "iter":
        return v
    if v.op == "hmap" or (v.op != "adt" and c.F_is("HashMap")):
        return it(mk("app", "hiter", v))
    tt = c.argty(0)
    if tt and tt["k"] == "adt" and tt["path"] == OPT:
        return it(optseq(v))
    if v.op == "adt" and v.a[0] == "kurbo::BezPath":
        return NoI
    if tt and tt["k"] == "adt" and tt["path"].endswith("ops::Range") and v.op != "adt":
        p = tt["path"]
        return it(rangeseq(fld(v, 0, 0, p), fld(v, 0, 1, p)))
    if tt and tt["k"] == "param":
        return it(v)
    return it(toseq(v))


def iterof(c, v):
    """normalise an iterator value to an `iter` term (or None)"""
    if v.op == "iter":
        return v
    if v.op == "adt" and ("Range" in v.a[0]):
        return it(toseq(v))
    if v.op == "case" and all(k.op == "iter" or k is UNDEF for k in v.a[1:]):
        return None
    if v.op in ("sym", "fld", "app", "at", "seq", "each", "slice", "mref"):
        if v.op == "mref":
            return None
        return it(v)
    return None


def src(c, i=0):
    v = c.args[i]
    if c.ip._isref(v):
        w = c.val(i)
        o = iterof(c, w)
        if o is not None:
            # by-reference adapter consumes the underlying iterator
            c.set(i, mk("iter", o.a[0], len_(o.a[0])))
            return toseq(o)
        return None
    o = iterof(c, v)
    return None if o is None else toseq(o)


def consume(c, i):
    """the elements of the IntoIterator argument i, running lazy closures"""
    v = c.args[i]
    tt = c.argty(i)
    if tt is not None and tt["k"] == "adt" and tt["path"] == OPT and v.op != "iter":
        return optseq(v)
    if c.ip._isref(v):
        w = c.ip.load(c.st, v)
        if w.op == "iter":
            c.ip.store(c.st, v, mk("iter", w.a[0], len_(w.a[0])))
            return force(c, toseq(w))
        if w.op == "adt" and w.a[0] == "kurbo::BezPath":
            return w.a[2]
        return force(c, toseq(w))
    if v.op == "adt" and v.a[0] == "kurbo::BezPath":
        return v.a[2]
    return force(c, toseq(v))


def force(c, s):
    """evaluate lazily mapped sequences"""
    if s.op == "lmap":
        return mapcall(c, s.a[0], s.a[1])
    return s


def pure_fn(c, f):
    from .interp import _has_mref
    g = c.ip.load(c.st, f) if c.ip._isref(f) else f
    return not _has_mref(g)


def mapcall(c, s, f, flat=False):
    """f applied to every element of s, in order, with its effects on the state summarised like a loop"""
    s = force(c, s)

    def elem(e):
        r = c.call(f, e)
        return r
    if pure_fn(c, f):
        parts = []
        return _mapitems(c, s, f, flat)
    # effects: treat as a loop over the elements
    return effect_map(c, s, f, flat)


def _mapitems(c, s, f, flat):
    parts = []
    for x in seqitems(s):
        if x.op == "one":
            r = c.call(f, x.a[0])
            parts.append(toseq2(c, r) if flat else one(r))
        elif x.op == "each":
            k = fresh("k")
            parts.append(each(x.a[1], k, _mapitems(c, open_each(x, k), f, flat)))
        elif x.op == "case":
            parts.append(case2(x.a[0], [_mapitems(c, y, f, flat) if y is not UNDEF else UNDEF for y in x.a[1:]]))
        elif x.op == "repeat":
            parts.append(mk("repeat", c.call(f, x.a[0])))
        else:
            k = fresh("k")
            r = c.call(f, at(x, k))
            parts.append(each(len_(x), k, toseq2(c, r) if flat else seq([one(r)])))
    return seq(parts)


def toseq2(c, r):
    if r.op in ("adt", "case", "fld", "app", "at", "sym") and _isopt(c, r):
        return optseq(r)
    if r.op == "iter":
        return force(c, toseq(r))
    return toseq(r)


def _isopt(c, r):
    if r.op == "adt":
        return r.a[0] == OPT
    if r.op == "case":
        return any(_isopt(c, k) for k in r.a[1:] if k is not UNDEF) or r.a[0].op == "isvar" and False
    return False


def effect_map(c, s, f, flat):
    """run the closure in a synthetic counted loop: unroll when the sequence is a list of known elements"""
    parts = []
    for x in seqitems(s):
        if x.op == "one":
            r = c.call(f, x.a[0])
            parts.append(toseq2(c, r) if flat else one(r))
        elif x.op == "case":
            atom = x.a[0]
            outs, sts = [], []
            base = c.st.c
            for y in x.a[1:]:
                if y is UNDEF:
                    outs.append(UNDEF)
                    sts.append(None)
                    continue
                c.st.c = dict(base)
                outs.append(effect_map(c, y, f, flat))
                sts.append(c.st.c)
            keys = set()
            for s_ in sts:
                if s_ is not None:
                    keys |= set(s_)
            c.st.c = {kk: case2(atom, [s_.get(kk, UNDEF) if s_ is not None else UNDEF for s_ in sts]) for kk in keys}
            parts.append(case2(atom, outs))
        else:
            parts.append(loop_map(c, x, f, flat))
    return seq(parts)


def loop_map(c, x, f, flat):
    """synthetic loop over sequence item x with state effects"""
    ip = c.ip
    base = dict(c.st.c)
    phis = {}
    saved = ip.obls
    n = len_(x)
    k = fresh("k")
    for rnd in range(10):
        ip.obls = []
        cc = dict(base)
        for (cell, path), (s, init) in phis.items():
            cc[cell] = ip.updpath(cc[cell], path, s)
        entry = dict(cc)
        c.st.c = cc
        pc0, c.st.pc = c.st.pc, TRUE
        r = c.call(f, at(x, k))
        c.st.pc = pc0
        new = []
        for cell, v0 in entry.items():
            v1 = c.st.c.get(cell, v0)
            if v1 is not v0:
                ip.diff(cell, (), v0, v1, base[cell], phis, new)
        if not new:
            break
        for key, init in new:
            phis[key] = (fresh("phi"), init)
    mine, ip.obls = ip.obls, saved
    nexts = {}
    for key, (s, init) in phis.items():
        v = c.st.c[key[0]]
        for e in key[1]:
            v = ip.proj(v, e)
        nexts[s] = (init, v)
    closed = ip.solve(nexts, k)
    final = {s: subst(v, k, n) for s, v in closed.items()}
    out = {}
    for cell, v in base.items():
        out[cell] = v
    for (cell, path), (s, init) in phis.items():
        out[cell] = ip.updpath(out[cell], path, final[s])
    c.st.c = out
    from .interp import Obl
    if ip.obls is not None:
        for o in mine:
            ip.obls.append(Obl(o.kind, o.fn, o.sp, subst_many(o.cond, closed), tuple(subst_many(p, closed) for p in o.pcs) + ((c.st.pc,) if c.st.pc is not TRUE else ()), o.info, o.stack))
    rk = subst_many(r, closed)
    ip.loops_log.append((c.fr.inst, "closure", "counted", None, None, n, tuple(y[0] for y in ip.stack)))
    return each(n, k, toseq2(c, rk) if flat else seq([one(rk)]))


# ------------------------------------------------------------------ iterator adapters
def adapter(f):
    def g(c):
        if c.ii is not None and c.inst.get("local"):
            return NoI
        s = src(c)
        if s is None:
            return NoI
        return f(c, s)
    return g


for _n in ("Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Iterator::fuse", "Iterator::peekable", "Iterator::into_iter",
           "Vec::into_iter", "Iterator::inspect_none"):
    M[_n] = adapter(lambda c, s: it(s)) if _n != "Iterator::by_ref" else (lambda c: c.args[0])


def _enum(c, s):
    s = force(c, s)
    L = len_(s)
    k = fresh("k")
    if s.op == "inft":
        return NoI
    return it(_enumerate(s, ZERO))


def _enumerate(s, off):
    items = seqitems(s)
    if all(x.op == "one" for x in items):
        return seq([one(tup(add(off, num(i)), x.a[0])) for i, x in enumerate(items)])
    k = fresh("k")
    return each(len_(s), k, seq([one(tup(add(off, k), at(s, k)))]))


M["Iterator::enumerate"] = adapter(_enum)
M["Iterator::rev"] = M["DoubleEndedIterator::rev"] = adapter(lambda c, s: it(rev(force(c, s))))
M["Iterator::take"] = adapter(lambda c, s: it(_take(s, c.args[1])))
M["Iterator::skip"] = adapter(lambda c, s: it(_skip(s, c.args[1])))


def _take(s, n):
    if s.op == "repeat":
        return slice_(s, ZERO, n)
    m = lift("imin", lambda a, b: app("imin", a, b), n, len_(s))
    return lift("slice", slice_, s, ZERO, m) if s.op != "case" else slice_l(s, ZERO, m)


def _skip(s, n):
    L = len_(s)
    m = lift("imin", lambda a, b: app("imin", a, b), n, L)
    return slice_l(s, m, L)


def _chain(c, s):
    o = consume(c, 1)
    return it(seq([s, o]) if s.op != "repeat" else s)


M["Iterator::chain"] = adapter(_chain)


def _zip(c, s):
    o = consume(c, 1)
    return it(zipseq(s, o))


def zipseq(a, b):
    if all(x.op == "one" for x in seqitems(a)) and all(x.op == "one" for x in seqitems(b)):
        return seq([one(tup(x.a[0], y.a[0])) for x, y in zip(seqitems(a), seqitems(b))])
    la, lb = len_(a), len_(b)
    if la.op == "fconst":
        n = lb
    elif lb.op == "fconst":
        n = la
    else:
        n = lift("imin", lambda x, y: app("imin", x, y), la, lb)
        if _unbounded(a):
            n = lb
        elif _unbounded(b):
            n = la
    k = fresh("k")
    return each(n, k, seq([one(tup(at(a, k), at(b, k)))]))


def _unbounded(s):
    return any(x.op in ("repeat", "inft") for x in seqitems(s))


M["Iterator::zip"] = M["iter::zip"] = adapter(_zip)


def _map(c, s):
    f = c.args[1]
    if pure_fn(c, f):
        return it(mapcall(c, s, f))
    return it(mk("lmap", s, f))


M["Iterator::map"] = adapter(_map)


def _flatmap(c, s):
    return it(mapcall(c, s, c.args[1], flat=True))


M["Iterator::flat_map"] = adapter(_flatmap)


def _filter(c, s):
    s = force(c, s)

    def go(s):
        parts = []
        for x in seqitems(s):
            if x.op == "one":
                b = tobool(c.call(c.args[1], x.a[0]))
                parts.append(ite(b, seq([x]), EMPTY))
            elif x.op == "each":
                k = fresh("k")
                parts.append(each(x.a[1], k, go(open_each(x, k))))
            elif x.op == "case":
                parts.append(case2(x.a[0], [go(y) if y is not UNDEF else UNDEF for y in x.a[1:]]))
            else:
                k = fresh("k")
                b = tobool(c.call(c.args[1], at(x, k)))
                parts.append(each(len_(x), k, ite(b, seq([one(at(x, k))]), EMPTY)))
        return seq(parts)
    return it(go(s))


M["Iterator::filter"] = adapter(_filter)


def _filter_map(c, s):
    s = force(c, s)

    def g(r):
        return optseq(r)

    def go(s):
        parts = []
        for x in seqitems(s):
            if x.op == "one":
                parts.append(g(c.call(c.args[1], x.a[0])))
            elif x.op == "each":
                k = fresh("k")
                parts.append(each(x.a[1], k, go(open_each(x, k))))
            elif x.op == "case":
                parts.append(case2(x.a[0], [go(y) if y is not UNDEF else UNDEF for y in x.a[1:]]))
            else:
                k = fresh("k")
                parts.append(each(len_(x), k, g(c.call(c.args[1], at(x, k)))))
        return seq(parts)
    if not pure_fn(c, c.args[1]):
        r = effect_map(c, s, c.args[1], False)
        return it(flatmap(r, lambda e: optseq(e)))
    return it(go(s))


M["Iterator::filter_map"] = adapter(_filter_map)


def _flatten(c, s):
    s = force(c, s)
    opt = False
    et = c.elem_ty_of_iter()
    isopt = et is not None and et["k"] == "adt" and et["path"] == OPT or et is not None and et["k"] == "ref" and c.ip.F.types[et["t"]].get("path") == OPT
    return it(flatmap(s, lambda e: optseq(e) if isopt or _isopt(c, e) else toseq(e)))


M["Iterator::flatten"] = adapter(_flatten)


def _collect(c, s):
    s = force(c, s)
    t = c.ip.F.types[c.dty] if c.dty is not None else None
    if t and t["k"] == "adt":
        p = t["path"].split("::")[-1]
        if p == "HashMap":
            return mk("hmap", s)
        if p in ("Option", "Result"):
            # collect into Option/Result: all-or-nothing
            P = t["path"]
            return mk("app", "collect_" + p, s)
        if p == "BezPath":
            return adt("kurbo::BezPath", 0, s)
    return s


M["Iterator::collect"] = adapter(_collect)


@model("FromIterator::from_iter")
def m_fromiter(c):
    if c.ii is not None and c.inst.get("local"):
        return NoI
    s = consume(c, 0)
    return _collect(c, s)


def firstk(n, k, p):
    """first k<n with p(k), else n"""
    E = or_(le_int(n, k), p)
    r = _linear_exit(E, k)
    if r is not None:
        return r
    return mk("app", "firstk", lam(1, [k], E))


def first_of(s, no):
    """index of the first element of s for which no(element) holds, else the length; None unless the list is given element by element"""
    items = seqitems(s)
    if s is not tm.EMPTY and (s.op != "seq" or not all(x.op == "one" for x in items)):
        return None
    r = num(len(items))
    for i in range(len(items) - 1, -1, -1):
        r = ite(no(items[i].a[0]), num(i), r)
    return r


def _search(c, s, f, mk_):
    s = force(c, s)
    n = len_(s)
    items = seqitems(s)
    if all(x.op == "one" for x in items):
        # decided element by element
        r = mk_(None, None)
        for i in range(len(items) - 1, -1, -1):
            b = tobool(c.call(f, items[i].a[0]))
            r = ite(b, mk_(num(i), items[i].a[0]), r)
        return r
    k = fresh("k")
    b = tobool(c.call(f, at(s, k)))
    ks = firstk(n, k, b)
    return ite(le_int(n, ks), mk_(None, None), mk_(ks, at(s, ks)))


M["Iterator::find"] = adapter(lambda c, s: _search(c, s, c.args[1], lambda i, e: NONE if i is None else some(e)))
M["Iterator::position"] = adapter(lambda c, s: _search(c, s, c.args[1], lambda i, e: NONE if i is None else some(i)))
M["Iterator::rposition"] = adapter(lambda c, s: _search(c, rev(force(c, s)), c.args[1], lambda i, e: NONE if i is None else some(sub(len_(s), add(i, ONE)))))
M["Iterator::rfind"] = M["DoubleEndedIterator::rfind"] = adapter(lambda c, s: _search(c, rev(force(c, s)), c.args[1], lambda i, e: NONE if i is None else some(e)))
M["Iterator::any"] = adapter(lambda c, s: _search(c, s, c.args[1], lambda i, e: FALSE if i is None else TRUE))


def _all(c, s):
    s = force(c, s)
    items = seqitems(s)
    if all(x.op == "one" for x in items):
        r = TRUE
        for x in items:
            r = and_(r, tobool(c.call(c.args[1], x.a[0])))
        return r
    k = fresh("k")
    n = len_(s)
    b = not_(tobool(c.call(c.args[1], at(s, k))))
    ks = firstk(n, k, b)
    return le_int(n, ks)


M["Iterator::all"] = adapter(_all)


def _sum(c, s):
    s = force(c, s)
    r = ZERO
    for x in seqitems(s):
        if x.op == "one":
            r = add(r, x.a[0])
        else:
            k = fresh("k")
            r = add(r, mk("app", "sum", len_(x), lam(1, [k], at(x, k))))
    return r


M["Iterator::sum"] = adapter(_sum)
M["Iterator::count"] = adapter(lambda c, s: len_(force(c, s)))
M["Iterator::last"] = adapter(lambda c, s: ite(eq_int(len_(s), ZERO), NONE, some(at(s, sub(len_(s), ONE)))))


def _foreach(c, s):
    mapcall(c, s, c.args[1])
    return UNIT


M["Iterator::for_each"] = adapter(_foreach)


def _partition(c, s):
    t = c.ip.F.types[c.dty] if c.dty is not None else None
    if not t or t["k"] != "tuple" or any(c.ip.F.types[x].get("path", "").split("::")[-1] != "Vec" for x in t["ts"]):
        return NoI
    if not pure_fn(c, c.args[1]):
        return NoI
    s = force(c, s)
    f = c.args[1]

    def go(s, want):
        parts = []
        for x in seqitems(s):
            if x.op == "one":
                b = tobool(c.call(f, x.a[0]))
                parts.append(ite(b if want else not_(b), seq([x]), EMPTY))
            elif x.op == "each":
                k = fresh("k")
                parts.append(each(x.a[1], k, go(open_each(x, k), want)))
            elif x.op == "case":
                parts.append(case2(x.a[0], [go(y, want) if y is not UNDEF else UNDEF for y in x.a[1:]]))
            else:
                k = fresh("k")
                b = tobool(c.call(f, at(x, k)))
                parts.append(each(len_(x), k, ite(b if want else not_(b), seq([one(at(x, k))]), EMPTY)))
        return seq(parts)
    return tup(go(s, True), go(s, False))


M["Iterator::partition"] = adapter(_partition)


def _fold(c, s):
    f = c.args[2]
    if not pure_fn(c, f):
        return NoI
    s = force(c, s)
    acc = c.args[1]
    for x in seqitems(s):
        if x.op == "one":
            acc = c.call(f, acc, x.a[0])
        else:
            y, k = fresh("s"), fresh("k")
            x = seq([x])
            v = c.call(f, y, at(x, k))
            acc = subst(c.ip.solve({y: (acc, v)}, k)[y], k, len_(x))
    return acc


M["Iterator::fold"] = adapter(_fold)


def _prefix(c, s):
    s = force(c, s)
    if not pure_fn(c, c.args[1]):
        return s, None
    r = first_of(s, lambda e: not_(tobool(c.call(c.args[1], e))))
    if r is not None:
        return s, r
    k = fresh("k")
    b = not_(tobool(c.call(c.args[1], at(s, k))))
    return s, firstk(len_(s), k, b)


def _take_while(c, s):
    s, n = _prefix(c, s)
    return NoI if n is None else it(tm.lift("take", lambda x: slice_(s, ZERO, x), n))


def _skip_while(c, s):
    s, n = _prefix(c, s)
    return NoI if n is None else it(tm.lift("skip", lambda x: slice_(s, x, len_(s)), n))


M["Iterator::take_while"] = adapter(_take_while)
M["Iterator::skip_while"] = adapter(_skip_while)


def _next(c):
    ref = c.args[0]
    if not c.ip._isref(ref):
        return NoI
    v = c.val(0)
    tr = iterof(c, v)
    if tr is None:
        if v.op == "case":
            # distribute over the alternatives
            return next_case(c, ref, v)
        return NoI
    if c.ii is not None and c.inst.get("local"):
        return NoI
    s, p = tr.a
    L = len_(s)
    if s.op in ("repeat",):
        return some(s.a[0])
    if s.op == "inft":
        c.set(0, mk("iter", s, add(p, ONE)))
        return some(open_lam(s.a[0], [p]))
    if s.op == "lmap":
        inner = s.a[0]
        has = lt_int(p, len_(inner))
        if has is FALSE:
            return NONE
        e = c.call(s.a[1], at(inner, p)) if has is TRUE else None
        if e is None:
            st0 = c.st.copy()
            e = c.call(s.a[1], at(inner, p))
            for k_ in list(c.st.c):
                a, b = c.st.c[k_], st0.c.get(k_)
                if b is not None and a is not b:
                    c.st.c[k_] = ite(has, a, b)
        c.set(0, mk("iter", s, ite(has, add(p, ONE), p)))
        return ite(has, some(e), NONE)
    has = lt_int(p, L)
    newp = ite(has, add(p, ONE), p)
    c.set(0, mk("iter", s, newp))
    return ite(has, some(at(s, p)), NONE)


def next_case(c, ref, v):
    return NoI


M["Iterator::next"] = _next


@model("DoubleEndedIterator::next_back")
def m_nextback(c):
    ref = c.args[0]
    v = c.val(0)
    tr = iterof(c, v) if c.ip._isref(ref) else None
    if tr is None:
        return NoI
    s, p = tr.a
    L = len_(s)
    has = lt_int(p, L)
    last = sub(L, ONE)
    c.set(0, mk("iter", ite(has, slice_(s, ZERO, last), s), p))
    return ite(has, some(at(s, last)), NONE)


@model("iter::repeat")
def m_repeat(c):
    return it(mk("repeat", c.val(0)))


@model("iter::repeat_n")
def m_repeat_n(c):
    v = c.args[0]
    return it(each(c.val(1), fresh("k"), seq([one(v)])))


@model("iter::once")
def m_once(c):
    return it(seq([one(c.args[0])]))


@model("iter::empty")
def m_iempty(c):
    return it(EMPTY)


@model("Option::iter", "Option::into_iter")
def m_optiter(c):
    return it(optseq(c.val(0)))


@model("Vec::drain")
def m_drain(c):
    s = c.val(0)
    r = index_range(c, s, c.args[1])
    if r is None:
        return NoI
    lo, hi = r
    c.oblige("bounds", and_(le_int(lo, hi), le_int(hi, len_(s))), [lo, hi, len_(s)])
    c.set(0, seq([slice_(s, ZERO, lo), slice_(s, hi, len_(s))]))
    return it(slice_(s, lo, hi))


@model("Vec::split_off")
def m_splitoff(c):
    s = c.val(0)
    i = c.args[1]
    c.oblige("bounds", le_int(i, len_(s)), [i, len_(s)])
    c.set(0, slice_(s, ZERO, i))
    return slice_(s, i, len_(s))


@model("Vec::retain")
def m_retain(c):
    if not pure_fn(c, c.args[1]):
        return NoI
    c.set(0, _filter(c, c.val(0)).a[0])
    return UNIT


def known_order(c, its, n):
    """the items of a list sorted by constants, None when they are not constants"""
    if not all(x.op == "one" for x in its):
        return None
    xs = [x.a[0] for x in its]
    if n == 2:
        out = []
        for x in xs:
            i = len(out)
            while i > 0:
                o = c.call(c.args[1], x, out[i - 1])
                if not (o.op == "adt" and o.a[0].endswith("Ordering")):
                    return None
                if o.a[1] != 0:
                    break
                i -= 1
            out.insert(i, x)
        return [one(x) for x in out]
    ks = [c.call(c.args[1], x) for x in xs] if n else xs
    if not all(k.op == "num" for k in ks):
        return None
    return [its[i] for i in sorted(range(len(its)), key=lambda i: ks[i].a[0])]


def _sorted(kind, n):
    def f(c):
        if n and not pure_fn(c, c.args[1]):
            return NoI
        if kind in ("sorted", "sorted_by_key"):
            its = known_order(c, list(seqitems(c.val(0))), n)
            if its is not None:
                c.set(0, seq(its))
                return UNIT
        ks = [fresh("x") for _ in range(n)]
        c.set(0, mk("app", kind, c.val(0), lam(n, ks, c.call(c.args[1], *ks)) if n else UNIT))
        return UNIT
    return f


for _n in ("slice::sort_by", "slice::sort_unstable_by"):
    M[_n] = _sorted("sorted", 2)
for _n in ("slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable_by_key"):
    M[_n] = _sorted("sorted_by_key", 1)
for _n in ("slice::sort", "slice::sort_unstable"):
    M[_n] = _sorted("sorted", 0)
M["Vec::dedup"] = _sorted("dedup", 0)
M["Vec::dedup_by_key"] = _sorted("dedup_by_key", 1)
M["Vec::dedup_by"] = _sorted("dedup_by", 2)


@model("slice::reverse")
def m_reverse(c):
    c.set(0, rev(c.val(0)))
    return UNIT


@model("slice::concat")
def m_concat(c):
    return flatmap(c.val(0), lambda e: e)


def known_search(c, its):
    """a search in a list of which each element is known to be less, equal or greater"""
    if not its or not all(x.op == "one" for x in its) or not pure_fn(c, c.args[1]):
        return None
    os = []
    for x in its:
        o = c.call(c.args[1], x.a[0])
        if not (o.op == "adt" and o.a[0].endswith("Ordering")):
            return None
        os.append(o.a[1])
    if os != sorted(os) or os.count(1) > 1:
        return None
    return adt(RES, 0, num(os.index(1))) if 1 in os else adt(RES, 1, num(os.count(0)))


@model("slice::binary_search_by")
def m_bsearch(c):
    s = c.val(0)
    r = known_search(c, list(seqitems(s)))
    if r is not None:
        return r
    k = fresh("k")
    o = c.call(c.args[1], at(s, k))
    # Less=-1 Equal=0 Greater=1 as an Ordering adt with variants 0,1,2
    l = lam(1, [k], o)
    r = mk("app", "bsearch", s, l)
    return r


@model("slice::partition_point")
def m_ppoint(c):
    """index of the first element for which the predicate is false (the list is partitioned)"""
    s = c.val(0)
    r = first_of(s, lambda e: not_(tobool(c.call(c.args[1], e))))
    if r is not None:
        return r
    k = fresh("k")
    b = tobool(c.call(c.args[1], at(s, k)))
    return firstk(len_(s), k, not_(b))


# ------------------------------------------------------------------ vec! macro
@model("Box::new_uninit")
def m_newuninit(c):
    cell = ("box", fresh("box").a[0])
    c.st.c[cell] = UNDEF
    return mk("mref", cell)


@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(c):
    v = c.val(0)
    st = [v]
    while st:
        x = st.pop()
        if x.op in ("seq", "each", "slice"):
            c.set(0, UNDEF)
            return x
        if x.op == "adt":
            st.extend(k for k in x.a[2:] if isinstance(k, T))
    return NoI


# ------------------------------------------------------------------ hash maps
@model("HashMap::new", "HashMap::with_capacity")
def m_hnew(c):
    return mk("hmap", EMPTY)


@model("HashMap::insert")
def m_hinsert(c):
    m = c.val(0)
    k, v = c.args[1], c.args[2]
    items = m.a[0] if m.op == "hmap" else mk("app", "hitems", m)
    c.set(0, mk("hmap", seq([items, one(tup(k, v))])))
    return app("hprev", m, k)


@model("HashMap::get", "HashMap::get_mut")
def m_hget(c):
    m = c.val(0)
    k = c.val(1)
    return hget(m, k)


def hget(m, k):
    if m.op == "case":
        return case2(m.a[0], [hget(x, k) if x is not UNDEF else UNDEF for x in m.a[1:]])
    if m.op == "hmap" and m.a[0] is EMPTY:
        return NONE
    if m.op == "hmap" and constant(k):
        # a map with these entries, all of them known
        its = list(seqitems(m.a[0]))
        if all(x.op == "one" and x.a[0].op == "adt" and len(x.a[0].a) == 4 and constant(x.a[0].a[2]) for x in its):
            v = [x.a[0].a[3] for x in its if x.a[0].a[2] is k]
            return some(v[-1]) if v else NONE
    return lift("hget", lambda m, k: mk("app", "hget", m, k), m, k)


def constant(t):
    return t.op in ("num", "str")


@model("HashMap::contains_key")
def m_hcontains(c):
    return is_some(hget(c.val(0), c.val(1)))


@model("HashMap::remove")
def m_hremove(c):
    m, k = c.val(0), c.val(1)
    c.set(0, app("hremoved", m, k))
    return hget(m, k)


# ------------------------------------------------------------------ numbers
def fn1(name):
    def f(c):
        x = c.val(0)
        return lift(name, lambda v: app(name, v), x)
    return f


import math as _m


def _const1(name, py):
    def h(x):
        if x.op == "num":
            try:
                return num(float(py(float(x.a[0]))))
            except (ValueError, OverflowError):
                pass
        return mk("app", name, x)
    tm.APP[name] = h


_const1("f64::sqrt", _m.sqrt)
_const1("f64::floor", _m.floor)
_const1("f64::ceil", _m.ceil)


def _sin(x):
    if x is ZERO:
        return ZERO
    return mk("app", "f64::sin", x)


def _odd(name, zero):
    def h(x):
        if x is ZERO:
            return zero
        p = topoly(x)
        lead = min(p.items(), key=lambda mc: tuple((y.id, e) for y, e in mc[0]) if mc[0] else ((1 << 60, 0),))[1] if p else 1
        if lead < 0:
            return neg(mk("app", name, neg(x)))
        return mk("app", name, x)
    return h


def _even(name, zero):
    def h(x):
        if x is ZERO:
            return zero
        p = topoly(x)
        lead = min(p.items(), key=lambda mc: tuple((y.id, e) for y, e in mc[0]) if mc[0] else ((1 << 60, 0),))[1] if p else 1
        if lead < 0:
            x = neg(x)
        return mk("app", name, x)
    return h


tm.APP["f64::sin"] = _odd("f64::sin", ZERO)
tm.APP["f64::tan"] = _odd("f64::tan", ZERO)
tm.APP["f64::cos"] = _even("f64::cos", ONE)


def _round(x):
    if x.op == "num":
        f = x.a[0]
        r = _m.floor(abs(f) + tm.Fr(1, 2))
        return num(r if f >= 0 else -r)
    return mk("app", "f64::round", x)


tm.APP["f64::round"] = _round


def _whole(name, f):
    def h(x):
        return num(f(x.a[0])) if x.op == "num" else mk("app", name, x)
    return h


for _n, _f in (("floor", _m.floor), ("ceil", _m.ceil), ("trunc", _m.trunc)):
    tm.APP["f64::" + _n] = _whole("f64::" + _n, _f)
for _n in ("sin", "cos", "tan", "round", "floor", "ceil", "sqrt", "cbrt", "ln", "log2", "exp", "trunc", "fract", "signum"):
    M["f64::" + _n] = fn1("f64::" + _n)
    M["f32::" + _n] = fn1("f64::" + _n)
M["f64::abs"] = M["f32::abs"] = M["intrinsics::fabs"] = fn1("abs")


@model("f64::to_radians", "f32::to_radians")
def m_rad(c):
    return lift("rad", lambda v: mul(v, num(_m.pi / 180.0)), c.val(0))


@model("f64::to_degrees", "f32::to_degrees")
def m_deg(c):
    return lift("deg", lambda v: mul(v, num(180.0 / _m.pi)), c.val(0))


@model("f64::sin_cos")
def m_sincos(c):
    x = c.val(0)
    return tup(lift("f64::sin", lambda v: app("f64::sin", v), x), lift("f64::cos", lambda v: app("f64::cos", v), x))


@model("f64::mul_add", "f32::mul_add")
def m_muladd(c):
    return lift("add", add, lift("mul", mul, c.val(0), c.val(1)), c.val(2))


@model("f64::powi")
def m_powi(c):
    n = c.args[1]
    if n.op == "num" and 0 <= n.a[0] <= 6:
        r = ONE
        for _ in range(int(n.a[0])):
            r = lift("mul", mul, r, c.val(0))
        return r
    return lift("powi", lambda a, b: mk("app", "f64::powf", a, b), c.val(0), n)


@model("f64::powf", "f32::powf")
def m_powf(c):
    def f(a, b):
        # exact for every value of the other argument, NaN included
        return ONE if a is ONE or b is ZERO else mk("app", "f64::powf", a, b)
    return lift("powf", f, c.val(0), c.val(1))


@model("f64::rem_euclid")
def m_remeu(c):
    def f(a, b):
        if a.op == b.op == "num" and b.a[0] != 0:
            return num(a.a[0] % abs(b.a[0]))
        return mk("app", "f64::rem_euclid", a, b)
    return lift("remeu", f, c.val(0), c.val(1))


@model("f64::atan2")
def m_atan2(c):
    return lift("atan2", lambda a, b: mk("app", "f64::atan2", a, b), c.val(0), c.val(1))


@model("f64::hypot")
def m_hypot(c):
    a, b = c.val(0), c.val(1)
    return lift("hyp", lambda x, y: app("f64::sqrt", add(mul(x, x), mul(y, y))), a, b)


@model("f64::min", "f32::min")
def m_fmin(c):
    return lift("fmin", lambda a, b: app("fmin", a, b), c.val(0), c.val(1))


@model("f64::max", "f32::max")
def m_fmax(c):
    return lift("fmax", lambda a, b: app("fmax", a, b), c.val(0), c.val(1))


@model("f64::clamp", "f32::clamp")
def m_clamp(c):
    lo, hi = c.args[1], c.args[2]
    c.oblige("clamp", fcmp("le", lo, hi), [lo, hi])
    def f(a, b, d):
        if a.op == b.op == d.op == "num" and b.a[0] <= d.a[0]:
            return b if a.a[0] < b.a[0] else d if a.a[0] > d.a[0] else a
        return mk("app", "fclamp", a, b, d)
    return lift("fclamp", f, c.val(0), lo, hi)


@model("f64::is_nan", "f32::is_nan")
def m_isnan(c):
    x = c.val(0)
    o = cmp_f(x, ZERO) if x.op != "num" else ORD["Z"]
    return tobool(lift(("isnan",), lambda t: boolc(t.a[0] == "U"), o))


@model("f64::is_finite")
def m_isfin(c):
    return tobool(lift("isfin", lambda v: TRUE if v.op == "num" else tobool(mk("app", "is_finite", v)), c.val(0)))


def ordering(n):
    return adt("std::cmp::Ordering", n + 1)


def sign(a, b):
    return -1 if a.a[0] < b.a[0] else 1 if a.a[0] > b.a[0] else 0


@model("Ord::cmp", "usize::cmp", "f64::total_cmp", "f64::partial_cmp", "usize::partial_cmp", "PartialOrd::partial_cmp")
def m_cmp(c):
    """comparisons of constants"""
    a, b = c.val(0), c.val(1)
    if a.op != "num" or b.op != "num" or (a.a[0] == 0 and b.a[0] == 0 and c.inst["path"].endswith("total_cmp")):
        return NoI
    o = ordering(sign(a, b))
    return some(o) if c.inst["path"].endswith("partial_cmp") else o


@model("usize::min", "Ord::min", "u32::min", "u64::min", "cmp::min")
def m_imin(c):
    if not _intargs(c):
        return NoI
    return lift("imin", lambda a, b: app("imin", a, b), c.val(0), c.val(1))


@model("usize::max", "Ord::max", "u64::max", "cmp::max")
def m_imax(c):
    if not _intargs(c):
        return NoI
    return lift("imax", lambda a, b: app("imax", a, b), c.val(0), c.val(1))


def _intargs(c):
    return c.dty is not None and c.ip.F.is_int(c.dty)


@model("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub")
def m_satsub(c):
    return lift("monus", monus, c.val(0), c.val(1))


@model("usize::checked_sub", "u64::checked_sub", "u32::checked_sub")
def m_csub(c):
    a, b = c.val(0), c.val(1)
    return ite(le_int(b, a), some(lift("sub", sub, a, b)), NONE)


@model("usize::checked_add", "usize::saturating_add")
def m_cadd(c):
    v = lift("add", add, c.val(0), c.val(1))
    if c.inst["path"].endswith("saturating_add"):
        return v
    return ite(tobool(mk("app", "fits", v, mk("str", "usize"))), some(v), NONE)


@model("usize::checked_mul", "usize::saturating_mul")
def m_cmul(c):
    v = lift("mul", mul, c.val(0), c.val(1))
    if c.inst["path"].endswith("saturating_mul"):
        return v
    return ite(tobool(mk("app", "fits", v, mk("str", "usize"))), some(v), NONE)


@model("usize::is_multiple_of", "u64::is_multiple_of")
def m_ismult(c):
    r = lift("irem", _irem, c.val(0), c.val(1))
    return eq_int(r, ZERO)


# ------------------------------------------------------------------ equality
def eqterm(c, a, b, tid):
    F = c.ip.F
    t = F.types[tid] if tid is not None else None
    while t is not None and t["k"] == "ref":
        tid = t["t"]
        t = F.types[tid]
    if a is b and (t is None or not _has_float(F, tid)):
        return TRUE
    if t is not None:
        if F.is_int(tid) or t["s"] == "char":
            return eq_int(a, b, t["s"][0] != "i")
        if F.is_float(tid):
            return fcmp("eq", a, b)
        if t["s"] == "bool":
            x, y = tobool(a), tobool(b)
            return or_(and_(x, y), and_(not_(x), not_(y)))
        if t["k"] == "adt" and t["path"].split("::")[-1] not in ("Vec", "String", "HashMap", "SmallVec", "Value"):
            fs = t.get("fields")
            n = ADT_NVAR.get(t["path"], 1)
            if fs is not None and (n > 1 or fs):
                p = t["path"]

                def vi(i):
                    def vj(j):
                        if i != j:
                            return FALSE
                        r = TRUE
                        for q, ft in enumerate(fs[i]):
                            r = and_(r, eqterm(c, fld(a, i, q, p), fld(b, i, q, p), ft))
                        return r
                    return variant_case(b, n, p, vj)
                if n == 1:
                    return tobool(vi(0))
                return tobool(variant_case(a, n, p, vi))
    def f(x, y):
        if x.op == "str" and y.op == "str":
            return boolc(x is y)
        if x is y:
            return TRUE
        if x.id > y.id:
            x, y = y, x
        if plain(x) and plain(y):
            return FALSE
        return tobool(mk("app", "eq", x, y))
    return tobool(lift("eqop", f, a, b))


def plain(t):
    """is t made of exact numbers only: different terms are different values"""
    if t.op == "num":
        d = t.a[0].denominator
        return d & (d - 1) == 0
    if t.op == "seq":
        return all(x.op == "one" and plain(x.a[0]) for x in t.a)
    return t.op == "adt" and all(plain(x) for x in t.a[2:])


def _has_float(F, tid, depth=0):
    t = F.types[tid]
    if F.is_float(tid):
        return True
    if depth > 4:
        return True
    if t["k"] == "adt":
        return any(_has_float(F, x, depth + 1) for fs in (t.get("fields") or []) for x in fs)
    if t["k"] in ("ref", "array", "slice"):
        return _has_float(F, t["t"], depth + 1)
    return False


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(c):
    if c.ii is not None and c.inst.get("local") and not c.inst.get("derived"):
        return NoI
    if c.ii is not None and c.inst.get("body") and not c.inst.get("derived"):
        # core impls on references, Option, ...: have bodies
        t = c.argty(0)
        if t is None:
            return NoI
    a, b = c.val(0), c.val(1)
    tid = c.argtys[0] if c.argtys else None
    r = eqterm(c, a, b, tid)
    if c.inst["path"].endswith("::ne") or (c.inst.get("name") == "ne"):
        return not_(r)
    return r


# ------------------------------------------------------------------ fmt (content irrelevant, effects none)
@model("fmt::format", "Argument::new_display", "Argument::new_debug", "Arguments::new", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str")
def m_fmt(c):
    nm = "fmt"
    return mk("app", nm, *[c.val(i) for i in range(len(c.args))])


# ------------------------------------------------------------------ function values
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_fncall(c):
    if c.ii is not None and c.inst.get("local") and c.inst.get("body"):
        return NoI
    f = c.args[0]
    packed = c.args[1] if len(c.args) > 1 else UNIT
    args = list(packed.a[2:]) if packed.op == "adt" and packed.a[0] == "()" else [packed]
    g = c.ip.load(c.st, f) if c.ip._isref(f) else f
    if g.op in ("clo", "fn", "case"):
        return c.ip.call_fn(c.fr, c.st, f, args, c.sp)
    return c.ip.opaque_call(c.fr, c.st, "call", [g] + args, c.dty, c.argtys)


# helper methods on Ctx
def _F_is(self, name):
    s = (self.inst.get("impl_self") or "") + self.inst["path"]
    return name in s


def _argty(self, i):
    if self.argtys and i < len(self.argtys):
        F = self.ip.F
        t = F.types[self.argtys[i]]
        while t["k"] == "ref":
            t = F.types[t["t"]]
        return t
    return None


def _inst_arg_types(self):
    return [self.ip.F.types[a] for a in (self.inst.get("args") or [])]


def _idx_range_type(self):
    if self.argtys and len(self.argtys) > 1:
        t = self.ip.F.types[self.argtys[1]]
        if t["k"] == "adt" and t["path"].endswith("ops::Range"):
            return t["path"]
    return None


def _elem_ty_of_iter(self):
    """Item type of the iterator argument: from the generic arguments of the adapter's result"""
    F = self.ip.F
    t = self.argty(0)
    if t is None or t["k"] != "adt":
        return None
    for a in t.get("args", []):
        x = F.types[a]
        if x["k"] in ("adt", "ref"):
            if x["k"] == "adt" and x["path"] in (OPT,):
                return x
    return None


from . import interp as _ip
_ip.Ctx.F_is = _F_is
_ip.Ctx.argty = _argty
_ip.Ctx.inst_arg_types = _inst_arg_types
_ip.Ctx.idx_range_type = _idx_range_type
_ip.Ctx.elem_ty_of_iter = _elem_ty_of_iter


def _app_eq(x, y):
    if x is y and x.op == "str":
        return tm.TRUE
    if x.op == "str" and y.op == "str":
        return tm.FALSE
    return mk("app", "eq", x, y)


tm.APP["eq"] = _app_eq
