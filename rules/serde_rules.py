"""C16-C19: the JSON form of the schema, recognition of layers and assets, the entry points."""
from .base import *
from . import schema as S
from .schema import Unknown, parse_ty, may_be_absent, is_opt, unbox, kinds, vkinds, props, by_short, types
from .lottie import TABLE, ENUMS, WIDE
from engine.models import RES
from engine.terms import OPT


def sp(t):
    return "%s (%s)" % (t.short, t.span) if getattr(t, "span", None) else t.short


# ================================================================ C16
def keys_rules(rep):
    """every property from its key, every enumerator from its code"""
    for short in sorted(TABLE):
        try:
            t = by_short(short)
            rep.analysed(t.path)
            how = t.usable("de")
            if how != "derive" or t.kind != "struct":
                raise Unknown("%s is not read by a derived implementation" % short)
            _keys_of(rep, t, TABLE[short])
        except Undecided as e:
            rep.undecided("the keys of %s" % short, short, str(e))
        except Missing as e:
            rep.undecided("the keys of %s" % short, short, "not found: %s" % e)
    for path in sorted(types()):
        t = types()[path]
        for v in t.variants:
            for f in ([v] if v.de_with else []) + (v.fields if t.kind != "struct" else [f for f in v.fields if t.short not in TABLE]):
                if f.de_with and f.de_with.split("::")[-1] != "deserialize_keyframes":
                    name = "%s.%s" % (v.name, f.name) if f is not v else v.name
                    _reads_as_is(rep, "type:%s.%s" % (t.short, name), "%s.%s is read as it is written in the file" % (t.short, name), sp(t), f.de_with, unbox(getattr(f, "ty", None) or v.fields[0].ty))
    for short in sorted(ENUMS):
        try:
            t = by_short(short)
            rep.analysed(t.path)
            _codes_of(rep, t, ENUMS[short])
        except Undecided as e:
            rep.undecided("the codes of %s" % short, short, str(e))
        except Missing as e:
            rep.undecided("the codes of %s" % short, short, "not found: %s" % e)


def _keys_of(rep, t, rows):
    byname = {f.name: f for f in t.fields}
    eff = props(t)
    expected = set()
    for name, key, ty in rows:
        if key is not None:
            expected.add(key)
    for name, key, ty in rows:
        want_opt = ty.endswith("?")
        wt = parse_ty(ty.rstrip("?"))
        f = byname.get(name)
        where_ = "%s.%s" % (t.short, name)
        if key is None:
            if f is not None:
                rep.check(f.flatten, "flatten:" + where_, "the properties of %s are read from the same object" % where_, sp(t))
            continue
        if f is None:
            c = [p for p in eff if key in p.e.keys]
            if not c:
                rep.undecided("%s is read from %r" % (where_, key), sp(t), "no such field")
                continue
            f, fty = c[0].e, c[0].ty
        else:
            fty = f.ty
        if f.flatten:
            rep.bad("key:" + where_, "%s is read from %r" % (where_, key), sp(t), "the field is flattened into the enclosing object")
            continue
        if f.skip_de:
            rep.bad("key:" + where_, "%s is read from %r" % (where_, key), sp(t), "the field is skipped when reading")
            continue
        rep.check(key in f.keys, "key:" + where_, "%s is read from %r" % (where_, key), sp(t), "it is read from %s" % " or ".join(map(repr, f.keys)))
        if want_opt:
            rep.check(may_be_absent(f), "optional:" + where_, "%s may be absent" % where_, sp(t),
                      "the field is required" + (" (an Option with deserialize_with needs a default)" if f.de_with else ""))
        have = unbox(fty)
        if have.short == "Option":
            have = unbox(have.args[0])
        _type(rep, where_, wt, have, f, t)
    # a property of the enclosing object read into an own field is not seen by the flattened parts
    own = [f for f in t.fields if not f.flatten and not f.skip_de]
    for f in own:
        new = not any(f.name == n for n, _, _ in rows)
        if new and not may_be_absent(f) and not set(f.keys) & expected:
            c = [p for p in eff if p.chain and set(p.e.keys) & set(f.keys)]
            if not c:
                rep.bad("required:%s" % f, "every property %s requires is one the format requires" % t.short, sp(t),
                        "the format knows no required property %s" % " or ".join(map(repr, f.keys)))
        if new:
            for p in eff:
                if p.chain and set(p.e.keys) & set(f.keys):
                    rep.bad("hidden:%s.%s" % (t.short, p.where), "%s.%s is read from %r" % (t.short, p.where, p.e.de), sp(t),
                            "the property is taken by %s" % f)


def _type(rep, where_, want, have, f, t):
    what = "%s is read as %s" % (where_, want)
    if f.de_with:
        if (t.short, f.name) in (("Image", "sequence"),):
            rep.ok(what, sp(t))
        else:
            _reads_as_is(rep, "type:" + where_, what, sp(t), f.de_with, have)
        return
    if S.same(want, have):
        rep.ok(what, sp(t))
        return
    w, h = want.short, have.short
    if h in ("f64", "f32") and w in S.INTS and not want.args:
        rep.ok(what, sp(t))
        return
    if w in S.INTS and h in S.INTS:
        if S.INTS[h][1] >= min(S.INTS[w][1], 2 ** 31 - 1) and S.INTS[h][0] <= 0:
            rep.ok(what, sp(t))
        else:
            rep.bad("type:" + where_, what, sp(t), "it is read as %s, which rejects values the format allows" % have)
        return
    prim = set(S.INTS) | {"f64", "f32", "bool", "String", "BoolInt"}
    if w in prim and h in prim:
        if w == "f64" and h == "f32":
            rep.undecided(what, sp(t), "read as f32")
            return
        rep.bad("type:" + where_, what, sp(t), "it is read as %s" % have)
        return
    try:
        kw, kh = kinds(want if "::" in want.head or not S.types() else _resolve(want, t), "de"), kinds(have, "de")
        if not (kw - {"null"}) & kh:
            rep.bad("type:" + where_, what, sp(t), "it is read as %s" % have)
            return
    except (Undecided, Missing):
        pass
    rep.undecided(what, sp(t), "it is read as %s" % have)


def _resolve(ty, t):
    for p, x in types().items():
        if x.short == ty.short:
            return S.Ty(p, [_resolve(a, t) for a in ty.args])
    return S.Ty(ty.head, [_resolve(a, t) for a in ty.args])


def _codes_of(rep, t, codes):
    how = t.usable("de")
    byname = {v.name: v for v in t.variants}
    numeric = all(isinstance(c, int) for c in codes.values())
    if not numeric and how == "derive" and t.kind == "enum":
        tagged = any(v.fields for v in t.variants)
        if tagged:
            if t.untagged or t.content or t.tag is None:
                rep.bad("tag:" + t.short, "a %s is recognised by its 'ty'" % t.short, sp(t), "it is not read as an object with a tag")
            else:
                rep.check(t.tag == "ty", "tag:" + t.short, "a %s is recognised by its 'ty'" % t.short, sp(t), "by %r" % t.tag)
        elif t.untagged or t.tag:
            raise Unknown("%s is read by an unusual representation" % t.short)
    elif numeric and how == "repr":
        pass
    elif numeric and how == "derive" and not t.untagged and t.tag is None and not any(v.fields for v in t.variants):
        rep.bad("codes:" + t.short, "a %s is read from its number" % t.short, sp(t), "it is read from names")
        return
    elif not numeric and how == "repr":
        rep.bad("codes:" + t.short, "a %s is read from its letter" % t.short, sp(t), "it is read from numbers")
        return
    else:
        raise Unknown("how %s is read" % t.short)
    for n, c in codes.items():
        v = byname.get(n)
        what = "%s::%s is read from %r" % (t.short, n, c)
        if v is None:
            rep.undecided(what, sp(t), "no such enumerator")
            continue
        if v.skip_de:
            rep.bad("code:%s::%s" % (t.short, n), what, sp(t), "the enumerator is skipped when reading")
        elif numeric:
            rep.check(v.d == c, "code:%s::%s" % (t.short, n), what, sp(t), "it is read from %r" % v.d)
        else:
            rep.check(c in v.keys, "code:%s::%s" % (t.short, n), what, sp(t), "it is read from %s" % " or ".join(map(repr, v.keys)))
    # two enumerators for one code: the first one wins
    if not numeric:
        seen = {}
        for v in t.variants:
            for k in ([] if v.skip_de else v.keys):
                if k in seen and codes.get(v.name) == k:
                    rep.bad("code:%s::%s" % (t.short, v.name), "%s::%s is read from %r" % (t.short, v.name, k), sp(t), "the code belongs to %s" % seen[k])
                seen.setdefault(k, v.name)


# ================================================================ C17
def roundtrip_rules(rep):
    for t in sorted(types().values(), key=lambda x: x.path):
        if t.de_impl is None or t.ser_impl is None:
            continue
        rep.analysed(t.path)
        try:
            if t.bad:
                raise Unknown(t.bad)
            _round(rep, t)
        except Undecided as e:
            rep.undecided("what is written for %s reads back" % t.short, sp(t), str(e))
        except Missing as e:
            rep.undecided("what is written for %s reads back" % t.short, sp(t), "not found: %s" % e)


def _round(rep, t):
    if t.de_impl == "manual":
        if t.short not in ("AnyLayer", "AnyAsset"):
            raise Unknown("%s is read by a hand-written implementation" % t.short)
        t.usable("ser")
        (_any_layer if t.short == "AnyLayer" else _any_asset)(rep, t)
        return
    if t.ser_impl == "manual":
        raise Unknown("%s is written by a hand-written implementation" % t.short)
    if t.ser_impl == "repr" or t.de_impl == "repr":
        rep.check(t.ser_impl == t.de_impl, "codes:" + t.short, "%s is written as the number it is read from" % t.short, sp(t),
                  "one direction uses numbers, the other names")
        return
    if t.kind == "struct":
        _fields(rep, t, t.fields)
        _compete(rep, t)
        return
    if t.untagged:
        _untagged(rep, t)
        return
    for v in t.variants:
        w = "%s::%s" % (t.short, v.name)
        if v.skip_ser and v.skip_de:
            continue
        if v.skip_ser and not v.skip_de:
            rep.bad("variant:" + w, "%s can be written" % w, sp(t), "the enumerator is skipped when writing")
            continue
        rep.check(v.ser in v.keys or v.skip_de, "variant:" + w, "%s is written as a code it is read from" % w, sp(t),
                  "written as %r, read from %s" % (v.ser, " or ".join(map(repr, v.keys))))
        first = [x for x in t.variants if not x.skip_de and v.ser in x.keys]
        if first and first[0] is not v:
            rep.bad("variant:" + w, "%s is written as a code of its own" % w, sp(t), "the code %r is read as %s" % (v.ser, first[0].name))
        if v.other and v.ser_with is None:
            # any unknown code reads as this enumerator, which is then written as its own code: equal value
            pass
        _fields(rep, t, [f for f in v.fields if f.name != "0"])
        if t.tag and not t.content and len(v.fields) == 1 and v.fields[0].name == "0":
            r = S.type_of(unbox(v.fields[0].ty))
            if r is None or r[0].kind != "struct":
                raise Unknown("content of %s" % w)
            clash = [p for p in props(r[0], r[1]) if t.tag in p.e.keys or t.tag == p.e.ser]
            rep.check(not clash, "tag:" + w, "the tag %r of %s is no property of its content" % (t.tag, w), sp(t),
                      "it is also %s" % ", ".join(p.where for p in clash))


def _fields(rep, t, fields):
    for f in fields:
        w = str(f)
        if f.flatten:
            continue
        if f.skip_ser and f.skip_de:
            continue
        if f.skip_de and not f.skip_ser:
            rep.undecided("%s survives a round trip" % w, sp(t), "written but never read")
            continue
        if f.skip_ser:
            rep.bad("lost:" + w, "%s is written" % w, sp(t), "the field is read but skipped when writing")
            continue
        named = f.name != "0"
        if named:
            rep.check(f.ser in f.keys, "key:" + w, "%s is written under a key it is read from" % w, sp(t),
                      "written as %r, read from %s" % (f.ser, " or ".join(map(repr, f.keys))))
            others = [g_ for g_ in fields if g_ is not f and not g_.flatten and not g_.skip_de and f.ser in g_.keys]
            rep.check(not others, "clash:" + w, "no other property of %s is read from the key of %s" % (t.short, f.name), sp(t),
                      "so is %s" % ", ".join(map(str, others)))
        if f.skip_if:
            _omitted(rep, t, f)
        if f.ser_with or f.de_with:
            _pair(rep, t, f)


def _is_none(p):
    return p is not None and p.split("::")[-1] == "is_none" and p.split("::")[-2:-1] == ["Option"]


def _path_inst(path):
    """the local function a path in an attribute denotes"""
    n = path.split("::")[-1]
    c = [i for i in generic_insts(n) if facts().insts[i].get("kind") == "item"]
    ps = {facts().insts[i]["path"] for i in c}
    if len(ps) != 1:
        raise Unknown("function %s (%d candidates)" % (path, len(ps)))
    return min(c)


PROBES = [num(k) for k in (0, 1, -1, 2, -3, 5, 100)]


def _reads_as_is(rep, key, what, where_, path, ty):
    """a function that reads a value gives the value of the file, whenever it accepts it"""
    try:
        de = Run(_path_inst(path), opq=opq_serde)
        src = app("Deserialize::deserialize", de.args[0])
        inner = fld(src, 0, 0, RES)
        outs = set()
        _ok_leaves(de.value, outs)
    except (Undecided, Unsupported) as e:
        rep.undecided(what, where_, "read by %s: %s" % (path, e))
        return
    if outs == {inner}:
        rep.ok(what, where_)
        return
    # another component of the value read in its place
    for o in outs:
        ad = facts().adt(o.a[0]) if o.op == "adt" else None
        if ad is None:
            continue
        vs = ad["variants"]
        if len(vs) != 1:
            continue
        own = [fld(inner, 0, i, o.a[0]) for i in range(len(o.a) - 2)]
        for i, x in enumerate(o.a[2:]):
            if x is not own[i] and x in own:
                rep.bad(key, what, where_, "%s gives %s in place of %s" % (path, show(x, 0, 6), show(own[i], 0, 6)))
                return
    # a number that is changed
    if ty.short in S.INTS or ty.short in ("f64", "f32"):
        for some in (False, True):
            for n in PROBES:
                v = adt(OPT, 1, n) if some else n
                r = tm.subst(tm.subst(de.value, inner, v), src, adt(RES, 0, v))
                if r.op == "adt" and r.a[0] == RES and r.a[1] == 0:
                    x = r.a[2]
                    if some:
                        if x.op == "adt" and x.a[0] == OPT and x.a[1] == 0:
                            rep.bad(key, what, where_, "%s drops %s" % (path, show(n)))
                            return
                        if x.op != "adt" or x.a[0] != OPT:
                            continue
                        x = x.a[2]
                    if x.op == "num" and x is not n:
                        rep.bad(key, what, where_, "%s reads %s as %s" % (path, show(n), show(x)))
                        return
    rep.undecided(what, where_, "read by %s" % path)


def _default_of(t, f):
    """value of the field when its key is absent"""
    if f.default in (None, "Default") and is_opt(f.ty):
        return adt(OPT, 0)
    if f.default == "container":
        d = [i for i in facts().impls if i["adt"] == t.path and i["trait"] == "std::default::Default"]
        if d and d[0]["derived"] and is_opt(f.ty):
            return adt(OPT, 0)
        raise Unknown("the default of %s" % f)
    if f.default == "Default":
        h = unbox(f.ty).short
        if h in ("Vec", "String"):
            return tm.EMPTY if h == "Vec" else mk("str", "")
        if h in S.INTS or h in ("f64", "f32"):
            return num(0)
        if h == "bool":
            return FALSE
        raise Unknown("the default of %s" % f)
    if f.default:
        try:
            return Run(_path_inst(f.default), opq=opq_serde).value
        except Unsupported as e:
            raise Unknown("the default function %s: %s" % (f.default, e))
    return None


def _omitted(rep, t, f):
    w = str(f)
    what = "when %s is omitted from what is written it reads back as the same value" % w
    if not may_be_absent(f):
        rep.bad("omitted:" + w, what, sp(t), "the field may be omitted when writing (%s) but is required when reading" % f.skip_if)
        return
    try:
        d = _default_of(t, f)
        if _is_none(f.skip_if):
            om = adt(OPT, 0)
            if d is None:
                raise Unknown("the default of %s" % w)
            rep.check(diff(d, om) is None, "omitted:" + w, what, sp(t), "an absent %s reads as %s" % (w, show(d, 0, 4)))
            return
        if f.skip_if.split("::")[-2:] in (["Vec", "is_empty"], ["String", "is_empty"]):
            rep.check(diff(d, tm.EMPTY if "Vec" in f.skip_if else mk("str", "")) is None, "omitted:" + w, what, sp(t))
            return
        r = Run(_path_inst(f.skip_if), opq=opq_serde)
        v = r.args[0]
        # all values of the field for which the predicate can hold
        h = unbox(f.ty)
        shapes_ = [v]
        if h.short == "Option":
            inner = unbox(h.args[0]).short
            shapes_ = [adt(OPT, 0)] + ([adt(OPT, 1, TRUE), adt(OPT, 1, FALSE)] if inner == "bool" else [adt(OPT, 1, sym("x"))])
            if inner in types_short() and not types_short()[inner].variants[0].fields:
                tt = types_short()[inner]
                shapes_ = [adt(OPT, 0)] + [adt(OPT, 1, adt(tt.path, i)) for i in range(len(tt.variants))]
        elif h.short == "bool":
            shapes_ = [TRUE, FALSE]
        bad = []
        for x in shapes_:
            p = tm.subst(r.value, v, x) if x is not v else r.value
            if unknown_apps(p) - KNOWN_APPS:
                raise Unknown("the predicate %s" % f.skip_if)
            if p is FALSE:
                continue
            e = tm.equal(x, d)
            if not e:
                if p is TRUE or True:
                    bad.append(x)
        if bad and any(x is v for x in bad):
            raise Unknown("the values for which %s holds" % f.skip_if)
        rep.check(not bad, "omitted:" + w, what, sp(t),
                  "omitted for %s, but an absent %s reads as %s" % (", ".join(show(x, 0, 3) for x in bad), w, show(d, 0, 3)))
    except Unsupported as e:
        rep.undecided(what, sp(t), str(e))
    except Undecided as e:
        rep.undecided(what, sp(t), str(e))


_ts = {}


def types_short():
    if not _ts:
        for x in types().values():
            _ts[x.short] = x
    return _ts


def opq_serde(ii, inst, key, args):
    if inst["crate"] in ("serde_json", "serde", "serde_core", "serde_repr"):
        F = facts()
        if key in ("serde_json::from_value", "value::from_value") or inst["path"].endswith("serde_json::from_value"):
            ts = [F.types[a]["s"].split("<")[0].split("::")[-1] for a in inst["args"] if isinstance(a, int)]
            return "from_value:" + ",".join(ts)
        if inst.get("impl_self", "").endswith("serde_json::Value") or inst["path"].startswith("serde_json::Value::"):
            m = VALUE.get(inst.get("name") or inst["path"].split("::")[-1])
            if m:
                return m
        return key
    return None


def _jget(c):
    """value[key] of an object, if there"""
    v, k = c.val(0), c.val(1)
    return app("jget", v, k)


def _jint(f):
    def m(c):
        def go(v):
            if v.op == "adt" and v.a[0] == JV and v.a[1] == 0:
                return adt(OPT, 0)
            return opt(app("jint", v), lambda x: f(v, x), lambda: f(v, None))
        return tm.lift("json number", go, c.val(0))
    return m


def _as_u64(v, x):
    return adt(OPT, 0) if x is None else adt(OPT, 1, x)


def _as_i64(v, x):
    if x is None:
        return app("jneg", v)
    return ite(tm.le_int(x, num(2 ** 63 - 1)), adt(OPT, 1, x), adt(OPT, 0))


def _as_f64(v, x):
    return app("jfloat", v) if x is None else adt(OPT, 1, app("tofloat", x))


JV = "serde_json::Value"


def _jindex(c):
    """value[key]: null where there is none"""
    return opt(_jget(c), lambda x: x, lambda: adt(JV, 0))


def _jis(n):
    """the kind of a JSON value"""
    return lambda c: tm.lift("json kind", lambda v: tm.tobool(app("Value::" + n, v)), c.val(0))


VALUE = {"is_string": _jis("is_string"), "is_array": _jis("is_array"), "is_object": _jis("is_object"), "is_number": _jis("is_number"),
         "is_null": _jis("is_null"), "is_boolean": _jis("is_boolean"), "get": _jget, "index": _jindex, "as_u64": _jint(_as_u64), "as_i64": _jint(_as_i64), "as_f64": _jint(_as_f64)}


def _pair(rep, t, f):
    """serialize_with / deserialize_with: every value that reading can give is written so that it reads as the same"""
    w = str(f)
    what = "%s is written so that it reads back as the same value" % w
    try:
        if not f.ser_with or not f.de_with:
            if f.ser_with:
                se = Run(_path_inst(f.ser_with), opq=opq_serde)
                acc = kinds(f.ty, "de")
                inner = f.ty.args[0].short if f.ty.short == "Option" else f.ty.short
                for o in _leaves(se.value):
                    m = o.a[0].rsplit("serialize_", 1)[-1] if o.op == "app" and "serialize_" in str(o.a[0]) else None
                    k = {"bool": "bool", "str": "str", "char": "str", "none": "null", "unit": "null"}.get(m) or \
                        ("num" if m in S.INTS or m in ("f32", "f64") else None)
                    if k and k not in acc:
                        rep.bad("with:" + w, what, sp(t), "%s may write a %s, but it is read as %s" % (f.ser_with, m, f.ty))
                        return
                    if m in ("f32", "f64") and (inner in S.INTS or inner == "BoolInt"):
                        rep.bad("with:" + w, what, sp(t), "%s may write a fractional number, but it is read as %s" % (f.ser_with, f.ty))
                        return
            rep.undecided(what, sp(t), "only one direction uses a function of its own")
            return
        de = Run(_path_inst(f.de_with), opq=opq_serde)
        se = Run(_path_inst(f.ser_with), opq=opq_serde)
        D = de.value
        src = app("Deserialize::deserialize", de.args[0])
        ok_in = fld(src, 0, 0, RES)
        outs = set()
        _ok_leaves(D, outs)
        d0 = _default_of(t, f) if may_be_absent(f) else None
        bad = []
        for v in outs:
            if v.op != "adt" or unknown_apps(v):
                raise Unknown("the values %s gives" % f.de_with)
            if f.skip_if and _is_none(f.skip_if) and v.a[0] == OPT and v.a[1] == 0:
                if d0 is None or diff(d0, v) is not None:
                    bad.append((v, "it is omitted, and the absent value differs"))
                continue
            pc = tm.subst(se.pc, se.args[0], v) if isinstance(se.pc, tm.T) else TRUE
            o = tm.subst(se.value, se.args[0], v)
            if pc is FALSE or o is UNDEF:
                bad.append((v, "it cannot be written"))
                continue
            if o.op != "app" or o.a[0] not in ("Serializer::serialize_str",):
                if o.op == "app" and o.a[0] in ("Serializer::serialize_none", "Serializer::serialize_unit"):
                    bad.append((v, "it is written as null, which cannot be read back"))
                    continue
                raise Unknown("what %s writes" % f.ser_with)
            back = tm.subst(tm.subst(D, ok_in, o.a[2]), src, adt(RES, 0, o.a[2]))
            if unknown_apps(back) - KNOWN_APPS:
                raise Unknown("what %s reads" % f.de_with)
            if diff(back, adt(RES, 0, v)) is not None:
                bad.append((v, "it is written as %s, which reads as %s" % (show(o.a[2], 0, 3), show(back, 0, 4))))
        rep.check(not bad, "with:" + w, what, sp(t), "; ".join("%s: %s" % (show(v, 0, 3), why) for v, why in bad))
    except (Undecided, Unsupported) as e:
        rep.undecided(what, sp(t), str(e))


def _leaves(t):
    if t.op == "case":
        for k in t.a[1:]:
            yield from _leaves(k)
    elif t is not UNDEF:
        yield t


def _ok_leaves(t, out, depth=0):
    if t.op == "case":
        for k in t.a[1:]:
            _ok_leaves(k, out)
        return
    if t.op == "adt" and t.a[0] == RES:
        if t.a[1] == 0:
            _in_leaves(t.a[2], out)
        return
    if t is UNDEF:
        return
    raise Unknown("a result of unknown form")


def _in_leaves(t, out):
    if t.op == "case":
        for k in t.a[1:]:
            _in_leaves(k, out)
    elif t is not UNDEF:
        out.add(t)


def _compete(rep, t):
    """keys of an object that come from different flattened parts"""
    env = {}
    eff = props(t, env)
    order = {}
    for n, p in enumerate(eff):
        if p.e.skip_de and p.e.skip_ser:
            continue
        for k in set(p.e.keys + [p.e.ser]):
            order.setdefault(k, []).append(p)
    n = 0
    for k, ps in sorted(order.items()):
        n += 1
        what = "no two properties of %s compete for the key %r" % (t.short, k)
        if len(ps) == 1:
            continue
        tops = [p.chain[0] if p.chain else "" for p in ps]
        if len(set(tops)) == 1 and tops[0] != "":
            continue  # reported for the inner type
        own = [p for p in ps if not p.chain]
        rest = [p for p in ps if p.chain]
        if len(own) == 1:
            # the own field takes the key; the hidden ones stay absent
            for p in rest:
                harmless = may_be_absent(p.e) and _is_none(p.e.skip_if) and is_opt(p.ty) and (
                    p.e.default in (None, "Default"))
                if not may_be_absent(p.e):
                    rep.bad("compete:%s:%s" % (t.short, k), what, sp(t), "%s takes it, but %s requires it" % (own[0].where, p.where))
                elif not harmless:
                    rep.bad("compete:%s:%s" % (t.short, k), what, sp(t), "%s takes it, and %s is written under it as well" % (own[0].where, p.where))
                else:
                    rep.ok("the key %r of %s belongs to %s; %s stays absent" % (k, t.short, own[0].where, p.where), sp(t))
        else:
            # several flattened parts: all see the key unless an earlier one consumes it
            tys = {str(p.ty) for p in ps}
            sers = {(p.e.ser, str(p.e.skip_if), str(p.e.ser_with), str(p.e.de_with)) for p in ps}
            first = ps[0]
            ft = None
            if len(tys) == 1 and len(sers) == 1 and not any(_consuming(t, p) for p in ps[:-1]):
                rep.ok("the parts of %s that share the key %r read and write it alike" % (t.short, k), sp(t))
            elif any(_consuming(t, p) for p in ps[:1]) and any(not may_be_absent(p.e) for p in ps[1:]):
                rep.bad("compete:%s:%s" % (t.short, k), what, sp(t), "%s takes it, but %s requires it" % (ps[0].where, ps[1].where))
            elif len(tys) > 1 and not _consuming(t, ps[0]):
                rep.bad("compete:%s:%s" % (t.short, k), what, sp(t), "%s and %s both read and write it, as different types" % (ps[0].where, ps[1].where))
            else:
                rep.undecided(what, sp(t), "shared by %s" % ", ".join(p.where for p in ps))
    rep.ok("the keys of the object form of %s are written and read by one property each" % t.short, sp(t), n)


def _consuming(t, p):
    """whether the part that holds p takes its keys away from the parts after it"""
    cur = t
    for c in p.chain[:1]:
        f = [x for x in cur.fields if x.name == c][0]
        r = S.type_of(unbox(f.ty))
        cur = r[0]
    return S.consumes(cur)


def _untagged(rep, t):
    vs = t.variants
    for v in vs:
        if v.skip_ser:
            rep.bad("variant:%s::%s" % (t.short, v.name), "%s::%s can be written" % (t.short, v.name), sp(t), "skipped when writing")
        _fields(rep, t, [f for f in v.fields if f.name != "0"])
    insts_ = [{}]
    gens = t.a.get("generics") or []
    if gens:
        insts_ = _instantiations(t)
    for env in insts_:
        for j, b in enumerate(vs):
            for a in vs[:j]:
                if a.skip_de:
                    continue
                what = "a written %s::%s%s is not read as %s" % (t.short, b.name, _envs(env), a.name)
                try:
                    why = _rejects(t, a, b, env)
                    if why is True:
                        rep.ok(what, sp(t))
                    else:
                        rep.bad("untagged:%s::%s/%s" % (t.short, a.name, b.name), what, sp(t), why) if why else rep.undecided(what, sp(t), "no argument")
                except Undecided as e:
                    rep.undecided(what, sp(t), str(e))


def _envs(env):
    return "<%s>" % ", ".join(str(v) for v in env.values()) if env else ""


def _instantiations(t):
    """type arguments with which a generic schema type is used in the schema"""
    out, seen = [], set()
    todo = [(x, {}) for x in types().values() if not (x.a.get("generics") or []) and not x.bad]
    done = set()
    gens = t.a.get("generics") or []
    while todo:
        x, env = todo.pop()
        k = (x.path, tuple((a, str(b)) for a, b in env.items()))
        if k in done:
            continue
        done.add(k)
        for v in x.variants:
            for f in v.fields:
                st = [S.subst(f.ty, env)]
                while st:
                    q = st.pop()
                    st += q.args
                    y = types().get(q.head)
                    if y is not None and (y.a.get("generics") or []) and not y.bad:
                        e2 = dict(zip(y.a["generics"], q.args))
                        todo.append((y, e2))
                        if y is t:
                            kk = tuple(map(str, q.args))
                            if kk not in seen:
                                seen.add(kk)
                                out.append(e2)
    return out


def _elem(ty):
    ty = unbox(ty)
    if ty.short in ("Vec", "[]", "[;]") or ty.head in ("[]", "[;]"):
        return ty.args[0]
    return None


def _rejects(t, a, b, env):
    """True when reading variant a fails on everything variant b writes; a text when it can succeed; None when unclear"""
    one_a = len(a.fields) == 1 and a.fields[0].name == "0"
    one_b = len(b.fields) == 1 and b.fields[0].name == "0"
    ka, kb = vkinds(t, a, env, "de"), vkinds(t, b, env, "ser")
    ta = S.subst(a.fields[0].ty, env) if one_a else None
    tb = S.subst(b.fields[0].ty, env) if one_b else None
    common = ka & kb
    if not common:
        return True
    if common == {"arr"} and ta is not None and tb is not None and not a.de_with:
        ea, eb = _elem(ta), _elem(tb)
        if ea is not None and eb is not None:
            # the empty array is read as the earlier variant, so reading never gives an empty later one
            if not kinds(ea, "de") & kinds(eb, "ser"):
                return True
            if S.same(ea, eb) or kinds(eb, "ser") <= kinds(ea, "de"):
                pass
            return _obj_rejects(_objf(ea, None, env), _objf(eb, None, env), env)
        if ea is None or eb is None:
            r = S.type_of(unbox(ta))
            if r and r[0].kind == "struct":
                # a struct read from an array: its first element must fit the first field
                k1 = kinds(S.subst(r[0].fields[0].ty, r[1]), "de") if r[0].fields else set()
                if eb is not None and not k1 & kinds(eb, "ser"):
                    return True
        return None
    if common == {"obj"}:
        fa = _objf(ta, a, env)
        fb = _objf(tb, b, env)
        return _obj_rejects(fa, fb, env)
    if S.same(ta, tb) if ta is not None and tb is not None else False:
        return "both are read from the same values"
    if common <= {"num", "bool", "str"} and kb <= ka and ta is not None and ta.short in ("f64",) :
        return "every %s is also read as the earlier one" % "/".join(sorted(common))
    return None


def _objf(ty, v, env):
    if ty is None:
        if v is not None and v.fields and v.fields[0].name != "0":
            return [S.Prop(f, [], S.subst(f.ty, env)) for f in v.fields]
        return None
    r = S.type_of(unbox(ty))
    if r is None or r[0].kind != "struct":
        return None
    r[0].usable("de")
    r[0].usable("ser")
    return props(r[0], r[1])


def _obj_rejects(pa, pb, env):
    if pa is None or pb is None:
        return None
    wb = {p.e.ser: p for p in pb if not p.e.skip_ser}
    for p in pa:
        if may_be_absent(p.e):
            continue
        c = [wb[k] for k in p.e.keys if k in wb]
        if not c:
            return True
        if not p.e.de_with and all(not (kinds(p.ty, "de") & kinds(q.ty, "ser")) for q in c if not q.e.skip_if):
            if not any(q.e.skip_if for q in c):
                return True
    for p in pa:
        c = [wb[k] for k in p.e.keys if k in wb]
        if len(c) == 1 and not c[0].e.skip_if and not p.e.de_with and not c[0].e.ser_with and not (kinds(p.ty, "de") & kinds(c[0].ty, "ser")):
            return True
    req = [p for p in pa if not may_be_absent(p.e)]
    if all(p.e.skip_if is None and any(k in wb and not wb[k].e.skip_if and S.same(wb[k].ty, p.ty) for k in p.e.keys) for p in req) and all(
            may_be_absent(p.e) and not any(k in wb for k in p.e.keys) or p in req or any(k in wb and S.same(wb[k].ty, p.ty) for k in p.e.keys) for p in pa):
        return "everything the earlier one requires (%s) is written by the later one" % ", ".join(sorted(p.e.de for p in req))
    return None


def _any_layer(rep, t):
    """layers are recognised by their number, which every variant carries along"""
    for v in t.variants:
        w = "AnyLayer::%s" % v.name
        if len(v.fields) != 1 or v.skip_ser:
            raise Unknown("the form of %s" % w)
        ps = _objf(v.fields[0].ty, v, {})
        if ps is None:
            raise Unknown("the form of %s" % w)
        c = [p for p in ps if "ty" in (p.e.keys + [p.e.ser])]
        good = [p for p in c if p.e.ser == "ty" and "ty" in p.e.keys and not p.e.skip_if and not p.e.skip_ser and not p.e.ser_with and not p.e.de_with]
        if not c:
            rep.bad("kind:" + w, "%s is written with the number it was recognised by" % w, sp(t), "no property 'ty' is written")
        elif len(good) == 1 and len(c) == 1:
            h = unbox(good[0].ty).short
            if h in S.INTS:
                rep.ok("%s is written with the number it was recognised by" % w, sp(t))
            else:
                rep.undecided("%s is written with the number it was recognised by" % w, sp(t), "type %s" % good[0].ty)
        elif len(c) == 1 and (c[0].e.skip_if or c[0].e.skip_ser or c[0].e.ser != "ty"):
            rep.bad("kind:" + w, "%s is written with the number it was recognised by" % w, sp(t), "%s may be missing from what is written" % c[0].where)
        else:
            rep.undecided("%s is written with the number it was recognised by" % w, sp(t))
    rep.check(t.untagged, "form:AnyLayer", "a layer is written as the plain object it is read from", sp(t))


def _any_asset(rep, t):
    rep.check(t.untagged, "form:AnyAsset", "an asset is written as the plain object it is read from", sp(t))
    for v in t.variants:
        w = "AnyAsset::%s" % v.name
        if len(v.fields) != 1 or v.skip_ser:
            raise Unknown("the form of %s" % w)
        ps = _objf(v.fields[0].ty, v, {})
        if ps is None:
            raise Unknown("the form of %s" % w)
        def writes(k, always):
            return [p for p in ps if p.e.ser == k and not p.e.skip_ser and not (always and p.e.skip_if)]
        if v.name == "Precomposition":
            rep.check(writes("layers", True), "kind:" + w, "a written %s has a layer list" % w, sp(t), "it may be omitted")
        elif v.name == "Image":
            rep.check(not writes("layers", False), "kind:" + w + ":layers", "a written %s has no layer list" % w, sp(t))
            rep.check(writes("w", True) or writes("h", True), "kind:" + w, "a written %s has a width or a height, by which it is recognised" % w,
                      sp(t), "both are omitted when they were given as null")
        else:
            rep.undecided("a written %s is recognised" % w, sp(t))


# ================================================================ C18
KNOWN18 = {"jget", "jint", "jneg", "jfloat", "Deserialize::deserialize", "Value::as_str", "Error::custom", "Error::missing_field", "fmt", "tofloat", "toint",
           "eq", "lt", "Value::is_string", "Value::is_array", "Value::is_object", "Value::is_number", "Value::is_null", "Value::is_boolean"}


def _impl_fn(adt_suffix, name):
    F = facts()
    p = adtpath(adt_suffix)
    c = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and x.get("name") == name and not x.get("derived") and
         (x.get("impl_trait") or "").startswith("serde::Deserialize") and (x.get("impl_self") or "") == p]
    if not c:
        raise Undecided("no hand-written %s for %s" % (name, adt_suffix))
    return min(c)


def _noerr(t):
    """a result without what is in its error"""
    return variant_case(t, 2, RES, lambda i: adt(RES, 0, fld(t, 0, 0, RES)) if i == 0 else adt(RES, 1, UNIT))


def kind_rules(rep):
    for f in (_layer_kinds, _asset_kinds):
        try:
            f(rep)
        except (Undecided, Unsupported) as e:
            rep.undecided("recognition of layers and assets (%s)" % f.__name__, "", str(e))
        except Missing as e:
            rep.undecided("recognition of layers and assets (%s)" % f.__name__, "", "not found: %s" % e)


def _from_value(short, v):
    return app("from_value:" + short, v)


def _layer_kinds(rep):
    ii = _impl_fn("layers::AnyLayer", "deserialize")
    r = Run(ii, opq=opq_serde)
    W = where(r.inst)
    rep.analysed(W)
    src = app("Deserialize::deserialize", r.args[0])
    V = sym("VALUE")
    full = tm.subst(tm.subst(r.value, fld(src, 0, 0, RES), V), src, adt(RES, 0, V))
    LT = {"Precomposition": "PrecompositionLayer", "Solid": "SolidLayer", "Image": "ImageLayer", "Null": "NullLayer", "Shape": "ShapeLayer"}
    AL = adtpath("layers::AnyLayer")
    for n, a in LT.items():
        ty = facts().adt(AL)["variants"][vidx("layers::AnyLayer", n)]["f"][0]["ty"].split("::")[-1]
        if ty != a:
            raise Undecided("AnyLayer::%s holds a %s" % (n, ty))
    ERR = adt(RES, 1, UNIT)
    ty = app("jget", V, mk("str", "ty"))
    jn = app("jint", sym("TYVAL"))
    names = {0: "Precomposition", 1: "Solid", 2: "Image", 3: "Null", 4: "Shape"}

    def conv(k):
        x = _from_value(LT[k], V)
        return variant_case(x, 2, RES, lambda i: adt(RES, 0, adt(AL, vidx("layers::AnyLayer", k), fld(x, 0, 0, RES))) if i == 0 else ERR)

    def byno(x):
        out = ERR
        for k, name in names.items():
            out = ite(tm.eq_int(x, num(k)), conv(name), out)
        return out

    def with_type(t, present):
        t = tm.subst(tm.subst(t, unwrap(ty), sym("TYVAL")), ty, adt(OPT, 1, sym("TYVAL")) if present else adt(OPT, 0))
        return t

    def with_number(t, n):
        t = with_type(t, True)
        if n is None:
            return tm.subst(t, jn, adt(OPT, 0))
        return tm.subst(tm.subst(t, unwrap(jn), n), jn, adt(OPT, 1, n))
    got = _noerr(full)
    for k, name in sorted(names.items()):
        _cmp18(rep, "layer:%d" % k, "a layer of type %d is read as %s" % (k, name), W, with_number(got, num(k)), conv(name))
    _cmp18(rep, "layer:other", "layers are recognised by the type numbers 0 to 4 and no other", W, with_number(got, sym("N")), byno(sym("N")))
    for n in (5, 6, 13, 15, 255, 256, 257, 258, 259, 260, 2 ** 16, 2 ** 16 + 4, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 63 + 4, 2 ** 64 - 1):
        _cmp18(rep, "layer:other", "a layer of type %d is an error" % n, W, with_number(got, num(n)), ERR)
    _cmp18(rep, "layer:kind", "a layer whose type is no whole number is an error", W, with_number(got, None), ERR)
    _cmp18(rep, "layer:missing", "a layer without a type is an error", W, with_type(got, False), ERR)
    for k, name in sorted(names.items()):
        x = _from_value(LT[name], V)
        t = with_number(full, num(k))
        t = tm.subst(tm.subst(t, fld(x, 1, 0, RES), sym("inner")), x, adt(RES, 1, sym("inner")))
        _carries(rep, "layer-error:%d" % k, "the error inside a layer of type %d is reported" % k, W, t, [sym("inner")])
    bad = tm.subst(tm.subst(r.value, fld(src, 1, 0, RES), sym("inner")), src, adt(RES, 1, sym("inner")))
    _carries(rep, "layer-error:input", "an error of the input is reported by the layer", W, bad, [sym("inner")])


def _cmp18(rep, key, what, W, got, want, extra=()):
    d = diff(got, want)
    if d is None:
        rep.ok(what, W)
        return
    u = {x for x in unknown_apps(got, ()) - KNOWN_APPS - KNOWN18 - set(extra) if not x.startswith("from_value:")}
    if u:
        rep.undecided(what, W, "the analysis has no rule for %s" % ", ".join(sorted(u)))
    else:
        rep.bad(key, what, W, explain(d))


def _carries(rep, key, what, W, t, needles):
    """all outcomes of t are errors that contain the needles"""
    outs = []
    deciding = set()

    def go(x):
        if x.op == "case":
            deciding.add(x.a[0])
            for k in x.a[1:]:
                go(k)
        elif x is not UNDEF:
            outs.append(x)
    go(t)
    u = {x for a in deciding for x in unknown_apps(a) - KNOWN_APPS - KNOWN18 if not x.startswith("from_value:")}
    if u and len(outs) > 1:
        rep.undecided(what, W, "the analysis has no rule for %s" % ", ".join(sorted(u)))
        return
    for x in outs:
        if x.op != "adt" or x.a[0] != RES:
            u = unknown_apps(x) - KNOWN_APPS - KNOWN18
            rep.undecided(what, W, "result of unknown form")
            return
        if x.a[1] == 0:
            rep.bad(key, what, W, "no error: %s" % show(x, 0, 4))
            return
        for n in needles:
            if not tm.occurs(x, n):
                rep.bad(key, what, W, "the error %s does not contain it" % show(x, 0, 6)[:400])
                return
    if outs:
        rep.ok(what, W, len(outs))


def _asset_kinds(rep):
    ii = _impl_fn("assets::AnyAsset", "deserialize")
    r = Run(ii, opq=opq_serde)
    W = where(r.inst)
    rep.analysed(W)
    src = app("Deserialize::deserialize", r.args[0])
    v0 = fld(src, 0, 0, RES)
    V = sym("VALUE")
    full = tm.subst(tm.subst(r.value, v0, V), src, adt(RES, 0, V))
    ERR = adt(RES, 1, UNIT)
    A = adtpath("assets::AnyAsset")

    def conv(k, ty):
        x = _from_value(ty, V)
        return variant_case(x, 2, RES, lambda i: adt(RES, 0, adt(A, vidx("assets::AnyAsset", k), fld(x, 0, 0, RES))) if i == 0 else ERR)
    P, Im = conv("Precomposition", "Precomposition"), conv("Image", "Image")
    J = lambda k: app("jget", V, mk("str", k))

    def having(t, kw=None, /, **kws):
        for k, x in dict(kw or {}, **kws).items():
            j = J(k)
            t = tm.subst(tm.subst(t, unwrap(j), sym("VAL_" + k)), j, adt(OPT, 1, sym("VAL_" + k)) if x else adt(OPT, 0))
        return t
    NT = num(0)

    def not3(t, present):
        """t for an asset whose "t" is not the number 3 (a data source)"""
        if not present:
            return having(t, {'t': False})
        t = having(t, {'t': True})
        jn = app("jint", sym("VAL_t"))
        return tm.subst(t, jn, adt(OPT, 0))
    got = _noerr(full)
    for lay in (True, False):
        for w in (True, False):
            for h in (True, False):
                for tt in (True, False):
                    g_ = not3(having(got, None, layers=lay, w=w, h=h), tt)
                    want = P if lay else (Im if w or h else ERR)
                    desc = "with" + ("" if lay else "out") + " a layer list, " + " and ".join([x for x, y in (("width", w), ("height", h)) if y] or ["no size"])
                    key = "asset:%s%s%s" % ("l" if lay else "", "w" if w else "", "h" if h else "")
                    what = "an asset %s is %s" % (desc, "a precomposition" if lay else ("an image" if w or h else "an error"))
                    _cmp18(rep, key or "asset:", what, W, g_, want)
    for w in (True, False):
        for h in (True, False):
            g_ = tm.subst(having(got, None, layers=False, w=w, h=h, t=True), app("jint", sym("VAL_t")), adt(OPT, 1, num(3)))
            _cmp18(rep, "asset:3" + ("w" if w else "") + ("h" if h else ""), "a data source (type 3) without a layer list is an error, whatever its size", W, g_, ERR)
    # a type number never turns a precomposition into something else
    g_ = having(got, layers=True)
    _cmp18(rep, "asset:l", "an asset with a layer list is a precomposition, whatever its type", W, g_, P)
    ids = J("id")
    idt = app("Value::as_str", sym("VAL_id"))
    for k, ty, given in (("Precomposition", "Precomposition", dict(layers=True)), ("Image", "Image", dict(layers=False, w=True)),
                         ("Image", "Image", dict(layers=False, w=False, h=True))):
        x = _from_value(ty, V)
        t = not3(having(full, id=True, **given), False)
        t = tm.subst(tm.subst(t, unwrap(idt), sym("THE_ID")), idt, adt(OPT, 1, sym("THE_ID")))
        t = tm.subst(t, x, adt(RES, 1, sym("inner")))
        t = tm.subst(t, fld(x, 1, 0, RES), sym("inner"))
        _carries(rep, "asset-error:" + k, "the error inside an asset read as %s names its id and the cause" % k, W, t, [sym("THE_ID"), sym("inner")])
    bad = tm.subst(tm.subst(r.value, fld(src, 1, 0, RES), sym("inner")), src, adt(RES, 1, sym("inner")))
    _carries(rep, "asset-error:input", "an error of the input is reported by the asset", W, bad, [sym("inner")])


def reached(ii):
    """names of the foreign functions reachable from a function through functions of the crate"""
    from .effects import mentions, bodies
    F = facts()
    seen, out, st = set(), set(), [ii]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        x = F.insts[i]
        for b in bodies(x) if x.get("body") else []:
            for t in mentions(F, b["blocks"]):
                j = F.types[t].get("inst")
                if j is None:
                    out.add(F.types[t]["path"])
                elif F.insts[j]["local"]:
                    st.append(j)
                else:
                    out.add(F.insts[j]["path"])
    return out


# ================================================================ C19
def entry_rules(rep):
    F = facts()
    anim = adtpath("animation::animation::Animation")
    comp = adtpath("runtime::Composition")
    conv = "conv_animation"

    def opq(ii, inst, key, args):
        if inst["crate"] in ("serde_json", "serde", "serde_core"):
            n = inst["path"].split("::")[-1]
            if n in ("from_slice", "from_str", "from_value", "from_reader"):
                ts = [F.types[a]["s"] for a in inst["args"] if isinstance(a, int)]
                ts = [x for x in ts if "::" in x]
                return "parse_%s:%s" % (n, ",".join(ts))
            return key
        if inst["local"] and inst.get("body"):
            a, rt = fnty(inst)
            if rt == comp and len(a) == 1 and a[0] == anim:
                return "convert"
        return None

    def parsed(how, x):
        return app("parse_%s:%s" % (how, anim), x)

    def wanted(p, f, g_):
        return variant_case(p, 2, RES, lambda i: adt(RES, 0, f(fld(p, 0, 0, RES))) if i == 0 else adt(RES, 1, g_(fld(p, 1, 0, RES))))
    jerr = lambda e: adt(adtpath("error::Error"), vidx("error::Error", "Json"), e)
    ident = lambda x: x
    todo = [("Composition::from_slice", comp, "from_slice", lambda a: app("convert", a), jerr),
            ("Composition::from_json", comp, "from_value", lambda a: app("convert", a), jerr),
            ("Composition::from_str", comp, "from_str", lambda a: app("convert", a), jerr),
            ("Animation::from_slice", anim, "from_slice", ident, ident),
            ("Animation::from_json", anim, "from_value", ident, ident),
            ("Animation::from_str", anim, "from_str", ident, ident)]
    for name, self_, how, f, g_ in todo:
        meth = name.split("::")[-1]
        what = "%s returns the %s of the whole input, or the error" % (name, "conversion" if self_ == comp else "parse")
        c = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and x.get("name") == meth and (x.get("impl_self") or "") == self_
             and x["kind"] == "item"]
        if not c:
            rep.undecided(what, name, "no such function")
            continue
        try:
            r = Run(min(c), opq=opq)
            W = where(r.inst)
            rep.analysed(W)
            x = r.args[0]
            best = None
            outs = [wanted(parsed(h, y), f, g_) for h in ((how, "from_slice") if how == "from_str" else (how,))
                    for y in (x, app("AsRef::as_ref", x), app("str::as_bytes", x), app("as_bytes", x))]
            d = None
            for w in outs:
                d1 = diff(r.value, w)
                if d1 is None:
                    d = None
                    break
                d = d or d1
            if d is None:
                rep.ok(what, W)
                continue
            known = {"convert", "AsRef::as_ref"} | {y for y in unknown_apps(r.value) if y.startswith("parse_")}
            u = unknown_apps(r.value) - KNOWN_APPS - known
            # what an error was is unknown: either answer is possible (a slice or string may be incomplete or malformed)
            if how != "from_value":
                u -= {"Error::is_eof", "Error::is_syntax", "Error::is_data", "Error::classify", "Error::line", "Error::column"}
            used = reached(min(c))
            if how != "from_value" and any("Deserializer" in y and y.rsplit("::", 1)[-1] in ("from_slice", "from_str", "from_reader", "new") for y in used) and \
                    not any(y.rsplit("::", 1)[-1] == "end" and "Deserializer" in y for y in used):
                rep.bad("entry:" + name, what, W, "a serde_json::Deserializer reads one value and nothing checks that the input ends there")
            elif u:
                rep.undecided(what, W, "the analysis has no rule for %s" % ", ".join(sorted(u)))
            else:
                rep.bad("entry:" + name, what, W, explain(d))
        except (Undecided, Unsupported) as e:
            rep.undecided(what, name, str(e))


def fnty(x):
    F = facts()
    b = x["body"]
    return [F.types[l]["s"] for l in b["locals"][1:b["argc"] + 1]], F.types[b["locals"][0]]["s"]


# ================================================================ C34: lists of path keyframes
def keyframe_list_rules(rep):
    """a list of path keyframes in which at most the last one (after another) has no shape of its own is read, complete"""
    F = facts()
    KF = adtpath("ShapeKeyframe")
    want = "Vec<%s>" % KF
    found = [i for i, x in enumerate(F.insts) if x["local"] and x.get("body") and not x.get("trait") and not x.get("impl_trait")
             and re.search(r"Result<(\w+::)*%s, " % re.escape(want), fnty(x)[1] or "") and x["body"]["argc"] == 1 and "{closure" not in x["path"]]
    if not found:
        return  # a derived reader
    what = "a list of path keyframes with their shapes (the last one possibly without) is read completely and in order"
    for ii in found:
        inst = F.insts[ii]
        w = where(inst)
        rep.analysed(inst["path"])
        bad = und = None
        for n in range(4):
            ks = [sym("K%d" % i) for i in range(n)]
            L = seq([tm.one(k) for k in ks])

            def opq(j, x, key, args):
                if x["crate"] in ("serde", "serde_core") and x["path"].endswith("::deserialize") and (
                        want in [F.types[a]["s"] for a in x["args"] if isinstance(a, int)] or "std::vec::Vec<T>>" in x["path"] and KF == F.types[x["args"][0]]["s"]):
                    return lambda c: adt(RES, 0, L)
                if x["crate"] in ("serde", "serde_core"):
                    return key
                return None
            try:
                r = Run(ii, opq=opq)
                base = {mk("isvar", g(k, KF, "start"), 2, OPT): 1 for k in ks}
                last = []
                if n:
                    last = [{**base}]
                if n > 1:
                    last.append({**base, mk("isvar", g(ks[-1], KF, "start"), 2, OPT): 0})
                for lits in last or [{}]:
                    d = diff(assume(r.value, lits), adt(RES, 0, L))
                    if d is not None:
                        if unknown_apps(d[1]) - {"Error::custom", "fmt"}:
                            und = "%s" % sorted(unknown_apps(d[1]))
                        else:
                            bad = bad or "%d keyframes: %s" % (n, json.dumps(explain(d), indent=1))
            except (Undecided, Missing) as e:
                und = str(e)
        if bad:
            rep.bad("keyframe-list:" + inst["path"].split("::")[-1], what, w, bad)
        elif und:
            rep.undecided(what, w, und)
        else:
            rep.ok(what, w)
