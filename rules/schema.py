"""The JSON form of every schema type, derived from the type definitions and their serde attributes.

The derive macros of serde and serde_repr generate code from exactly these attributes, so the attributes (as the compiler sees them,
after macro expansion and cfg evaluation) decide which key is read into which field and what is written."""
import re
from . import base
from .base import facts, Missing, Undecided


class Unknown(Undecided):
    """an attribute or a type whose JSON form is not known to the rules"""


# ---------------------------------------------------------------- Rust type syntax
class Ty:
    def __init__(self, head, args):
        self.head, self.args = head, args

    @property
    def short(self):
        return self.head.split("::")[-1]

    def __str__(self):
        if self.head == "[;]":
            return "[%s; %s]" % (self.args[0], self.args[1])
        if self.head == "[]":
            return "[%s]" % self.args[0]
        if self.head == "()":
            return "(%s)" % ", ".join(map(str, self.args))
        return self.short + ("<%s>" % ", ".join(map(str, self.args)) if self.args else "")


def parse_ty(s):
    toks = re.findall(r"[\w:]+|'\w+|[<>\[\](),;&*]|=|\+|-|\S", s)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def eat():
        pos[0] += 1
        return toks[pos[0] - 1]

    def ty():
        t = eat()
        if t == "[":
            a = ty()
            if peek() == ";":
                eat()
                n = eat()
                if peek() == "]":
                    eat()
                    return Ty("[;]", [a, Ty(n, [])])
                raise Unknown("type " + s)
            if eat() != "]":
                raise Unknown("type " + s)
            return Ty("[]", [a])
        if t == "(":
            xs = []
            while peek() != ")":
                if peek() is None:
                    raise Unknown("type " + s)
                xs.append(ty())
                if peek() == ",":
                    eat()
            eat()
            return Ty("()", xs)
        if not re.match(r"[\w:]+$", t):
            raise Unknown("type " + s)
        args = []
        if peek() == "<":
            eat()
            while peek() != ">":
                if peek() is None:
                    raise Unknown("type " + s)
                if peek().startswith("'"):
                    eat()
                else:
                    args.append(ty())
                if peek() == ",":
                    eat()
            eat()
        return Ty(t, args)
    r = ty()
    if pos[0] != len(toks):
        raise Unknown("type " + s)
    return r


def subst(t, env):
    if not t.args and t.head in env:
        return env[t.head]
    return Ty(t.head, [subst(a, env) for a in t.args])


def same(a, b):
    """equal, comparing paths by their last component"""
    return str(a).replace(" ", "") == str(b).replace(" ", "")


# ---------------------------------------------------------------- serde attributes
CASES = {
    "lowercase": (lambda w: w.lower(), "v"), "UPPERCASE": (lambda w: w.upper(), "v"),
}


def rename_variant(rule, v):
    if rule == "lowercase":
        return v.lower()
    if rule == "UPPERCASE":
        return v.upper()
    if rule == "PascalCase":
        return v
    if rule == "camelCase":
        return v[:1].lower() + v[1:]
    sn = ""
    for i, c in enumerate(v):
        if i and c.isupper():
            sn += "_"
        sn += c.lower()
    return _tail(rule, sn)


def _tail(rule, sn):
    if rule == "snake_case":
        return sn
    if rule == "SCREAMING_SNAKE_CASE":
        return sn.upper()
    if rule == "kebab-case":
        return sn.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return sn.upper().replace("_", "-")
    raise Unknown("serde rename_all = %r" % rule)


def rename_field(rule, f):
    if rule in ("lowercase", "snake_case"):
        return f
    if rule == "UPPERCASE":
        return f.upper()
    if rule in ("PascalCase", "camelCase"):
        p = "".join(x[:1].upper() + x[1:] for x in f.split("_"))
        return p if rule == "PascalCase" else p[:1].lower() + p[1:]
    return _tail(rule, f)


def metas(attrs):
    out = []
    for q in attrs or []:
        if q["a"] != "serde":
            continue
        m = q["m"]
        if m is None or "p" not in m:
            raise Unknown("serde attribute %r" % (m,))
        out.append((m["p"], m["v"]))
    return out


def two(v):
    """(serialize, deserialize) of name = "x" or name(serialize = .., deserialize = ..)"""
    if isinstance(v, str):
        return v, v, []
    s = d = None
    al = []
    for m in v or []:
        if m.get("p") == "serialize":
            s = m["v"]
        elif m.get("p") == "deserialize":
            if d is None:
                d = m["v"]
            else:
                al.append(m["v"])
        else:
            raise Unknown("serde attribute %r" % (v,))
    return s, d, al


class Entry:
    """one field or variant, with its names in JSON"""
    def __init__(self, owner, name):
        self.owner, self.name = owner, name
        self.ser = self.de = name
        self.alias = []
        self.flatten = self.skip_ser = self.skip_de = self.other = self.untagged = False
        self.skip_if = self.default = self.ser_with = self.de_with = None
        self.ty = None

    @property
    def keys(self):
        return [self.de] + self.alias

    def __str__(self):
        return "%s.%s" % (self.owner, self.name)


def entry(owner, name, attrs, rule_s, rule_d, is_variant):
    e = Entry(owner, name)
    rn = rename_variant if is_variant else rename_field
    if rule_s:
        e.ser = rn(rule_s, name)
    if rule_d:
        e.de = rn(rule_d, name)
    for p, v in metas(attrs):
        if p == "rename":
            s, d, al = two(v)
            e.ser = s if s is not None else e.ser
            e.de = d if d is not None else e.de
            e.alias += al
        elif p == "alias":
            e.alias.append(v)
        elif p == "flatten":
            e.flatten = True
        elif p == "default":
            e.default = v or "Default"
        elif p == "skip":
            e.skip_ser = e.skip_de = True
        elif p == "skip_serializing":
            e.skip_ser = True
        elif p == "skip_deserializing":
            e.skip_de = True
        elif p == "skip_serializing_if":
            e.skip_if = v
        elif p == "serialize_with":
            e.ser_with = v
        elif p == "deserialize_with":
            e.de_with = v
        elif p == "with":
            e.ser_with, e.de_with = v + "::serialize", v + "::deserialize"
        elif p == "other":
            e.other = True
        elif p == "bound" or p == "borrow":
            pass
        else:
            raise Unknown("serde attribute %s on %s" % (p, e))
    return e


class Type:
    """JSON form of one struct or enum"""
    def __init__(self, a):
        self.a = a
        self.path = a["path"]
        self.short = self.path.split("::")[-1]
        self.kind = a["kind"]
        F = facts()
        self.de_impl = self.ser_impl = None
        for i in F.impls:
            if i["adt"] == self.path and i["trait"] in ("serde::Deserialize", "serde::Serialize"):
                how = "repr" if "_repr" in i["expn"] else ("derive" if i["derived"] else "manual")
                if i["trait"] == "serde::Deserialize":
                    self.de_impl = how
                else:
                    self.ser_impl = how
        self.untagged = self.deny = False
        self.tag = self.content = None
        self.default = None
        self.transparent = False
        rs = rd = fs = fd = None
        self.bad = None
        for p, v in metas(a["attrs"]):
            if p == "untagged":
                self.untagged = True
            elif p == "tag":
                self.tag = v
            elif p == "content":
                self.content = v
            elif p == "rename_all":
                rs, rd, _ = two(v)
            elif p == "rename_all_fields":
                fs, fd, _ = two(v)
            elif p == "deny_unknown_fields":
                self.deny = True
            elif p == "default":
                self.default = v or "Default"
            elif p == "transparent":
                self.transparent = True
            elif p in ("bound", "crate", "expecting", "rename"):
                pass
            else:
                self.bad = "serde attribute %s on %s" % (p, self.short)
        self.variants = []
        for v in a["variants"]:
            if self.kind == "struct":
                ve = Entry(self.short, self.short)
                r1, r2 = rs, rd
            else:
                ve = entry(self.short, v["n"], v["attrs"], rs, rd, True) if not any(
                    p in ("rename_all",) for p, _ in metas(v["attrs"])) else None
                r1, r2 = fs, fd
                if ve is None:
                    at = [q for q in v["attrs"] if (q["m"] or {}).get("p") != "rename_all"]
                    ve = entry(self.short, v["n"], at, rs, rd, True)
                    r1, r2, _ = two([x for p, x in metas(v["attrs"]) if p == "rename_all"][0])
            ve.d = int(v["d"]) if v.get("d") is not None else None
            ve.ctor = v.get("ctor")
            ve.fields = []
            for f in v["f"]:
                fe = entry(self.short, f["n"], f["attrs"], r1, r2, False)
                fe.ty = parse_ty(f["ty"])
                fe.span = f.get("span")
                if self.default and not fe.default:
                    fe.default = "container"
                ve.fields.append(fe)
            self.variants.append(ve)
        self.span = a.get("span")

    @property
    def fields(self):
        return self.variants[0].fields

    def usable(self, which):
        how = self.de_impl if which == "de" else self.ser_impl
        if self.bad:
            raise Unknown(self.bad)
        if how is None:
            raise Missing("%s implementation of %s" % ("Deserialize" if which == "de" else "Serialize", self.short))
        if how == "manual":
            raise Unknown("%s has a hand-written %s implementation" % (self.short, "Deserialize" if which == "de" else "Serialize"))
        return how


_T = {}


def types():
    if not _T:
        F = facts()
        impl = {i["adt"] for i in F.impls if i["trait"] in ("serde::Deserialize", "serde::Serialize") and "::_::" not in i["self"]}
        for a in F.adts:
            if a["local"] and "::_::" not in a["path"] and a["path"] in impl:
                try:
                    _T[a["path"]] = Type(a)
                except Unknown as e:
                    t = Type.__new__(Type)
                    t.a, t.path, t.short, t.bad, t.kind = a, a["path"], a["path"].split("::")[-1], str(e), a["kind"]
                    t.variants, t.untagged, t.tag, t.de_impl, t.ser_impl, t.span = [], False, None, "derive", "derive", a.get("span")
                    _T[a["path"]] = t
    return _T


def by_short(n):
    c = [t for t in types().values() if t.short == n]
    if len(c) != 1:
        raise Missing("schema type %s (%d candidates)" % (n, len(c)))
    return c[0]


def type_of(ty):
    """(Type, type arguments environment) of an ADT type, or None"""
    t = types().get(ty.head)
    if t is None:
        return None
    return t, dict(zip(t.a.get("generics") or [], ty.args))


def unbox(ty):
    while ty.short in ("Box", "Rc", "Arc") and len(ty.args) == 1:
        ty = ty.args[0]
    return ty


def is_opt(ty):
    return unbox(ty).short == "Option"


def may_be_absent(e):
    """reading succeeds when the key is not there"""
    return e.skip_de or e.default is not None or (is_opt(e.ty) and not e.de_with)


INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i8": (-128, 127),
        "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}
ANY = frozenset(["null", "bool", "num", "str", "arr", "obj"])


def kinds(ty, which, seen=()):
    """kinds of JSON values written for (which = 'ser') or possibly accepted by (which = 'de') a type"""
    ty = unbox(ty)
    h = ty.short
    if h == "Option":
        return kinds(ty.args[0], which, seen) | {"null"}
    if h in INTS or h in ("f64", "f32"):
        # non-finite numbers are written as null, but no JSON text parses to one
        return frozenset(["num"])
    if h == "bool":
        return frozenset(["bool"])
    if h in ("String", "str", "char", "Cow"):
        return frozenset(["str"])
    if h in ("Vec", "VecDeque", "HashSet", "BTreeSet") or ty.head in ("[]", "[;]", "()"):
        return frozenset(["arr"])
    if h in ("HashMap", "BTreeMap", "Map", "IndexMap"):
        return frozenset(["obj"])
    if h == "Value" and "serde_json" in ty.head:
        return ANY
    r = type_of(ty)
    if r is None:
        raise Unknown("JSON form of type %s" % ty)
    t, env = r
    if ty.head in seen:
        return ANY
    how = t.usable(which)
    if how == "repr":
        return frozenset(["num"])
    if t.kind == "struct":
        if t.transparent or (t.fields and t.fields[0].name == "0" and len(t.fields) == 1):
            return kinds(subst(t.fields[0].ty, env), which, seen + (ty.head,))
        if t.fields and t.fields[0].name == "0":
            return frozenset(["arr"])
        if which == "de" and not any(f.flatten for f in t.fields):
            return frozenset(["obj", "arr"])
        return frozenset(["obj"])
    if t.untagged:
        out = frozenset()
        for v in t.variants:
            out |= vkinds(t, v, env, which, seen + (ty.head,))
        return out
    if t.tag:
        return frozenset(["obj"] + (["arr"] if which == "de" else []))
    if all(not v.fields for v in t.variants):
        return frozenset(["str"] + (["obj"] if which == "de" else []))
    return frozenset(["str", "obj"])


def vkinds(t, v, env, which, seen=()):
    """kinds of the content of one variant of an untagged enum"""
    if v.de_with and which == "de" and len(v.fields) == 1:
        return kinds(subst(v.fields[0].ty, env), "ser", seen)
    if not v.fields:
        return frozenset(["null"])
    if v.fields[0].name == "0":
        if len(v.fields) == 1:
            return kinds(subst(v.fields[0].ty, env), which, seen)
        return frozenset(["arr"])
    return frozenset(["obj"] + (["arr"] if which == "de" and not any(f.flatten for f in v.fields) else []))


# ---------------------------------------------------------------- effective objects
class Prop:
    """a property of a JSON object as read or written, with the chain of flattened fields leading to it"""
    def __init__(self, e, chain, ty):
        self.e, self.chain, self.ty = e, chain, ty

    @property
    def where(self):
        return ".".join(self.chain + [self.e.name])


def consumes(t):
    """a flattened struct without flattened fields of its own takes its keys away from later siblings"""
    return not any(f.flatten for f in t.fields)


def props(t, env=None, fields=None, chain=()):
    """all properties of the object form of struct type t, own fields first"""
    env = env or {}
    fields = t.fields if fields is None else fields
    out = []
    for f in fields:
        if not f.flatten:
            out.append(Prop(f, list(chain), subst(f.ty, env)))
    for f in fields:
        if f.flatten:
            if f.de_with or f.ser_with or f.skip_if or f.default or f.skip_ser or f.skip_de:
                raise Unknown("%s is flattened with further attributes" % f)
            ft = unbox(subst(f.ty, env))
            r = type_of(ft)
            if r is None or r[0].kind != "struct":
                raise Unknown("flattened %s of type %s" % (f, ft))
            r[0].usable("de")
            r[0].usable("ser")
            out += props(r[0], r[1], None, list(chain) + [f.name])
    return out
