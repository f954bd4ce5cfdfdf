"""C29 (no ambient effects) and C30 (shareable immutable data): who-may-call and type-level rules over the whole crate.

The rules look at every function of the crate that is not generated by a derive (closures and promoted constants included) and
at every function item it mentions, called or passed on; at every static; and at the types the trait solver was asked about."""
import re
from .base import *

# foreign functions whose results depend on something other than their arguments, or which act on the outside
FORBIDDEN = [
    (r"^std::(fs|net|env|process|thread|os)::", "%s reaches outside the program"),
    (r"^std::time::(Instant|SystemTime)", "%s reads the clock"),
    (r"std::time::(Instant|SystemTime) as", "%s reads the clock"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint|Stdin|Stdout|Stderr|pipe|copy|read_to_string)", "%s performs I/O"),
    (r"std::io::(Stdin|Stdout|Stderr)\w* as", "%s performs I/O"),
    (r"^std::(io::)?(stdio::)?_e?print$", "%s performs I/O"),
    (r"std::thread::LocalKey", "%s reads thread state"),
    (r"RandomState", "%s is seeded at random"),
    (r"^(rand|getrandom|fastrand|chrono|web_sys|js_sys)::", "%s is ambient"),
    (r"::new_pointer$|std::fmt::Pointer", "%s shows an address"),
    (r"^std::(ptr::hash|hash::RandomState)|^core::ptr::hash", "%s depends on addresses or a random seed"),
    (r"::expose_provenance|::addr$", "%s turns an address into a number"),
    (r"^std::backtrace::|^std::panic::Location", "%s observes the stack"),
    (r"^std::sync::(mpsc|Barrier|Condvar)", "%s synchronises threads"),
]
RS_DEFAULT = re.compile(r"RandomState as (std|core)::default::Default>::default$")
# pure families
PURE = re.compile(r"^(<.* as )?(&|\*|\[|\(|dyn )*('\w+ )?(mut )?(std|core|alloc)::(option|result|vec|string|slice|str|iter|ops|cmp|convert|clone|default|borrow|boxed|"
                  r"num|f32|f64|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|mem|hint|array|char|fmt|ascii|marker|any|error|rc|cell|range|tuple|bool|collections::\w+|"
                  r"primitive|intrinsics|panicking|concat|unicode|hash)::|^(std|core|alloc)::(panicking|concat|must_use)\b|"
                  r"^(std|core|alloc)::ptr::(eq|addr_eq|null|non_null|drop_in_place)\b|^(std|alloc)::sync::(Arc|LazyLock|OnceLock|Weak)\b|^<(std|alloc)::sync::(Arc|LazyLock|OnceLock|Weak)\b")
PURE_CRATES = {"kurbo", "peniko", "color", "serde", "serde_core", "serde_json", "serde_repr", "arrayvec", "smallvec", "thiserror", "vello", "vello_encoding"}
VELLO_OK = re.compile(r"vello(_encoding)?::Scene\b|vello_encoding::")
HASH_TY = re.compile(r"(std|hashbrown)::(collections::)?(hash::)?(map::|set::)?Hash(Map|Set)\b|hash_map::|hash_set::")
HASH_ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "extract_if", "difference",
             "union", "intersection", "symmetric_difference"}
MUTABLE = re.compile(r"\b(std|core)::(cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|sync::(Mutex|RwLock|OnceLock|ReentrantLock|Condvar|Barrier|"
                     r"atomic::\w+|poison::\w+::\w+|nonpoison::\w+))\b|\bAtomic(U8|U16|U32|U64|Usize|I8|I16|I32|I64|Isize|Bool|Ptr)\b")
# foreign types holding only shared, immutable data behind a pointer to an opaque type
OPAQUE_OK = {"peniko::ImageData", "serde_json::Error"}
ORDERED = re.compile(r"(Vec::<T.*>::(push|insert|extend_from_slice|append)|Vec<T.*> as std::iter::(Extend|FromIterator)|"
                     r"String(::push|.*FromIterator|.*Extend)|VecDeque|RenderSink::|"
                     r"Iterator::(next|find|find_map|position|last|nth|fold|for_each|try_fold|try_for_each|reduce|collect|min_by|max_by|min_by_key|max_by_key|zip|take|skip|enumerate|partition|unzip|flat_map)$)")
SORTING = re.compile(r"sort|BTreeMap|BTreeSet|BinaryHeap")


def mentions(F, x):
    """function items mentioned anywhere in a piece of MIR"""
    if isinstance(x, dict):
        t = x.get("t")
        if isinstance(t, int) and 0 <= t < len(F.types) and F.types[t]["k"] == "fndef":
            yield t
        for v in x.values():
            yield from mentions(F, v)
    elif isinstance(x, list):
        for v in x:
            yield from mentions(F, v)


def casts(x):
    if isinstance(x, list):
        if len(x) > 1 and x[0] == "cast" and isinstance(x[1], str):
            yield x[1]
        for v in x:
            yield from casts(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from casts(v)


def bodies(i):
    return [i["body"]] + [p for p in i.get("promoted") or [] if p]


def family(path):
    """a closure belongs to the function it is written in"""
    return path.split("::{closure")[0]


def sp(x):
    return ":".join(str(p) for p in x) if isinstance(x, list) else str(x)


def effects_rules(rep):
    F = facts()
    fns = [(n, i) for n, i in enumerate(F.insts) if i["local"] and i.get("body") and not i.get("derived") and "::_::" not in i["path"]]
    seen = {}
    for n, i in fns:
        seen.setdefault(i["path"], (n, i))
    rep.analysed(*sorted(seen))
    # ---- unsafe code
    un = [u for u in F.d["unsafe"]]
    if not un:
        rep.ok("no unsafe block in the crate")
    for u in un:
        rep.bad("unsafe-block:%s" % u["fn"], "the library uses no unsafe code", "%s (%s)" % (u["fn"], sp(u["span"])), "unsafe block")
    uf = [i for _, i in seen.values() if i.get("unsafe")]
    for i in uf:
        rep.bad("unsafe-fn:%s" % i["path"], "the library uses no unsafe code", where(i), "unsafe fn")
    ui = [i for i in F.impls if i["unsafe"] and not i["derived"]]
    for i in ui:
        rep.bad("unsafe-impl:%s:%s" % (i["trait"], i["self"]), "the library uses no unsafe code", "impl %s for %s (%s)" % (i["trait"], i["self"], sp(i["span"])), "unsafe impl")
    if not uf and not ui:
        rep.ok("no unsafe function or implementation (derives excluded)", "", len(seen))
    # ---- statics
    for s in F.d["items"]:
        w = "%s (%s)" % (s["static"], sp(s["span"]))
        ty = s["ty"]
        held = [a["path"] for a in F.adts if a["local"] and a["path"] in ty and [x for x in (a.get("interior") or []) if x not in OPAQUE_OK and MUTABLE.search(x)]]
        once = re.match(r"^(std|core)::(sync::OnceLock|cell::OnceCell)<", ty)
        body = ty[ty.index("<") + 1:] if once else ty
        if s["mut"] or s["tls"]:
            rep.bad("static:%s" % s["static"], "no mutable global state", w, "static mut" if s["mut"] else "thread-local static")
        elif MUTABLE.search(body) or held:
            rep.bad("static:%s" % s["static"], "no mutable global state", w, "static of type %s" % ty)
        elif once:
            rep.undecided("no mutable global state", w, "write-once static")
        else:
            rep.ok("static %s is never written after its initialisation, which takes no input" % s["static"], w)
    # ---- callees
    n = 0
    seenbad = set()
    iters = {}
    for path, (ni, i) in sorted(seen.items()):
        calls = set()
        for b in bodies(i):
            for t in mentions(F, b["blocks"]):
                calls.add(t)
            for c in casts(b["blocks"]):
                if c.startswith("PointerExposeProvenance") or c == "PointerExposeAddress":
                    rep.bad("address:%s" % path, "results do not depend on addresses", where(i), "a pointer is turned into a number")
        for t in sorted(calls):
            x = F.types[t]
            j = F.insts[x["inst"]] if x.get("inst") is not None else None
            if j is not None and j["local"]:
                continue
            p = j["path"] if j is not None else x["path"]
            full = x["s"][x["s"].rindex("{") + 1:-1] if "{" in x["s"] else p
            crate = j["crate"] if j is not None else x["path"].split("::")[0]
            n += 1
            hit = None
            for rx, why in FORBIDDEN:
                if re.search(rx, p) or re.search(rx, full.split("<")[0]) or "RandomState" in rx and re.match(r"^<?std::hash::(random::)?RandomState", full):
                    if not (RS_DEFAULT.search(p) or p.endswith("BuildHasher>::build_hasher")) or "RandomState as" in p:
                        hit = why % p
                        break
            if hit:
                k = "effect:%s:%s" % (family(path), p)
                if k not in seenbad:
                    seenbad.add(k)
                    rep.bad(k, "results depend only on the inputs, and nothing is done to the outside", where(i), hit)
                continue
            name = p.rsplit("::", 1)[-1]
            selfty = F.types[x["args"][0]]["s"] if x.get("args") and isinstance(x["args"][0], int) else ""
            if HASH_TY.search(p) and name in HASH_ITER or name in ("into_iter", "next") and HASH_TY.search(selfty) or \
                    re.search(r"Hash(Map|Set)<.*> as (std|core)::(iter::IntoIterator|fmt::Debug)", p) or \
                    name in ("new_debug", "collect") and re.match(r"^[&\s]*(mut )?std::collections::(hash::\w+::)?Hash", selfty):
                iters.setdefault(family(path), []).append((p, i))
                continue
            if j is None and (x.get("trait") or "").split("::")[0] in ("std", "core", "alloc", "serde", "serde_core"):
                continue  # a method of a type parameter, whatever its implementation
            if crate in PURE_CRATES and (crate not in ("vello", "vello_encoding") or VELLO_OK.search(p)):
                continue
            if crate in ("std", "core", "alloc", "hashbrown") and (PURE.search(p) or re.match(r"^<&?('\w+ )?(mut )?(\[?T\b|\w+|\[.*\]|\(.*\)|fn\b.*|\*.*) as ", p)):
                continue
            if F.adt_by_path.get(x["path"].rsplit("::", 1)[0], {}).get("local") or x["path"].startswith(("runtime::", "schema::", "import::", "util::")):
                continue  # constructors and unresolved methods of the crate's own traits
            rep.undecided("results depend only on the inputs", where(i), "the effects of %s are not known" % p)
    rep.ok("foreign functions the crate mentions are free of ambient effects", "", n)
    # ---- hash iteration order
    sites = 0
    for fam, l in sorted(iters.items()):
        names = []
        for path, (ni, i) in seen.items():
            if family(path) == fam:
                for b in bodies(i):
                    for t in mentions(F, b["blocks"]):
                        x = F.types[t]
                        j = F.insts[x["inst"]] if x.get("inst") is not None else None
                        names.append((j["path"] if j is not None else x["path"]) + " " + x["s"])
        w = where(l[0][1])
        what = "the iteration order of a hash table is never observable"
        if any(SORTING.search(m) for m in names):
            rep.undecided(what, w, "%s, then sorted" % l[0][0])
        elif any(ORDERED.search(m.split(" ")[0]) or re.search(r"Iterator::(collect|extend).*Vec", m) or
                 re.search(r"hash_(map|set)::\w+<.*> as std::iter::Iterator>::next", m) and any(re.search(r"Vec::<T.*>::push|RenderSink::|vello", q) for q in names)
                 for m in names if not HASH_TY.search(m.split(" ")[0]) or "next" in m):
            rep.bad("hash-order:%s" % fam, what, w, "%s feeds an order-sensitive use in the same function" % l[0][0])
        else:
            rep.undecided(what, w, "%s" % l[0][0])
        sites += 1
    if not iters:
        rep.ok("no hash table is iterated", "", len(seen))
    # ---- hash tables in serialised types
    bad = False
    ser = {i["adt"] for i in F.impls if (i["trait"] or "").endswith("::Serialize") and i["adt"]}
    for a in F.adts:
        if a["local"] and a["path"] in ser:
            for v in a["variants"]:
                for f in v["f"]:
                    if f.get("ty") and HASH_TY.search(f["ty"]):
                        bad = True
                        rep.bad("hash-serialised:%s.%s" % (a["path"], f["n"]), "what is written does not depend on hash order", a["path"], "%s: %s" % (f["n"], f["ty"]))
    if not bad:
        rep.ok("no serialised type holds a hash table", "", len(ser))


def sharing_rules(rep):
    F = facts()
    n = 0
    for a in F.adts:
        if not a["local"] or "send" not in a or "::deserialize::" in a["path"]:
            continue
        inm = [x for x in a["interior"] if x not in OPAQUE_OK]
        pub = a["pub"]
        kind = "public" if pub else "private"
        w = "%s (%s)" % (a["path"], sp(a["span"]))
        if not pub:
            continue
        n += 1
        for nm in ("send", "sync"):
            if a[nm] is False:
                rep.bad("%s:%s" % (nm, a["path"]), "%s is %s" % (a["path"], nm.capitalize()), w, "the trait solver does not find %s" % nm.capitalize())
            elif a[nm] is None:
                rep.undecided("%s is %s" % (a["path"], nm.capitalize()), w)
            else:
                rep.ok("%s is %s" % (a["path"], nm.capitalize()), w)
        if not inm:
            rep.ok("%s holds no interior mutability" % a["path"], w)
        else:
            model = a["path"].startswith(("runtime::model", "runtime::Composition"))
            std = [x for x in inm if MUTABLE.search(x)]
            if std and model:
                rep.bad("interior:%s" % a["path"], "%s holds no interior mutability" % a["path"], w, "contains %s" % ", ".join(std))
            elif model:
                rep.undecided("%s holds no interior mutability" % a["path"], w, "contains %s" % ", ".join(inm))
    bad = False
    for i in F.impls:
        if (i["trait"] or "").rsplit("::", 1)[-1] in ("Send", "Sync", "Freeze") and i["unsafe"]:
            bad = True
            rep.bad("unsafe-impl:%s:%s" % (i["trait"], i["self"]), "thread safety follows from the fields", "impl %s for %s (%s)" % (i["trait"], i["self"], sp(i["span"])), "unsafe impl")
    if not bad:
        rep.ok("no hand-written Send or Sync implementation")
    un = F.d["unsafe"]
    if not un:
        rep.ok("no unsafe block could write through a shared reference")
    for u in un:
        rep.undecided("shared references are never written through", "%s (%s)" % (u["fn"], sp(u["span"])), "unsafe block")
    # ---- evaluation and rendering take the model by shared reference
    model = {a["path"] for a in F.adts if a["local"] and a["path"].startswith(("runtime::model::", "runtime::Composition")) and not a["path"].startswith("runtime::model::fixed")}
    for ii, i in enumerate(F.insts):
        if not (i["local"] and i.get("pub") and i.get("body") and i["path"].startswith("runtime::")):
            continue
        nm = i.get("name") or ""
        if not (nm.startswith(("evaluate", "render", "append", "is_fixed"))):
            continue
        b = i["body"]
        for k in range(b["argc"]):
            t = F.types[b["locals"][k + 1]]
            if t["k"] == "ref" and t.get("mut"):
                h = F.types[t["t"]]
                if h["k"] == "adt" and h["path"] in model:
                    rep.bad("exclusive:%s" % i["path"], "evaluation and rendering take the model by shared reference", where(i), "takes %s" % t["s"])
                    break
        else:
            rep.ok("takes the model by shared reference", where(i))
        rep.analysed(i["path"])
