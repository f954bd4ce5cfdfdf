"""Abstract interpreter over MIR: computes, for every place, a hash-consed value term (gated value numbering).

Joins merge with decision diagrams instead of enumerating paths; loops are summarised (linear induction,
comprehensions, element-wise maps, last values, general scans); calls are inlined, modelled or kept opaque.
Nothing is executed and no solver is consulted."""
from fractions import Fraction as Fr
import struct
from . import terms as tm
from .terms import *
from .bounds import heavy

INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def unclipped(x):
    """x up to negative values, which become 0 in an unsigned integer anyway"""
    if x.op == "app" and x.a[0] == "fmax":
        r = [a for a in x.a[1:] if not (a.op == "num" and a.a[0] <= 0)]
        if len(r) == 1:
            return unclipped(r[0])
    if x.op == "app" and x.a[0] in ("f64::round", "f64::floor", "f64::trunc"):
        y = unclipped(x.a[1])
        return x if y is x.a[1] else mk("app", x.a[0], y)
    return x


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("pc", "c")

    def __init__(self, pc, c):
        self.pc = pc
        self.c = c

    def copy(self):
        return St(self.pc, dict(self.c))


class Obl:
    """A proof obligation met on the way: `cond` must hold whenever `pcs` hold."""
    __slots__ = ("kind", "fn", "sp", "cond", "pcs", "info", "stack")

    def __init__(self, kind, fn, sp, cond, pcs, info, stack):
        self.kind, self.fn, self.sp, self.cond, self.pcs, self.info, self.stack = kind, fn, sp, cond, pcs, info, stack


class CFG:
    def __init__(self, body):
        self.body = body
        n = len(body["blocks"])
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(body["blocks"]):
            if b is None:
                continue
            self.succ[i] = [s for s in self._succ(b["t"]) if s is not None and body["blocks"][s] is not None]
        # rpo
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        self.back = set()
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    self.back.add((b, s))
                elif s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                stack.pop()
                onstack.discard(b)
                order.append(b)
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {}
        for b in self.rpo:
            for s in self.succ[b]:
                pred.setdefault(s, []).append(b)
        self.loops = {}
        for b, h in self.back:
            body_ = self.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body_:
                    continue
                body_.add(x)
                st.extend(pred.get(x, []))
        self.reads = None
        self._live()

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]]
        if k == "assert":
            return [t[5]]
        return []

    def _live(self):
        """locals live at each block entry (borrowed locals count as always live)"""
        body = self.body
        borrowed = set()
        use, de = {}, {}

        def plocals(p, out):
            out.add(p[0])
            for e in p[1:]:
                if e[0] == "[]":
                    out.add(e[1])

        def op(o, out):
            if o[0] in ("cp", "mv"):
                plocals(o[1], out)

        def rv(r, out):
            k = r[0]
            if k == "use":
                op(r[1], out)
            elif k in ("ref", "reborrow", "rawptr"):
                p = r[-1]
                plocals(p, out)
                if not any(e[0] == "*" for e in p[1:]):
                    borrowed.add(p[0])
            elif k in ("cast",):
                for x in r[1:]:
                    if isinstance(x, list) and x and x[0] in ("cp", "mv"):
                        op(x, out)
            elif k == "discr":
                plocals(r[1], out)
            else:
                for x in r[1:]:
                    if isinstance(x, list):
                        if x and x[0] in ("cp", "mv") and isinstance(x[0], str):
                            op(x, out)
                        else:
                            for y in x:
                                if isinstance(y, list) and y and y[0] in ("cp", "mv"):
                                    op(y, out)
        for b in self.rpo:
            blk = body["blocks"][b]
            u, d = set(), set()
            for s in blk["s"]:
                if s[0] == "=":
                    out = set()
                    rv(s[2], out)
                    if len(s[1]) > 1:
                        plocals(s[1], out)
                    u |= out - d
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == "setd":
                    u |= {s[1][0]} - d
            t = blk["t"]
            out = set()
            if t[0] == "switch":
                op(t[1], out)
            elif t[0] == "call":
                op(t[1], out)
                for a in t[2]:
                    op(a, out)
                if len(t[3]) > 1:
                    plocals(t[3], out)
            elif t[0] == "assert":
                op(t[1], out)
                for o in t[4]:
                    op(o, out)
            elif t[0] == "ret":
                out.add(0)
            u |= out - d
            if t[0] == "call" and len(t[3]) == 1:
                d.add(t[3][0])
            use[b], de[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live.get(s, set())
                n = use[b] | (o - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.borrowed = borrowed


class Frame:
    _n = [0]

    def __init__(self, ii, inst, body, cfg):
        Frame._n[0] += 1
        self.uid = Frame._n[0]
        self.ii, self.inst, self.body, self.cfg = ii, inst, body, cfg

    def cell(self, l):
        return (self.uid, l)


class Interp:
    def __init__(self, facts):
        self.F = facts
        self.cfgs = {}
        self.models = {}
        self.opaque = {}       # key or predicate results: inst index -> name
        self.opaque_pred = None
        self.rec_handler = None
        self.concrete = 0      # longest loop followed iteration by iteration although its length is not that of a known list
        self.call_hook = None
        self.stack = []        # active frames (inst identity)
        self.obls = None       # current obligation list
        self.ran = set()       # instances executed
        self.loop_before = False  # obligations in loops may use that the previous iteration went on
        self.memo = {}
        self.unknown = set()   # external functions treated as opaque
        self.loops_log = []
        self.calls_log = {}
        self.steps = 0
        self.cellinit = {}
        self.mute = 0
        from . import models
        models.install(self)

    # ---------------------------------------------------------------- entry
    def cfg(self, ii):
        c = self.cfgs.get(ii)
        if c is None:
            c = self.cfgs[ii] = CFG(self.F.insts[ii]["body"])
        return c

    def run(self, ii, args, cells=None):
        """analyse instance ii on argument terms; returns (value, cells, obligations, pc)"""
        self.obls = []
        st = St(TRUE, dict(cells or {}))
        v = self.invoke(ii, args, st)
        return v, st.c, self.obls, st.pc

    # ---------------------------------------------------------------- memory
    def load(self, st, ref):
        """value behind a reference term"""
        if ref.op == "mref":
            v = st.c.get(ref.a[0], UNDEF)
            for e in ref.a[1:]:
                v = self.proj(v, e)
            return v
        if ref.op == "case":
            if any(k.op in ("mref", "case") for k in ref.a[1:]):
                return case2(ref.a[0], [self.load(st, k) for k in ref.a[1:]])
        return ref

    def proj(self, v, e):
        if isinstance(e, T):
            if e.op == "rng":
                return slice_(v, e.a[0], e.a[1])
            return at(v, e)
        if v.op == "mref" and e[3].split("::")[-1] in ("Box", "Unique", "NonNull"):
            return v  # the pointer inside a box
        return fld(v, e[1], e[2], e[3])

    def store(self, st, ref, v):
        if ref.op == "mref":
            cell = ref.a[0]
            st.c[cell] = self.updpath(st.c.get(cell, UNDEF), ref.a[1:], v)
            return
        if ref.op == "case" and any(k.op in ("mref", "case") for k in ref.a[1:]):
            old = dict(st.c)
            outs = []
            for k in ref.a[1:]:
                s2 = St(st.pc, dict(old))
                if k is not UNDEF:
                    self.store(s2, k, v)
                outs.append(s2.c)
            keys = set()
            for o in outs:
                keys |= set(o)
            for k in keys:
                vals = [o.get(k, UNDEF) for o in outs]
                if any(x is not vals[0] for x in vals):
                    st.c[k] = case2(ref.a[0], [x if kk is not UNDEF else UNDEF for x, kk in zip(vals, ref.a[1:])])
            return
        if ref is UNDEF:
            return
        # writing through an opaque pointer: only allowed for unknown raw memory
        self.note("opaque-store", ref)

    def updpath(self, base, path, v):
        if not path:
            return v
        e = path[0]
        if isinstance(e, T):
            if e.op == "rng":
                inner = slice_(base, e.a[0], e.a[1])
                n = self.updpath(inner, path[1:], v)
                if n is inner:
                    return base
                return seq([slice_(base, ZERO, e.a[0]), n, slice_(base, e.a[1], len_(base))])
            inner = at(base, e)
            return upd(base, e, self.updpath(inner, path[1:], v))
        _, var, i, p, nf = e
        inner = fld(base, var, i, p) if base is not UNDEF else UNDEF
        return setfld(base, var, i, p, self.updpath(inner, path[1:], v), nf)

    def note(self, what, x):
        self.unknown.add((what, show(x)[:80] if isinstance(x, T) else str(x)))

    # place -> reference term (mref to cell/path) or a transparent value
    def fstep(self, e):
        _, fi, var, bt, ft = e
        t = self.F.types[bt]
        if t["k"] == "adt":
            path = t["path"]
            var = var or 0
            return ("f", var, fi, path, ADT_FIELDS.get((path, var), fi + 1))
        if t["k"] == "tuple":
            return ("f", 0, fi, "()", len(t["ts"]))
        if t["k"] == "closure":
            return ("f", 0, fi, "{clo}", len(t.get("up") or []) or fi + 1)
        return ("f", var or 0, fi, t["s"], fi + 1)

    def lval(self, fr, st, place):
        ref = mk("mref", fr.cell(place[0]))
        tid = fr.body["locals"][place[0]]
        for e in place[1:]:
            k = e[0]
            if k == "*":
                t = self.F.types[tid]
                cur = self.load(st, ref)
                if self._isref(cur):
                    ref = cur
                # Box / shared ref: transparent
                tid = self._deref_ty(tid)
            elif k == ".":
                ref = self._ext(ref, self.fstep(e))
                tid = e[4]
            elif k == "[]":
                ref = self._ext(ref, st.c.get(fr.cell(e[1]), UNDEF))
                tid = self._elem_ty(tid)
            elif k == "[c]":
                idx = num(e[1])
                if e[3]:
                    idx = sub(len_(self.load(st, ref)), num(e[1]))
                ref = self._ext(ref, idx)
                tid = self._elem_ty(tid)
            elif k == "[..]":
                L = len_(self.load(st, ref))
                to = sub(L, num(e[2])) if e[3] else num(e[2])
                ref = self._ext(ref, mk("rng", num(e[1]), to))
            # "as", "cast": no-op
        return ref

    def _isref(self, v):
        return v.op == "mref" or (v.op == "case" and any(k.op in ("mref", "case") and (k.op == "mref" or self._isref(k)) for k in v.a[1:]))

    def _ext(self, ref, e):
        if ref.op == "case":
            return case2(ref.a[0], [self._ext(k, e) if k is not UNDEF else UNDEF for k in ref.a[1:]])
        if ref.op != "mref":
            return ref
        last = ref.a[-1]
        if isinstance(e, T) and len(ref.a) > 1 and isinstance(last, T) and last.op == "rng":
            if e.op == "rng":
                e = mk("rng", add(last.a[0], e.a[0]), add(last.a[0], e.a[1]))
            else:
                e = lift("add", add, last.a[0], e)
            return mk("mref", *(ref.a[:-1] + (e,)))
        return mk("mref", *(ref.a + (e,)))

    def _deref_ty(self, tid):
        t = self.F.types[tid]
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        return tid

    def _elem_ty(self, tid):
        t = self.F.types[tid]
        return t["t"] if t["k"] in ("array", "slice") else tid

    def read(self, fr, st, place):
        v = st.c.get(fr.cell(place[0]), UNDEF)
        for e in place[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, v)
            elif k == ".":
                s = self.fstep(e)
                if v.op == "mref" and s[3].split("::")[-1] in ("Box", "Unique", "NonNull"):
                    continue  # the pointer inside a box
                v = self.fieldof(v, s, e)
            elif k == "[]":
                v = at(v, st.c.get(fr.cell(e[1]), UNDEF))
            elif k == "[c]":
                v = at(v, sub(len_(v), num(e[1])) if e[3] else num(e[1]))
            elif k == "[..]":
                L = len_(v)
                v = slice_(v, num(e[1]), sub(L, num(e[2])) if e[3] else num(e[2]))
        return v

    def fieldof(self, v, s, e):
        return fld(v, s[1], s[2], s[3])

    # ---------------------------------------------------------------- constants, operands
    def const(self, c, fr=None):
        k = c["c"]
        if k == "int":
            t = self.F.types[c["t"]]
            s = t["s"]
            bits = int(c["bits"])
            if s == "bool":
                return boolc(bits != 0)
            if s == "f64":
                return num(struct.unpack("<d", struct.pack("<Q", bits))[0])
            if s == "f32":
                return num(struct.unpack("<f", struct.pack("<I", bits))[0])
            if s[0] == "i" and s in INTW:
                w = INTW[s]
                if bits >= 1 << (w - 1):
                    bits -= 1 << w
            return num(bits)
        if k == "str":
            return mk("str", c["s"] if "s" in c else c.get("v"))
        if k == "bytes":
            return mk("str", str(c.get("v") or c.get("b")))
        if k == "agg":
            t = self.F.types[c["t"]]
            fs = [self.const(x, fr) for x in c["f"]]
            return self.aggregate(c["t"], c.get("var"), fs)
        if k == "ref":
            return self.const(c["v"], fr)
        if k == "static":
            return mk("app", "static", mk("str", c["path"]))
        if k in ("fn", "zst"):
            tid = c.get("t")
            t = self.F.types[tid] if tid is not None else None
            if t is None:
                return mk("fn", c.get("inst"))
            if t["k"] == "fndef":
                return mk("fn", tid)
            if t["k"] == "closure":
                return mk("clo", tid)
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                return adt(t["path"], 0)
            return mk("app", "zst", mk("str", t["s"]))
        if k == "promoted":
            if c.get("v"):
                return self.const(c["v"], fr)
            inst = self.F.insts[c["inst"]] if c.get("inst") is not None else fr.inst
            return self.promoted(inst, c["i"])
        if k == "named":
            if c.get("v"):
                return self.const(c["v"], fr)
            return mk("app", "const", mk("str", c["path"]))
        return mk("app", "const", mk("str", str(sorted(c.items(), key=str))[:200]))

    def promoted(self, inst, i):
        body = inst["promoted"][i]
        return self.run_body(("promoted", inst["full"], i), inst, body, [])

    def run_body(self, ident, inst, body, args):
        key = ("body", ident)
        r = self.memo.get(key)
        if r is None:
            cfg = self.cfgs.get(ident)
            if cfg is None:
                cfg = self.cfgs[ident] = CFG(body)
            fr = Frame(ident, inst, body, cfg)
            st = St(TRUE, {})
            v = self.exec_body(fr, st, args)
            # keep cells that promoted constants may point to
            r = self.memo[key] = v
        return r

    def aggregate(self, tid, var, fs):
        t = self.F.types[tid]
        k = t["k"]
        if k == "tuple":
            return tup(*fs)
        if k == "adt":
            if any(f is UNDEF for f in fs) and not fs:
                return UNDEF
            return adt(t["path"], var or 0, *fs)
        if k == "array":
            return seq([one(f) for f in fs])
        if k == "closure":
            return mk("clo", tid, *fs)
        return mk("app", "agg", mk("str", t["s"]), *fs)

    def operand(self, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read(fr, st, o[1])
        if k == "k":
            return self.const(o[1], fr)
        return mk("app", "rt", mk("str", str(o[1:])))

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, destplace):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            n = int(n) if isinstance(n, (int, str)) and str(n).isdigit() else None
            if n is not None and n <= 64:
                return seq([one(v)] * n)
            return mk("app", "repeat", v)
        if k in ("ref", "reborrow"):
            if k == "ref" and r[1] != "mut":
                return self.read(fr, st, r[2])
            pl = r[-1]
            mut = r[1] == "mut" if len(r) > 2 else True
            if not mut:
                return self.read(fr, st, pl)
            return self.lval(fr, st, pl)
        if k == "rawptr":
            if r[1] == "FakeForPtrMetadata":
                return self.read(fr, st, r[-1])
            return self.lval(fr, st, r[-1])
        if k == "cast":
            return self.cast(fr, st, r)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            if r[1] in ("Eq", "Ne") and r[4] is not None and self.F.types[r[4]]["k"] == "ptr":
                # identity of two objects: an uninterpreted symmetric relation
                x, y = sorted([self.load(st, v) if self._isref(v) else v for v in (a, b)], key=lambda t: t.id)
                # values known to differ are not at one place; in a small animation every layer is a value of its own
                e = FALSE if differ(x, y) else TRUE if self.concrete and x is y else tobool(mk("app", "ptreq", x, y))
                return e if r[1] == "Eq" else not_(e)
            return self.binop(r[1], a, b, r[4])
        if k == "un":
            return self.unop(r[1], self.operand(fr, st, r[2]), r[3] if len(r) > 3 else None)
        if k == "discr":
            v = self.read(fr, st, r[1])
            return self.discr(v, r[2])
        if k == "agg":
            kind, tid, var, ops = r[1], r[2], r[3], r[4]
            fs = [self.operand(fr, st, o) for o in ops]
            if kind == "array":
                return seq([one(f) for f in fs])
            return self.aggregate(tid, var, fs)
        return mk("app", "rvalue", mk("str", str(r)[:100]))

    def discr(self, v, tid):
        t = self.F.types[tid]
        if t["k"] != "adt":
            return mk("app", "discr", v)
        a = self.F.adts[t["adt"]]
        ds = [int(x["d"]) for x in a["variants"]]
        # the driver gives the bits; the only discriminants below zero are those of signed representations
        low = 1 << 8 if t["path"].endswith("cmp::Ordering") else 1 << 64
        ds = [d - low if d >= low >> 1 else d for d in ds]
        return variant_case(v, len(ds), t["path"], lambda i: num(ds[i]))

    def cast(self, fr, st, r):
        kind, o, ft, tt = r[1], r[2], r[3], r[4]
        v = self.operand(fr, st, o)
        F = self.F
        if "ptr" in kind.lower() or "Pointer" in kind or "Unsize" in kind or "Transmute" in kind or "transmute" in kind:
            return v
        if F.types[ft]["k"] == "adt":  # fieldless enum to int
            return self.discr(v, ft)
        fs, ts = F.types[ft]["s"], F.types[tt]["s"]
        if fs == "bool":
            return ite(tobool(v), ONE, ZERO)
        if ts in ("f64", "f32"):
            return v
        if fs in ("f64", "f32"):
            return lift(("toint", ts), lambda x: self._toint(x, ts), v)
        if fs in INTW and ts in INTW:
            if INTW[ts] > INTW[fs] and (fs[0] == "u" or ts[0] == "i") or (INTW[ts] == INTW[fs] and ts[0] == fs[0]):
                return v
            def f(x):
                if x.op == "num":
                    b = int(x.a[0]) & ((1 << INTW[ts]) - 1)
                    if ts[0] == "i" and b >> (INTW[ts] - 1):
                        b -= 1 << INTW[ts]
                    return num(b)
                if fs == "u64" and ts == "usize" or fs == "usize" and ts == "u64":
                    return x
                return mk("app", "trunc", x, mk("str", ts))
            return lift(("trunc", fs, ts), f, v)
        return v

    def _toint(self, x, ts):
        if x.op == "num":
            n = int(x.a[0])
            w = INTW[ts]
            lo, hi = (0, (1 << w) - 1) if ts[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return num(max(lo, min(hi, n)))
        if x.op == "app" and x.a[0] == "f64::round" and is_intlike(x.a[1]):
            return x.a[1]
        if ts[0] == "u":
            x = unclipped(x)
        return mk("app", "toint", x, mk("str", ts))

    def binop(self, op, a, b, tid):
        F = self.F
        if tid is not None and F.types[tid]["k"] in ("ref",):
            pass
        flt = tid is not None and F.is_float(tid)
        ts = F.types[tid]["s"] if tid is not None else ""
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            base = op[:3]
            v = self.binop(base, a, b, tid)
            return tup(v, mk("app", "ovf", mk("str", base), a, b, mk("str", ts)))
        if op in ("Add", "AddUnchecked"):
            return lift("add", add, a, b)
        if op in ("Sub", "SubUnchecked"):
            return lift("sub", sub, a, b)
        if op in ("Mul", "MulUnchecked"):
            return lift("mul", mul, a, b)
        if op == "Div":
            if flt:
                return lift("fdiv", div, a, b)
            return lift("idiv", _idiv, a, b)
        if op == "Rem":
            if flt:
                return lift("frem", lambda x, y: mk("app", "frem", x, y), a, b)
            return lift("irem", _irem, a, b)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            r = op.lower()
            if flt:
                return fcmp(r, a, b)
            if ts == "bool":
                x, y = tobool(a), tobool(b)
                eq = or_(and_(x, y), and_(not_(x), not_(y)))
                if r == "eq":
                    return eq
                if r == "ne":
                    return not_(eq)
            if ts in INTW or ts == "char":
                u = ts[0] != "i"
                return {"lt": lambda: lt_int(a, b, u), "le": lambda: le_int(a, b, u), "gt": lambda: lt_int(b, a, u),
                        "ge": lambda: le_int(b, a, u), "eq": lambda: eq_int(a, b, u),
                        "ne": lambda: not_(eq_int(a, b, u))}[r]()
            e = lift(("cmpx", r), lambda x, y: TRUE if x is y and r in ("eq", "le", "ge") else tobool(mk("app", "cmp_" + r, x, y)), a, b)
            return tobool(e)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if ts == "bool":
                x, y = tobool(a), tobool(b)
                if op == "BitAnd":
                    return and_(x, y)
                if op == "BitOr":
                    return or_(x, y)
                return or_(and_(x, not_(y)), and_(not_(x), y))
            def f(x, y):
                if x.op == "num" and y.op == "num":
                    i, j = int(x.a[0]), int(y.a[0])
                    return num(i & j if op == "BitAnd" else i | j if op == "BitOr" else i ^ j)
                if op == "BitAnd" and y.op == "num" and y.a[0] == 1:
                    return _irem(x, num(2))
                return mk("app", op, x, y)
            return lift(op, f, a, b)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            def f(x, y):
                if y.op == "num":
                    m = num(1 << int(y.a[0]))
                    return mul(x, m) if op.startswith("Shl") else _idiv(x, m)
                return mk("app", op, x, y)
            return lift(op, f, a, b)
        return mk("app", op, a, b)

    def unop(self, op, a, tid):
        if op == "Not":
            if a.op in ("bool", "case") and (a.op == "bool" or _boolish(a)) or tid is None or self.F.types[tid]["s"] == "bool":
                return not_(tobool(a))
            return lift("bitnot", lambda x: mk("app", "bitnot", x), a)
        if op == "Neg":
            return lift("neg", neg, a)
        if op == "PtrMetadata":
            return lift("len", len_, a)
        return mk("app", op, a)

    # ---------------------------------------------------------------- execution
    def exec_body(self, fr, st, args):
        body = fr.body
        for i, a in enumerate(args):
            st.c[fr.cell(i + 1)] = a
        # captured borrows of locals need initial cells; run
        cfg = fr.cfg
        rets = []
        back, exits = self.run_region(fr, set(cfg.rpo), 0, st, rets, outer=True)
        if not rets:
            st.pc = FALSE
            return UNDEF
        m = self.merge(rets)
        v = m.c.get(fr.cell(0), UNIT)
        if v is UNDEF and self._isunit(fr):
            v = UNIT
        st.pc = m.pc
        st.c = {k: x for k, x in m.c.items() if k[0] != fr.uid}
        return v

    def _isunit(self, fr):
        t = self.F.types[fr.body["locals"][0]]
        return t["k"] == "tuple" and not t["ts"]

    def merge(self, sts):
        sts = [s for s in sts if s.pc is not FALSE]
        if not sts:
            return St(FALSE, {})
        cur = sts[0]
        cur = St(cur.pc, cur.c)
        for s in sts[1:]:
            u = or_(cur.pc, s.pc)
            g = restrict(cur.pc, u)
            c = {}
            a, b = cur.c, s.c
            for k, v in a.items():
                w = b.get(k)
                if w is None or w is v:
                    c[k] = v
                else:
                    c[k] = ite(g, v, w)
            for k, w in b.items():
                if k not in a:
                    c[k] = w
            cur = St(u, c)
        return cur

    def run_region(self, fr, region, header, st0, rets, outer=False):
        cfg = fr.cfg
        incoming = {header: [st0]}
        backs, exits = [], []
        order = [b for b in cfg.rpo if b in region]
        done = set()
        for b in order:
            if b in done or b not in incoming:
                continue
            sts = incoming.pop(b)
            st = self.merge(sts) if len(sts) > 1 else sts[0]
            if st.pc is FALSE:
                continue
            if b in cfg.loops and (b != header or outer):
                loop = cfg.loops[b]
                outs = self.run_loop(fr, b, loop, st, rets)
                done |= loop
                for (d, s) in outs:
                    if s.pc is FALSE:
                        continue
                    if d == header and not outer:
                        backs.append(s)
                    elif d in region:
                        incoming.setdefault(d, []).append(s)
                    else:
                        exits.append((d, s))
                continue
            for (d, s) in self.run_block(fr, b, st.copy(), rets):
                if s.pc is FALSE:
                    continue
                if d == header and not outer:
                    backs.append(s)
                elif d in region:
                    incoming.setdefault(d, []).append(s)
                else:
                    exits.append((d, s))
        return backs, exits

    def run_block(self, fr, b, st, rets):
        blk = fr.body["blocks"][b]
        self.steps += 1
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s[1])
                self.assign(fr, st, s[1], v)
            elif s[0] == "setd":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.do_switch(fr, st, t)
        if k == "assert":
            return self.do_assert(fr, b, st, t, blk)
        if k == "call":
            return self.do_call(fr, b, st, t, blk)
        if k == "resume":
            return []
        raise Unsupported("terminator %s" % k)

    def assign(self, fr, st, place, v):
        if len(place) == 1:
            st.c[fr.cell(place[0])] = v
        else:
            self.store(st, self.lval(fr, st, place), v)

    def do_switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        ty = self.F.types[t[4]]["s"] if len(t) > 4 else ""
        outs = {}
        rest = TRUE
        bits = INTW.get(ty)
        for val, d in t[2]:
            n = int(val)
            if ty == "bool":
                c = tobool(v) if n else not_(tobool(v))
            else:
                if ty and ty[0] == "i" and bits and n >= 1 << (bits - 1):
                    n -= 1 << bits
                c = eq_int(v, num(n), ty[:1] != "i")
            outs[d] = or_(outs.get(d, FALSE), c)
            rest = and_(rest, not_(c))
        outs[t[3]] = or_(outs.get(t[3], FALSE), rest)
        res = []
        for d, c in outs.items():
            p = and_(st.pc, c)
            if p is FALSE or fr.body["blocks"][d] is None:
                continue
            if fr.body["blocks"][d]["t"][0] == "unreachable" and not fr.body["blocks"][d]["s"]:
                continue
            s = st.copy()
            s.pc = p
            res.append((d, s))
        return res

    def oblige(self, fr, sp, kind, cond, pc, info):
        if self.obls is None:
            return
        if cond is TRUE or pc is FALSE:
            return
        self.obls.append(Obl(kind, fr.inst, sp, cond, (pc,), info, ()))

    def do_assert(self, fr, b, st, t, blk):
        _, cond, expected, kind, ops, target = t[:6]
        c = self.operand(fr, st, cond)
        ops = [self.operand(fr, st, o) for o in ops]
        if c.op == "app" and c.a[0] == "ovf":
            good = self.ovf_ok(c.a[1].a[0], c.a[2], c.a[3], c.a[4].a[0])
        else:
            good = tobool(c) if expected else not_(tobool(c))
        self.oblige(fr, blk.get("sp"), kind, good, st.pc, ops)
        return [(target, st)]

    def ovf_ok(self, op, a, b, ts):
        if op == "Sub" and ts[0] == "u":
            return le_int(b, a)
        # additions/multiplications: reported with their operands (decided by the panic rule)
        r = {"Add": add, "Mul": mul, "Sub": sub}[op]
        v = lift(("ov", op), r, a, b)
        if v.op == "num" and abs(v.a[0]) < 1 << 31:
            return TRUE
        return tobool(mk("app", "fits", v, mk("str", ts)))

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, b, st, t, blk):
        _, f, ops, dest, target = t[:5]
        fv = self.operand(fr, st, f)
        args = [self.operand(fr, st, o) for o in ops]
        argtys = t[6] if len(t) > 6 else None
        v = self.call_value(fr, st, fv, args, blk.get("sp"), dty=t[5] if len(t) > 5 else None, argtys=argtys)
        if target is None or st.pc is FALSE:
            return []
        self.assign(fr, st, dest, v)
        return [(target, st)]

    def call_value(self, fr, st, fv, args, sp, dty=None, argtys=None):
        if fv.op == "case":
            return self.call_cases(fr, st, fv, args, sp, dty, argtys)
        if fv.op == "mref":
            fv = self.load(st, fv)
            return self.call_value(fr, st, fv, args, sp, dty, argtys)
        if fv.op == "fn":
            t = self.F.types[fv.a[0]]
            if t.get("ctor"):
                a, var = t["ctor"]
                path = self.F.adts[a]["path"]
                return adt(path, var, *args)
            ii = t.get("inst")
            tp = t["path"]
            if ii is not None and tp.startswith(("std::ops::Fn", "core::ops::Fn")) and tp.endswith(("::call_once", "::call_mut", "::call")) \
                    and len(args) == 2 and args[1].op == "adt" and args[1].a[0] == "()":
                return self.call_fn(fr, st, args[0], list(args[1].a[2:]), sp)
            if ii is None:
                return self.call_unresolved(fr, st, t, args, sp, dty, argtys)
            return self.call_inst(fr, st, ii, args, sp, dty, argtys, t)
        if fv.op == "clo":
            ii = self.F.types[fv.a[0]].get("inst")
            return self.call_inst(fr, st, ii, [fv] + args, sp, dty, argtys, None)
        return self.opaque_call(fr, st, "call", [fv] + args, dty, argtys)

    def call_cases(self, fr, st, fv, args, sp, dty, argtys):
        atom = fv.a[0]
        sts, vals = [], []
        for o, k in enumerate(fv.a[1:]):
            if k is UNDEF:
                sts.append(None)
                vals.append(UNDEF)
                continue
            s = st.copy()
            vals.append(self.call_value(fr, s, k, args, sp, dty, argtys))
            sts.append(s)
        keys = set()
        for s in sts:
            if s is not None:
                keys |= set(s.c)
        for key in keys:
            vs = [s.c.get(key, UNDEF) if s is not None else UNDEF for s in sts]
            st.c[key] = case2(atom, vs)
        return case2(atom, vals)

    def call_fn(self, fr, st, f, args, sp=None):
        """call a function value with unpacked args (used by models)"""
        f2 = self.load(st, f) if self._isref(f) else f
        if f2.op == "case":
            return self.call_cases(fr, st, f2, args, sp, None, None)
        if f2.op == "clo":
            # a by-reference call needs the closure in a cell when it owns state; captured refs are mrefs already
            ii = self.F.types[f2.a[0]].get("inst")
            body = self.F.insts[ii].get("body")
            if body is not None:
                t1 = self.F.types[body["locals"][1]]
                if t1["k"] == "ref" and t1.get("mut"):
                    if self._isref(f):
                        return self.call_inst(fr, st, ii, [f] + args, sp, None, None, None)
                    cell = ("tmp", fresh("clo").a[0])
                    st.c[cell] = f2
                    return self.call_inst(fr, st, ii, [mk("mref", cell)] + args, sp, None, None, None)
            return self.call_inst(fr, st, ii, [f2] + args, sp, None, None, None)
        return self.call_value(fr, st, f2, args, sp)

    def call_inst(self, fr, st, ii, args, sp, dty, argtys, ft):
        F = self.F
        inst = F.insts[ii]
        key = F.key(ii)
        m = self.models.get(key)
        self.calls_log[key] = self.calls_log.get(key, 0) + 1
        if m is not None:
            r = m(Ctx(self, fr, st, ii, inst, args, sp, dty, argtys, ft))
            if r is not NotImplemented:
                return r
        nm = heavy(inst, key)
        if nm:
            return self.opaque_call(fr, st, nm, args, dty, argtys)
        if self.opaque_pred is not None:
            nm = self.opaque_pred(ii, inst, key, args)
            if nm:
                if callable(nm):
                    r = nm(Ctx(self, fr, st, ii, inst, args, sp, dty, argtys, ft))
                    if r is not NotImplemented:
                        return r
                else:
                    return self.boundary(fr, st, ii, inst, nm, args, dty, argtys)
        if inst.get("derived") and inst.get("impl_trait"):
            tr = inst["impl_trait"].split("::")[-1].split("<")[0]
            if tr == "Clone":
                return self.load(st, args[0])
        if not inst.get("body"):
            return self.no_body(fr, st, ii, inst, key, args, sp, dty, argtys)
        ident = (inst["path"], tuple(inst["args"]))
        if any(x[0] == ident for x in self.stack):
            if self.rec_handler is not None:
                r = self.rec_handler(self, fr, st, ii, args, sp)
                if r is not NotImplemented:
                    return r
            return self.opaque_call(fr, st, "rec:" + key, args, dty, argtys)
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        return self.invoke(ii, args, st)

    def _pure_args(self, args):
        return not any(_has_mref(a) for a in args)

    def invoke(self, ii, args, st):
        inst = self.F.insts[ii]
        body = inst["body"]
        if body.get("spread") is not None:
            # rust-call shim: arguments packed in a tuple at the spread local
            pass
        n = body["argc"]
        if len(args) != n:
            args = self.fix_args(inst, body, args, n)
        pure = self._pure_args(args)
        mkey = None
        if pure:
            mkey = (ii, tuple(args))
            r = self.memo.get(mkey)
            if r is not None:
                v, obls, pc = r
                self.add_obls(obls, st, inst)
                if pc is not TRUE:
                    st.pc = FALSE if pc is FALSE else st.pc
                return v
        self.ran.add(ii)
        fr = Frame(ii, inst, body, self.cfg(ii))
        self.stack.append(((inst["path"], tuple(inst["args"])), fr))
        saved, self.obls = self.obls, []
        outer_pc = st.pc
        s2 = St(TRUE, st.c)
        try:
            v = self.exec_body(fr, s2, args)
        finally:
            self.stack.pop()
            mine, self.obls = self.obls, saved
        st.c = s2.c
        st.pc = FALSE if s2.pc is FALSE else outer_pc
        if s2.pc is not TRUE and s2.pc is not FALSE:
            st.pc = self.ret_pc(outer_pc, s2.pc)
        if pure:
            self.memo[mkey] = (v, mine, s2.pc)
        self.add_obls(mine, st, inst, outer_pc)
        return v

    def ret_pc(self, outer, pc):
        return outer

    def fix_args(self, inst, body, args, n):
        # closure called with a tuple of arguments, or FnOnce shim
        if len(args) == 2 and args[1].op == "adt" and args[1].a[0] == "()":
            a = [args[0]] + list(args[1].a[2:])
            if len(a) == n:
                return a
        if n == 2 and len(args) != 2:
            return [args[0], tup(*args[1:])]
        raise Unsupported("arity of %s: %d vs %d" % (inst["path"], len(args), n))

    def add_obls(self, obls, st, inst, pc=None):
        if self.obls is None:
            return
        pc = st.pc if pc is None else pc
        for o in obls:
            self.obls.append(Obl(o.kind, o.fn, o.sp, o.cond, o.pcs + ((pc,) if pc is not TRUE else ()), o.info,
                                 o.stack + (inst["path"],)))

    def call_unresolved(self, fr, st, t, args, sp, dty, argtys):
        tr = (t.get("trait") or "").split("<")[0].split("::")[-1]
        nm = t["path"].split("::")[-1]
        key = (tr + "::" if tr else "") + nm
        self.calls_log[key] = self.calls_log.get(key, 0) + 1
        m = self.models.get(key)
        if m is not None:
            r = m(Ctx(self, fr, st, None, {"path": t["path"], "args": t.get("args", [])}, args, sp, dty, argtys, t))
            if r is not NotImplemented:
                return r
        if tr == "RenderSink":
            return self.event(st, nm, args)
        return self.opaque_call(fr, st, key, args, dty, argtys)

    def event(self, st, nm, args):
        ref = args[0]
        vals = [self.load(st, a) if self._isref(a) else a for a in args[1:]]
        cur = self.load(st, ref)
        self.store(st, ref, seq([cur, one(adt("ev:" + nm, 0, *vals))]))
        return UNIT

    def boundary(self, fr, st, ii, inst, nm, args, dty, argtys):
        """call of a function that has its own rule: an uninterpreted function; borrowed-or-owned results are one value"""
        v = self.opaque_call(fr, st, nm, args, dty, argtys)
        b = inst.get("body")
        if b:
            t = self.F.types[b["locals"][0]]
            if t["k"] == "adt":
                a = self.F.adts[t["adt"]]
                if a["local"] and len(a["variants"]) == 2 and {x["n"] for x in a["variants"]} == {"Borrowed", "Owned"}:
                    own = [i for i, x in enumerate(a["variants"]) if x["n"] == "Owned"][0]
                    return adt(a["path"], own, v)
        return v

    def no_body(self, fr, st, ii, inst, key, args, sp, dty, argtys):
        if inst["crate"] in ("std", "core", "alloc") and ("panic" in key or "unwrap_failed" in key or "panicking" in inst["path"] or "slice_index_fail" in key or "assert_failed" in key or "expect_failed" in key):
            self.oblige(fr, sp, "panic", FALSE, st.pc, [mk("str", key)])
            st.pc = FALSE
            return UNDEF
        return self.opaque_call(fr, st, key, args, dty, argtys)

    def opaque_call(self, fr, st, name, args, dty=None, argtys=None):
        """an unknown pure function of its arguments that may overwrite what &mut arguments point to"""
        self.unknown.add(("call", name))
        vals = []
        muts = []
        for i, a in enumerate(args):
            if self._isref(a):
                vals.append(self.load(st, a))
                muts.append((i, a))
            elif a.op == "clo" and _has_mref(a):
                vals.append(mk("app", "closure", mk("str", str(a.a[0])), *[self.load(st, x) if self._isref(x) else x for x in a.a[1:]]))
                for x in a.a[1:]:
                    if self._isref(x):
                        muts.append((i, x))
            else:
                vals.append(a)
        v = app(name, *vals)
        for i, a in muts:
            self.store(st, a, app("%s/out%d" % (name, i), *vals))
        if dty is not None:
            s = self.F.types[dty]
            if s["k"] == "tuple" and not s["ts"]:
                return UNIT
        return v

    # ---------------------------------------------------------------- loops
    def run_loop(self, fr, header, loop, st0, rets):
        r = self.try_unroll(fr, header, loop, st0, rets)
        if r is not None:
            return r
        cfg = fr.cfg
        live = cfg.live[header] | cfg.borrowed
        base = {}
        for k, v in st0.c.items():
            if k[0] == fr.uid and k[1] not in live:
                continue
            base[k] = v
        phis = {}  # (cell, path) -> (sym, init)
        saved = self.obls
        for it in range(12):
            self.obls = []
            c = dict(base)
            for (cell, path), (s, init) in phis.items():
                c[cell] = self.updpath(c[cell], path, s)
            myrets = []
            stl = St(TRUE, c)
            entry = dict(c)
            backs, exits = self.run_region(fr, loop, header, stl, myrets)
            m = self.merge(backs)
            new = []
            if m.pc is not FALSE:
                for cell, v0 in entry.items():
                    v1 = m.c.get(cell, v0)
                    if v1 is not v0:
                        self.diff(cell, (), v0, v1, base[cell] if cell in base else UNDEF, phis, new)
            if not new:
                break
            for key, init in new:
                # drop phis below a coarser new one
                for k2 in [k2 for k2 in phis if k2[0] == key[0] and k2[1][:len(key[1])] == key[1]]:
                    del phis[k2]
                phis[key] = (fresh("phi"), init)
        else:
            raise Unsupported("loop does not stabilise in %s" % fr.inst["path"])
        mine, self.obls = self.obls, saved
        k = fresh("k")
        closed = {}
        if m.pc is not FALSE:
            nexts = {}
            for key, (s, init) in phis.items():
                v = m.c[key[0]]
                for e in key[1]:
                    v = self.proj(v, e)
                nexts[s] = (init, under(v, m.pc))
            closed = self.solve(nexts, k)
        # exits
        E = FALSE
        for (d, s) in exits:
            E = or_(E, s.pc)
        for s in myrets:
            E = or_(E, s.pc)
        Ek = subst_many(E, closed) if closed else E
        if m.pc is FALSE:
            kstar = ZERO
            kind = "once"
        elif E is FALSE:
            kstar = None
            kind = "diverges"
        else:
            kstar, kind = self.trip(Ek, k)
        self.loops_log.append((fr.inst, header, kind, Ek, k, kstar, tuple(x[0] for x in self.stack)))
        # obligations inside the body, at iteration k (the iteration before did not leave the loop)
        before = ()
        if self.loop_before and mine and kind != "once" and E is not FALSE:
            before = (or_(le_int(k, ZERO), not_(subst(Ek, k, sub(k, ONE)))),)
        for o in mine:
            o2 = Obl(o.kind, o.fn, o.sp, subst_many(o.cond, closed), tuple(subst_many(p, closed) for p in o.pcs) + before + ((st0.pc,) if st0.pc is not TRUE else ()), [subst_many(x, closed) for x in o.info], o.stack)
            if self.obls is not None:
                self.obls.append(o2)
        if kstar is None:
            return []
        final = {s: subst(v, k, kstar) for s, v in closed.items()}
        outs = []
        allx = [(d, s, False) for d, s in exits] + [(None, s, True) for s in myrets]
        single = len(allx) == 1
        for d, s, isret in allx:
            g = subst_many(s.pc, final) if final else s.pc
            if single:
                g = TRUE
            facts = literals(subst_many(s.pc, final) if final else s.pc)
            c = {}
            for cell, v in s.c.items():
                c[cell] = subst_many(v, final) if final else v
            # cells pruned for liveness stay dead
            ns = St(and_(st0.pc, g), c)
            if isret:
                rets.append(ns)
            else:
                outs.append((d, ns))
        return outs

    def try_unroll(self, fr, header, loop, st0, rets):
        cfg = fr.cfg
        live = cfg.live[header] | cfg.borrowed
        bound = None
        for kk, v in st0.c.items():
            if kk[0] == fr.uid and kk[1] in live and v.op == "iter":
                n = _maxlen(v.a[0])
                if n is not None and n <= 12 and v.a[1].op == "num":
                    bound = max(bound or 0, n)
        sure = bound is None
        if sure:
            # loops known to go on, iteration by iteration, until they end
            bound = self.concrete
        if not bound:
            return None
        saved = self.obls
        savedr = len(rets)
        savedl = len(self.loops_log)
        self.obls = []
        outs = []
        st = st0
        for it in range(bound + 2):
            c = {k_: v for k_, v in st.c.items() if not (k_[0] == fr.uid and k_[1] not in live)}
            backs, exits = self.run_region(fr, loop, header, St(st.pc, c), rets)
            outs.extend(exits)
            st = self.merge(backs)
            if st.pc is FALSE:
                mine, self.obls = self.obls, saved
                if self.obls is not None:
                    self.obls.extend(mine)
                self.loops_log.append((fr.inst, header, "unrolled", None, None, None, tuple(x[0] for x in self.stack)))
                # merge exits with the same destination
                return outs
            if sure and st.pc is not st0.pc:
                break
        self.obls = saved
        del rets[savedr:]
        del self.loops_log[savedl:]
        return None

    def diff(self, cell, path, v0, v1, init, phis, new):
        if v0 is v1:
            return
        if (cell, path) in phis:
            return
        if v1.op == "adt" and ADT_NVAR.get(v1.a[0], 1) == 1 and len(v1.a) > 2:
            p, var = v1.a[0], v1.a[1]
            nf = len(v1.a) - 2
            ok = v0.op == "adt" and v0.a[0] == p or (v0.op not in ("adt", "case"))
            if ok:
                for i in range(nf):
                    e = ("f", var, i, p, nf)
                    self.diff(cell, path + (e,), self.proj(v0, e), self.proj(v1, e), self.proj(init, e), phis, new)
                return
        if v1.op == "iter" and v0.op == "iter" and v1.a[0] is v0.a[0]:
            e = ("f", 0, 1, "{iter}", 2)
            if (cell, path + (e,)) not in phis:
                new.append(((cell, path + (e,)), init.a[1] if init.op == "iter" else UNDEF))
            return
        if v1.op == "clo" and v0.op == "clo" and v0.a[0] == v1.a[0]:
            for i in range(len(v1.a) - 1):
                e = ("f", 0, i, "{clo}", len(v1.a) - 1)
                self.diff(cell, path + (e,), v0.a[1 + i], v1.a[1 + i], init.a[1 + i] if init.op == "clo" else UNDEF, phis, new)
            return
        if init is UNDEF and v0 is UNDEF:
            return
        new.append(((cell, path), init))

    def solve(self, nexts, k):
        closed = {}
        todo = dict(nexts)
        while todo:
            progress = False
            for s in list(todo):
                init, v = todo[s]
                v = subst_many(v, closed) if closed else v
                deps = [x for x in todo if x is not s and occurs(v, x)]
                if deps:
                    continue
                r = self.closed_form(s, init, v, k)
                if r is None:
                    continue
                closed[s] = r
                del todo[s]
                progress = True
            if progress:
                continue
            if self.early_updates(todo, closed, k):
                continue
            # smallest dependency-closed set
            best = None
            for s in todo:
                grp = {s}
                while True:
                    add_ = set()
                    for g in grp:
                        v = subst_many(todo[g][1], closed) if closed else todo[g][1]
                        for x in todo:
                            if x not in grp and occurs(v, x):
                                add_.add(x)
                    if not add_:
                        break
                    grp |= add_
                if best is None or len(grp) < len(best):
                    best = grp
            grp = sorted(best, key=lambda x: x.id)
            inits = tup(*[todo[s][0] for s in grp])
            body = tup(*[subst_many(todo[s][1], closed) if closed else todo[s][1] for s in grp])
            l = lam(len(grp) + 1, grp + [k], body)
            vec = mk("app", "scan", inits, l, k)
            for i, s in enumerate(grp):
                closed[s] = mk("app", "proj", vec, num(i))
                del todo[s]
        return closed

    def early_updates(self, todo, closed, k):
        """element-wise in-place updates: element k is still the initial one when iteration k starts"""
        for s, (init, v) in list(todo.items()):
            todo[s] = (init, subst_many(v, closed) if closed else v)
        early = {}
        for s, (init, v) in list(todo.items()):
            u = self.as_upd(v, s)
            if u is None or u[0] is None:
                continue
            idx, nv = u
            off = sub(idx, k)
            if occurs(off, k) or any(occurs(idx, x) for x in todo):
                continue
            e = mk("at", s, idx)
            if any(occurs(w, e) for x, (_, w) in todo.items()):
                early[e] = at(init, idx)
            todo[s] = (init, upd(s, idx, nv))
        if early:
            for s, (init, v) in list(todo.items()):
                todo[s] = (init, self.subst_terms(v, early))
        return bool(early)

    def subst_terms(self, v, mp):
        for a, b in mp.items():
            v = subst(v, a, b)
        return v

    def as_upd(self, v, s):
        """v as an update of one element of s: (index, new element); (None, None) for s itself"""
        if v is s:
            return (None, None)
        if v.op == "upd" and v.a[0] is s:
            return (v.a[1], v.a[2])
        if v.op == "case":
            rs = [(None, None) if x is UNDEF else self.as_upd(x, s) for x in v.a[1:]]
            if any(r is None for r in rs):
                return None
            ids = {r[0] for r in rs if r[0] is not None}
            if len(ids) != 1:
                return None
            idx = ids.pop()
            vals = [UNDEF if x is UNDEF else (at(s, idx) if r[0] is None else r[1]) for x, r in zip(v.a[1:], rs)]
            return (idx, case2(v.a[0], vals))
        return None

    def closed_form(self, s, init, v, k):
        if v is s:
            return init
        if not occurs(v, s):
            # last value
            prev = subst(v, k, sub(k, ONE))
            if prev is init and not occurs(v, k):
                return init
            if subst(v, k, num(-1)) is init:
                return prev
            return ite(le_int(k, ZERO), init, prev)
        # numbers
        p = topoly(v) if v.op in ("poly", "num") else None
        if p is not None:
            d = sub(v, s)
            if not occurs(d, s):
                if not occurs(d, k):
                    return add(init, mul(d, k))
                return add(init, self.sumof(k, k, d))
        if v.op == "case" and _numlike(v):
            d = lift("sub", sub, v, s)
            if not occurs(d, s):
                return add(init, self.sumof(k, k, d))
        # sequences: push
        items = seqitems(v)
        if v.op == "seq" and items and items[0] is s:
            rest = seq(list(items[1:]))
            if not occurs(rest, s):
                j = fresh("j")
                return seq([init, each(k, j, subst(rest, k, j))])
        rest = self._hpush_rest(v, s)
        if rest is not None and not occurs(rest, s):
            j = fresh("j")
            items = init.a[0] if init.op == "hmap" else mk("app", "hitems", init)
            return mk("hmap", seq([items, each(k, j, subst(rest, k, j))]))
        # element-wise update in place
        if v.op == "upd" and v.a[0] is s:
            idx, nv = v.a[1], v.a[2]
            off = sub(idx, k)
            if not occurs(off, k) and not occurs(idx, s):
                r = fresh("e")
                nv2 = subst(nv, mk("at", s, idx), r)
                if not occurs(nv2, s):
                    j = fresh("j")
                    body = subst_many(nv2, {r: at(init, add(j, off)), k: j})
                    return seq([slice_(init, ZERO, off), each(k, j, seq([one(body)])),
                                slice_(init, add(off, k), len_(init))])
        # conditional push / nested
        if v.op == "case":
            rest = self._push_rest(v, s)
            if rest is not None and not occurs(rest, s):
                j = fresh("j")
                return seq([init, each(k, j, subst(rest, k, j))])
        return self.scan1(s, init, v, k)

    def _hpush_rest(self, v, s):
        """entries inserted into the map s"""
        if v is UNDEF:
            return UNDEF
        if v is s:
            return EMPTY
        if v.op == "hmap":
            it = list(seqitems(v.a[0]))
            if it and it[0].op == "app" and it[0].a[0] == "hitems" and it[0].a[1] is s:
                return seq(it[1:])
            return None
        if v.op == "case":
            ks = [self._hpush_rest(x, s) for x in v.a[1:]]
            if any(x is None for x in ks):
                return None
            return case2(v.a[0], ks)
        return None

    def _push_rest(self, v, s):
        if v is UNDEF:
            return UNDEF
        if v is s:
            return EMPTY
        if v.op == "seq" and v.a and v.a[0] is s:
            return seq(list(v.a[1:]))
        if v.op == "case":
            ks = [self._push_rest(x, s) for x in v.a[1:]]
            if any(x is None for x in ks):
                return None
            return case2(v.a[0], ks)
        return None

    def scan1(self, s, init, v, k):
        l = lam(2, [s, k], tup(v))
        return mk("app", "proj", mk("app", "scan", tup(init), l, k), ZERO)

    def sumof(self, n, k, d):
        """sum over j<n of d[k:=j]"""
        j = fresh("j")
        return mk("app", "sum", n, lam(1, [j], subst(d, k, j)))

    def trip(self, E, k):
        """iteration at which the loop is left: the first k for which E holds"""
        x = E
        if x is TRUE:
            return ZERO, "once"
        # not (q(k) <= c) with q = k - L   or  q(k) <= c with q = L - k
        r = _linear_exit(x, k)
        if r is not None:
            return r, "counted"
        return mk("app", "firstk", lam(1, [k], x)), "search"


class Ctx:
    """call context handed to a model"""

    def __init__(self, ip, fr, st, ii, inst, args, sp, dty, argtys, ft):
        self.ip, self.fr, self.st, self.ii, self.inst = ip, fr, st, ii, inst
        self.args, self.sp, self.dty, self.argtys, self.ft = args, sp, dty, argtys, ft

    def val(self, i):
        return self.ip.load(self.st, self.args[i])

    def set(self, i, v):
        self.ip.store(self.st, self.args[i], v)

    def call(self, f, *args):
        return self.ip.call_fn(self.fr, self.st, f, list(args), self.sp)

    def oblige(self, kind, cond, info=()):
        self.ip.oblige(self.fr, self.sp, kind, cond, self.st.pc, list(info))


def differ(x, y):
    """two values known to be different"""
    if x is y or x.op != y.op:
        return False
    if x.op in ("num", "str"):
        return True
    return x.op == "adt" and x.a[0] == y.a[0] and len(x.a) > 2 and (x.a[1] != y.a[1] or any(differ(p, q) for p, q in zip(x.a[2:], y.a[2:])))


def under(v, pc):
    """the value v, given that control got here under pc"""
    if pc is TRUE or v.op not in ("case", "adt", "seq", "one", "upd"):
        return v
    if v.op == "case":
        return restrict(v, pc)
    if v.op == "adt":
        return adt(v.a[0], v.a[1], *[under(x, pc) for x in v.a[2:]])
    if v.op == "seq":
        return seq([under(x, pc) for x in v.a])
    if v.op == "one":
        return one(under(v.a[0], pc))
    return upd(v.a[0], v.a[1], under(v.a[2], pc))


_hm = {}


def _has_mref(t):
    r = _hm.get(t)
    if r is None:
        r = t.op == "mref" or any(_has_mref(k) for k in tm._kids(t.op, t.a))
        _hm[t] = r
    return r


def _boolish(t):
    return all(k.op == "bool" or k is UNDEF or (k.op == "case" and _boolish(k)) for k in t.a[1:])


def _numlike(t):
    return all(k is UNDEF or k.op in ("num", "poly", "sym", "app", "fld", "at", "len", "bv") or (k.op == "case" and _numlike(k)) for k in t.a[1:])


def is_intlike(t):
    return False


def _idiv(a, b):
    if b.op == "num" and b.a[0] == 1:
        return a
    if a.op == "num" and b.op == "num" and b.a[0] != 0:
        return num(int(a.a[0]) // int(b.a[0]))
    return mk("app", "idiv", a, b)


def _irem(a, b):
    if a.op == "num" and b.op == "num" and b.a[0] != 0:
        return num(int(a.a[0]) % int(b.a[0]))
    return mk("app", "irem", a, b)


def _maxlen(s):
    """largest possible length if it is bounded by a constant"""
    if s.op == "case":
        ms = [_maxlen(k) for k in s.a[1:] if k is not UNDEF]
        return None if any(m is None for m in ms) else max(ms)
    n = 0
    for it in seqitems(s):
        if it.op == "one":
            n += 1
        elif it.op == "case":
            m = _maxlen(it)
            if m is None:
                return None
            n += m
        else:
            l = len_(it)
            if l.op != "num":
                return None
            n += int(l.a[0])
    return n


def _linear_exit(x, k):
    """solve 'first k >= 0 with x' when x is a threshold on k (possibly under decisions not involving k)"""
    if x is TRUE:
        return ZERO
    if x.op != "case":
        return None
    atom = x.a[0]
    if not occurs(atom, k):
        ks = []
        for c in x.a[1:]:
            if c is UNDEF:
                ks.append(UNDEF)
                continue
            r = _linear_exit(c, k)
            if r is None:
                return None
            ks.append(r)
        return case2(atom, ks)
    if atom.op == "le":
        q, c = atom.a
        p = topoly(q)
        ck = p.get(((k, 1),))
        if ck is None:
            return None
        rest = sub(q, mul(num(ck), k))
        if occurs(rest, k):
            return None
        if ck == 1 and x.a[1] is TRUE and x.a[2] is FALSE:
            # exits when k + rest > c  <=> k >= c + 1 - rest
            return monus(num(c + 1), rest)
        if ck == -1 and x.a[1] is FALSE and x.a[2] is TRUE:
            # exits when rest - k <= c  <=> k >= rest - c
            return monus(rest, num(c))
    return None
