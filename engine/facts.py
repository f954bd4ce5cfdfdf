"""Typed facts about the analysed crate, as dumped by the rustc driver (types, ADTs, instances with MIR, impls)."""
import json, re
from . import terms as tm


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.types = d["types"]
        self.adts = d["adts"]
        self.insts = d["insts"]
        self.impls = d["impls"]
        self.statics = {s["path"]: s for s in d["statics"]}
        self.adt_by_path = {}
        for a in self.adts:
            self.adt_by_path.setdefault(a["path"], a)
            tm.ADT_NVAR[a["path"]] = len(a["variants"])
            for vi, v in enumerate(a["variants"]):
                tm.ADT_FIELDS[(a["path"], vi)] = len(v["f"])
                tm.VAR_NAMES[(a["path"], vi)] = v["n"]
                for fi, f in enumerate(v["f"]):
                    tm.FIELD_NAMES[(a["path"], vi, fi)] = f["n"]
        self.by_path = {}
        for i, x in enumerate(self.insts):
            self.by_path.setdefault(x["path"], []).append(i)
        self._keys = {}

    # ---- types
    def ty(self, t):
        return self.types[t]

    def strip(self, t):
        """through references and boxes"""
        while True:
            x = self.types[t]
            if x["k"] in ("ref", "ptr"):
                t = x["t"]
            elif x["k"] == "adt" and x["path"] == "alloc::boxed::Box" or x["k"] == "adt" and x["path"] == "std::boxed::Box":
                t = x["args"][0]
            else:
                return t

    def is_mut_ref(self, t):
        x = self.types[t]
        return x["k"] in ("ref", "ptr") and bool(x.get("mut"))

    def is_float(self, t):
        return self.types[t]["s"] in ("f64", "f32")

    def is_int(self, t):
        return self.types[t]["s"] in ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128")

    def adt(self, path):
        return self.adt_by_path.get(path)

    def field(self, path, name, var=0):
        a = self.adt_by_path.get(path)
        if a is None:
            return None
        for i, f in enumerate(a["variants"][var]["f"]):
            if f["n"] == name:
                return i
        return None

    def variant(self, path, name):
        a = self.adt_by_path.get(path)
        if a is None:
            return None
        for i, v in enumerate(a["variants"]):
            if v["n"] == name:
                return i
        return None

    # ---- naming
    def key(self, ii):
        """short stable name of an instance: Trait::method, Type::method or mod::fn"""
        k = self._keys.get(ii)
        if k is None:
            k = self._keys[ii] = self._key(self.insts[ii])
        return k

    @staticmethod
    def head(s):
        s = s.strip()
        while s.startswith("&"):
            s = re.sub(r"^&('\w+ )?(mut )?", "", s)
        if s.startswith("["):
            return "slice"
        if s.startswith("("):
            return "tuple"
        s = s.split("<")[0]
        return s.split("::")[-1]

    def _key(self, x):
        name = x.get("name") or x["path"].split("::")[-1]
        tr = x.get("trait") or x.get("impl_trait")
        if tr:
            tr = tr.split("<")[0].split("::")[-1]
            return tr + "::" + name
        s = x.get("impl_self")
        if s:
            return self.head(s) + "::" + name
        return "::".join(x["path"].split("::")[-2:])

    def find(self, suffix, local=True):
        return [i for i, x in enumerate(self.insts) if x["path"].endswith(suffix) and (x["local"] or not local)]

    # ---- call graph (calls, function items and closures mentioned)
    def callees(self, ii):
        m = self.__dict__.setdefault("_callees", {})
        r = m.get(ii)
        if r is not None:
            return r
        x = self.insts[ii]
        out = set()

        def ty(t):
            t = self.types[t]
            if t["k"] in ("fndef", "closure") and t.get("inst") is not None:
                out.add(t["inst"])

        def go(j):
            if isinstance(j, dict):
                if j.get("c") in ("zst", "fn") and j.get("t") is not None:
                    ty(j["t"])
                for v in j.values():
                    go(v)
            elif isinstance(j, list):
                for v in j:
                    go(v)
        bodies = [x.get("body")] + list(x.get("promoted") or [])
        for b in bodies:
            if b:
                go(b["blocks"])
                for n, l in enumerate(b["locals"]):
                    t = self.types[l]
                    if t["k"] == "closure" and n > b["argc"]:
                        ty(l)
        m[ii] = out
        return out

    def reach(self, roots, local_only=True):
        seen = set(roots)
        st = list(roots)
        while st:
            i = st.pop()
            for c in self.callees(i):
                if c not in seen and (not local_only or self.insts[c]["local"]):
                    seen.add(c)
                    st.append(c)
        return seen

    def sccs(self, nodes):
        """strongly connected components (only recursive ones) of the call graph on nodes"""
        nodes = set(nodes)
        idx, low, on, st, out, cnt = {}, {}, set(), [], [], [0]

        def visit(v):
            work = [(v, iter(sorted(self.callees(v) & nodes)))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            while work:
                u, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.callees(w) & nodes))))
                        break
                    elif w in on:
                        low[u] = min(low[u], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == u:
                                break
                        if len(comp) > 1 or u in self.callees(u):
                            out.append(comp)
        for v in sorted(nodes):
            if v not in idx:
                visit(v)
        return out
