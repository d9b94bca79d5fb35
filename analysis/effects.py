"""Side-effect analysis: which functions write anything but their own locals."""
from core import walk, func_nodes, show, strip_soft, calls

PURE_EXT = {"abs", "fabs", "fmax", "fmin", "pow", "sqrt", "log", "log10", "exp", "strcmp", "isspace", "toupper", "tolower", "MPI_Comm_rank",
            "MPI_Comm_size", "MPI_Allreduce", "MPI_Wtime", "floor", "ceil", "isnan", "isinf", "isfinite"}
IMPURE_STD = ("push_back", "push_front", "clear", "erase", "insert", "resize", "pop_back", "pop_front", "swap", "operator=", "operator+=", "operator*=",
              "operator<<", "operator>>", "assign", "emplace", "emplace_back", "seed", "sort", "transform", "iota", "copy", "getline", "operator++", "operator--", "reset", "fill")


def is_assign(n):
    return n["k"] == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=")


def is_incdec(n):
    return n["k"] == "Un" and ("++" in n["op"] or "--" in n["op"])


def root(e):
    """-> (root node, through_pointer)"""
    deref = False
    while True:
        e = strip_soft(e)
        if e is None:
            return None, deref
        k = e["k"]
        if k == "Mem":
            deref = deref or bool(e.get("ar"))
            e = e["b"]
        elif k == "Idx":
            if "[" not in (strip_soft(e["b"]).get("t") or ""):
                deref = True
            e = e["b"]
        elif k == "Un" and e["op"] in ("*",):
            deref = True
            e = e["e"]
        elif k == "Un" and e["op"] == "&":
            e = e["e"]
        elif k == "Un" and ("++" in e["op"] or "--" in e["op"]):
            e = e["e"]
        elif k == "Bin" and e["op"] in ("+", "-"):
            e = e["x"]
        elif k == "Cast":
            e = e["e"]
        else:
            return e, deref


def local_info(f):
    """ids of locals; ids of locals that own fresh memory"""
    loc, fresh = {}, set()
    for n in func_nodes(f):
        if n["k"] == "Var":
            loc[n["id"]] = n
            i = strip_soft(n.get("init")) if n.get("init") else None
            while i is not None and i["k"] == "Cast":
                i = i["e"]
            if i is not None and (i["k"] == "New" or i["k"] == "Call" and (i.get("fq") or "") in ("malloc", "calloc")):
                fresh.add(n["id"])
    for p in f["p"]:
        loc[p["id"]] = p
    return loc, fresh


def writes_external(lhs, loc, fresh):
    r, deref = root(lhs)
    if r is None:
        return True
    if r["k"] == "Ref" and r.get("dk") in ("var", "parm"):
        v = loc.get(r["id"])
        if r["id"] in fresh:
            return False
        t = (v or {}).get("t", r.get("t", ""))
        if t.endswith("&") and not t.startswith("const"):
            return True
        return deref
    if r["k"] in ("Ref",) and r.get("dk") == "global":
        return True
    return True


class Effects:
    def __init__(self, model):
        self.m = model
        self.direct = {}
        self.callees = {}
        for fid, f in model.funcs.items():
            loc, fresh = local_info(f)
            d, cs = [], []
            for n in func_nodes(f, asserts=True):
                self._node(n, loc, fresh, d, cs)
            if f.get("ctor") or f.get("dtor"):
                d = [x for x in d if x[0] != "member"]
            self.direct[fid], self.callees[fid] = d, cs
        self.impure = {fid: d[0] for fid, d in self.direct.items() if d}
        changed = True
        while changed:
            changed = False
            for fid, cs in self.callees.items():
                if fid in self.impure:
                    continue
                for c in cs:
                    w = self.call_effect(c)
                    if w:
                        self.impure[fid] = ("call", w)
                        changed = True
                        break

    def _node(self, n, loc, fresh, d, cs):
        if is_assign(n) and writes_external(n["x"], loc, fresh):
            r, _ = root(n["x"])
            d.append(("member" if r is not None and r["k"] == "This" else "write", show(n["x"])))
        elif is_incdec(n) and writes_external(n["e"], loc, fresh):
            r, _ = root(n["e"])
            d.append(("member" if r is not None and r["k"] == "This" else "write", show(n["e"])))
        elif n["k"] == "Delete":
            r, _ = root(n["e"])
            if not (r is not None and r["k"] == "Ref" and r.get("id") in loc):
                d.append(("delete", show(n["e"])))
        elif n["k"] == "Call":
            cs.append(n)

    def call_effect(self, c):
        """text of the effect of a call, or None if it has none"""
        fq = c.get("fq") or ""
        if not fq:
            return None if c.get("cst") else "indirect call"
        known = [t for t in self.m.targets(c) if t in self.m.funcs]
        if known:
            for t in known:
                if t in self.impure:
                    return "%s -> %s" % (fq, self.impure[t][1])
            return None
        base = fq.split("::")[-1]
        if fq.startswith("std::") or fq.startswith("__gnu_cxx"):
            if base in IMPURE_STD and not (base in ("operator++", "operator--") or base == "operator=" and False):
                # writes to a local object are harmless
                o = c.get("o") or (c["a"][0] if c.get("a") else None)
                if o is not None and strip_soft(o)["k"] == "Call" and strip_soft(o).get("o") is not None:
                    o = strip_soft(o)["o"]
                r, _ = root(o) if o else (None, False)
                if r is not None and r["k"] == "Ref" and (r.get("dk") == "var" or not (r.get("t") or "&").endswith(("&", "*"))):
                    return None
                return fq
            return None
        if base in PURE_EXT or c.get("cst"):
            return None
        return fq

    def pure(self, fid):
        return fid not in self.impure

    def expr_effects(self, e, f):
        """effects an expression has beyond computing a value"""
        loc, fresh = local_info(f)
        out = []
        for n in walk(e):
            if is_assign(n):
                out.append("assignment %s" % show(n))
            elif is_incdec(n):
                out.append("update %s" % show(n))
            elif n["k"] == "Call":
                w = self.call_effect(n)
                if w:
                    out.append("call %s (writes %s)" % (show(n), w))
            elif n["k"] in ("New", "Delete"):
                out.append(show(n))
        return out

    def writes_this(self, fid):
        """may the method write state reachable from its receiver?"""
        if not hasattr(self, "_wt"):
            wt, dep = set(), {}
            for i, f in self.m.funcs.items():
                cs = []
                for n in func_nodes(f):
                    t = n["x"] if is_assign(n) else n["e"] if (is_incdec(n) or n["k"] == "Delete") else None
                    if t is not None:
                        r, _ = root(t)
                        if r is not None and (r["k"] == "This" or r["k"] == "Call"):
                            wt.add(i)
                    elif n["k"] == "Call":
                        o = n.get("o")
                        if o is not None and not n.get("cst"):
                            r, _ = root(o)
                            if r is not None and r["k"] == "This":
                                tg = [t for t in self.m.targets(n) if t in self.m.funcs]
                                if tg:
                                    cs += tg
                                elif self.call_effect(n):
                                    wt.add(i)
                        for a, t in zip(n.get("a", ()), n.get("pt", ())):
                            if t.endswith(("&", "*")) and not t.startswith("const "):
                                r, _ = root(a)
                                if r is not None and r["k"] == "This" and self.call_effect(n):
                                    wt.add(i)
                dep[i] = cs
            ch = True
            while ch:
                ch = False
                for i, cs in dep.items():
                    if i not in wt and any(c in wt for c in cs):
                        wt.add(i)
                        ch = True
            self._wt = wt
        return fid in self._wt
