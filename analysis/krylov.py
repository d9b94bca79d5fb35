"""Must-facts analysis of the Krylov solvers.

A forward dataflow analysis over the syntax tree (loops to a fixed point, joins by intersection, one state per known value of the
convergence flag and of the vector last copied to the right-hand side).  B0 is the right-hand side on entry, A the operator.  Facts:
  (B0,v)   v = B0                     (NB,s)  s = |B0|_2              (TOL,s)   s = tol_*|B0|_2
  (A,r,x)  r = A x   (nA,r,x) r = -A x   (R,r,x) r = B0 - A x   (mR,r,x) r = A x - B0
  (N,s,x)  s = |B0 - A x|_2           (REL,s,x) s = |B0 - A x|/|B0|   (Q,s,a)  s = a/|B0|
  (RR,r,x) r is carried along as B0 - A x (equal to it up to rounding)      (NR,s,x) s = |such an r|_2
  (P,r,x,c,p) r = B0 - A x + c A p    (M,r,x,c,q) r = B0 - A x - c q         (an update of the pair (x,r) half done)
  (OK,x)   |B0 - A x| <= tol |B0| has been tested                     (IT,v)   v is an iterate (the start, or moved from one)
  (Z,)     |B0| = 0            (SAME,s,sg,t) s = sg*t
  (C,s,p,fs) boolean s: if s == p then the facts fs hold
A write to a variable kills every fact about it."""
from core import *
from core import strip


class Unknown(Exception):
    pass


MUT = {"axpy", "scale", "copyFrom", "setToZero", "setToConstant", "negate", "axzpy", "axdzpy", "componentMult", "componentDiv", "addConstant", "startingAtCopyToStartingAt",
       "invert", "component_abs", "component_sgn", "component_sqrt"}
VEC = ("hiopVector", "hiopVectorPar", "hiopVectorCompoundPD")
TOP = "?"


class K:
    def __init__(self, m, f, report):
        self.m, self.f, self.report = m, f, report
        self.alias, self.unknown, self.exits, self.depth = {}, [], [], 0
        self.n = {"resid": 0, "ret": 0}
        self.bad = {}
        self.nt = 0
        self.once = self.assigned(f["body"])

    def assigned(self, body):
        c = {}
        for n in walk(body):
            if n.get("k") == "Bin" and n["op"] == "=":
                x = strip(n["x"])
                if x.get("k") == "Ref":
                    c[x["id"]] = c.get(x["id"], 0) + 1
        return c

    # ------------------------------------------------------------ names
    def name(self, e):
        e = strip(e)
        while e.get("k") in ("Un", "Cast") and (e["k"] == "Cast" or e["op"] in ("*", "&")):
            e = strip(e["e"])
        if e.get("k") == "Ref":
            n = ("l", e["id"], e["n"])
            k = 0
            while n in self.alias and k < 20:
                n = self.alias[n]
                k += 1
            return n
        if e.get("k") == "Mem" and strip(e["b"]).get("k") == "This":
            return ("m", e["n"])
        return None

    @staticmethod
    def vec(t):
        t = t or ""
        return any(w in t.replace("const ", "").split("::")[-1] for w in VEC)

    # ------------------------------------------------------------ facts
    def kill(self, F, v):
        return frozenset(x for x in F if v not in x[1:] and not (x[0] == "C" and any(v in y for y in x[3])))

    def copy(self, F, v, w):
        """v := w"""
        if v == w:
            return F
        src = [x for x in F if w in x[1:] and x[0] != "C"] + [x for x in F if x[0] == "C" and x[1] == w]
        F = self.kill(F, v)
        new = set()
        for x in src:
            if v in x[1:]:
                continue
            if x[0] == "C":
                new.add(("C", v) + x[2:])
            else:
                for mask in range(1, 1 << (len(x) - 1)):
                    y = tuple(v if i and a == w and (mask >> (i - 1)) & 1 else a for i, a in enumerate(x))
                    if y != x:
                        new.add(y)
        return F | new

    def const(self, e):
        e = strip(e)
        if e.get("k") == "Un" and e["op"] == "-":
            v = self.const(e["e"])
            return None if v is None else -v
        if e.get("k") in ("Int", "Bool"):
            return float(e["v"])
        if e.get("k") == "Flt":
            return float(e["v"])
        return None

    def coef(self, e):
        e = strip(e)
        sg = 1
        while e.get("k") in ("Cast",) or e.get("k") == "Un" and e["op"] in ("-", "+"):
            if e["k"] == "Un" and e["op"] == "-":
                sg = -sg
            e = strip(e["e"])
        return sg, self.name(e) if e.get("k") in ("Ref", "Mem") else None

    # ------------------------------------------------------------ scalars: facts a value satisfies, with "$" for the value
    def val(self, e, S):
        e = strip(e)
        key, F = S
        if e.get("k") == "Cast":
            return self.val(e["e"], S)
        n = self.name(e) if e.get("k") in ("Ref", "Mem") else None
        if n is not None:
            out = {tuple("$" if i and a == n else a for i, a in enumerate(x)) for x in F if x[0] in ("NB", "TOL", "N", "NR", "REL", "Q") and x[1] == n}
            out.add(("VAR", n))
            return out
        if e.get("k") == "Call" and (e.get("fq") or "").split("::")[-1] == "twonorm" and e.get("o") is not None:
            v = self.name(e["o"])
            out = set()
            for x in F:
                if x[0] == "B0" and x[1] == v:
                    out.add(("NB", "$"))
                if x[0] in ("R", "mR") and x[1] == v:
                    out |= {("N", "$", x[2]), ("NR", "$", x[2])}
                if x[0] == "RR" and x[1] == v:
                    out.add(("NR", "$", x[2]))
            if v is None:
                self.unknown.append("norm of %s" % show(e["o"]))
            return out
        if e.get("k") == "Bin" and e["op"] == "*":
            a, b = self.val(e["x"], S), self.val(e["y"], S)
            for p, q in ((a, b), (b, a)):
                if ("VAR", ("m", "tol_")) in p and ("NB", "$") in q:
                    return {("TOL", "$")}
            return set()
        if e.get("k") == "Bin" and e["op"] == "/":
            a, b = self.val(e["x"], S), self.val(e["y"], S)
            if ("NB", "$") in b:
                return {("REL", "$", x[2]) for x in a if x[0] == "N"} | {("Q", "$", x[1]) for x in a if x[0] == "VAR"}
            return set()
        if e.get("k") == "Call":
            self.calleffects(e, S, pure=True)
        return set()

    def setvar(self, n, e, S):
        key, F = S
        v = self.val(e, S)
        src = [x[1] for x in v if x[0] == "VAR"]
        if src:
            F = self.copy(F, n, src[0])
            if src[0] != n:
                root = [x for x in F if x[0] == "SAME" and x[1] == src[0]]
                F = frozenset(x for x in F if not (x[0] == "SAME" and x[1] == n)) | {("SAME", n, root[0][2], root[0][3]) if root else ("SAME", n, 1, src[0])}
            return key, F
        t = set()
        for p in (True, False):
            fs = self.implied(e, S, p)
            if fs:
                t.add(("C", n, p, frozenset(fs)))
        F = self.kill(F, n)
        for x in v:
            if n not in x[1:]:
                F = F | {tuple(n if a == "$" else a for a in x)}
        sg, w = self.coef(e)
        if w is not None and w != n and "*" not in (strip(e).get("t") or ""):
            F = F | {("SAME", n, sg, w)} | {("SAME", n, sg * x[2], x[3]) for x in F if x[0] == "SAME" and x[1] == w and x[3] != n}
        return key, F | frozenset(x for x in t if not any(n in y for y in x[3]))

    # ------------------------------------------------------------ conditions
    def implied(self, e, S, pol):
        """facts that hold when e == pol"""
        e = strip(e)
        k = e.get("k")
        if k == "Cast":
            return self.implied(e["e"], S, pol)
        if k == "Un" and e["op"] == "!":
            return self.implied(e["e"], S, not pol)
        if k == "Bin" and e["op"] in ("&&", "||"):
            a, b = self.implied(e["x"], S, pol), self.implied(e["y"], S, pol)
            return a | b if (e["op"] == "&&") == pol else a & b
        if k in ("Ref", "Mem"):
            n = self.name(e)
            return set().union(*[x[3] for x in S[1] if x[0] == "C" and x[1] == n and x[2] == pol] or [set()])
        if k == "Bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            op = e["op"]
            if op in ("==", "!="):
                out = set()
                for a, b in ((e["x"], e["y"]), (e["y"], e["x"])):
                    if self.const(b) == 0. and ("NB", "$") in self.val(a, S) and (op == "==") == pol:
                        out.add(("Z",))
                    if strip(b).get("k") == "Bool":
                        out |= self.implied(a, S, pol == ((op == "==") == bool(strip(b)["v"])))
                return out
            x, y = (e["x"], e["y"]) if op in ("<", "<=") else (e["y"], e["x"])     # x < y  or  x <= y
            strict = op in ("<", ">")
            if not pol:
                x, y, strict = y, x, not strict                                     # !(x<y): y<=x  (for numbers)
            a, b = self.val(x, S), self.val(y, S)
            out = set()
            if ("TOL", "$") in b and not any(f[0] in ("NR", "NB") for f in a):
                if any(f[0] == "VAR" for f in a) or "twonorm" in show(x):
                    self.seen.add(("compared", e.get("l")))
                    self.bad[("compared", e.get("l"))] = "what is compared with the tolerance here is not (on every path) the norm of the residual of the current iterate"
            elif ("TOL", "$") in b:
                self.seen.add(("compared", e.get("l")))
            if ("TOL", "$") in b:
                out |= {("OK", f[2]) for f in a if f[0] == "N"}
            if self.const(y) == 0. and ("NB", "$") in a:
                out.add(("Z",))
            if self.tolq(y) and not strict or self.tolq(y):
                out |= {("OK", f[2]) for f in a if f[0] == "REL"}
            return out
        if k == "Call":
            r = self.retexpr(e)
            if r is not None:
                return self.inlined(e, lambda: self.implied(r, S, pol))
            if self.involves(e):
                self.unknown.append("condition %s" % show(e)[:60])
        return set()

    def tolq(self, e):
        return self.name(strip(e)) == ("m", "tol_")

    def involves(self, e):
        return any(n.get("k") in ("Ref", "Mem") and (n.get("t") or "") in ("double", "const double") for n in walk(e))

    def retexpr(self, e):
        f = self.m.funcs.get(e.get("f"))
        if f and f.get("body") and len(f["body"]["b"]) == 1 and f["body"]["b"][0]["k"] == "Return" and f["body"]["b"][0].get("e"):
            return f["body"]["b"][0]["e"]
        return None

    def inlined(self, e, fn):
        f = self.m.funcs[e["f"]]
        old = dict(self.alias)
        for p, a in zip(f["p"], e["a"]):
            n = self.name(a)
            if n is not None and n != ("l", p["id"], p["n"]):
                self.alias[("l", p["id"], p["n"])] = n
        try:
            return fn()
        finally:
            self.alias = old

    # ------------------------------------------------------------ calls
    def calleffects(self, e, S, pure=False):
        """effects of a call as a statement (or inside an expression) on the tracked vectors"""
        key, F = S
        fn = (e.get("fq") or "").split("::")[-1]
        o = self.name(e["o"]) if e.get("o") is not None else None
        a = e["a"]
        if fn == "times_vec" and len(a) == 2 and e.get("o") is not None:
            r, x = self.name(a[0]), self.name(a[1])
            if r is None or x is None:
                self.unknown.append(show(e)[:80])
                return S
            F = self.kill(F, r)
            if o == ("m", "A_opr_") and r != x:
                F = F | {("A", r, x)}
            return key, F
        if o is not None and self.vec(e.get("ot") or strip(e["o"]).get("t")) and not e.get("cst"):
            if fn == "copyFrom" and len(a) == 1:
                w = self.name(a[0])
                if o == self.b:
                    key = (key[0], w)
                if w is None:
                    self.unknown.append(show(e)[:80])
                    return key, self.kill(F, o)
                return key, self.copy(F, o, w)
            if fn in ("setToZero", "setToConstant"):
                return key, self.kill(F, o) | {("IT", o)}
            if fn in ("scale", "negate"):
                c = -1. if fn == "negate" else self.const(a[0])
                old = [x for x in F if x[0] in ("A", "nA", "R", "mR") and x[1] == o]
                F = self.kill(F, o)
                if c == -1.:
                    F = F | {({"A": "nA", "nA": "A", "R": "mR", "mR": "R"}[x[0]],) + x[1:] for x in old if x[2] != o} | {("RR",) + x[1:] for x in old if x[0] == "mR" and x[2] != o}
                return key, F
            if fn == "axpy" and len(a) == 2:
                w, c = self.name(a[1]), self.const(a[0])
                sg, cv = self.coef(a[0])
                for x in F:
                    if x[0] == "SAME" and x[1] == cv:
                        sg, cv = sg * x[2], x[3]
                        break
                half = set()
                if cv is not None and w is not None and w != o:
                    for x in F:
                        if x[0] == "RR" and x[2] == o and x[1] not in (o, w) and sg == 1:
                            half.add(("P", x[1], o, cv, w))
                        if x[0] == "M" and x[2] == o and x[3] == cv and sg == 1 and x[1] != o and ("A", x[4], w) in F:
                            half.add(("RR", x[1], o))
                        if x[0] == "RR" and x[1] == o and x[2] not in (o, w) and sg == -1:
                            half.add(("M", o, x[2], cv, w))
                        if x[0] == "P" and x[1] == o and x[3] == cv and sg == -1 and x[2] != o and ("A", w, x[4]) in F:
                            half.add(("RR", o, x[2]))
                old = [x for x in F if x[0] in ("A", "nA", "B0") and x[1] == o]
                it = ("IT", o) in F
                # a residual against the right-hand side parameter
                if w == self.b and c in (1., -1.) and any(x[0] in ("A", "nA") for x in old):
                    self.n["resid"] += 1
                    k = (e.get("l"),)
                    if ("B0", w) not in F:
                        self.bad[("resid", e.get("l"))] = "the residual computed here uses the right-hand side after it may have been overwritten"
                    self.seen.add(("resid", e.get("l")))
                new = set()
                for x in old:
                    if x[0] in ("A", "nA") and ("B0", w) in F and c in (1., -1.):
                        if x[0] == "A" and c == -1.:
                            new.add(("mR", o, x[2]))
                        if x[0] == "nA" and c == 1.:
                            new.add(("R", o, x[2]))
                    if x[0] == "B0" and c == -1.:
                        new |= {("R", o, y[2]) for y in F if y[0] == "A" and y[1] == w and y[2] != o}
                new |= {("RR",) + x[1:] for x in new if x[0] == "R"}
                F = self.kill(F, o) | frozenset(new) | frozenset(half)
                return key, F | {("IT", o)} if it else F
            if fn not in MUT:
                self.unknown.append(show(e)[:80])
            return key, self.kill(F, o)
        g = self.m.funcs.get(e.get("f"))
        tracked = [self.name(x) for x in a if self.vec((strip(x).get("t") or ""))]
        own = e.get("o") is None or strip(e["o"]).get("k") == "This"
        if g and g.get("body") and own and self.depth < 4 and (tracked or strip(e.get("o") or {}).get("k") == "This"):
            if pure:
                self.unknown.append(show(e)[:80])
                return S
            self.depth += 1
            old, ex = dict(self.alias), self.exits
            self.exits = []
            for p, x in zip(g["p"], a):
                n = self.name(x)
                if n is not None and ("l", p["id"], p["n"]) != n and (self.vec(p["t"]) or "&" in p["t"] or "*" in p["t"]):
                    self.alias[("l", p["id"], p["n"])] = n
                elif n is not None:
                    S = self.setvar(("l", p["id"], p["n"]), x, S)
            self.once.update(self.assigned(g["body"]))
            out, br, ct = self.stmt(g["body"], {S[0]: S[1]})
            res = dict(out)
            for st, _e in self.exits:
                self.merge(res, st)
            self.exits, self.alias = ex, old
            self.depth -= 1
            if len(res) == 1:
                return list(res.items())[0]
            self.unknown.append(show(e)[:80])
            return S
        for i, x in enumerate(a):
            n = self.name(x)
            pt = (e.get("pt") or [""] * len(a))[i] if i < len(e.get("pt") or []) else ""
            if n is not None and self.vec(strip(x).get("t")) and "const" not in pt and fn not in ("dotProductWith",):
                self.unknown.append(show(e)[:80])
                F = self.kill(F, n)
            elif n is not None and pt.rstrip().endswith("&") and "const" not in pt:
                F = self.kill(F, n)
        return key, F

    # ------------------------------------------------------------ statements
    def merge(self, D, S):
        k, F = S
        D[k] = F if k not in D else D[k] & F

    def mergeall(self, *ds):
        D = {}
        for d in ds:
            for s in (d or {}).items():
                self.merge(D, s)
        return D

    def expr(self, e, S):
        e = strip(e)
        k = e.get("k")
        if k == "Cast":
            return self.expr(e["e"], S)
        if k == "Bin" and e["op"] == "=":
            n = self.name(e["x"])
            t = strip(e["x"]).get("t") or ""
            if n == ("m", "flag_"):
                c = self.const(e["y"])
                return ((int(c) if c is not None else TOP, S[0][1]), S[1])
            if n is None:
                return S
            if "*" in t and self.vec(t):
                y = strip(e["y"])
                key, F = S
                F = self.kill(F, n)
                if y.get("k") == "Call" and (y.get("fq") or "").endswith("new_copy"):
                    w = self.name(y["o"])
                    return (key, self.copy(F, n, w)) if w else (key, F)
                if y.get("k") == "Call" and (y.get("fq") or "").endswith(("alloc_clone",)) or y.get("k") in ("New", "Null"):
                    return key, F
                self.unknown.append(show(e)[:80])
                return key, F
            return self.setvar(n, e["y"], S)
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            n = self.name(e["x"])
            return (S[0], self.kill(S[1], n)) if n else S
        if k == "Un" and ("++" in e["op"] or "--" in e["op"]):
            n = self.name(e["e"])
            return (S[0], self.kill(S[1], n)) if n else S
        if k == "Call":
            if (e.get("op") or "").startswith("<<") or "<<" in (e.get("fq") or "") or "printf" in (e.get("fq") or ""):
                return S
            if (e.get("fq") or "").endswith("::swap"):
                return S
            return self.calleffects(e, S)
        if k == "Bin" and e["op"] == ",":
            return self.expr(e["y"], self.expr(e["x"], S))
        if k == "Lambda":
            self.unknown.append("lambda")
        return S

    def flagtest(self, c, key):
        """truth of the condition under the known flag"""
        c = strip(c)
        if c.get("k") == "Un" and c["op"] == "!":
            r = self.flagtest(c["e"], key)
            return None if r is None else not r
        if c.get("k") == "Bin" and c["op"] in ("==", "!="):
            for a, b in ((c["x"], c["y"]), (c["y"], c["x"])):
                v = self.const(b)
                if self.name(a) == ("m", "flag_") and v is not None and key[0] != TOP:
                    return (key[0] == int(v)) == (c["op"] == "==")
        if c.get("k") == "Bool":
            return bool(c["v"])
        return None

    def branch(self, c, D, pol):
        """states in which c may be pol; side effects of c applied"""
        out = {}
        for S in D.items():
            t = self.flagtest(c, S[0])
            if t is not None and t != pol:
                continue
            if ("Z",) in S[1] and False:
                continue
            f = self.implied(c, S, pol)
            self.merge(out, (S[0], S[1] | frozenset(f)))
        return out

    def stmt(self, s, D):
        """-> (states after, states at break, states at continue)"""
        if s is None or not D:
            return D, {}, {}
        k = s["k"]
        if k == "Block":
            br, ct = {}, {}
            for x in s["b"]:
                D, b, c = self.stmt(x, D)
                br, ct = self.mergeall(br, b), self.mergeall(ct, c)
            return D, br, ct
        if k == "Decl":
            for v in s["d"]:
                if v.get("k") != "Var":
                    continue
                n = ("l", v["id"], v["n"])
                i = v.get("init")
                if i is None:
                    D = {q: self.kill(F, n) for q, F in D.items()}
                    continue
                if self.vec(v["t"]) and ("*" in v["t"] or "&" in v["t"]):
                    w = self.name(i)
                    if w is not None and not self.once.get(v["id"]):
                        self.alias[n] = w
                    elif w is None and strip(i).get("k") in ("Call", "New"):
                        D = dict(self.expr(dict(k="Bin", op="=", x=dict(k="Ref", id=v["id"], n=v["n"], t="hiop::hiopVector *"), y=i), S) for S in D.items())
                    else:
                        self.unknown.append("pointer %s" % v["n"])
                    continue
                if "&" in v["t"] and self.name(i) is not None and self.name(i) != n:
                    self.alias[n] = self.name(i)
                    continue
                D = self.step(D, lambda S: self.setvar(n, i, S))
            return D, {}, {}
        if k == "If":
            a, b1, c1 = self.stmt(s["t"], self.branch(s["c"], D, True))
            b, b2, c2 = self.stmt(s.get("e"), self.branch(s["c"], D, False)) if s.get("e") else (self.branch(s["c"], D, False), {}, {})
            return self.mergeall(a, b), self.mergeall(b1, b2), self.mergeall(c1, c2)
        if k in ("For", "While", "Do"):
            if k == "For" and s.get("i"):
                D, _, _ = self.stmt(s["i"], D) if s["i"]["k"] in ("Decl", "Block") else (self.step(D, lambda S: self.expr(s["i"], S)), 0, 0)
            head, seen = D, None
            for _ in range(60):
                inn = self.branch(s["c"], head, True) if s.get("c") and (k != "Do" or seen is not None) else head
                out, br, ct = self.stmt(s["b"], inn if k != "Do" else head)
                back = self.mergeall(out, ct)
                if k == "For" and s.get("n"):
                    back = self.step(back, lambda S: self.expr(s["n"], S))
                if k == "Do":
                    ex = self.branch(s["c"], back, False)
                    back = self.branch(s["c"], back, True)
                new = self.mergeall(head, back)
                if new == head:
                    break
                head = new
                seen = True
            if k != "Do":
                c = s.get("c")
                inf = c is None or strip(c).get("k") == "Bool" and strip(c)["v"]
                ex = {} if inf else self.branch(c, head, False)
            return self.mergeall(ex, br), {}, {}
        if k == "Break":
            return {}, D, {}
        if k == "Continue":
            return {}, {}, D
        if k == "Return":
            for S in D.items():
                self.exits.append((S, s.get("e")))
                if self.depth == 0:
                    self.ret(s, S)
            return {}, {}, {}
        if k in ("Switch", "RangeFor", "Try", "Goto"):
            self.unknown.append(k)
            return D, {}, {}
        if k in ("Assert", "Null", "Empty"):
            return D, {}, {}
        if k == "Delete":
            return D, {}, {}
        return self.step(D, lambda S: self.expr(s, S)), {}, {}

    def step(self, D, fn):
        out = {}
        for S in D.items():
            self.merge(out, fn(S))
        return out

    # ------------------------------------------------------------ obligations
    def ret(self, s, S):
        key, F = S
        e = strip(s["e"]) if s.get("e") else {}
        l = s.get("l")
        t = bool(e["v"]) if e.get("k") == "Bool" else self.flagtest(e, key)
        self.n["ret"] += 1

        def ob(name, ok, msg):
            self.seen.add((name, l))
            if not ok:
                self.bad[(name, l)] = msg
        if t is None:
            f = self.implied(e, S, True)
            if self.name(e) is None and not f:
                self.unknown.append("return %s" % show(e)[:60])
            t = True
            F = F | frozenset(f)
            if any(x[0] == "C" for x in F):
                pass
        ab, rl = ("m", "abs_resid_"), ("m", "rel_resid_")
        if t:
            if ("Z",) in F:
                ob("zero", ("B0", self.b) in F and key[0] in (0, TOP), "for a zero right-hand side success is reported without leaving it (the solution) in place and flag 0")
                return
            ob("verified", ("OK", self.b) in F, "success is reported although the residual of the returned vector with respect to the original right-hand side has not been tested against the tolerance on every path")
            ob("flag", key[0] in (0, TOP), "success is reported with a convergence flag that says otherwise")
            ob("abs", ("N", ab, self.b) in F, "the absolute residual reported is not the one of the returned vector")
            ob("rel", ("REL", rl, self.b) in F or ("Q", rl, ab) in F and ("N", ab, self.b) in F, "the relative residual reported is not the one of the returned vector")
        else:
            ob("flag", key[0] != 0, "failure is reported although the convergence flag says success")
            ob("iterate", ("IT", self.b) in F, "after a failure the right-hand side is left where an iterate is to be returned")
            ob("rel", ("Q", rl, ab) in F or ("REL", rl, self.b) in F and ("N", ab, self.b) in F, "the relative residual reported does not belong to the absolute one")
            if key[1] == ("m", "xmin_"):
                ob("abs", ("N", ab, self.b) in F, "the absolute residual reported is not the one of the returned vector")

    def run(self):
        self.seen = set()
        p = self.f["p"][0]
        self.b = ("l", p["id"], p["n"])
        F = frozenset({("B0", self.b), ("IT", ("m", "x0_"))})
        out, _, _ = self.stmt(self.f["body"], {(TOP, None): F})
        return out
