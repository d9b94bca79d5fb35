"""Gated value numbering over the structured AST.

Every function is read once: branches are merged with gating masks, helper
functions are inlined, counted loops are summarised into closed forms (element-
wise updates, sums, maxima, scatters).  The result is a normal form (term.py)
for every object, array and scalar the function writes and for its return
value.  Anything that is not understood becomes an opaque value, which can
only make an obligation undecided.
"""
import re
from core import strip, walk, show as showe
from term import *
import term as T

INTT = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "bool", "char", "short", "unsigned short", "unsigned char", "signed char"}
REALT = {"double", "float"}


class Ptr:
    """pointer (or reference) value: an object/array identity and index list"""
    __slots__ = ("base", "idx")

    def __init__(self, base, idx=(ZERO,)):
        self.base, self.idx = base, tuple(idx)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.idx == o.idx

    def __hash__(self):
        return hash((self.base, self.idx))

    def __repr__(self):
        return "&%s%s" % (showloc(self.base), "" if all(not i.t for i in self.idx) else "".join("[%s]" % show(i) for i in self.idx))


class Phi:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


NULL = ("null",)


class Str(str):
    pass


class Give(Exception):
    """the analysis gives up on this function"""


class St:
    __slots__ = ("cells", "arr", "recs", "havoc", "guard")

    def __init__(self):
        self.cells, self.arr, self.recs, self.havoc, self.guard = {}, {}, {}, [], ONE

    def copy(self):
        s = St()
        s.cells = dict(self.cells)
        s.arr = dict(self.arr)
        s.recs = dict(self.recs)
        s.havoc = list(self.havoc)
        s.guard = self.guard
        return s


class Rec:
    """array update inside a loop body: dims ('pt',e) | ('rng',lo,hi); guard; value (over ix(d) for ranges)"""
    __slots__ = ("dims", "g", "v")

    def __init__(self, dims, g, v):
        self.dims, self.g, self.v = tuple(dims), g, v

    def __eq__(self, o):
        return isinstance(o, Rec) and self.dims == o.dims and self.g == o.g and self.v == o.v

    def mask(self, idx):
        m = self.g
        mp = {}
        for d, e in enumerate(idx):
            mp[ix(d)] = e
        m = subst2(m, mp)
        for d, (dim, e) in enumerate(zip(self.dims, idx)):
            if dim[0] == "pt":
                m = m * eq0(e - subst2(dim[1], mp))
            else:
                m = m * inrng(e, subst2(dim[1], mp), subst2(dim[2], mp))
        return m

    def value(self, idx):
        return subst2(self.v, {ix(d): e for d, e in enumerate(idx)})


def subst2(p, mp):
    mp = {k: v for k, v in mp.items() if k != v}
    return subst(p, mp) if mp else p


def inrng(e, lo, hi):
    """lo <= e < hi for integers"""
    return (ONE - lt0(e - lo, True)) * lt0(e - hi, True)


class Split(tuple):
    """row and column of a linear address, kept apart"""


class Layer:
    """a loop being analysed"""

    def __init__(self, uid, wa, parent):
        self.uid, self.wa, self.parent = uid, wa, parent
        self.reads = []          # (base, idx)


class VN:
    def __init__(self, model, hook=None, inline=None, maxdepth=8, dyncls=None, elemhook=None, lens=None, masks=(), typ=None, notes=None, statdyn=None):
        self.m = model
        self.hook = hook
        self.inline_ok = inline
        self.maxdepth = maxdepth
        self.dyncls = dyncls or {}       # base -> dynamic class
        self.masks = set(masks)
        self.lens = lens or {}
        self.stack = []
        self.uid = 0
        self.layer = None
        self.depth = 0
        self.frame = 0
        self.taint = []
        self.trace = []
        self.news = 0
        self.assumes = []
        self.arrtypes0 = {}
        self.nonnull = set()
        self.eqmap = {}
        self.stop = set()
        self.counters = {}
        self.statdyn = statdyn or {}
        self.ptrmap = None

    # ------------------------------------------------------------ state helpers
    def cell_init(self, loc, t, st):
        for pre, tag in reversed(st.havoc):
            if loc[:len(pre)] == pre:
                loc = ("hv", tag) + loc
                if self.isptr(t):
                    return Ptr(loc)
                return T.opq("value of %s after %s" % (showloc(loc[2:]), tag))
        if self.isptr(t):
            if self.ptrmap:
                r = self.ptrmap(loc, t)
                if r is not None:
                    return r
            return Ptr(loc)
        if self.isobj(t):
            return Ptr(loc)
        return self.in_atom(loc, t)

    def in_atom(self, loc, t):
        b = self.bare(t)
        return self.norm(T.inp(loc, "int" if b in INTT and b != "bool" or self.isenum(t) else "bool" if b == "bool" else "real") if b != "bool" else T.raw("in", loc, "bool", mask=True))

    def norm(self, p):
        for a in list(p.atoms()):
            k, args = INFO[a]
            if k == "in" and args[0] in self.eqmap:
                p = mapatoms2(p, a, self.eqmap[args[0]])
        return p

    def bare(self, t):
        t = (t or "").replace("const ", "").replace(" const", "").replace("volatile ", "").strip()
        while t.endswith("&"):
            t = t[:-1].strip()
        return t

    def isptr(self, t):
        t = (t or "").strip()
        while t.endswith("const") or t.endswith("__restrict"):
            t = t[:-5].strip() if t.endswith("const") else t[:-10].strip()
        return t.endswith("*") or "(*)(" in t or bool(re.search(r"\[[^][]*\]$", t))

    def isobj(self, t):
        b = self.bare(t)
        if getattr(self.hook, "lists", None) and re.match(r"std::(_List_(const_)?iterator|reverse_iterator)<", b):
            return False
        return not self.isptr(b) and b not in INTT and b not in REALT and b != "void" and not self.isenum(t)

    def isenum(self, t):
        b = self.bare(t)
        if not hasattr(self, "_en"):
            self._en = {e["q"] for e in self.m.enums}
        return b in self._en

    def typ(self, t):
        b = self.bare(t)
        return "int" if b in INTT or self.isenum(t) else "real"

    def getcell(self, loc, t, st):
        v = st.cells.get(loc)
        if v is None:
            v = self.cell_init(loc, t, st)
        return v

    def elemtype(self, t):
        t = (t or "").strip()
        while t.endswith("const"):
            t = t[:-5].strip()
        t = re.sub(r"\[[^][]*\]$", "*", t)
        if t.endswith("*"):
            return t[:-1].strip()
        return t

    # ------------------------------------------------------------ arrays
    def read(self, base, idx, t, st, layer="cur"):
        if base in T.LAY and not isinstance(idx, Split) and not (base in st.arr and len(idx) == 2 and idx[0].t and base[-1] == "M"):
            idx = list(T.rowcol(base, idx))
        if layer == "cur":
            layer = self.layer
        if layer is not None:
            if len(layer.reads) < 4000:
                layer.reads.append((base, tuple(idx)))
            if base in layer.wa:
                v = T.raw("el", ("LS", layer.uid, base), tuple(idx), self.typ(t))
            else:
                v = self.read(base, idx, t, layer.pst, layer.parent)
            for r in st.recs.get(base, ()):
                v = T.ite(r.mask(idx), r.value(idx), v)
            return v
        if base in st.arr:
            return subst2(st.arr[base], {ix(d): e for d, e in enumerate(idx)})
        return self.elem_init(base, idx, t, st)

    def elem_init(self, base, idx, t, st):
        for pre, tag in reversed(st.havoc):
            if base[:len(pre)] == pre:
                return T.opq("content of %s after %s" % (showloc(base), tag))
        if base[0] in ("hv", "hvp"):
            return T.opq("content of %s" % showloc(base))
        return T.el(base, idx, self.typ(t), mask=base in self.masks)

    def content(self, base, st, dims=1, t="double"):
        return self.read(base, [ix(d) for d in range(dims)], self.arrtypes0.get(base, t), st)

    def write(self, base, dims, v, st, g=ONE):
        if base in T.LAY and len(dims) == 2:
            dims, v, g = self.rows(base, dims, v, g)
        rec = Rec(dims, g, v)
        if self.layer is not None:
            if base not in self.layer.wa:
                self.layer.newwa.add(base)
            st.recs[base] = st.recs.get(base, ()) + (rec,)
            return
        idx = [ix(d) for d in range(len(dims))]
        old = self.read(base, idx, self.arrtypes0.get(base, "double"), st)
        m = rec.mask(idx)
        m = self.lensimp(m, base)
        st.arr[base] = T.ite(m, rec.v if all(d[0] == "rng" for d in dims) else rec.value(idx), old)

    def rows(self, base, dims, v, g):
        """an update given by linear addresses becomes one by rows and columns"""
        n = T.LAY[base]
        if n.single() is None and T.divisor(n) is None or dims[0][0] != "pt":
            return dims, v, g
        r = dims[0][1]
        if dims[1][0] == "pt":
            q, c = T.divmod_by(dims[1][1], n)
            return [("pt", r + q), ("pt", c)], v, g
        lo, hi = dims[1][1], dims[1][2]
        ql, rl = T.divmod_by(lo, n)
        w = hi - lo
        qw, rw = T.divmod_by(w, n)
        if not rw.t and not rl.t and qw != ONE:
            mp = {ix(1): (ix(0) - r) * n + ix(1)}
            return [("rng", r + ql, r + ql + qw), ("rng", ZERO, n)], subst2(v, mp), subst2(g, mp)
        mp = {ix(1): ix(1) + n * ql} if ql.t else {}
        return [("pt", r + ql), ("rng", rl, rl + w)], subst2(v, mp), subst2(g, mp)

    def setcontent(self, base, v, st, dims=1):
        """whole-object assignment"""
        if self.layer is not None:
            if base not in self.layer.wa:
                self.layer.newwa.add(base)
            st.recs[base] = st.recs.get(base, ()) + (Rec([("rng", ZERO, T.raw("in", ("inf",), "int"))] * dims, ONE, v),)
            return
        st.arr[base] = v

    def lensimp(self, m, base):
        """range masks that cover the whole array are true"""
        ln = self.lens.get(base)
        if not ln:
            return m
        for d, n in enumerate(ln):
            m = assume_true(m, lt0(ix(d) - n, True))
        return m

    # ------------------------------------------------------------ merging
    def mergev(self, c, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            try:
                return T.ite(c, a, b)
            except TooBig:
                return T.opq("too big")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and len(a.idx) == len(b.idx):
            return Ptr(a.base, [T.ite(c, x, y) for x, y in zip(a.idx, b.idx)])
        k = c.const()
        if k is not None:
            return a if k else b
        return Phi(c, a, b)

    def merge(self, c, a, b, base):
        """state after branching on c from state `base` (both branches completed)"""
        k = c.const()
        if k is not None:
            return a if k else b
        s = St()
        s.guard = base.guard
        s.havoc = list(a.havoc) + [h for h in b.havoc if h not in a.havoc]
        for key in set(a.cells) | set(b.cells):
            x, y = a.cells.get(key), b.cells.get(key)
            if x is None or y is None:
                t = self.celltypes.get(key)
                if t is None:
                    # local of one branch only
                    continue
                x = x if x is not None else self.cell_init(key, t, base)
                y = y if y is not None else self.cell_init(key, t, base)
            s.cells[key] = self.mergev(c, x, y)
        for key in set(a.arr) | set(b.arr):
            x, y = a.arr.get(key), b.arr.get(key)
            if x is None or y is None:
                d = self.dimsof(x if x is not None else y)
                i = [ix(q) for q in range(d)]
                x = x if x is not None else self.elem_init(key, i, self.arrtypes.get(key, "double"), base)
                y = y if y is not None else self.elem_init(key, i, self.arrtypes.get(key, "double"), base)
            s.arr[key] = self.mergev(c, x, y)
        for key in set(a.recs) | set(b.recs):
            p = base.recs.get(key, ())
            x, y = a.recs.get(key, ()), b.recs.get(key, ())
            if x == y:
                s.recs[key] = x
                continue
            n = len(p)
            xs, ys = x[n:], y[n:]
            s.recs[key] = p + tuple(Rec(r.dims, r.g * c, r.v) for r in xs) + tuple(Rec(r.dims, r.g * (ONE - c), r.v) for r in ys)
            # both branches write the same element: one record
            if len(xs) == 1 and len(ys) == 1 and xs[0].dims == ys[0].dims and xs[0].g == ys[0].g:
                s.recs[key] = p + (Rec(xs[0].dims, xs[0].g, self.mergev(c, xs[0].v, ys[0].v)),)
        return s

    def dimsof(self, p):
        d = 1
        for a in p.deps():
            if INFO[a][0] == "ix":
                d = max(d, INFO[a][1][0] + 1)
        return d

    # ------------------------------------------------------------ entry
    celltypes = None
    slice = False

    def run(self, f, this=("this",), args=None, st=None):
        """returns (state, return value, exits)"""
        self.celltypes, self.arrtypes = {}, dict(self.arrtypes0)
        st = st or St()
        a = []
        for k, p in enumerate(f["p"]):
            v = (args or {}).get(k)
            if v is None:
                v = self.param(("a%d" % k,), p["t"], st)
            a.append(v)
        r, st = self.call_fn(f, Ptr(this) if this else None, a, st)
        return st, r

    def param(self, loc, t, st):
        b = t.strip()
        isref = b.endswith("&")
        if self.isptr(b):
            return Ptr(loc)
        if self.isobj(b):
            return Ptr(loc)
        if isref:
            return ("ref", ("cell", loc, self.bare(b)))
        return self.in_atom(loc, b)

    def call_fn(self, f, this, args, st):
        if self.depth > self.maxdepth or f["id"] in self.stack:
            raise Give("recursion or depth at %s" % f["q"])
        if not f.get("body"):
            raise Give("no body: " + f["q"])
        sv = self.frame, getattr(self, "this", None), getattr(self, "exits", None), getattr(self, "refs", None), getattr(self, "loopctl", None)
        self.uid += 1
        self.frame = self.uid
        self.this = this
        self.exits = []
        self.refs = {}
        self.loopctl = None
        self.stack.append(f["id"])
        self.depth += 1
        g0 = st.guard
        try:
            for p, v in zip(f["p"], args):
                key = ("L", self.frame, p["id"])
                if isinstance(v, tuple) and v and v[0] == "ref":
                    self.refs[p["id"]] = v[1]
                else:
                    self.celltypes[key] = p["t"]
                    st.cells[key] = v
            for p in f["p"][len(args):]:
                st.cells[("L", self.frame, p["id"])] = T.opq("default argument")
            for i in f.get("inits", ()):
                self.ctor_init(i, st)
            st.guard = ONE
            st2 = self.exec(f["body"], st)
            ex = self.exits
            if st2 is not None:
                ex = ex + [(st2.guard, st2, None)]
            if not ex:
                raise Give("no exit")
            g, s, v = ex[-1]
            self.lastexits = ex
            cur, cv = s, v
            for g, s, v in reversed(ex[:-1]):
                cur2 = self.merge(g, s, cur, st)
                if v is None or cv is None:
                    cv = v if cv is None else cv
                    if v is not None:
                        cv = v
                else:
                    cv = self.mergev(g, v, cv)
                cur = cur2
            cur.guard = g0
            fr = self.frame
            cur.cells = {k: v for k, v in cur.cells.items() if not (k[0] == "L" and k[1] == fr)}
            return cv, cur
        finally:
            self.stack.pop()
            self.depth -= 1
            self.frame, self.this, self.exits, self.refs, self.loopctl = sv

    def ctor_init(self, i, st):
        if i.get("m") and i.get("e") is not None:
            e = i["e"]
            t = i.get("mt")
            loc = self.this.base + (i["m"],)
            self.celltypes[loc] = t
            if self.isobj(t):
                self.ev(e, st)
                return
            st.cells[loc] = self.ev(e, st)
        elif i.get("e") is not None:
            self.ev(i["e"], st)

    # ------------------------------------------------------------ statements; returns the fall-through state or None
    def exec(self, s, st):
        if s is None or st is None:
            return st
        k = s["k"]
        if k == "Block":
            for x in s["b"]:
                st = self.exec(x, st)
                if st is None:
                    return None
            return st
        if k == "Decl":
            for v in s["d"]:
                self.decl(v, st)
            return st
        if k == "If":
            return self.exec_if(s, st)
        if k in ("For", "While", "Do", "DoWhile"):
            return self.loop(s, st)
        if k == "RangeFor":
            if self.hook:
                h = self.hook(self, "range", s, None, None, st)
                if h is not NotImplemented and h is not None:
                    return h
            self.havoc_stmt(s, st, "range-for loop")
            return st
        if k == "Return":
            v = self.ev(s["e"], st) if s.get("e") is not None else None
            if v is not None and isinstance(v, tuple) and v and v[0] == "lvref":
                pass
            self.exits.append((st.guard, st, v))
            return None
        if k in ("Break", "Continue") and self.loopctl is None and self.slice and self.depth == 1:
            self.exits.append((st.guard, st, None))
            return None
        if k == "Break":
            if self.loopctl is None:
                raise Give("break outside loop")
            self.loopctl["brk"].append((st.guard, st))
            return None
        if k == "Continue":
            if self.loopctl is None or self.loopctl["cnt"] is None:
                raise Give("continue outside loop")
            self.loopctl["cnt"].append((st.guard, st))
            return None
        if k == "Switch":
            return self.switch(s, st)
        if k == "Nop":
            return st
        if k in ("Case", "Default"):
            return self.exec(s["b"], st)
        if k == "Assert":
            self.do_assert(s, st)
            return st
        if k == "Throw":
            return None
        self.ev(s, st)
        return st

    def do_assert(self, s, st):
        if self.depth == 1 and self.layer is None and s.get("e") is not None:
            try:
                c = self.cond(s["e"], st.copy())
                if isinstance(c, Poly) and not c.opq() and st.guard == ONE:
                    self.assumes.append(c)
            except (Give, KeyError, TooBig, TypeError, AttributeError):
                pass

    def decl(self, v, st):
        if v["k"] != "Var":
            return
        t = v["t"]
        key = ("L", self.frame, v["id"])
        self.celltypes[key] = t
        init = v.get("init")
        if t.strip().endswith("&") and init is not None:
            lv = self.lval(init, st)
            if lv is not None:
                self.refs[v["id"]] = lv
                return
            val = self.ev(init, st)
            if isinstance(val, Ptr):
                self.refs[v["id"]] = ("obj", val.base)
                return
            st.cells[key] = val
            self.refs.pop(v["id"], None)
            return
        self.refs.pop(v["id"], None)
        if init is None:
            if re.search(r"\[[^][]*\]$", t):
                self.news += 1
                st.cells[key] = Ptr(("loc", v["n"], self.frame, v["id"]))
            else:
                st.cells[key] = T.opq("uninitialised " + v["n"])
            return
        if re.search(r"\[[^][]*\]$", t):
            base = ("loc", v["n"], self.frame, v["id"])
            st.cells[key] = Ptr(base)
            i2 = strip(init)
            if i2["k"] == "InitList":
                et = self.elemtype(t)
                for q, x in enumerate(i2["a"]):
                    self.write(base, [("pt", P(q))], self.num(self.ev(x, st)), st)
            elif i2["k"] == "Str":
                pass
            else:
                self.ev(init, st)
            return
        val = self.ev(init, st)
        if self.isobj(t) and not isinstance(val, (Ptr, Str)):
            val = Ptr(("loc", v["n"], self.frame, v["id"]))
        if self.isobj(t) and isinstance(val, Ptr) and strip(init)["k"] == "Ctor" and val.base[0] == "tmp":
            val = val
        st.cells[key] = self.conv(val, t)

    def conv(self, v, t):
        return v

    def exec_if(self, s, st):
        c = self.cond(s["c"], st)
        k = c.const()
        if k is not None:
            return self.exec(s["t"] if k else s.get("e"), st) if (s.get("e") is not None or k) else st
        a, b = st.copy(), st.copy()
        a.guard, b.guard = st.guard * c, st.guard * (ONE - c)
        base = st.copy()
        a = self.exec(s["t"], a)
        b = self.exec(s.get("e"), b) if s.get("e") is not None else b
        if a is None:
            return b
        if b is None:
            return a
        if not self.partial(a, st, c) and not self.partial(b, st, ONE - c):
            r = self.merge(c, a, b, base)
            r.guard = st.guard
            return r
        # one of the branches has partly returned: its remaining guard is smaller than its condition
        ga, gb = a.guard, b.guard
        r = self.merge(c, a, b, base)
        r.guard = ga + gb
        return r

    def partial(self, s, st, c):
        return s.guard != st.guard * c

    def switch(self, s, st):
        v = self.num(self.ev(s["c"], st))
        body = s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]
        groups, cur = [], None
        flat = []

        def unfold(x):
            labels = []
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append(x.get("iv") if x["k"] == "Case" else "default")
                x = x["b"]
            return labels, x
        for x in body:
            labels, y = unfold(x)
            if labels:
                if cur is not None and not (cur["s"] and cur["s"][-1]["k"] in ("Break", "Return")):
                    self.havoc_stmt(s, st, "switch with fall-through")
                    return st
                cur = {"l": labels, "s": []}
                groups.append(cur)
            if cur is not None and y is not None:
                cur["s"].append(y)
        rest = ONE
        chain, default = [], None
        for g in groups:
            if "default" in g["l"]:
                default = g
                continue
            c = ZERO
            for l in g["l"]:
                c = lor(c, eq0(v - P(l)))
            chain.append((c, g))

        def go(i, st):
            if i == len(chain):
                if default is None:
                    return st
                return self.block_nobreak(default["s"], st)
            c, g = chain[i]
            k = c.const()
            if k is not None:
                return self.block_nobreak(g["s"], st) if k else go(i + 1, st)
            base = st.copy()
            a, b = st.copy(), st.copy()
            a.guard, b.guard = st.guard * c, st.guard * (ONE - c)
            a, b = self.block_nobreak(g["s"], a), go(i + 1, b)
            if a is None or b is None:
                return a if b is None else b
            ga, gb = a.guard, b.guard
            r = self.merge(c, a, b, base)
            r.guard = ga + gb
            return r
        return go(0, st)

    def block_nobreak(self, l, st):
        sv = self.loopctl
        self.loopctl = {"brk": [], "cnt": sv["cnt"] if sv else None}
        base = st.copy()
        try:
            for x in l:
                if x["k"] == "Break":
                    break
                st = self.exec(x, st)
                if st is None:
                    break
            brk = self.loopctl["brk"]
        finally:
            self.loopctl = sv
        for g, s in brk:
            if st is None:
                st = s
                continue
            tot = st.guard + g
            st = self.merge(g, s, st, base)
            st.guard = tot
        return st

    # ------------------------------------------------------------ expressions
    def num(self, v):
        if isinstance(v, Poly):
            return v
        if v == NULL:
            return ZERO
        if isinstance(v, Phi):
            a, b = self.num(v.a), self.num(v.b)
            return T.ite(v.c, a, b)
        return T.opq("non-numeric value")

    def cond(self, e, st):
        v = self.ev(e, st)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, Poly):
            if v.const() is not None:
                return P(int(v.const() != 0))
            if isbool(v):
                return v
            return ONE - eq0(v)
        if isinstance(v, Ptr):
            return ONE if v.base in self.nonnull else ONE - T.raw("isnull", v.base, mask=True)
        if v == NULL:
            return ZERO
        if isinstance(v, Phi):
            return T.ite(v.c, self.tobool(v.a), self.tobool(v.b))
        return T.raw("opqb", T.opq("condition"), mask=True)

    def lval(self, e, st):
        """('cell', loc, type) | ('elem', base, idx, type) | ('obj', base) | ('phi', c, lv, lv) | None"""
        k = e["k"]
        if k == "Cast":
            return self.lval(e["e"], st)
        if k == "This":
            return None
        if k == "Ref":
            if e.get("dk") in ("var", "parm"):
                if e["id"] in self.refs:
                    return self.refs[e["id"]]
                key = ("L", self.frame, e["id"])
                v = st.cells.get(key)
                if isinstance(v, Ptr) and self.isobj(e["t"]):
                    return ("obj", v.base)
                return ("cell", key, e["t"])
            if e.get("dk") == "global":
                return ("cell", ("G", e.get("q") or e["n"]), e["t"])
            return None
        if k == "Mem":
            b = e["b"]
            bv = self.ev(b, st)
            if isinstance(bv, Phi):
                return self.phi_lv(bv, lambda p: self.field(p, e))
            if not isinstance(bv, Ptr):
                return None
            return self.field(bv, e)
        if k == "Idx":
            b = self.ev(e["b"], st)
            i = self.num(self.ev(e["i"], st))
            if isinstance(b, Phi):
                return self.phi_lv(b, lambda p: self.at(p, i, e["t"]))
            if not isinstance(b, Ptr):
                return None
            return self.at(b, i, e["t"])
        if k == "Un" and e["op"] == "*":
            b = self.ev(e["e"], st)
            if isinstance(b, Phi):
                return self.phi_lv(b, lambda p: self.at(p, ZERO, e["t"]))
            if not isinstance(b, Ptr):
                return None
            return self.at(b, ZERO, e["t"])
        if k == "Un" and e["op"] in ("++", "--"):
            self.ev(e, st)
            return self.lval(e["e"], st)
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            self.ev(e, st)
            return self.lval(e["x"], st)
        if k == "Call":
            v = self.ev(e, st)
            if isinstance(v, tuple) and v and v[0] == "lvref":
                return v[1]
            if isinstance(v, Ptr) and self.isobj(e["t"]):
                return ("obj", v.base)
            return None
        if k == "Cond":
            c = self.cond(e["c"], st)
            return self.mkphi_lv(c, self.lval(e["x"], st), self.lval(e["y"], st))
        return None

    def phi_lv(self, v, f):
        a = self.phi_lv(v.a, f) if isinstance(v.a, Phi) else f(v.a) if isinstance(v.a, Ptr) else None
        b = self.phi_lv(v.b, f) if isinstance(v.b, Phi) else f(v.b) if isinstance(v.b, Ptr) else None
        return self.mkphi_lv(v.c, a, b)

    def mkphi_lv(self, c, a, b):
        if a == b:
            return a
        if a is None or b is None:
            return a if b is None else b
        return ("phi", c, a, b)

    def field(self, p, e):
        t = e["t"]
        loc = p.base + ((e["n"],) if not (len(p.idx) == 1 and p.idx[0].t) else (("[]",) + p.idx, e["n"]))
        if self.isobj(t):
            return ("obj", loc)
        return ("cell", loc, t)

    def at(self, p, i, t):
        idx = p.idx[:-1] + (p.idx[-1] + i,)
        if self.isobj(t):
            return ("obj", p.base if all(not x.t for x in idx) else p.base + (("[]",) + idx,))
        if p.base[0] == "&":
            # pointer to a scalar cell
            if all(not x.t for x in idx):
                return ("cell", p.base[1], t)
            return None
        return ("elem", p.base, idx, t)

    def load(self, lv, st):
        if lv is None:
            return T.opq("unknown object")
        if lv[0] == "cell":
            self.celltypes.setdefault(lv[1], lv[2])
            return self.getcell(lv[1], lv[2], st)
        if lv[0] == "obj":
            return Ptr(lv[1])
        if lv[0] == "phi":
            return self.mergev(lv[1], self.load(lv[2], st), self.load(lv[3], st))
        base, idx, t = lv[1], lv[2], lv[3]
        if self.isptr(t):
            if self.bare(self.elemtype(t)) in REALT | INTT or True:
                return Ptr(base, idx + (ZERO,))
        self.arrtypes.setdefault(base, t)
        return self.read(base, idx, t, st)

    def store(self, lv, v, st):
        if lv is None:
            raise Give("store to an unknown object")
        if lv[0] == "cell":
            self.celltypes.setdefault(lv[1], lv[2])
            t = self.bare(lv[2])
            if isinstance(v, Poly) and t in INTT and False:
                pass
            if self.layer is not None and lv[1][0] != "L":
                pass
            st.cells[lv[1]] = v
            return
        if lv[0] == "obj":
            # assignment of class objects
            self.touch_obj(lv[1], st, "object assignment")
            return
        if lv[0] == "phi":
            o1 = self.load(lv[2], st)
            o2 = self.load(lv[3], st)
            self.store(lv[2], self.mergev(lv[1], v, o1), st)
            self.store(lv[3], self.mergev(lv[1], o2, v), st)
            return
        base, idx, t = lv[1], lv[2], lv[3]
        if self.isptr(t):
            # table of pointers being filled (row pointers): identity is kept
            return
        self.arrtypes.setdefault(base, t)
        self.write(base, [("pt", i) for i in idx], self.num(v), st)

    def touch_obj(self, base, st, why):
        self.havoc(base, st, why)

    def havoc(self, base, st, why):
        for k in [k for k in st.cells if k[:len(base)] == base]:
            del st.cells[k]
        for k in [k for k in st.arr if k[:len(base)] == base]:
            del st.arr[k]
        self.uid += 1
        st.havoc.append((base, "%s#%d" % (why, self.uid)))
        if self.layer is not None:
            self.layer.hv = True

    def ev(self, e, st):
        if e is None:
            return None
        k = e["k"]
        if k == "Int":
            return P(e["v"])
        if k == "Bool":
            return P(int(e["v"]))
        if k == "Flt":
            return P(Fraction(str(e["v"])))
        if k == "Null":
            return NULL
        if k == "Str":
            return Str(e["v"])
        if k == "This":
            return self.this
        if k == "Sizeof":
            return P(e["v"]) if isinstance(e.get("v"), int) else T.opq("sizeof")
        if k == "Ref":
            if e.get("dk") == "enum":
                return P(e["v"])
            if e.get("dk") in ("var", "parm"):
                if e["id"] in self.refs:
                    return self.load(self.refs[e["id"]], st)
                v = st.cells.get(("L", self.frame, e["id"]))
                if v is None:
                    return T.opq("variable " + e["n"])
                return v
            if e.get("dk") == "global":
                return self.global_value(e, st)
            return T.opq("ref " + e["n"])
        if k == "Mem":
            lv = self.lval(e, st)
            return self.load(lv, st)
        if k == "Idx":
            return self.load(self.lval(e, st), st)
        if k == "Cast":
            return self.cast(e, st)
        if k == "Un":
            return self.unary(e, st)
        if k == "Bin":
            return self.binary(e, st)
        if k == "Cond":
            c = self.cond(e["c"], st)
            kk = c.const()
            if kk is not None:
                return self.ev(e["x"] if kk else e["y"], st)
            a, b = st.copy(), st.copy()
            va, vb = self.ev(e["x"], a), self.ev(e["y"], b)
            r = self.merge(c, a, b, st.copy())
            g = st.guard
            self.assign_state(st, r)
            st.guard = g
            return self.mergev(c, va, vb)
        if k == "Call":
            return self.call(e, st)
        if k == "New":
            self.news += 1
            if e.get("sz") is not None:
                self.ev(e["sz"], st)
                return Ptr(("new", e.get("l"), self.news))
            if e.get("init") is not None:
                h = self.hook and self.hook(self, "new", e, None, None, st)
                if isinstance(h, Ptr):
                    return h
                self.evargs_havoc(strip(e["init"]), st, ctor=True)
            return Ptr(("new", e["t"], self.news))
        if k == "Delete":
            self.ev(e["e"], st)
            return P(0)
        if k == "Assert":
            self.do_assert(e, st)
            return P(0)
        if k == "Ctor":
            if self.hook:
                h = self.hook(self, "ctor", e, None, None, st)
                if h is not NotImplemented and h is not None:
                    return h
            if len(e["a"]) == 1 and self.bare(strip(e["a"][0]).get("t")) == self.bare(e["t"]):
                return self.ev(e["a"][0], st)
            if self.bare(e["t"]).startswith(("std::basic_string", "std::string")) and len(e["a"]) >= 1:
                v = self.ev(e["a"][0], st)
                if isinstance(v, Str):
                    return v
            self.evargs_havoc(e, st, ctor=True)
            self.news += 1
            return Ptr(("tmp", e.get("q"), self.news))
        if k == "InitList":
            if len(e["a"]) == 1 and not self.isobj(e.get("t")) and not self.isptr(e.get("t")):
                return self.ev(e["a"][0], st)
            for x in e["a"]:
                self.ev(x, st)
            return T.opq("initialiser list")
        if k == "Lambda":
            return T.opq("lambda")
        return T.opq(k)

    def global_value(self, e, st):
        return self.getcell(("G", e.get("q") or e["n"]), e["t"], st)

    def assign_state(self, st, r):
        st.cells, st.arr, st.recs, st.havoc = r.cells, r.arr, r.recs, r.havoc

    def cast(self, e, st):
        ck = e["ck"]
        v = self.ev(e["e"], st)
        if ck == "Dynamic" and self.hook:
            h = self.hook(self, "dyncast", e, v, None, st)
            if h is not NotImplemented:
                return h
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.tobool(v)
        if ck == "FloatingToIntegral":
            v = self.num(v)
            if v.const() is not None:
                return P(int(v.const()))
            return T.fn("trunc", v)
        return v

    def unary(self, e, st):
        op = e["op"]
        if op == "&":
            lv = self.lval(e["e"], st)
            if lv is None:
                v = self.ev(e["e"], st)
                return v if isinstance(v, Ptr) else T.opq("address")
            if lv[0] == "cell":
                return Ptr(("&", lv[1]))
            if lv[0] == "obj":
                return Ptr(lv[1])
            if lv[0] == "elem":
                return Ptr(lv[1], lv[2])
            return T.opq("address")
        if op == "*":
            return self.load(self.lval(e, st), st)
        if op == "!":
            return ONE - self.cond(e["e"], st)
        if op == "-":
            return -self.num(self.ev(e["e"], st))
        if op == "+":
            return self.ev(e["e"], st)
        if op in ("++", "--", "p++", "p--", "++p", "--p"):
            lv = self.lval(e["e"], st)
            old = self.load(lv, st)
            d = 1 if "+" in op else -1
            new = self.addv(old, P(d))
            self.store(lv, new, st)
            return old if op.startswith("p") else new
        self.ev(e["e"], st)
        return T.opq("operator " + op)

    def addv(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Poly):
            if a.base[0] == "&":
                return T.opq("address arithmetic")
            return Ptr(a.base, a.idx[:-1] + (a.idx[-1] + b,))
        if isinstance(b, Ptr) and isinstance(a, Poly):
            return self.addv(b, a)
        return self.num(a) + self.num(b)

    def binary(self, e, st):
        op = e["op"]
        if op == "=":
            lv0 = None
            v = self.ev(e["y"], st)
            lv = self.lval(e["x"], st)
            if isinstance(v, tuple) and v and v[0] == "lvref":
                v = self.load(v[1], st)
            self.store(lv, v, st)
            return v
        if op in ("+=", "-=", "*=", "/=", "%=", "&=", "|="):
            v = self.ev(e["y"], st)
            lv = self.lval(e["x"], st)
            old = self.load(lv, st)
            new = self.arith(op[:-1], old, v, e)
            self.store(lv, new, st)
            return new
        if op == "&&":
            a = self.cond(e["x"], st)
            if a.const() == 0:
                return ZERO
            s2 = st.copy()
            b = self.cond(e["y"], s2)
            self.shortcircuit(a, st, s2)
            return a * b
        if op == "||":
            a = self.cond(e["x"], st)
            if a.const() == 1:
                return ONE
            s2 = st.copy()
            b = self.cond(e["y"], s2)
            self.shortcircuit(ONE - a, st, s2)
            return lor(a, b)
        if op == ",":
            self.ev(e["x"], st)
            return self.ev(e["y"], st)
        a = self.ev(e["x"], st)
        b = self.ev(e["y"], st)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b, e)
        return self.arith(op, a, b, e)

    def shortcircuit(self, c, st, s2):
        """the second operand ran only where c"""
        if s2.cells == st.cells and s2.arr == st.arr and s2.recs == st.recs:
            return
        r = self.merge(c, s2, st.copy(), st.copy())
        self.assign_state(st, r)

    def compare(self, op, a, b, e):
        ptrs = [x for x in (a, b) if isinstance(x, (Ptr, Phi)) or x == NULL]
        if ptrs:
            if a == b:
                return P(int(op in ("==", "<=", ">=")))
            if op in ("==", "!="):
                # C spells the null pointer as a (cast) zero
                a, b = (NULL if isinstance(x, Poly) and x.const() == 0 else x for x in (a, b))
                r = self.ptreq(a, b)
                return r if op == "==" else ONE - r
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                a, b = a.idx[-1], b.idx[-1]
                isint = True
            else:
                return T.raw("opqb", T.opq("pointer comparison"), mask=True)
        else:
            if isinstance(a, Str) or isinstance(b, Str):
                if isinstance(a, Str) and isinstance(b, Str):
                    return P(int((a == b) == (op == "==")))
                return T.raw("opqb", T.opq("string comparison"), mask=True)
            a, b = self.num(a), self.num(b)
            isint = self.typ(e["x"].get("t")) == "int" and self.typ(e["y"].get("t")) == "int"
        d = a - b
        if op == "<":
            return lt0(d, isint)
        if op == ">":
            return lt0(-d, isint)
        if op == "<=":
            return ONE - lt0(-d, isint)
        if op == ">=":
            return ONE - lt0(d, isint)
        r = eq0(d)
        return r if op == "==" else ONE - r

    def ptreq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Phi):
                return T.ite(x.c, self.ptreq(x.a, y), self.ptreq(x.b, y))
        if a == NULL and b == NULL:
            return ONE
        for x, y in ((a, b), (b, a)):
            if y == NULL and isinstance(x, Poly) and x.const() is not None:
                return P(int(x.const() == 0))
            if y == NULL and isinstance(x, Ptr):
                if x.base[0] in ("new", "tmp", "loc", "&") or x.base in self.nonnull:
                    return ZERO
                return T.raw("isnull", x.base, mask=True)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base:
                return eq0(a.idx[-1] - b.idx[-1])
            return T.raw("same", tuple(sorted((a.base, b.base), key=repr)), mask=True)
        return T.raw("opqb", T.opq("pointer comparison"), mask=True)

    def arith(self, op, a, b, e):
        isint = self.typ(e["x"].get("t")) == "int" and self.typ(e["y"].get("t")) == "int"
        if op == "+":
            return self.addv(a, b)
        if op == "-":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base == b.base and len(a.idx) == len(b.idx):
                    return a.idx[-1] - b.idx[-1]
                return T.opq("pointer difference")
            if isinstance(a, Ptr):
                return self.addv(a, -self.num(b))
            return self.num(a) - self.num(b)
        a, b = self.num(a), self.num(b)
        try:
            if op == "*":
                return a * b
            if op == "/":
                if isint:
                    if a.const() is not None and b.const() not in (None, 0):
                        return P(int(a.const() / b.const()))
                    if b.const() == 1:
                        return a
                    return T.fn("idiv", a, b)
                return a / b
            if op == "%":
                return T.fn("imod", a, b)
        except TooBig:
            return T.opq("too big")
        if op == "&" and isbool(a) and isbool(b):
            return a * b
        if op == "|" and isbool(a) and isbool(b):
            return lor(a, b)
        return T.opq("operator " + op)

    # ------------------------------------------------------------ calls
    PURE = {"fabs", "sqrt", "log", "exp", "pow", "fmax", "fmin", "std::fabs", "std::abs", "std::sqrt", "std::max", "std::min", "std::fmax", "std::fmin", "std::log",
            "std::exp", "std::pow", "abs", "std::isnan", "isnan", "std::isinf", "isinf", "std::isfinite", "isfinite", "cbrt", "floor", "ceil", "log10", "std::log10"}

    def call(self, e, st):
        fq = e.get("fq") or ""
        if self.hook:
            h = self.hook(self, "call", e, None, None, st)
            if h is not NotImplemented:
                return h
        b = blas(self, e, st)
        if b is not NotImplemented:
            return b
        if fq in self.PURE:
            return T.fn(fq.split("::")[-1], *[self.num(self.ev(x, st)) for x in e["a"]])
        if fq.startswith("std::numeric_limits") and fq.split("::")[-1] in ("max", "min", "lowest", "epsilon", "infinity", "quiet_NaN"):
            return T.inp((fq,), "pos")
        recv = None
        if e.get("o") is not None:
            recv = self.ev(e["o"], st)
            if isinstance(recv, tuple) and recv and recv[0] == "lvref":
                recv = self.load(recv[1], st)
        # resolve the target
        f = self.target(e, recv)
        if f is not None and f.get("body") and (self.inline_ok is None or self.inline_ok(f, e)) and f["id"] not in self.stack and self.depth < self.maxdepth:
            args = self.args(e, f, st)
            try:
                v, s2 = self.call_fn(f, recv if isinstance(recv, Ptr) else None, args, st.copy())
                g = st.guard
                self.assign_state(st, s2)
                st.guard = g
                if v is None and (f.get("rt") or "") != "void":
                    v = T.opq("no value")
                if e.get("rr") and isinstance(v, Poly):
                    return v
                return v if v is not None else P(0)
            except Give as g:
                self.trace.append(str(g))
        return self.unknown_call(e, recv, st)

    def target(self, e, recv):
        fid = e.get("f")
        if not fid:
            return None
        if not e.get("v"):
            return self.m.funcs.get(fid)
        cls = None
        if isinstance(recv, Ptr):
            cls = self.dyncls.get(recv.base)
        if cls is None:
            cls = self.statdyn.get(self.m.meth[fid][0]) if fid in self.m.meth else None
        tg = [fid] + sorted(self.m.overriders(fid))
        if cls is not None:
            chain = [cls] + self.m.all_bases(cls)
            own = {self.m.meth[t][0]: t for t in tg if t in self.m.meth}
            for c in chain:
                if c in own:
                    return self.m.funcs.get(own[c])
        defs = [t for t in tg if t in self.m.funcs and self.m.funcs[t].get("body")]
        if len(defs) == 1 and len([t for t in tg if not (t in self.m.meth and self.m.meth[t][1].get("pure"))]) == 1:
            return self.m.funcs[defs[0]]
        return None

    def args(self, e, f, st):
        out = []
        for p, a in zip(f["p"], e["a"]):
            t = p["t"].strip()
            if t.endswith("&"):
                lv = self.lval(a, st)
                if lv is not None and lv[0] in ("cell", "elem"):
                    # arrays behind pointers are values; scalar references stay references
                    out.append(("ref", lv))
                    continue
                if lv is not None and lv[0] == "obj":
                    out.append(Ptr(lv[1]))
                    continue
            v = self.ev(a, st)
            if isinstance(v, tuple) and v and v[0] == "lvref":
                v = self.load(v[1], st)
            out.append(v)
        return out

    def unknown_call(self, e, recv, st):
        """a call whose body is not known (or not inlined): havoc what it may write"""
        fq = e.get("fq") or "?"
        name = fq.split("::")[-1]
        f = self.m.funcs.get(e.get("f"))
        vals = self.evargs_havoc(e, st)
        if isinstance(recv, Ptr) and not e.get("cst") and not e.get("sm"):
            if recv.base and recv.base[0] != "G":
                self.havoc(recv.base, st, name)
        if isinstance(recv, Phi):
            for p in phis(recv):
                if isinstance(p, Ptr) and not e.get("cst"):
                    self.havoc(p.base, st, name)
        t = e.get("t") or "void"
        if self.isptr(t) or self.isobj(t):
            self.news += 1
            return Ptr(("ret", name, self.news))
        return T.opq("result of %s" % name)

    def evargs_havoc(self, e, st, ctor=False):
        fq = e.get("fq") or e.get("q") or "?"
        pts = e.get("pt") or []
        f = self.m.funcs.get(e.get("f"))
        out = []
        for k, a in enumerate(e.get("a", ())):
            t = pts[k] if k < len(pts) else (f["p"][k]["t"] if f and k < len(f["p"]) else (a.get("t") or ""))
            lv = None
            if t.strip().endswith("&"):
                lv = self.lval(a, st)
            v = self.load(lv, st) if lv is not None else self.ev(a, st)
            out.append(v)
            if "const" in t.split("*")[0]:
                continue
            if lv is not None and lv[0] in ("cell", "elem") and not self.isptr(lv[-1]):
                self.store(lv, T.opq("output of %s" % fq), st)
            elif lv is not None and lv[0] == "cell":
                st.cells[lv[1]] = Ptr(("ret", fq, self.uid))
            for p in phis(v):
                if isinstance(p, Ptr) and (self.isptr(t) or t.strip().endswith("&")):
                    if p.base[0] == "&":
                        st.cells[p.base[1]] = T.opq("output of %s" % fq)
                    else:
                        self.havoc(p.base, st, fq.split("::")[-1])
        return out

    # ------------------------------------------------------------ loops
    def havoc_stmt(self, s, st, why):
        """forget everything the statement may write"""
        self.trace.append("%s at line %s" % (why, s.get("l")))
        if any(n["k"] in ("Return",) for n in walk(s)):
            raise Give(why + " with return")
        for n in walk(s):
            k = n["k"]
            tgt = None
            if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                tgt = n["x"]
            elif k == "Un" and ("++" in n["op"] or "--" in n["op"]):
                tgt = n["e"]
            elif k == "Call":
                if self.quiet(n):
                    continue
                f = self.m.funcs.get(n.get("f"))
                pts = [p["t"] for p in f["p"]] if f else n.get("pt") or []
                for i, a in enumerate(n.get("a", ())):
                    if i >= len(pts) or "const" not in pts[i].split("*")[0]:
                        self.havoc_expr(a, st, why)
                if n.get("o") is not None and not n.get("cst") and not self.reads(n):
                    self.havoc_expr(n["o"], st, why)
                continue
            if tgt is not None:
                try:
                    lv = self.lval(tgt, st.copy())
                except (KeyError, AttributeError, TooBig):
                    lv = None
                if lv is None:
                    raise Give(why)
                self.havoc_lv(lv, st, why)
        return st

    def quiet(self, n):
        return False

    def reads(self, n):
        """a call known not to modify its receiver"""
        return (n.get("fq") or "").split("::")[-1] in ("getRow", "m", "n", "get_size", "get_local_size") and (n.get("fq") or "").startswith("hiop::hiop")

    def havoc_expr(self, a, st, why):
        try:
            v = self.ev(a, st.copy())
        except (Give, KeyError, AttributeError, TooBig):
            v = None
        for p in phis(v):
            if isinstance(p, Ptr):
                if p.base[0] == "&":
                    st.cells[p.base[1]] = T.opq(why)
                else:
                    self.havoc(p.base, st, why)

    def havoc_lv(self, lv, st, why):
        if lv[0] == "cell":
            if self.isptr(lv[2]):
                self.uid += 1
                st.cells[lv[1]] = Ptr(("hvp", self.uid))
            else:
                st.cells[lv[1]] = T.opq(why)
        elif lv[0] == "elem":
            self.havoc(lv[1], st, why)
        elif lv[0] == "obj":
            self.havoc(lv[1], st, why)
        elif lv[0] == "phi":
            self.havoc_lv(lv[2], st, why)
            self.havoc_lv(lv[3], st, why)

    def loop(self, s, st):
        from vnloop import summarise
        return summarise(self, s, st)


def phis(v):
    if isinstance(v, Phi):
        yield from phis(v.a)
        yield from phis(v.b)
    else:
        yield v


def isbool(p):
    """0/1 valued polynomial"""
    at = list(p.atoms())
    if not all(MASK[a] for a in at) or len(at) > 8:
        # products/complements of masks: cheap structural test
        return False

    def go(q, rest):
        if not rest:
            return q.const() in (0, 1)
        return go(T.setmask(q, rest[0], 0), rest[1:]) and go(T.setmask(q, rest[0], 1), rest[1:])
    return go(p, at)


def mapatoms2(p, a, v):
    """replace one atom id (at any depth) by v"""
    cache = {}

    def has(q, seen={}):
        return True

    def go(q):
        r = ZERO
        ch = False
        for m, c in q.t.items():
            x = Poly({(): c})
            for b, e in m:
                if b == a:
                    y = v
                    ch = True
                else:
                    y = atom(b)
                    ch = ch or y is not None
                    if y is None:
                        y = Poly({((b, 1),): Fraction(1)})
                if e < 0:
                    y = T.inv(y)
                for _ in range(abs(e)):
                    x = x * y
            r = r + x
        return r if ch else q

    def atom(b):
        if b in cache:
            return cache[b]
        kind, args = INFO[b]
        if not contains(b, a):
            cache[b] = None
            return None
        nargs = arg(args)
        y = T.rebuild(kind, nargs)
        if y is None:
            y = T.raw(kind, *nargs, mask=MASK[b])
        cache[b] = y
        return y

    def arg(args):
        return tuple(go(x) if isinstance(x, Poly) else arg(x) if isinstance(x, tuple) else x for x in args)
    return go(p)


def assume_true(m, q):
    """m, simplified under the assumption that the comparison q holds"""
    if not isinstance(m, Poly):
        return m
    a = q.single()
    if a is not None:
        return mapatoms2(m, a, ONE)
    a = (ONE - q).single()
    if a is not None:
        return mapatoms2(m, a, ZERO)
    return m


_CONT = {}


def contains(b, a):
    if b == a:
        return True
    k = (b, a)
    if k not in _CONT:
        _CONT[k] = any(contains(c, a) for q in T.polys_in(INFO[b][1]) for c in q.atoms())
    return _CONT[k]


# ------------------------------------------------------------ BLAS and memory primitives
MEMFN = ("memcpy", "std::memcpy", "memmove", "memset", "std::memset", "std::copy", "std::fill", "std::fill_n", "MPI_Allreduce")


def blas(vn, e, st, ov=None):
    fq = e.get("fq") or ""
    if fq.startswith("hiop::") and fq.endswith("_"):
        fq = fq[6:]
    n = fq.rstrip("_")
    ov = ov or {}
    if fq in MEMFN or fq.startswith("hiop::ExecSpace") or n in ("dgemv", "dgemm", "dlange", "daxpy", "ddot", "dscal", "dnrm2", "dcopy"):
        for k, a in enumerate(e["a"]):
            if k in ov or not vn.isptr(a.get("t")) or "ompi_" in a.get("t"):
                continue
            v = vn.ev(a, st)
            if isinstance(v, Phi):
                # one of two arrays: do both and merge
                base, s1, s2 = st.copy(), st.copy(), st.copy()
                r1 = blas(vn, e, s1, {**ov, k: v.a})
                r2 = blas(vn, e, s2, {**ov, k: v.b})
                if r1 is NotImplemented or r2 is NotImplemented:
                    return NotImplemented
                g = st.guard
                vn.assign_state(st, vn.merge(v.c, s1, s2, base))
                st.guard = g
                return vn.mergev(v.c, r1, r2)

    def val(k):
        v = ov[k] if k in ov else vn.ev(e["a"][k], st)
        if isinstance(v, Ptr):
            t = vn.bare((e["a"][k].get("t") or "double *").replace("*", ""))
            lv = vn.at(v, ZERO, t or "double")
            return vn.num(vn.load(lv, st)) if lv else T.opq("argument")
        return vn.num(v)

    def vec(k):
        v = ov[k] if k in ov else vn.ev(e["a"][k], st)
        return v if isinstance(v, Ptr) else None

    def flag(k):
        c = val(k).const()
        return chr(int(c)).upper() if c is not None else None

    def ad(p, e):
        return p.idx[:-1] + (p.idx[-1] + e,)

    def addr(p, i, j, ld):
        """element (i,j) of a column-major operand"""
        return ad(p, i + j * ld)

    def put(p, rows, cols, ld, v):
        """p[i + j*ld] = v(i, j) for i<rows, j<cols"""
        if p.base in T.LAY and T.LAY[p.base] == ld:
            q, c = T.divmod_by(p.idx[1], ld)
            r0 = p.idx[0] + q
            vn.write(p.base, [("rng", r0, r0 + cols), ("rng", c, c + rows)], v(ix(1) - c, ix(0) - r0), st)
            return True
        if rows == ld:
            o = p.idx[-1]
            d = len(p.idx) - 1
            l = ix(d) - o
            j = T.fn("idiv", l, ld)
            wr(vn, p, rows * cols, v(l - j * ld, j), st)
            return True
        return False

    if n == "dgemv":
        tr, m_, n_, a, A, lda, x, ix_, b, y, iy = flag(0), val(1), val(2), val(3), vec(4), val(5), vec(6), val(7), val(8), vec(9), val(10)
        if None in (A, x, y) or tr not in ("N", "T") or ix_.const() != 1 or iy.const() != 1:
            return NotImplemented
        k = newk(vn)
        d = len(y.idx) - 1
        i = ix(d) - y.idx[-1]
        el_ = vn.read(A.base, addr(A, i, k, lda) if tr == "N" else addr(A, k, i, lda), "double", st)
        s = T.mksum(n_ if tr == "N" else m_, el_ * vn.read(x.base, ad(x, k), "double", st), k)
        yv = vn.read(y.base, y.idx[:-1] + (ix(d),), "double", st)
        wr(vn, y, m_ if tr == "N" else n_, b * yv + a * s, st)
        return P(0)
    if n == "dgemm":
        ta, tb, m_, n_, k_, a, A, lda, B, ldb, b, C, ldc = flag(0), flag(1), val(2), val(3), val(4), val(5), vec(6), val(7), vec(8), val(9), val(10), vec(11), val(12)
        if None in (A, B, C) or ta not in ("N", "T") or tb not in ("N", "T"):
            return NotImplemented
        k = newk(vn)

        def v(i, j):
            x = vn.read(A.base, addr(A, i, k, lda) if ta == "N" else addr(A, k, i, lda), "double", st)
            y = vn.read(B.base, addr(B, k, j, ldb) if tb == "N" else addr(B, j, k, ldb), "double", st)
            return b * vn.read(C.base, addr(C, i, j, ldc), "double", st) + a * T.mksum(k_, x * y, k)
        return P(0) if put(C, m_, n_, ldc, v) else NotImplemented
    if n == "dlange":
        nm, m_, n_, A, lda = flag(0), val(1), val(2), vec(3), val(4)
        if A is None or nm != "M":
            return NotImplemented
        k = newk(vn)
        # largest absolute value of the m x n block
        if lda == m_ or n_.const() == 1:
            e = T.fabs(vn.read(A.base, ad(A, k), "double", st))
            return fmax(ZERO, redmax1(m_ * n_, e, k))
        if m_.const() == 1:
            e = T.fabs(vn.read(A.base, ad(A, k * lda), "double", st))
            return fmax(ZERO, redmax1(n_, e, k))
        return NotImplemented
    if n in ("daxpy", "ddot", "dscal", "dnrm2", "dcopy") and fq.endswith("_"):
        N = val(0)
        if n == "dscal":
            a, x, inc = val(1), vec(2), val(3)
            if x is None or inc.const() != 1:
                return NotImplemented
            o = x.idx[-1]
            v = a * vn.read(x.base, x.idx[:-1] + (ix(len(x.idx) - 1),), "double", st)
            wr(vn, x, N, v, st)
            return P(0)
        if n == "dnrm2":
            x, inc = vec(1), val(2)
            if x is None or inc.const() != 1:
                return NotImplemented
            k = newk(vn)
            xv = vn.read(x.base, x.idx[:-1] + (x.idx[-1] + k,), "double", st)
            return T.fn("sqrt", T.mksum(N, xv * xv, k))
        if n == "ddot":
            x, y = vec(1), vec(3)
            if x is None or y is None or val(2).const() != 1 or val(4).const() != 1:
                return NotImplemented
            k = newk(vn)
            xv = vn.read(x.base, x.idx[:-1] + (x.idx[-1] + k,), "double", st)
            yv = vn.read(y.base, y.idx[:-1] + (y.idx[-1] + k,), "double", st)
            return T.mksum(N, xv * yv, k)
        if n == "daxpy":
            a, x, y = val(1), vec(2), vec(4)
            if x is None or y is None or val(3).const() != 1 or val(5).const() != 1:
                return NotImplemented
            d = len(y.idx) - 1
            xv = vn.read(x.base, x.idx[:-1] + (ix(d) - y.idx[-1] + x.idx[-1],), "double", st)
            yv = vn.read(y.base, y.idx[:-1] + (ix(d),), "double", st)
            wr(vn, y, N, yv + a * xv, st)
            return P(0)
        if n == "dcopy":
            x, y = vec(1), vec(3)
            if x is None or y is None or val(2).const() != 1 or val(4).const() != 1:
                return NotImplemented
            copyrange(vn, y, x, N, st)
            return P(0)
    if fq in ("memcpy", "std::memcpy", "memmove"):
        d, s = vec(0), vec(1)
        n = val(2)
        if d is None or s is None:
            return NotImplemented
        # the byte count is elements * sizeof(element)
        sz = vn.esize(e["a"][0])
        copyrange(vn, d, s, n * P(Fraction(1, sz)), st)
        return d
    if fq in ("memset", "std::memset"):
        d = vec(0)
        if d is None or val(1).const() != 0:
            return NotImplemented
        wr(vn, d, val(2) * P(Fraction(1, vn.esize(e["a"][0]))), ZERO, st)
        return d
    if fq.endswith("::copy") and fq.startswith("hiop::ExecSpace"):
        d, s = vec(0), vec(1)
        n = val(2)
        if d is None or s is None:
            return NotImplemented
        copyrange(vn, d, s, n, st)
        return ONE
    if fq in ("std::copy",):
        s, s2, d = vec(0), vec(1), vec(2)
        if None in (s, s2, d) or s.base != s2.base:
            return NotImplemented
        copyrange(vn, d, s, s2.idx[-1] - s.idx[-1], st)
        return vn.addv(d, s2.idx[-1] - s.idx[-1])
    if fq in ("std::fill",):
        s, s2 = vec(0), vec(1)
        v = val(2)
        if None in (s, s2) or s.base != s2.base:
            return NotImplemented
        wr(vn, s, s2.idx[-1] - s.idx[-1], v, st)
        return P(0)
    if fq in ("std::fill_n",):
        s = vec(0)
        if s is None:
            return NotImplemented
        wr(vn, s, val(1), val(2), st)
        return P(0)
    if fq == "MPI_Allreduce":
        src, dst = vec(0), vec(1)
        cnt = val(2)
        if src is None or dst is None:
            return NotImplemented
        op = mpiop(vn, e["a"][4])
        if src.base[0] == "&" and cnt.const() == 1 and dst.base[0] == "&":
            v = val(0)
            st.cells[dst.base[1]] = allred(op, v)
            return P(0)
        d = len(dst.idx) - 1
        v = vn.read(src.base, linidx(src, ix(d) - dst.idx[-1], cnt, st), vn.arrtypes0.get(src.base, "double"), st)
        wr(vn, dst, cnt, allred(op, v), st)
        return P(0)
    return NotImplemented


def linidx(p, e, cnt, st):
    """index of element p[e], e<cnt; a range that runs over the rows of a modified row-major array is split into row and column"""
    n = T.LAY.get(p.base)
    if n is None or p.base not in st.arr or len(p.idx) != 2 or p.idx[0].t or p.idx[1].t or cnt == n:
        return p.idx[:-1] + (p.idx[-1] + e,)
    q = T.fn("idiv", e, n)
    return Split((q, e - q * n))


def allred(op, v):
    """value of a reduction over the ranks, in a canonical form"""
    if isbool(v):
        if op in ("min", "land", "prod"):
            return T.raw("allreduce", "land", v, mask=True)
        if op in ("max", "lor"):
            return ONE - T.raw("allreduce", "land", ONE - v, mask=True)
    if op == "min":
        return -allred("max", -v)
    return T.raw("allreduce", op, v)


def mpiop(vn, a):
    s = showe(a).lower()
    for o in ("sum", "max", "min", "land", "lor", "prod"):
        if "op_" + o in s or "mpi_" + o in s:
            return o
    return s[-30:]


def redmax1(n, e, k):
    return T.binder("redmax", (n, ((ONE, e),)), k)


def newk(vn):
    vn.uid += 1
    return T.raw("k", vn.uid)


def wr(vn, p, n, v, st):
    """p[0..n) = v, v over the universal index of the last dimension"""
    d = len(p.idx) - 1
    o = p.idx[-1]
    vn.write(p.base, [("pt", i) for i in p.idx[:-1]] + [("rng", o, o + n)], v, st)


def copyrange(vn, d, s, n, st):
    k = len(d.idx) - 1
    e = ix(k) - d.idx[-1]
    v = vn.read(s.base, s.idx[:-1] + (e + s.idx[-1],) if d.base in T.LAY else linidx(s, e, n, st), vn.arrtypes0.get(s.base, "double"), st)
    wr(vn, d, n, v, st)


def _esize(self, e):
    x = e
    while x["k"] == "Cast":
        x = x["e"]
    t = self.bare(self.elemtype(x.get("t") or ""))
    return {"double": 8, "int": 4, "float": 4, "long": 8, "long long": 8, "char": 1, "unsigned char": 1}.get(t, 8)


VN.esize = _esize
