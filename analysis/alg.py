"""Meaning of calls on abstract vectors and matrices, for the analysis of algorithmic code.

A vector operation means its entry in vecspec.OPS (whose agreement with the implementation is property P12); a matrix-vector product
is the sum over the columns (rows) of an uninterpreted matrix.  Vectors of one space (x, d, c) have one dimension.
"""
import re
from core import *
from term import *
import term as T
from vn import *
import vn as V
import vecspec
from veccheck import kind, find_spec
import matspec
from matspec import KM, I, J
from matcheck import kind as mkind

VECS = {"hiop::hiopVector", "hiop::hiopVectorPar", "hiop::hiopVectorSeq"}
MATS = ("hiop::hiopMatrix",)
QUIET = {"hiop::hiopLogger", "hiop::hiopTimer", "hiop::hiopRunStats", "hiop::hiopRunKKTSolStats", "hiop::hiopLinSolStats", "hiop::hiopCSR_IO"}
DIMS = {"x": "x nx sx_arg1_ sx_arg2_ sx_arg3_ zl zu sxl sxu xl xu ixl ixu rx rxl rxu rszl rszu grad gradx grad_f gradf dx x0 zl0 zu0 _grad_x_logbar xl_ xu_ ixl_ ixu_ rx_tilde_ rx_ x_ zl_ zu_ sxl_ sxu_ Dx_ Hx_ delta_wx delta_wx_curr_ delta_wx_last_ delta_wx_",
        "d": "d sd_arg1_ sd_arg2_ sd_arg3_ sdl sdu vl vu yd rd rdl rdu ryd rsvl rsvu rsdl rsdu dl du idl idu gradd _grad_d_logbar dl_ du_ idl_ idu_ ryd_tilde_ ryd_ rd_ Dd_inv_ Dd_ yd_ d_ vl_ vu_ sdl_ sdu_ delta_wd delta_cd delta_wd_ delta_cd_ delta_wd_curr_ delta_wd_last_ delta_cd_curr_ delta_cd_last_",
        "c": "c yc ryc c_rhs c_rhs_ ryc_ yc_ delta_cc delta_cc_ delta_cc_curr_ delta_cc_last_"}
DIM = {n: k for k, v in DIMS.items() for n in v.split()}
# rows and columns of the matrices by name
MDIMS = {"c x": "Jac_c Jac_c_ jc _Jac_c _Jac_c_trial jac_c Jac_cMDS_", "d x": "Jac_d Jac_d_ jd _Jac_d _Jac_d_trial jac_d Jac_dMDS_", "x x": "Hess Hess_ _Hess_Lagr hess HessMDS_"}
MDIM = {n: tuple(k.split()) for k, v in MDIMS.items() for n in v.split()}


def cells_in(e):
    return e


class Alg:
    """hook of a VN run"""

    def __init__(self, m, dims=None, masks=("ixl", "ixu", "idl", "idu", "ixl_", "ixu_", "idl_", "idu_"), models=None, rankfree=True):
        self.m = m
        self.dims = dict(DIM)
        self.dims.update(dims or {})
        self.masks = set(masks)
        self.models = models or {}
        self.n = 0
        self.inherit = {}
        self.undefined = []
        self.dimval = {}
        self.mdimval = {}
        self.lists = {}
        self.fnbody = None
        self.values = set()         # classes whose values are constructed in place
        self.vecsize = {}

    def optionis(self, e):
        """comparison of a string option with a literal: an unknown of its own"""
        opt, lit = None, None
        for a in e["a"]:
            r = strip(a)
            if r.get("k") == "Ref" and self.fnbody is not None:
                v = [x for x in walk(self.fnbody) if x.get("k") == "Var" and x.get("id") == r.get("id") and x.get("n") == r.get("n") and x.get("init") is not None]
                a = v[0]["init"] if len(v) == 1 else a
            g = [x for x in walk(a) if x.get("k") == "Call" and (x.get("fq") or "").endswith("::GetString")]
            l = [x["v"] for x in walk(a) if x.get("k") == "Str"]
            if g and len(l) == 1:
                opt = l[0]
            elif not g and len(l) == 1:
                lit = l[0]
        return NotImplemented if opt is None or lit is None else T.inp(("optis", opt, lit), "bool")

    def stdvector(self, vn, e, name, st):
        o = e.get("o") if e.get("o") is not None else (e["a"][0] if e["a"] and name.startswith("operator") else None)
        if o is None or not re.match(r"(const )?std::vector<", o.get("t") or ""):
            return NotImplemented
        lv = vn.lval(o, st)
        if lv is None or lv[0] != "obj":
            return NotImplemented
        b, et = lv[1], re.sub(r"^.*?std::vector<\s*(.*?)\s*(,.*)?>.*$", r"\1", o["t"])
        if name in ("operator[]", "at"):
            i = vn.num(self.arg(vn, e["a"][-1], st))
            return ("lvref", ("elem", b, (i,), et)) if not vn.isobj(et) else NotImplemented
        if name == "size":
            return self.vecsize.get(b[-1], T.inp(("dim",) + b, "int"))
        if name == "empty":
            return eq0(self.vecsize.get(b[-1], T.inp(("dim",) + b, "int")))
        if name == "data":
            return Ptr(b, (ZERO,))
        return NotImplemented

    def create(self, vn, e, name, st):
        self.n += 1
        b = ("new", "la%d" % self.n)
        vn.nonnull.add(b)
        a = [self.arg(vn, x, st) for x in e["a"]]
        num = [x for x in a if isinstance(x, Poly)]
        if name in ("create_vector", "create_vector_int"):
            if len(a) < 2 or not isinstance(a[1], Poly):
                return NotImplemented
            self.inherit[b] = a[1]
            vn.setcontent(b + ("data_",), self.rd(vn, st, ("uninit",), ix(0)), st)
            return Ptr(b)
        if name == "create_matrix_dense" and len(a) >= 3 and isinstance(a[1], Poly) and isinstance(a[2], Poly):
            self.mdimval[b] = (a[1], a[2])
            return Ptr(b)
        return NotImplemented

    def construct(self, vn, c, st):
        """a vector of the given length"""
        q = vn.bare(c.get("t")) if c.get("k") == "Ctor" else None
        h = self.models.get("new " + str(q))
        if h is not None:
            return h(self, vn, c, st)
        if q is None or q.split("::")[-1] not in ("hiopVectorPar", "hiopVectorIntSeq", "hiopVectorInt") or not c["a"] or vn.isobj(strip(c["a"][0]).get("t")):
            return NotImplemented
        a = [self.arg(vn, x, st) for x in c["a"]]
        if not isinstance(a[0], Poly):
            return NotImplemented
        self.n += 1
        b = ("tmp", "la%d" % self.n)
        vn.nonnull.add(b)
        if len(a) == 1 or a[1] == NULL or (isinstance(a[1], Poly) and a[1].const() == 0):
            self.inherit[b] = a[0]
        if q.endswith("Par"):
            vn.setcontent(b + ("data_",), self.rd(vn, st, ("uninit",), ix(0)), st)
        return Ptr(b)

    # --- standard lists of pointers with a given number of elements: iterators are positions
    def listlen(self, vn, o, st):
        o = strip(o)
        if o["k"] == "Mem" and "*" in self.lists and re.match(r"(const )?std::(list|vector|deque)<", o.get("t") or ""):
            return self.lists["*"]
        return self.lists.get(o.get("n")) if o["k"] == "Mem" else None

    def listop(self, vn, e, name, st):
        o, a = e.get("o"), e["a"]
        if o is not None:
            n = self.listlen(vn, o, st)
            if n is None:
                return NotImplemented
            if name in ("begin", "cbegin", "rbegin", "crbegin"):
                return ZERO
            if name in ("end", "cend", "rend", "crend", "size"):
                return P(n)
            if name == "empty":
                return P(int(n == 0))
            if name in ("front", "back") and n:
                return Ptr(("elem", 0 if name == "front" else n - 1))
            return NotImplemented
        if name in ("next", "prev") and a and "_terator" in (a[0].get("t") or ""):
            return vn.num(self.arg(vn, a[0], st)) + (1 if name == "next" else -1) * (vn.num(self.arg(vn, a[1], st)) if len(a) > 1 else ONE)
        t = (a[0].get("t") or "") if a else ""
        if not name.startswith("operator") or "terator" not in t:
            return NotImplemented
        op = name[8:]
        if op in ("++", "--"):
            lv = vn.lval(a[0], st)
            old = vn.load(lv, st)
            new = old + (1 if op == "++" else -1)
            vn.store(lv, new, st)
            return old if len(a) > 1 else new
        v = [self.arg(vn, x, st) for x in a]
        if any(not isinstance(x, Poly) for x in v):
            return NotImplemented
        if op in ("*", "->"):
            n = next(iter(self.lists.values()))
            i = v[0].const()
            if i is None or not 0 <= i < n:
                raise Give("list element")
            return Ptr(("elem", n - 1 - int(i) if "reverse_iterator" in t else int(i)))
        if op in ("==", "!="):
            q = eq0(v[0] - v[1])
            return q if op == "==" else ONE - q
        return NotImplemented

    def rangefor(self, vn, s, st):
        n = self.listlen(vn, s["r"], st)
        if n is None:
            return NotImplemented
        v = s["v"]
        for i in range(n):
            key = ("L", vn.frame, v["id"])
            vn.celltypes[key] = v["t"].rstrip("& ")
            st.cells[key] = Ptr(("elem", i))
            saved, vn.loopctl = vn.loopctl, {"brk": [], "cnt": []}
            try:
                b = vn.exec(s["b"], st)
                ctl = vn.loopctl
            finally:
                vn.loopctl = saved
            if ctl["brk"] or ctl["cnt"] or b is None:
                raise Give("range-for loop with jumps")
            st = b
        return st

    # --- vectors
    def dim(self, b):
        if b in self.inherit:
            return self.inherit[b]
        n = self.dims.get(b[-1])
        if b in self.dimval:
            return self.dimval[b]
        if n in self.dimval:
            return self.dimval[n]
        return T.inp(("dim", n), "int") if n else T.inp(("dim",) + b, "int")

    def rd(self, vn, st, b, e, layer="cur"):
        base = b + ("data_",)
        if b[-1] in self.masks:
            vn.masks.add(base)
        return vn.read(base, [e], "double", st)

    def cls(self, e):
        fid = e.get("f")
        if fid in self.m.meth:
            return self.m.meth[fid][0]
        return (e.get("fq") or "").rsplit("::", 1)[0]

    def __call__(self, vn, what, e, _a, _b, st):
        if what == "range" and self.lists:
            return self.rangefor(vn, e, st)
        if what == "ctor" and e.get("q") in self.values:
            f = self.m.funcs.get(e.get("f"))
            if f is None or not f.get("body"):
                return NotImplemented
            vn.news += 1
            b = Ptr(("tmp", e["q"], vn.news))
            v, s2 = vn.call_fn(f, b, vn.args(e, f, st), st.copy())
            g = st.guard
            vn.assign_state(st, s2)
            st.guard = g
            return b
        if what in ("ctor", "new"):
            return self.construct(vn, strip(e["init"]) if what == "new" else e, st)
        if what == "dyncast" and "dyncast" in self.models:
            return self.models["dyncast"](self, vn, e, _a, st)
        if what != "call":
            return NotImplemented
        fq = e.get("fq") or ""
        name = fq.split("::")[-1]
        if fq.startswith("std::vector<"):
            h = self.models.get("std::vector::" + name)
            r = h(self, vn, e, st) if h is not None else NotImplemented
            if r is NotImplemented:
                r = self.stdvector(vn, e, name, st)
            if r is not NotImplemented:
                return r
        if name == "operator==" and fq.startswith("std::") and len(e["a"]) == 2 and "optionis" not in self.models:
            r = self.optionis(e)
            if r is not NotImplemented:
                return r
        if fq.startswith("hiop::LinearAlgebraFactory::create_"):
            return self.create(vn, e, name, st)
        if self.lists and fq.startswith("std::"):
            r = self.listop(vn, e, fq.split("::")[-1], st)
            if r is not NotImplemented:
                return r
        name = fq.split("::")[-1]
        h = self.models.get(fq) or self.models.get(name)
        if h is not None:
            r = h(self, vn, e, st)
            if r is not NotImplemented:
                return r
        if name in ("GetNumeric", "GetInteger") and len(e["a"]) == 1:
            lit = [x for x in walk(e["a"][0]) if x.get("k") == "Str"]
            if len(lit) == 1:
                return T.inp(("opt", lit[0]["v"]), "real" if name == "GetNumeric" else "int")
        c = self.cls(e)
        if c in QUIET:
            return P(0)
        if e.get("o") is None:
            return NotImplemented
        if c.startswith("hiop::hiopVectorInt") and name in ("local_data", "local_data_const", "local_data_host", "local_data_host_const"):
            recv = self.obj(vn, e["o"], st)
            return Ptr(recv.base + ("buf_",), (ZERO,)) if isinstance(recv, Ptr) else NotImplemented
        if c in VECS:
            return self.vector(vn, e, name, st)
        if c.startswith(MATS):
            return self.matrix(vn, e, name, st)
        return NotImplemented

    def arg(self, vn, a, st):
        v = vn.ev(a, st)
        if isinstance(v, tuple) and v and v[0] == "lvref":
            v = vn.load(v[1], st)
        return v

    def obj(self, vn, a, st):
        lv = vn.lval(a, st)
        if lv is not None and lv[0] == "obj":
            return Ptr(lv[1])
        if lv is not None and lv[0] == "phi":
            return vn.load(lv, st)
        return self.arg(vn, a, st)

    def split(self, vn, vals, st, fn):
        """apply fn to pointer values only: conditional pointers are distributed over"""
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                a, b = st.copy(), st.copy()
                ra = self.split(vn, vals[:i] + [v.a] + vals[i + 1:], a, fn)
                rb = self.split(vn, vals[:i] + [v.b] + vals[i + 1:], b, fn)
                r = vn.merge(v.c, a, b, st.copy())
                g = st.guard
                vn.assign_state(st, r)
                st.guard = g
                return vn.mergev(v.c, ra, rb) if ra is not None else None
        return fn(vals, st)

    def operands(self, vn, e, st):
        recv = self.obj(vn, e["o"], st)
        f = self.m.funcs.get(e["f"])
        pts = [p["t"] for p in f["p"]] if f else e.get("pt") or []
        vals = [recv]
        for t, a in zip(pts, e["a"]):
            k = kind(t)
            vals.append(self.obj(vn, a, st) if t.strip().endswith("&") and k in "vVI" or "hiopMatrix" in t else self.arg(vn, a, st))
        return pts, vals

    def vector(self, vn, e, name, st):
        if name in ("alloc_clone", "new_copy"):
            recv = self.obj(vn, e["o"], st)

            def mk(vals, s):
                self.n += 1
                b = ("new", "vec%d" % self.n)
                if isinstance(vals[0], Ptr):
                    self.inherit[b] = self.dim(vals[0].base)
                    if name == "new_copy":
                        vn.setcontent(b + ("data_",), self.rd(vn, s, vals[0].base, ix(0)), s)
                vn.nonnull.add(b)
                return Ptr(b)
            return self.split(vn, [recv], st, mk)
        if name in ("get_size", "get_local_size"):
            recv = self.obj(vn, e["o"], st)
            return self.split(vn, [recv], st, lambda v, s: self.dim(v[0].base) if isinstance(v[0], Ptr) else T.opq("size"))
        if name in ("print", "write", "to_string", "name", "get_name"):
            return T.opq(name)
        if name in ("local_data", "local_data_const", "local_data_host", "local_data_host_const"):
            recv = self.obj(vn, e["o"], st)
            return self.split(vn, [recv], st, lambda v, s: Ptr(v[0].base + ("data_",), (ZERO,)))
        if name in ("copyFrom", "copyTo", "copyFromStarting", "copy_to_vectorpar", "copy_from_vectorpar", "copy_from_starting_at"):
            r = self.rawcopy(vn, e, name, st)
            if r is not NotImplemented:
                return r
        pts, vals = self.operands(vn, e, st)
        sig = "".join(kind(t) for t in pts)
        s, o = find_spec(name, sig)
        if o is None or any(not isinstance(v, (Ptr, Phi)) for v, k in zip(vals[1:], s) if k in "vVmI") or not isinstance(vals[0], (Ptr, Phi)):
            return NotImplemented
        if "P" in s or "p" in s:
            return NotImplemented

        def go(vals, s_):
            this, args = vals[0], vals[1:]
            if not isinstance(this, Ptr) or any(not isinstance(v, Ptr) for v, k in zip(args, s) if k in "vVmI"):
                raise Give("vector operand of %s" % name)
            args = [v if k in "vVmI" else vn.num(v) for v, k in zip(args, s)]

            def rd(p, x):
                if isinstance(p, Ptr) and any(p is a and s[i] == "I" for i, a in enumerate(args)):
                    return vn.read(p.base + ("buf_",), [x], "int", s_)
                return self.rd(vn, s_, p.base, x)
            k = vecspec.K(this, args, rd, lambda p: self.dim(p.base), None)
            k.h = vn.uid = vn.uid + 1
            k.fresh = lambda: newk(vn)
            ret = P(0)
            if o.get("full"):
                r = o["full"](k)
                new, ret = T.ite(r["when"], r["new"], T.opq("not projected")), r["ret"]
                vn.setcontent(this.base + ("data_",), new, s_)
            if o.get("ret"):
                ret = o["ret"](k)
            new = o["this"](k) if o.get("this") else None
            dst = [(args[i], g(k)) for i, g in (o.get("dest") or {}).items()]
            if new is not None:
                vn.setcontent(this.base + ("data_",), new, s_)
            for p, v in dst:
                vn.setcontent(p.base + ("data_",), v, s_)
            return ret
        return self.split(vn, vals, st, go)

    def rawcopy(self, vn, e, name, st):
        """copies from and to plain arrays"""
        pts = e.get("pt") or [p["t"] for p in (self.m.funcs.get(e["f"]) or {"p": ()})["p"]]
        vecarg = name in ("copy_to_vectorpar", "copy_from_vectorpar")
        raw = name in ("copyFrom", "copyTo") and len(pts) == 1 and pts[0].strip().endswith("*")
        part = name == "copyFromStarting" and len(pts) == 3
        whole = name == "copy_from_starting_at" and len(pts) == 3 and pts[0].strip().endswith("*")
        if not (vecarg or raw or part or whole):
            return NotImplemented
        vals = [self.obj(vn, e["o"], st)] + [self.obj(vn, a, st) if vecarg else self.arg(vn, a, st) for a in e["a"]]
        isp = (0, 1) if vecarg or raw or whole else (0, 2)
        if any(not isinstance(vals[i], (Ptr, Phi)) for i in isp) or any(not isinstance(v, Poly) for i, v in enumerate(vals) if i not in isp):
            return NotImplemented

        def go(vals, st):
            recv = vals[0]
            b = recv.base + ("data_",)
            if vecarg:
                src, dst = (recv, vals[1]) if "_to_" in name else (vals[1], recv)
                vn.setcontent(dst.base + ("data_",), self.rd(vn, st, src.base, ix(0)), st)
                return P(0)
            p = vals[isp[1]]
            p = p if p.idx else Ptr(p.base, (ZERO,))
            if whole:
                # a vector that is not distributed, filled completely
                n = self.dim(recv.base)
                v = vn.read(p.base, list(p.idx[:-1]) + [p.idx[-1] + ix(0) + vals[2]], "double", st)
                vn.setcontent(b, v if same(vals[3], n, [], dims=0)[0] else T.ite(inrng(ix(0), ZERO, vals[3]), v, T.opq("left over")), st)
                return P(0)
            if name == "copyFrom":
                vn.setcontent(b, vn.read(p.base, list(p.idx[:-1]) + [p.idx[-1] + ix(0)], "double", st), st)
            elif name == "copyTo":
                vn.write(p.base, [("pt", x) for x in p.idx[:-1]] + [("rng", p.idx[-1], p.idx[-1] + self.dim(recv.base))], self.rd(vn, st, recv.base, ix(0) - p.idx[-1]), st)
            else:
                s0, k = vals[1], vals[3]
                v = vn.read(p.base, list(p.idx[:-1]) + [p.idx[-1] + ix(0) - s0], "double", st)
                vn.setcontent(b, T.ite(inrng(ix(0), s0, s0 + k), v, self.rd(vn, st, recv.base, ix(0))), st)
            return P(0)
        return self.split(vn, vals, st, go)

    # --- matrices: content is the array base + ("M",)
    def mdim(self, b):
        if b in self.mdimval:
            return self.mdimval[b]
        r = MDIM.get(b[-1])
        if r is None:
            return T.inp(("rows",) + b, "int"), T.inp(("cols",) + b, "int")
        return tuple(self.dimval.get(x, T.inp(("dim", x), "int")) for x in r)

    def mel(self, vn, st, b, i, j):
        return vn.read(b + ("M",), [i, j], "real", st)

    def mv(self, vn, st, b, x, trans, ydim=None):
        """element 0 of (M x) or (M^T x)"""
        k = newk(vn)
        xv = self.rd(vn, st, x.base, k)
        return mksum(self.dim(x.base), (self.mel(vn, st, b, k, ix(0)) if trans else self.mel(vn, st, b, ix(0), k)) * xv, k)

    def matrix(self, vn, e, name, st):
        if name in ("timesVec", "transTimesVec"):
            pts, vals = self.operands(vn, e, st)
            if kind(pts[1]) not in "vV":
                return NotImplemented

            def go(vals, s_):
                M, be, y, al, x = vals
                if not all(isinstance(p, Ptr) for p in (M, y, x)):
                    raise Give("operand of " + name)
                new = vn.num(be) * self.rd(vn, s_, y.base, ix(0)) + vn.num(al) * self.mv(vn, s_, M.base, x, name == "transTimesVec")
                vn.setcontent(y.base + ("data_",), new, s_)
                return P(0)
            return self.split(vn, vals, st, go)
        if name in ("m", "n", "get_local_size_m", "get_local_size_n"):
            recv = self.obj(vn, e["o"], st)
            r = 0 if name in ("m", "get_local_size_m") else 1
            return self.split(vn, [recv], st, lambda v, s: self.mdim(v[0].base)[r] if isinstance(v[0], Ptr) else T.opq("size"))
        if name in ("n_sp", "n_de"):
            recv = self.obj(vn, e["o"], st)
            return self.split(vn, [recv], st, lambda v, s: T.inp(("dim", name), "int"))
        if name in ("sp_mat", "de_mat"):
            recv = self.obj(vn, e["o"], st)

            def sub(v, s):
                b = v[0].base + (name,)
                r, c = self.mdim(v[0].base)
                n = T.inp(("dim", name.replace("_mat", "").replace("sp", "n_sp").replace("de", "n_de")), "int")
                self.mdimval.setdefault(b, (n if r == c else r, n))
                vn.nonnull.add(b)
                return Ptr(b)
            return self.split(vn, [recv], st, sub)
        if name in ("alloc_clone", "new_copy"):
            recv = self.obj(vn, e["o"], st)

            def mk(vals, s):
                self.n += 1
                b = ("new", "mat%d" % self.n)
                if isinstance(vals[0], Ptr):
                    self.mdimval[b] = self.mdim(vals[0].base)
                    if name == "new_copy":
                        vn.setcontent(b + ("M",), self.mel(vn, s, vals[0].base, I, J), s, 2)
                vn.nonnull.add(b)
                return Ptr(b)
            return self.split(vn, [recv], st, mk)
        if name in ("local_data", "local_data_const"):
            recv = self.obj(vn, e["o"], st)

            def raw(v, s):
                b = v[0].base + ("M",)
                T.LAY[b] = self.mdim(v[0].base)[1]
                return Ptr(b, (ZERO, ZERO))
            return self.split(vn, [recv], st, raw)
        if name in ("print", "write", "assertSymmetry", "checkIndexesAreOrdered"):
            return T.opq(name)
        f = self.m.funcs.get(e["f"])
        pts = [p["t"] for p in f["p"]] if f else e.get("pt") or []
        sig = "".join(mkind(t) for t in pts)
        if name == "copyFrom" and sig == "p":
            recv, p = self.obj(vn, e["o"], st), self.arg(vn, e["a"][0], st)
            if not isinstance(recv, Ptr) or not isinstance(p, Ptr):
                return NotImplemented
            p = p if p.idx else Ptr(p.base, (ZERO,))
            v = vn.read(p.base, list(p.idx[:-1]) + [p.idx[-1] + I * self.mdim(recv.base)[1] + J], "double", st)
            vn.setcontent(recv.base + ("M",), v, st, 2)
            return P(0)
        if any(c in "pPI" for c in sig):
            return NotImplemented
        o = MOPS.get((name, sig)) or matspec.OPS.get((name, sig))
        if o is None:
            return NotImplemented
        vals = [self.obj(vn, e["o"], st)]
        for c, a in zip(sig, e["a"]):
            vals.append(self.obj(vn, a, st) if c in "dDvV" else self.arg(vn, a, st))
        vals += [self.defarg(vn, f, i, st) for i in range(len(e["a"]), len(sig))]

        def go(vals, s_):
            if any(not isinstance(v, Ptr) for v, c in zip(vals, "d" + sig) if c in "dDvV"):
                raise Give("operand of " + name)
            k = KA(self, vn, s_, sig, vals)
            ret = o["ret"](k) if o.get("ret") else P(0)
            new = [(vals[0].base + ("M",), o["this"](k), 2)] if o.get("this") else []
            for i, g in (o.get("dest") or {}).items():
                new.append((vals[i + 1].base + (("M",) if sig[i] == "D" else ("data_",)), g(k), 2 if sig[i] == "D" else 1))
            for b, v, d in new:
                vn.setcontent(b, v, s_, d)
            return ret
        return self.split(vn, vals, st, go)

    def defarg(self, vn, f, i, st):
        raise Give("default argument")


class KA(KM):
    """operands of a matrix operation on abstract contents"""

    def __init__(self, alg, vn, st, sig, vals):
        self.alg, self.vn, self.st, self.kinds, self.h = alg, vn, st, sig, 0
        self.this, self.args = vals[0], [v if c in "dDvVq" else vn.num(v) for v, c in zip(vals[1:], sig)]
        if any(c == "q" and not isinstance(v, Ptr) for v, c in zip(vals[1:], sig)):
            raise Give("array operand")

    def s(self, i):
        return self.args[i]

    def fresh(self):
        return newk(self.vn)

    def b(self, i):
        return self.this.base if i in ("this", "") else self.args[i].base

    def A(self, i, r, c):
        return self.alg.mel(self.vn, self.st, self.b(i), r, c)

    def v(self, i, r=I):
        if self.kinds[i] == "q":
            p = self.args[i]
            return self.vn.read(p.base, [p.idx[0] + r], "int", self.st)
        return self.alg.rd(self.vn, self.st, self.b(i), r)

    def x(self, i, r=I, c=J):
        return self.A(i, r, c) if self.kinds[i] in "dD" else self.v(i, r)

    def M(self, i):
        return self.alg.mdim(self.b(i))[0]

    def N(self, i):
        return self.alg.mdim(self.b(i))[1]

    def L(self, i):
        return self.alg.dim(self.b(i))

    def sum(self, g, n):
        j = self.fresh()
        return mksum(n, g(j), j)

    def global_(self, op, v):
        return v


MOPS = {}


def mop(name, sig, **kw):
    MOPS[(name, sig)] = kw


def upper(k, r0, m):
    return k.inside(I - r0, m, J - r0, m) * (ONE - lt0(J - I, True))


# operations of the sparse matrices, on the matrix they represent
mop("addMDinvMtransToDiagBlockOfSymDeMatUTri", "ssvD",
    dest={3: lambda k: k.x(3) + ite(upper(k, k.s(0), k.M("this")), k.s(1) * k.sum(lambda q: k.A("this", I - k.s(0), q) * k.A("this", J - k.s(0), q) / k.v(2, q), k.N("this")), ZERO)})
mop("addMDinvNtransToSymDeMatUTri", "sssvdD",
    dest={5: lambda k: k.x(5) + ite(k.inside(I - k.s(0), k.M("this"), J - k.s(1), k.M(4)), k.s(2) * k.sum(lambda q: k.A("this", I - k.s(0), q) * k.A(4, J - k.s(1), q) / k.v(3, q), k.N("this")), ZERO)})


def ndiag(k):
    return ite(lt0(k.s(4), True), k.L(2), k.s(4))


mop("startingAtAddSubDiagonalToStartingAt", "ssVss",
    dest={2: lambda k: k.v(2) + ite(k.inside(I - k.s(3), ndiag(k)), k.s(1) * k.A("this", I - k.s(3) + k.s(0), I - k.s(3) + k.s(0)), ZERO)})
