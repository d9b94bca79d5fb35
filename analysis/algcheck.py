"""Obligations of algorithmic functions against reference formulas (algspec.py), by gated value numbering over abstract vectors."""
import functools
import glob
import os
import re
from core import *
from framework import loc
import term as T
from term import *
from vn import *
import alg
import nlpmodels
from veccheck import frame


SHOW = int(os.environ.get("HIOP_SHOW", "400"))


class S:
    """view for writing a reference formula: contents of vectors and scalars before the call"""

    def __init__(self, vn, A, names):
        self.vn, self.A = vn, A
        self.names = {n: ("a%d" % i,) for i, n in enumerate(names)}
        self.h = 0
        self.paths = []

    def base(self, path):
        p = path.split(".")
        self.paths.append(path)
        if p[0] in self.names:
            b = self.names[p[0]]
        else:
            b = (p[0],)
        for q in p[1:]:
            b = ("NLP",) if q == "nlp" or q == "nlp_" else b + (q,)
        return b

    def __call__(self, path, e=None):
        """element of a vector"""
        b = self.base(path)
        return self.A.rd(self.vn, self.vn.st0, b, e if e is not None else ix(0))

    def a(self, path, e=None, t="double"):
        """element of a raw array"""
        return self.vn.read(self.base(path), [e if e is not None else ix(0)], t, self.vn.st0)

    def s(self, path, t="double"):
        return self.vn.in_atom(self.base(path), t)

    def i(self, path):
        return self.s(path, "int")

    def b(self, path):
        return self.s(path, "bool")

    def dim(self, space):
        if space in ("x", "d", "c"):
            return T.inp(("dim", space), "int")
        return self.A.dim(self.base(space))

    def m(self, path, i=None, j=None):
        """entry of a matrix"""
        return self.A.mel(self.vn, self.vn.st0, self.base(path), ix(0) if i is None else i, ix(1) if j is None else j)

    def k(self):
        self.h += 1
        return T.raw("k", ("aspec", self.h))

    def sum(self, space, f):
        k = self.k()
        return mksum(self.dim(space), f(k), k)

    def red(self, space, f, guard=None):
        k = self.k()
        return T.binder("redmax", (self.dim(space), ((guard(k) if guard else ONE, f(k)),)), k)

    def any(self, space, f):
        k = self.k()
        return T.binder("any", (self.dim(space), f(k)), k)

    def dot(self, space, a, b):
        return self.gsum(self.sum(space, lambda k: self(a, k) * self(b, k)))

    def gsum(self, v):
        return allred("sum", v)

    def gmax(self, v):
        return allred("max", v)

    def gmin(self, v):
        return allred("min", v)

    def inf(self, space, f):
        return fmax(ZERO, self.red(space, lambda k: fabs(f(k))))

    def one(self, space, f):
        return self.sum(space, lambda k: fabs(f(k)))

    def Mx(self, M, x, i=None):
        """(M x)[i]"""
        b, i = self.base(M), ix(0) if i is None else i
        xb = self.base(x) if isinstance(x, str) else None
        k = self.k()
        sp = self.A.dim(xb) if xb else self.dim(x[0])
        return mksum(sp, self.A.mel(self.vn, self.vn.st0, b, i, k) * (self(x, k) if xb else x[1](k)), k)

    def Mtx(self, M, x, i=None):
        b, i = self.base(M), ix(0) if i is None else i
        xb = self.base(x) if isinstance(x, str) else None
        k = self.k()
        sp = self.A.dim(xb) if xb else self.dim(x[0])
        return mksum(sp, self.A.mel(self.vn, self.vn.st0, b, k, i) * (self(x, k) if xb else x[1](k)), k)


FREE = ("ARG", "ARGA", "ARGP", "CALLS", "TX", "TG", "TJc", "TJd", "U", "USER", "elem", "AP")
NLPCLS = "hiop::hiopNlpFormulation"


def fields(m, cls):
    out = {}
    for c in [cls] + m.all_bases(cls):
        for fl in m.classes.get(c, {}).get("fields", ()):
            out.setdefault(fl["n"], fl["t"])
    return out


def bare(t):
    return t.replace("const", "").replace("&", "").replace("*", "").strip()


@functools.lru_cache(None)
def vocabulary():
    here = os.path.dirname(os.path.abspath(__file__))
    return frozenset(w for n in glob.glob(os.path.join(here, "*spec.py")) for w in re.findall(r"\w+", open(n).read()))


def missing(m, f, cls, paths, names):
    """a field named by the specification that does not exist"""
    pt = dict(zip(names, f["p"]))
    for path in sorted(set(paths)):
        p = path.split("@")[0].split(".")
        p = p[:-1] if "@" in path else p
        if p[0] == "this":
            c = cls
        elif p[0] == "NLP":
            c = NLPCLS
        elif p[0] in pt:
            c = bare(pt[p[0]]["t"])
        else:
            continue
        for q in p[1:]:
            if c not in m.classes or q in ("data_", "buf_", "M", "D", "irow", "jcol"):
                break
            fl = fields(m, c)
            if q in ("sp_mat", "de_mat") or q.startswith("part"):
                break
            if q not in fl:
                return path
            c = bare(fl[q])
            if q in ("nlp", "nlp_"):
                c = NLPCLS
            if c not in m.classes:
                break
    return None


# facts that hold for every formulation: counts and sizes
def nlpfacts(s):
    out = {}
    for n, sp, msk in (("n_bnds_low_local_", "x", "ixl_"), ("n_bnds_upp_local_", "x", "ixu_"), ("n_ineq_low_", "d", "idl_"), ("n_ineq_upp_", "d", "idu_")):
        k = s.k()
        s.base("NLP." + n)
        out[("NLP", n)] = mksum(s.dim(sp), s("NLP." + msk, k), k)
    for n, sp in (("n_cons_ineq_", "d"), ("n_cons_eq_", "c")):
        s.base("NLP." + n)
        out[("NLP", n)] = s.dim(sp)
    return out


def find(m, q, nparams=None, sig=None):
    return [f for f in m.funcs.values() if f["q"] == q and f.get("body") and (nparams is None or len(f["p"]) == nparams)]


def check(ctx, m, spec, rule, models=None, dims=None, masks=None, samples=240):
    """spec: dict(fn, params, out={loc: formula}, ret=formula, pre=[(vector, mask)], scratch=(paths), facts=..., guard={loc: formula})"""
    q, names = spec["fn"], spec["params"].split()
    fs = find(m, q, len(names))
    if spec.get("where"):
        fs = [f for f in fs if spec["where"](f)]
    if spec.get("func"):
        fs = [spec["func"]]
    if len(fs) != 1:
        ctx.undecided(rule, q, "%d functions of this name with %d parameters" % (len(fs), len(names)))
        return 0
    f = fs[0]
    cls = q.rsplit("::", 1)[0]
    ctx.saw(f)
    dimz = {("a%d" % names.index(k) if k in names else k): v for k, v in (spec.get("dims") or {}).items()}
    mods = spec.get("models", {})
    mods = nlpmodels.models(m) if mods == "nlp" else dict(nlpmodels.models(m), **mods[1]) if isinstance(mods, tuple) else mods
    A = alg.Alg(m, dims=dimz, models=dict(models or {}, **mods))
    A.fnbody = f["body"]
    A.dimval.update(spec.get("dimval", {}))
    A.lists.update(spec.get("lists", {}))
    A.values |= set(spec.get("values", ()))
    A.mds = spec.get("mds")
    A.succeed = set(spec.get("succeed", ()))
    if masks:
        A.masks |= set(masks)
    vn = VN(m, hook=A, dyncls={**{("this",): cls}, **spec.get("dyncls", {})}, statdyn=spec.get("statdyn"))
    vn.ptrmap = lambda l, t: Ptr(("NLP",)) if l[-1] in ("nlp", "nlp_") and len(l) > 1 else None
    vn.unroll = spec.get("unroll", 0)
    vn.slice = bool(spec.get("slice"))
    vn.elems.update(spec.get("elems", {})) if hasattr(vn, "elems") else None
    T.LAY.clear()
    T.DOM.clear()
    st = St()
    vn.st0 = St()
    s = S(vn, A, names)
    for k, v in (spec.get("domain") or {}).items():
        T.DOM[s.base(k) if isinstance(k, str) else k] = v
    for k, v in (spec.get("mdims") or {}).items():
        A.mdimval[s.base(k)] = v(s)
    vn.eqmap.update(nlpfacts(s))
    for pth in spec.get("nonnull", ()):
        vn.nonnull.add(s.base(pth))
    if spec.get("eqm"):
        vn.eqmap.update({s.base(k): v(s) for k, v in spec["eqm"].items()})
    for v, g in (spec.get("init") or {}).items():
        st.arr[s.base(v) + ("data_",)] = g(s)
    for v, g in (spec.get("init_arrs") or {}).items():
        st.arr[s.base(v)] = g(s)
    for v, g in (spec.get("initm") or {}).items():
        vn.setcontent(s.base(v) + ("M",), g(s), st, 2)
    for v, mk in spec.get("pre", ()):
        b = s.base(v)
        st.arr[b + ("data_",)] = s(mk) * s(v)
    for k, v in (spec.get("init_cells") or {}).items():
        st.cells[s.base(k)] = P(v)
    for l in spec.get("cells") or {}:
        if l.startswith("CALLS."):
            st.cells[s.base(l)] = ZERO
    vn.st0 = st.copy()
    if spec.get("facts"):
        assume = spec["facts"](s)
    else:
        assume = []
    want = {l: g(s) for l, g in (spec.get("out") or {}).items()}
    mats = {l: (g(s),) + A.mdim(s.base(l)) for l, g in (spec.get("mats") or {}).items()}
    cells = {l: g(s) for l, g in (spec.get("cells") or {}).items()}
    ptrs = {l: s.base(g) for l, g in (spec.get("ptrs") or {}).items()}
    ret = spec["ret"](s) if spec.get("ret") else None
    retp = s.base(spec["retp"]) if spec.get("retp") else None
    outp = {l: g(s) for l, g in (spec.get("outp") or {}).items()}
    outpm = {l: g(s) for l, g in (spec.get("outpm") or {}).items()}
    outpi = {l: g(s) for l, g in (spec.get("outpi") or {}).items()}
    arrs = {l: g(s) for l, g in (spec.get("arrs") or {}).items()}
    guards = {l: g(s) for l, g in (spec.get("guard") or {}).items()}
    locs = {l: s.base(l) for l in list(want) + list(mats) + list(cells) + list(ptrs) + list(outp) + list(outpi) + list(outpm) + list(arrs) + list(spec.get("scratch", "").split())}
    mi = missing(m, f, cls, s.paths, names)
    if mi:
        ctx.undecided(rule, f["q"], "the specification names %s, which does not exist" % mi)
        return 0
    args = {}
    for i, p in enumerate(f["p"]):
        b = ("a%d" % i,)
        if not vn.isptr(p["t"]) and not vn.isobj(p["t"]):
            args[i] = ("ref", ("cell", b, vn.bare(p["t"]))) if p["t"].strip().endswith("&") else vn.in_atom(b, p["t"])
        else:
            args[i] = Ptr(b)
    args.update({i: v(s) for i, v in (spec.get("args") or {}).items()})
    try:
        st2, got_ret = vn.run(f, args=args, st=st)
    except (Give, TooBig) as g:
        ctx.undecided(rule, f["q"], "not summarised: %s" % g)
        return 0
    # the sizes asserted by the function are stated by the specification itself where asserts is False
    assume = assume + (list(vn.assumes) if spec.get("asserts", True) else [])
    n = 0

    def judge(what, got, w, dims, guard=None):
        nonlocal n
        n += 1
        if not isinstance(got, Poly):
            ctx.undecided(rule, f["q"], what + ": not a number")
            return
        v, why = same(got, w, assume, dims=dims, guard=guard, samples=samples)
        if v is True:
            ctx.ok(rule, f["q"], what + ": " + why)
        elif v is None:
            ctx.undecided(rule, f["q"], what + ": " + why)
        else:
            ctx.bad(rule, f["q"], "%s: %s" % (f["n"], what), "%s is %s, specified %s; %s" % (what, T.show(got)[:SHOW], T.show(w)[:SHOW], why), loc(f))
    written = set()
    for l, w in want.items():
        b = locs[l] + ("data_",)
        written.add(b)
        d = A.dim(locs[l])
        judge("content of %s" % l, vn.content(b, st2), w, 1, inrng(ix(0), ZERO, d) * guards.get(l, ONE))
    for l, (g, wr, wc) in mats.items():
        b = locs[l] + ("M",)
        written.add(b)
        gd = inrng(ix(0), ZERO, wr) * inrng(ix(1), ZERO, wc) * guards.get(l, ONE)
        judge("content of %s" % l, vn.content(b, st2, 2), g, 2, gd)
    for l, w in arrs.items():
        written.add(locs[l])
        judge("content of %s" % l, vn.read(locs[l], [ix(0)], (spec.get("arrtype") or {}).get(l, "double"), st2), w, 1, guards.get(l, ONE))
    for l, w in outp.items():
        p = st2.cells.get(locs[l])
        if isinstance(p, Ptr):
            written.add(locs[l])
            written.add(p.base + ("data_",))
            if (spec.get("outpdim") or {}).get(l):
                judge("size of *%s" % l, A.dim(p.base), spec["outpdim"][l](s), 0)
            judge("content of *%s" % l, vn.content(p.base + ("data_",), st2), w, 1, inrng(ix(0), ZERO, A.dim(p.base)) * guards.get(l, ONE))
        else:
            ctx.undecided(rule, f["q"], "target of %s" % l)
    for l, (w, wr, wc) in outpm.items():
        p = st2.cells.get(locs[l])
        if isinstance(p, Ptr):
            written.update((locs[l], p.base + ("M",)))
            r, c = A.mdim(p.base)
            judge("rows of *%s" % l, r, wr, 0)
            judge("columns of *%s" % l, c, wc, 0)
            judge("content of *%s" % l, vn.content(p.base + ("M",), st2, 2), w, 2, inrng(ix(0), ZERO, wr) * inrng(ix(1), ZERO, wc) * guards.get(l, ONE))
        else:
            ctx.undecided(rule, f["q"], "target of %s" % l)
    for l, w in outpi.items():
        p = st2.cells.get(locs[l])
        if isinstance(p, Ptr):
            written.add(locs[l])
            written.add(p.base + ("buf_",))
            judge("entries of *%s" % l, vn.read(p.base + ("buf_",), [ix(0)], "int", st2), w, 1, inrng(ix(0), ZERO, A.dim(p.base)) * guards.get(l, ONE))
        else:
            ctx.undecided(rule, f["q"], "target of %s" % l)
    for l, w in cells.items():
        written.add(locs[l])
        if locs[l][0] in FREE and locs[l] not in st2.cells and st2.havoc:
            ctx.undecided(rule, f["q"], "value of %s: effects not completely described" % l)
            continue
        t = "double"
        judge("value of %s" % l, vn.getcell(locs[l], vn.celltypes.get(locs[l], t), st2), w, 0, guards.get(l))
    for l, w in ptrs.items():
        written.add(locs[l])
        p = st2.cells.get(locs[l])
        if p is None and locs[l][0] in FREE and st2.havoc:
            ctx.undecided(rule, f["q"], "target of %s: effects not completely described" % l)
            continue
        n += 1
        if p == Ptr(w):
            ctx.ok(rule, f["q"], "%s refers to %s" % (l, showloc(w)))
        elif isinstance(p, Ptr) or p is None:
            ctx.bad(rule, f["q"], "%s: target of %s" % (f["n"], l), "%s refers to %s, specified %s" % (l, p, showloc(w)), loc(f))
        else:
            ctx.undecided(rule, f["q"], "target of %s" % l)
    if ret is not None:
        if spec.get("retmap") and isinstance(got_ret, Poly):
            got_ret = spec["retmap"](got_ret)
        judge("return value", got_ret, ret, 0, guards.get("return"))
    if retp is not None:
        n += 1
        if got_ret == Ptr(retp):
            ctx.ok(rule, f["q"], "returns a reference to %s" % showloc(retp))
        elif isinstance(got_ret, Ptr):
            ctx.bad(rule, f["q"], "%s: return value" % f["n"], "returns %s, specified %s" % (got_ret, showloc(retp)), loc(f))
        else:
            ctx.undecided(rule, f["q"], "returned pointer")
    for l in spec.get("scratch", "").split():
        written.add(locs[l])
        written.add(locs[l] + ("data_",))
        written.add(locs[l] + ("M",))
    # timers and statistics are not part of the algebra
    for c in [c for c in st2.cells if "runStats" in c or c[0] == "NLP" and "log" in c]:
        del st2.cells[c]
    for b in [b for b, v in st2.arr.items() if b not in written and b in vn.st0.arr and v == vn.st0.arr[b]]:
        del st2.arr[b]
    for c in [c for c, v in st2.cells.items() if c not in written and c in vn.st0.cells and v == vn.st0.cells[c]]:
        del st2.cells[c]
    for store in (st2.cells, st2.arr):
        for c in [c for c in store if c not in written and c[0] in FREE]:
            del store[c]
    # members the specifications never speak of are implementation details of the class
    for store in (st2.cells, st2.arr):
        for c in [c for c in store if c[0] == "this" and len(c) > 1 and c[1] not in vocabulary()]:
            del store[c]
    if spec.get("frame", True):
        frame(ctx, m, vn, st2, f, written, f["n"], rule, assume)
    return n
