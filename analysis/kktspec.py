"""Reference formulas of the KKT linear systems (property P11).  Full system, unknowns d = (dx, dd, dyc, dyd, dzl, dzu, dvl, dvu, dsxl, dsxu, dsdl, dsdu):
  (H+delta_wx) dx + Jc' dyc + Jd' dyd - dzl + dzu = rx        delta_wd dd - dyd - dvl + dvu = rd
  Jc dx - delta_cc dyc = ryc                                  Jd dx - dd - delta_cd dyd = ryd
  -dx + dsxl = rxl   dx + dsxu = rxu   -dd + dsdl = rdl   dd + dsdu = rdu      (on the bounded components)
  sxl dzl + zl dsxl = rszl  and alike for sxu, sdl, sdu."""
from term import *
import term as T
from vn import eq0, lt0, Ptr, inrng
from algspec import B, MASK, DUAL, SPACE

KK = "hiop::hiopKKTLinSys"
P11 = []
RB = {"sxl": ("rxl", "rszl"), "sxu": ("rxu", "rszu"), "sdl": ("rdl", "rsvl"), "sdu": ("rdu", "rsvu")}
PRE = [("r." + r, "NLP." + MASK[w]) for w, rr in RB.items() for r in rr]


def p11(fn, params="", **kw):
    kw.update(fn=fn, params=params)
    P11.append(kw)


def sol(n, e=None):
    return T.el(("SOL", n, "data_"), (ix(0) if e is None else e,), "real")


SOLOK = T.inp(("SOLOK",), "bool")


def solver(nrhs, names):
    """a solve with the compressed system: records the right-hand sides and leaves an arbitrary solution"""
    def go(A, vn, e, st):
        vals = [A.obj(vn, a, st) for a in e["a"]]
        if any(not isinstance(v, Ptr) for v in vals) or len(vals) != nrhs + len(names):
            raise T_Give("operands of the solve")
        for i, v in enumerate(vals[:nrhs]):
            vn.setcontent(("RHS%d" % i, "data_"), A.rd(vn, st, v.base, ix(0)), st)
        for v in vals[:nrhs]:
            if v.base[0] == "this":
                vn.setcontent(v.base + ("data_",), T.el(("USED",) + v.base, (ix(0),), "real"), st)
        for n, v in zip(names, vals[nrhs:]):
            vn.setcontent(v.base + ("data_",), sol(n), st)
        return SOLOK
    return go


from vn import Give as T_Give


def ignored(A, vn, e, st):
    return T.opq("check")


def hess(A, vn, e, st):
    vals = [A.arg(vn, e["a"][0], st), A.obj(vn, e["a"][1], st), A.arg(vn, e["a"][2], st), A.obj(vn, e["a"][3], st)]
    k = T.raw("k", ("hess", vn.uid)) if False else None
    from vn import newk
    k = newk(vn)
    s = mksum(A.dim(vals[3].base), T.el(("HESS", "M"), (ix(0), k), "real") * A.rd(vn, st, vals[3].base, k), k)
    vn.setcontent(vals[1].base + ("data_",), vn.num(vals[0]) * A.rd(vn, st, vals[1].base, ix(0)) + vn.num(vals[2]) * s, st)
    return P(0)


MOD = {"errorKKT": ignored, "errorCompressedLinsys": ignored, "HessianTimesVec_noLogBarrierTerm": hess}


def it(s, n, e=None):
    return s("this.iter_." + n, e)


def dirs(dx, dd, spec):
    """the eliminated directions from dx and dd"""
    for w, (rp, rc) in RB.items():
        v, z, _, msk, sg = B[w]

        def ds(s, w=w, rp=rp, v=v, msk=msk, sg=sg):
            return s("NLP." + msk) * (s("r." + rp) + sg * (dx(s) if v == "x" else dd(s)))

        def dz(s, w=w, rc=rc, z=z, ds=ds, msk=msk):
            return s("NLP." + msk) * (s("r." + rc) - it(s, z) * ds(s)) / it(s, w)
        spec["dir." + w] = ds
        spec["dir." + z] = dz
    return spec


p11(KK + "::compute_directions_for_full_space", "r dir", pre=PRE, models=MOD, frame=True, ret=lambda s: ONE,
    out=dirs(lambda s: s("dir.x"), lambda s: s("dir.d"), {}))


def rtilde(lo, up, r):
    def g(s, e=None):
        def t(w):
            rp, rc = RB[w]
            return s("NLP." + MASK[w], e) * (s("r." + rc, e) - it(s, DUAL[w], e) * s("r." + rp, e)) / it(s, w, e)
        return s("r." + r, e) + t(lo) - t(up)
    return g


rxt, rdt = rtilde("sxl", "sxu", "rx"), rtilde("sdl", "sdu", "rd")


def okguard(out):
    return {l: (lambda s: SOLOK) for l in out if l.startswith("dir.")}


# --- symmetric system in (dx, dyc, dyd)
o = {"RHS0": rxt, "RHS1": lambda s: s("r.ryc"), "RHS2": lambda s: s("r.ryd") + s("this.Dd_inv_") * rdt(s),
     "dir.x": lambda s: sol("x"), "dir.yc": lambda s: sol("yc"), "dir.yd": lambda s: sol("yd"), "dir.d": lambda s: s("this.Dd_inv_") * (sol("yd") + rdt(s))}
dirs(lambda s: sol("x"), o["dir.d"], o)
TMP = "this.rx_tilde_ this.ryd_tilde_ this.rd_tilde_ this.ryc_tilde_ this.x_wrk_ this.d_wrk_ new"
RD = {"RHS0": "x", "RHS1": "c", "RHS2": "d", "RHS3": "d", "x": "x"}
p11(KK + "CompressedXYcYd::computeDirections", "r dir", pre=PRE, out=o, guard=okguard(o), ret=lambda s: SOLOK, scratch="this.rx_tilde_ this.ryd_tilde_",
    models=dict(MOD, solveCompressed=solver(3, ("x", "yc", "yd"))), dims=RD)
# --- symmetric system in (dx, dd, dyc, dyd)
o = {"RHS0": rxt, "RHS1": rdt, "RHS2": lambda s: s("r.ryc"), "RHS3": lambda s: s("r.ryd"),
     "dir.x": lambda s: sol("x"), "dir.yc": lambda s: sol("yc"), "dir.yd": lambda s: sol("yd"), "dir.d": lambda s: sol("d")}
dirs(lambda s: sol("x"), lambda s: sol("d"), o)
p11(KK + "CompressedXDYcYd::computeDirections", "r dir", pre=PRE, out=o, guard=okguard(o), ret=lambda s: SOLOK, scratch="this.rx_tilde_ this.rd_tilde_",
    models=dict(MOD, solveCompressed=solver(4, ("x", "d", "yc", "yd"))), dims=dict(RD, RHS1="d", RHS2="c"))


# --- normal equation in (dyc, dyd), diagonal Hessian
def xh(s, e=None):
    return rxt(s, e) / s("this.Hx_", e)


def jt(s, J, y, sp):
    k = s.k()
    return mksum(s.dim(sp), s.m("this." + J, k, ix(0)) * sol(y, k), k)


def jx(s, J, f):
    k = s.k()
    return mksum(s.dim("x"), s.m("this." + J, ix(0), k) * f(s, k), k)


o = {"RHS0": lambda s: jx(s, "Jac_c_", xh) - s("r.ryc"), "RHS1": lambda s: jx(s, "Jac_d_", xh) - rdt(s) / s("this.Hd_") - s("r.ryd"),
     "dir.yc": lambda s: sol("yc"), "dir.yd": lambda s: sol("yd"),
     "dir.x": lambda s: (rxt(s) - jt(s, "Jac_c_", "yc", "c") - jt(s, "Jac_d_", "yd", "d")) / s("this.Hx_"),
     "dir.d": lambda s: (rdt(s) + sol("yd")) / s("this.Hd_")}
dirs(o["dir.x"], o["dir.d"], o)
p11(KK + "NormalEquation::computeDirections", "r dir", pre=PRE, out=o, guard=okguard(o), ret=lambda s: SOLOK,
    scratch="this.rx_tilde_ this.rd_tilde_ this.ryc_tilde_ this.ryd_tilde_ this.x_wrk_ this.d_wrk_",
    models=dict(MOD, solveCompressed=solver(2, ("yc", "yd"))), dims={"RHS0": "c", "RHS1": "d", "Hx_": "x", "Hd_": "d", "ryc_tilde_": "c", "rd_tilde_": "d", "x_wrk_": "x", "d_wrk_": "d"})


# ---------------------------------------------------------------- barrier diagonals, factorised matrix
FACTOK = T.inp(("FACTOK",), "bool")


def factorize(A, vn, e, st):
    """what the factorisation gets to see"""
    for f in ("Dx_", "Dd_"):
        vn.setcontent(("F", f, "data_"), A.rd(vn, st, ("this", f), ix(0)), st)
    for f in ("iter_", "grad_f_", "Jac_c_", "Jac_d_", "Hess_", "HessMDS_", "Jac_cMDS_", "Jac_dMDS_"):
        if ("this", f) in st.cells:
            st.cells[("F", f)] = st.cells[("this", f)]
    return FACTOK


def diag(lo, up, itn="iter"):
    def g(s, e=None):
        return sum((s("NLP." + MASK[w], e) * s(itn + "." + DUAL[w], e) / s(itn + "." + w, e) for w in (lo, up)), ZERO)
    return g


Dx, Dd = diag("sxl", "sxu"), diag("sdl", "sdu")
UPD = "iter grad jc jd hess"
LINK = {"iter_": "iter", "grad_f_": "grad", "Jac_c_": "jc", "Jac_d_": "jd", "Hess_": "hess"}
for c in ("CompressedXYcYd", "CompressedXDYcYd", "NormalEquation", "CompressedMDSXYcYd"):
    lk = dict(LINK, **({"HessMDS_": "hess", "Jac_cMDS_": "jc", "Jac_dMDS_": "jd"} if "MDS" in c else {}))
    p11(KK + c + "::update", UPD, models=dict(MOD, factorize=factorize, determineAndCreateLinsys=lambda A, vn, e, st: Ptr(("LINSYS",))),
        out={"this.Dx_": Dx, "this.Dd_": Dd, "F.Dx_": Dx, "F.Dd_": Dd},
        ptrs=dict({"this." + k: v for k, v in lk.items()}, **{"F." + k: v for k, v in lk.items()}), ret=lambda s: FACTOK,
        nonnull=["hess", "jc", "jd"] + (["this.nlpMDS_", "this.linSys_"] if "MDS" in c else []), scratch="this.linSys_" if "MDS" in c else "")
p11(KK + "Full::update", UPD, models=dict(MOD, factorize=factorize),
    ptrs=dict({"this." + k: v for k, v in LINK.items()}, **{"F." + k: v for k, v in LINK.items()}), ret=lambda s: FACTOK, scratch="F.Dx_ F.Dd_")


def pdelta(s, n, e=None):
    return s("this.perturb_calc_.delta_%s_curr_" % n, e)


def dinv(s, e=None):
    return ONE / (pdelta(s, "wd", e) + diag("sdl", "sdu", "this.iter_")(s, e))


def sysm(A, vn, e, st):
    return Ptr(("MSYS",))


class Blocks:
    """symmetric matrix given by its blocks in the upper triangle: b.add(row block, column block, f(i, j))"""

    def __init__(self, s, sizes):
        self.s, self.off, self.v = s, {}, ZERO
        o = ZERO
        for n, d in sizes:
            self.off[n] = (o, d)
            o = o + d
        self.n = o

    def add(self, r, c, f):
        (ro, rd), (co, cd) = self.off[r], self.off[c]
        i, j = ix(0) - ro, ix(1) - co
        self.v = self.v + inrng(ix(0), ro, ro + rd) * inrng(ix(1), co, co + cd) * f(i, j)
        return self

    def diag(self, r, f):
        return self.add(r, r, lambda i, j: eq0(i - j) * f(i))


def xyy(s):
    b = Blocks(s, (("x", s.dim("x")), ("c", s.dim("c")), ("d", s.dim("d"))))
    D = diag("sxl", "sxu", "this.iter_")
    b.add("x", "x", lambda i, j: s.m("this.Hess_", i, j)).diag("x", lambda i: s("this.Dx_", i) + pdelta(s, "wx", i))
    b.add("x", "c", lambda i, j: s.m("this.Jac_c_", j, i)).add("x", "d", lambda i, j: s.m("this.Jac_d_", j, i))
    b.diag("c", lambda i: -pdelta(s, "cc", i)).diag("d", lambda i: -pdelta(s, "cd", i) - dinv(s, i))
    return b


def xdyy(s):
    b = Blocks(s, (("x", s.dim("x")), ("s", s.dim("d")), ("c", s.dim("c")), ("d", s.dim("d"))))
    b.add("x", "x", lambda i, j: s.m("this.Hess_", i, j)).diag("x", lambda i: s("this.Dx_", i) + pdelta(s, "wx", i))
    b.diag("s", lambda i: s("this.Dd_", i) + pdelta(s, "wd", i))
    b.add("x", "c", lambda i, j: s.m("this.Jac_c_", j, i)).add("x", "d", lambda i, j: s.m("this.Jac_d_", j, i))
    b.add("s", "d", lambda i, j: -eq0(i - j))
    b.diag("c", lambda i: -pdelta(s, "cc", i)).diag("d", lambda i: -pdelta(s, "cd", i))
    return b


NSYS = T.inp(("dim", "kkt"), "int")


def upper(bl):
    return {"MSYS": lambda s: (ONE - lt0(ix(1) - ix(0), True)) * lt0(ix(0) - bl(s).n, True) * lt0(ix(1) - bl(s).n, True)}


BM = dict(MOD, sysMatrix=sysm)
DEL = " ".join("this.delta_%s_" % n for n in ("wx", "wd", "cc", "cd"))
p11(KK + "DenseXYcYd::build_kkt_matrix", "pdreg", models=BM, mdims={"MSYS": lambda s: (NSYS, NSYS)}, mats={"MSYS": lambda s: xyy(s).v}, guard=upper(xyy),
    out={"this.Dd_inv_": dinv}, ret=lambda s: ONE, nonnull=["this.linSys_"], scratch=DEL + " this.write_linsys_counter")
p11(KK + "DenseXDYcYd::build_kkt_matrix", "pdreg", models=BM, mdims={"MSYS": lambda s: (NSYS, NSYS)}, mats={"MSYS": lambda s: xdyy(s).v}, guard=upper(xdyy),
    ret=lambda s: ONE, nonnull=["this.linSys_"], scratch=DEL + " this.write_linsys_counter")


# ---------------------------------------------------------------- solves with the dense symmetric system
def linsolve():
    """a solve in place: the right-hand side is recorded as RHS, the solution is arbitrary (SOL.L)"""
    def go(A, vn, e, st):
        v = A.obj(vn, e["a"][0], st)
        if not isinstance(v, Ptr):
            raise T_Give("right-hand side of the solve")
        vn.setcontent(("RHS", "data_"), A.rd(vn, st, v.base, ix(0)), st)
        vn.setcontent(v.base + ("data_",), sol("L"), st)
        return SOLOK
    return {"solve": go}


def concat(*parts):
    """stacked vector of the parts (size, f(index))"""
    def g(s):
        o, v = ZERO, ZERO
        for n, f in parts:
            d = s.dim(n) if isinstance(n, str) else n
            i = ix(0) - o
            v = v + inrng(ix(0), o, o + d) * f(s, i)
            o = o + d
        return v
    return g


def total(*names):
    return {"RHS": lambda s: lt0(ix(0) - sum((s.dim(n) if isinstance(n, str) else n for n in names), ZERO), True)}


def vec(n):
    return lambda s, e: s(n, e)


OKR = {n: (lambda s: SOLOK) for n in ("dx", "dd", "dyc", "dyd")}
for c, buf, parts in (("XYcYd", "rhsXYcYd", (("x", "rx", "dx"), ("c", "ryc", "dyc"), ("d", "ryd", "dyd"))),
                      ("XDYcYd", "rhsXDYcYd", (("x", "rx", "dx"), ("d", "rd", "dd"), ("c", "ryc", "dyc"), ("d", "ryd", "dyd")))):
    o = {"RHS": concat(*((n, vec(r)) for n, r, _ in parts))}
    off = []
    for n, r, d in parts:
        o[d] = (lambda off: lambda s: sol("L", ix(0) + sum((s.dim(k) for k in off), ZERO)))(list(off))
        off.append(n)
    p11(KK + "Dense" + c + "::solveCompressed", " ".join([r for _, r, _ in parts] + [d for _, _, d in parts]), models=dict(MOD, **linsolve()),
        out=o, guard=dict(OKR, **total(*(n for n, _, _ in parts))), ret=lambda s: SOLOK, nonnull=["this.linSys_", "this." + buf], scratch="this." + buf,
        dims=dict({r: n for n, r, _ in parts}, **{d: n for n, _, d in parts}))


# ---------------------------------------------------------------- mixed dense-sparse: the sparse variables are eliminated
NS, ND = T.inp(("dim", "n_sp"), "int"), T.inp(("dim", "n_de"), "int")
MDSDIM = {"x": NS + ND}


def hxs(s, e):
    return s("this.Dx_", e) + pdelta(s, "wx", e) + s.m("this.HessMDS_.sp_mat", e, e)


def mds(s):
    b = Blocks(s, (("x", ND), ("c", s.dim("c")), ("d", s.dim("d"))))
    sp = {"c": lambda i, k: s.m("this.Jac_cMDS_.sp_mat", i, k), "d": lambda i, k: s.m("this.Jac_dMDS_.sp_mat", i, k)}
    b.add("x", "x", lambda i, j: s.m("this.HessMDS_.de_mat", i, j)).diag("x", lambda i: s("this.Dx_", NS + i) + pdelta(s, "wx", NS + i))
    b.add("x", "c", lambda i, j: s.m("this.Jac_cMDS_.de_mat", j, i)).add("x", "d", lambda i, j: s.m("this.Jac_dMDS_.de_mat", j, i))
    for r, c in (("c", "c"), ("c", "d"), ("d", "d")):
        k = s.k()
        b.add(r, c, lambda i, j: -mksum(NS, sp[r](i, k) * sp[c](j, k) / hxs(s, k), k))
    b.diag("c", lambda i: -pdelta(s, "cc", i)).diag("d", lambda i: -pdelta(s, "cd", i) - dinv(s, i))
    return b


p11(KK + "CompressedMDSXYcYd::build_kkt_matrix", "pdreg", models=BM, mdims={"MSYS": lambda s: (NSYS, NSYS)}, mats={"MSYS": lambda s: mds(s).v}, guard=upper(mds),
    out={"this.Dd_inv_": dinv, "this.Hxs_": lambda s: hxs(s, ix(0))}, ret=lambda s: ONE, dimval=MDSDIM, dims={"Hxs_": "n_sp", "Hxs_wrk_": "n_sp"},
    nonnull=["this.linSys_", "this.HessMDS_", "this.Jac_cMDS_", "this.Jac_dMDS_", "this.Hxs_", "this.Hxs_wrk_"], scratch=DEL + " this.write_linsys_counter_ this.Hxs_wrk_")


def mdsrhs(J, r):
    def g(s, e):
        k = s.k()
        return s(r, e) - mksum(NS, s.m(J, e, k) * s("rx", k) / s("this.Hxs_", k), k)
    return g


def mdsx(s):
    def back(J, sp, o):
        k = s.k()
        return mksum(s.dim(sp), s.m(J, k, ix(0)) * sol("L", k + o), k)
    e = (s("rx") - back("this.Jac_cMDS_.sp_mat", "c", ND) - back("this.Jac_dMDS_.sp_mat", "d", ND + s.dim("c"))) / s("this.Hxs_")
    low = lt0(ix(0) - NS, True)
    return low * e + (ONE - low) * sol("L", ix(0) - NS)


p11(KK + "CompressedMDSXYcYd::solveCompressed", "rx ryc ryd dx dyc dyd", models=dict(MOD, nx_de=lambda A, vn, e, st: ND, **linsolve()), dimval=dict(MDSDIM, rhs=ND + T.inp(("dim", "c"), "int") + T.inp(("dim", "d"), "int")),
    dims={"rhs_": "rhs", "Hxs_": "n_sp", "_buff_xs_": "n_sp", "rx": "x", "ryc": "c", "ryd": "d", "dx": "x", "dyc": "c", "dyd": "d"},
    out={"RHS": concat((ND, lambda s, e: s("rx", e + NS)), ("c", mdsrhs("this.Jac_cMDS_.sp_mat", "ryc")), ("d", mdsrhs("this.Jac_dMDS_.sp_mat", "ryd"))),
         "dx": mdsx, "dyc": lambda s: sol("L", ix(0) + ND), "dyd": lambda s: sol("L", ix(0) + ND + s.dim("c"))},
    guard=dict(OKR, **total(ND, "c", "d")), ret=lambda s: SOLOK, scratch="this.rhs_ this._buff_xs_ ryd",
    nonnull=["this.linSys_", "this.rhs_", "this._buff_xs_", "this.nlpMDS_", "this.HessMDS_", "this.Jac_cMDS_", "this.Jac_dMDS_"])


# ---------------------------------------------------------------- curvature test
def curv(dx, dd):
    def g(s):
        def dot(f, sp):
            k = s.k()
            return s.gsum(mksum(s.dim(sp), f(k), k))
        k = s.k()
        w = dot(lambda i: s("dir.x", i) * mksum(s.dim("x"), s.m("this.Hess_", i, k) * s("dir.x", k), k), "x")
        w = w + dot(lambda i: (dx(s, i) + pdelta(s, "wx", i)) * s("dir.x", i) * s("dir.x", i), "x")
        w = w + dot(lambda i: (dd(s, i) + pdelta(s, "wd", i)) * s("dir.d", i) * s("dir.d", i), "d")
        q = dot(lambda i: s("dir.x", i) * s("dir.x", i), "x") + dot(lambda i: s("dir.d", i) * s("dir.d", i), "d")
        return ONE - lt0(w - q * T.inp(("opt", "neg_curv_test_fact"), "real"), False)
    return g


p11(KK + "Compressed::test_direction", "dir Hess", models=MOD, nonnull=["this.x_wrk_", "this.d_wrk_"], dims={"x_wrk_": "x", "d_wrk_": "d"}, ret=curv(lambda s, i: s("this.Dx_", i), lambda s, i: s("this.Dd_", i)), scratch=DEL + " this.x_wrk_ this.d_wrk_")
p11(KK + "Full::test_direction", "dir Hess", models=MOD, nonnull=["this.x_wrk_", "this.d_wrk_"], dims={"x_wrk_": "x", "d_wrk_": "d"}, scratch=DEL + " this.x_wrk_ this.d_wrk_",
    ret=curv(lambda s, i: diag("sxl", "sxu", "this.iter_")(s, i), lambda s, i: diag("sdl", "sdu", "this.iter_")(s, i)))


# ---------------------------------------------------------------- full system: order of the operands, operator of the iterative refinement
FULLR = "rx ryc ryd rd rdl rdu rxl rxu rsvl rsvu rszl rszu".split()
FULLX = "x yc yd d vl vu zl zu sdl sdu sxl sxu".split()
p11(KK + "Full::computeDirections", "r dir", models=dict(MOD, solve=solver(12, FULLX)), ret=lambda s: SOLOK,
    out=dict({"RHS%d" % i: (lambda r: lambda s: s("r." + r))(r) for i, r in enumerate(FULLR)}, **{"dir." + n: (lambda n: lambda s: sol(n))(n) for n in FULLX}),
    dims={"RHS%d" % i: {"rx": "x", "ryc": "c", "ryd": "d", "rd": "d"}.get(r, "d" if r[1] in "d" or r[2:3] == "v" else "x") for i, r in enumerate(FULLR)})

PARTS = "x d yc yd sxl sxu sdl sdu zl zu vl vu".split()          # unknowns
ROWS = "rx rd ryc ryd rxl rxu rdl rdu rszl rszu rsvl rsvu".split()  # equations
PSPACE = {"x": "x", "yc": "c", "d": "d", "yd": "d"}
PDIM = ["x", "d", "c", "d"] + ["x", "x", "d", "d"] * 2


def part(A, vn, e, st):
    i, o = A.arg(vn, e["a"][0], st), A.obj(vn, e["o"], st)
    i = vn.num(i).const()
    if i is None or not isinstance(o, Ptr):
        raise T_Give("part of a compound vector")
    b = o.base + ("part%d" % i,)
    vn.nonnull.add(b)
    return Ptr(b)


def kktrow(row):
    def xx(s, n, e=None):
        return s("xvec.part%d" % PARTS.index(n), e)

    def it_(s, n):
        return s("this.iter_." + n)

    def tr(s, J, n, sp):
        k = s.k()
        return mksum(s.dim(sp), s.m("this.kkt_." + J, k, ix(0)) * xx(s, n, k), k)

    def fw(s, J, n="x"):
        k = s.k()
        return mksum(s.dim("x"), s.m("this.kkt_." + J, ix(0), k) * xx(s, n, k), k)

    def dl(s, n):
        return s("this.kkt_.perturb_calc_.delta_%s_curr_" % n)
    f = {"rx": lambda s: fw(s, "Hess_") + dl(s, "wx") * xx(s, "x") + tr(s, "Jac_c_", "yc", "c") + tr(s, "Jac_d_", "yd", "d") - xx(s, "zl") + xx(s, "zu"),
         "rd": lambda s: dl(s, "wd") * xx(s, "d") - xx(s, "yd") - xx(s, "vl") + xx(s, "vu"),
         "ryc": lambda s: fw(s, "Jac_c_") - dl(s, "cc") * xx(s, "yc"),
         "ryd": lambda s: fw(s, "Jac_d_") - xx(s, "d") - dl(s, "cd") * xx(s, "yd")}
    for w, (rp, rc) in RB.items():
        v, z, _, msk, sg = B[w]
        f[rp] = lambda s, w=w, v=v, sg=sg, msk=msk: s("NLP." + msk) * (xx(s, w) - sg * xx(s, v))
        f[rc] = lambda s, w=w, z=z: it_(s, w) * xx(s, z) + it_(s, z) * xx(s, w)
    return f[row]


p11("hiop::hiopMatVecKKTFullOpr::times_vec", "yvec xvec", models=dict(MOD, getVector=part, get_num_parts=lambda A, vn, e, st: P(12)), ret=lambda s: ONE,
    out={"yvec.part%d" % i: kktrow(r) for i, r in enumerate(ROWS)}, dims={"part%d" % i: d for i, d in enumerate(PDIM)}, nonnull=["this.kkt_.perturb_calc_"])


# ---------------------------------------------------------------- quasi-Newton: reduction to the constraints by the inverse of the secant Hessian
def hinv(s, i, j):
    return T.el(("HINV", "M"), (i, j), "real")


def lrdiag(A, vn, e, st):
    v = A.obj(vn, e["a"][0], st)
    vn.setcontent(("LRDX", "data_"), A.rd(vn, st, v.base, ix(0)), st)
    return P(0)


def hsolve(A, vn, e, st):
    from vn import newk
    r, x = A.obj(vn, e["a"][0], st), A.obj(vn, e["a"][1], st)
    if not (isinstance(r, Ptr) and isinstance(x, Ptr)):
        raise T_Give("operands of the Hessian solve")
    k = newk(vn)
    vn.setcontent(x.base + ("data_",), mksum(A.dim(r.base), hinv(None, ix(0), k) * A.rd(vn, st, r.base, k), k), st)
    return P(0)


def hsym(A, vn, e, st):
    """W = beta W + alpha X H^-1 X' """
    from vn import newk
    be, W, al, X = A.arg(vn, e["a"][0], st), A.obj(vn, e["a"][1], st), A.arg(vn, e["a"][2], st), A.obj(vn, e["a"][3], st)
    k, l = newk(vn), newk(vn)
    n = A.mdim(X.base)[1]
    v = mksum(n, A.mel(vn, st, X.base, ix(0), k) * mksum(n, hinv(None, k, l) * A.mel(vn, st, X.base, ix(1), l), l), k)
    vn.setcontent(W.base + ("M",), vn.num(be) * A.mel(vn, st, W.base, ix(0), ix(1)) + vn.num(al) * v, st, 2)
    return P(0)


def refin(A, vn, e, st):
    M, v = A.obj(vn, e["a"][0], st), A.obj(vn, e["a"][1], st)
    vn.setcontent(("LHS", "M"), A.mel(vn, st, M.base, ix(0), ix(1)), st, 2)
    vn.setcontent(("RHS", "data_"), A.rd(vn, st, v.base, ix(0)), st)
    vn.setcontent(v.base + ("data_",), sol("L"), st)
    return ONE - SOLOK


CN, DN = T.inp(("dim", "c"), "int"), T.inp(("dim", "d"), "int")


def jstack(s, i, k):
    c = lt0(i - CN, True)
    return c * s.m("this.Jac_c_", i, k) + (ONE - c) * s.m("this.Jac_d_", i - CN, k)


def lrhs(s):
    k, l = s.k(), s.k()
    r = ix(0) - CN
    c = lt0(r, True)
    return mksum(s.dim("x"), jstack(s, ix(0), k) * mksum(s.dim("x"), hinv(s, k, l) * s("rx", l), l), k) - c * s("ryc") - (ONE - c) * s("ryd", r)


def lmat(s):
    k, l = s.k(), s.k()
    v = mksum(s.dim("x"), jstack(s, ix(0), k) * mksum(s.dim("x"), hinv(s, k, l) * jstack(s, ix(1), l), l), k)
    return v + eq0(ix(0) - ix(1)) * (ONE - lt0(ix(0) - CN, True)) * s("this.Dd_inv_", ix(0) - CN)


def lrdx(s):
    k, l = s.k(), s.k()
    return mksum(s.dim("x"), hinv(s, ix(0), k) * (s("rx", k) - mksum(CN + DN, jstack(s, l, k) * sol("L", l), l)), k)


LRN = KK + "LowRank::"
p11(LRN + "update", "iter grad Jac_c Jac_d hess", where=lambda f: "LowRank" in f["p"][4]["t"], models=dict(MOD, updateLogBarrierDiagonal=lrdiag),
    out={"this.Dx_": Dx, "LRDX": Dx, "this.Dd_": Dd, "this.Dd_inv_": lambda s: ONE / Dd(s)}, ret=lambda s: ONE, dims={"LRDX": "x"},
    ptrs={"this.iter_": "iter", "this.Jac_c_": "Jac_c", "this.Jac_d_": "Jac_d", "this.Hess_": "hess", "this.HessLowRank": "hess"}, scratch="this.grad_f_")
p11(LRN + "solveCompressed", "rx ryc ryd dx dyc dyd", models=dict(MOD, symMatTimesInverseTimesMatTrans=hsym, solve=hsolve, solveWithRefin=refin),
    mdims={"this.N": lambda s: (CN + DN, CN + DN), "this._kxn_mat": lambda s: (CN + DN, s.dim("x")), "LHS": lambda s: (CN + DN, CN + DN)},
    dims={"rx": "x", "ryc": "c", "ryd": "d", "dx": "x", "dyc": "c", "dyd": "d", "_k_vec1": "k", "RHS": "k"}, dimval={"k": CN + DN},
    mats={"LHS": lmat}, out={"RHS": lrhs, "dx": lrdx, "dyc": lambda s: sol("L"), "dyd": lambda s: sol("L", ix(0) + CN)}, ret=lambda s: SOLOK,
    scratch="rx this.N this._kxn_mat this._k_vec1", nonnull=["this.Jac_c_", "this.Jac_d_", "this.N", "this._kxn_mat", "this._k_vec1"])
