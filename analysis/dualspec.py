"""Starting point and multiplier estimates (property P21): reference formulas of the starting procedure and of the least-squares multipliers
    min || grad f + Jc'yc + Jd'yd - zl + zu ||^2 + || -yd - vl + vu ||^2,
normal equations  [Jc Jc'  Jc Jd'; Jd Jc'  Jd Jd' + I] [yc; yd] = -[Jc (grad f - zl + zu); Jd (grad f - zl + zu) + vl - vu]."""
from term import *
import term as T
from vn import eq0, lt0, Ptr, inrng, Give
from vecspec import lt
from algspec import B, MASK, DUAL, SPACE, IT, IPM
from nlpmodels import rec, counted

P21 = []
DU = "hiop::hiopDualsLsqUpdate"
MC, MDI, NX = T.inp(("dim", "c"), "int"), T.inp(("dim", "d"), "int"), T.inp(("dim", "x"), "int")


def p21(fn, params="", **kw):
    kw.setdefault("asserts", False)
    P21.append(dict(fn=fn, params=params, **kw))


def data(p):
    return p.base + ("data_",)


# ---------------------------------------------------------------- starting procedure
# the iterate is a point; every operation on it leaves a tagged value of what it is computed from
def user(tag, names, flags=()):
    """a starting point of the user"""
    def h(A, vn, e, st):
        counted(st, vn, tag)
        for i, n in enumerate(names):
            a = e["a"][i]
            if n in flags:
                lv = vn.lval(a, st)
                if lv is None:
                    return NotImplemented
                vn.store(lv, T.inp(("U", tag, n), "bool"), st)
                continue
            o = A.obj(vn, a, st)
            if not isinstance(o, Ptr):
                return NotImplemented
            rec(st, vn, ("ARG", tag, n), o, "ptr")
            st.arr[data(o)] = A.rd(vn, st, ("U", tag + "-" + n), ix(0))
        return T.inp(("U", tag, "ok"), "bool")
    return h


def evals(A, vn, e, st):
    """evaluation of f, c, d, grad f, Jc, Jd: functions of x (and of the scaling in effect)"""
    o = [A.obj(vn, a, st) if i != 1 else None for i, a in enumerate(e["a"])]
    if len(o) != 7 or any(not isinstance(p, Ptr) for i, p in enumerate(o) if i != 1):
        return NotImplemented
    n = st.cells.get(("CALLS", "eval"), ZERO)
    counted(st, vn, "eval")
    x = A.rd(vn, st, o[0].base + ("x",), ix(0))
    sc = st.cells.get(("CALLS", "scaling"), ZERO)
    for nm, p in (("c", o[2]), ("d", o[3]), ("grad", o[4])):
        st.arr[data(p)] = T.fn("ev_" + nm, x, sc)
    for nm, p in (("Jc", o[5]), ("Jd", o[6])):
        vn.setcontent(p.base + ("M",), T.fn("ev_" + nm, x, sc), st, 2)
    lv = vn.lval(e["a"][1], st)
    if lv is None:
        return NotImplemented
    vn.store(lv, T.fn("ev_f", x, sc), st)
    return T.fn("ev_ok", n, mask=True) if False else T.ite(eq0(n), T.inp(("U", "ev0"), "bool"), T.inp(("U", "ev1"), "bool"))


def scaling(A, vn, e, st):
    counted(st, vn, "scaling")
    o = [A.obj(vn, a, st) for a in e["a"]]
    for nm, p in zip(("c", "d", "grad"), o):
        if not isinstance(p, Ptr):
            return NotImplemented
        st.arr[("ARGA", "scaling", nm, "data_")] = A.rd(vn, st, p.base, ix(0))
        st.arr[data(p)] = A.rd(vn, st, ("U", "scaled-" + nm), ix(0))
    return T.inp(("U", "didscale"), "bool")


def itop(fn):
    """an operation on the iterate"""
    def h(A, vn, e, st):
        it = A.obj(vn, e["o"], st)
        if not isinstance(it, Ptr):
            return NotImplemented
        r = fn(A, vn, it.base, [vn.num(A.arg(vn, a, st)) if "hiop" not in (a.get("t") or "") else A.obj(vn, a, st) for a in e["a"]], st)
        return r if r is not None else P(0)
    return h


def field(A, vn, st, b, n):
    return A.rd(vn, st, b + (n,), ix(0))


def setf(vn, st, b, n, v):
    st.arr[b + (n, "data_")] = v


def project(n):
    return itop(lambda A, vn, b, a, st: setf(vn, st, b, n, T.fn("project_" + n, field(A, vn, st, b, n), *a)))


def safe(A, vn, b, a, st):
    if not isinstance(a[0], Ptr):
        return NotImplemented
    for w, (v, z, *_) in B.items():
        setf(vn, st, b, w, T.fn("slack_" + w, field(A, vn, st, a[0].base, v), a[1]))
    return T.inp(("U", "adjusted"), "int")


def adjust(A, vn, e, st):
    o = A.obj(vn, e["a"][0], st)
    if not isinstance(o, Ptr):
        return NotImplemented
    counted(st, vn, "adjust")
    rec(st, vn, ("ARG", "adjust", "it"), o, "ptr")
    st.arr[("ARGA", "adjust", "sxl", "data_")] = field(A, vn, st, o.base, "sxl")
    return P(0)


def lsq(A, vn, e, st):
    o = [A.obj(vn, a, st) for a in e["a"]]
    if len(o) != 4 or not all(isinstance(p, Ptr) for p in o):
        return NotImplemented
    counted(st, vn, "lsq")
    b = o[0].base
    ops = [field(A, vn, st, b, n) for n in ("zl", "zu", "vl", "vu")] + [A.rd(vn, st, o[1].base, ix(0)), A.mel(vn, st, o[2].base, ix(0), ix(1)), A.mel(vn, st, o[3].base, ix(0), ix(1))]
    for n in ("yc", "yd"):
        setf(vn, st, b, n, T.fn("lsq_" + n, *ops))
    return T.inp(("U", "lsqok"), "bool")


def hess(A, vn, e, st):
    o = [A.obj(vn, a, st) for a in e["a"]]
    if len(o) != 2 or not all(isinstance(p, Ptr) for p in o):
        return NotImplemented
    counted(st, vn, "hess")
    rec(st, vn, ("ARG", "hess", "to"), o[1], "ptr")
    b = o[0].base
    st.arr[("ARGA", "hess", "of", "data_")] = T.fn("point", *[field(A, vn, st, b, n) for n in ("x", "yc", "yd")])
    return T.inp(("U", "hessok"), "bool")


def updater(A, vn, e, st):
    b = ("NLP", "lsqupdater")
    vn.nonnull.add(b)
    return Ptr(b)


NLPQ = "hiop::hiopNlpFormulation::"
WARM = ("x", "zl", "zu", "yc", "yd", "d", "vl", "vu")
COLD = ("x", "duals", "zl", "zu", "yc", "yd", "slacks", "d")
START = {"get_warmstart_point": user("warm", WARM), "get_starting_point": user("cold", COLD, ("duals", "slacks")), "evalNlp_noHess": evals, "apply_scaling": scaling,
         "evalNlp_HessOnly": hess, "adjust_bounds": adjust, "alloc_duals_lsq_updater": updater, DU + "::compute_initial_duals_eq": lsq,
         IT + "projectPrimalsXIntoBounds": project("x"), IT + "projectPrimalsDIntoBounds": project("d"), IT + "compute_safe_slacks": itop(safe)}


class Start:
    def __init__(self, s):
        self.s = s
        self.warm = T.inp(("optis", "warm_start", "yes"), "bool")
        ok = T.ite(self.warm, T.inp(("U", "warm", "ok"), "bool"), T.inp(("U", "cold", "ok"), "bool"))
        self.ok = ok
        self.isw = self.warm * ok
        self.duals = ok * T.ite(self.warm, ONE, T.inp(("U", "cold", "duals"), "bool"))
        self.slacks = ok * T.ite(self.warm, ONE, T.inp(("U", "cold", "slacks"), "bool"))
        k = (s.s("this.kappa1"), s.s("this.kappa2"))
        u = lambda n: T.ite(self.warm, s("U.warm-" + n), s("U.cold-" + n))
        self.x0 = T.ite(ok, u("x"), ZERO)
        self.x = T.ite(self.isw, self.x0, T.fn("project_x", self.x0, *k))
        ev = lambda n, x=None, sc=ONE: T.fn("ev_" + n, self.x if x is None else x, sc)
        self.ev = ev
        d0 = T.ite(self.slacks, u("d"), ev("d"))
        self.d = T.ite(self.isw, d0, T.fn("project_d", d0, *k))
        self.sl = {w: T.fn("slack_" + w, self.x if v == "x" else self.d, s.s("this.mu0")) for w, (v, *_) in B.items()}
        self.z = {}
        for w, (v, z, lo, msk, sg) in B.items():
            if v == "x":
                given = u(z)
            else:
                given = T.ite(self.isw, s("U.warm-" + z), s("NLP." + msk) * s.s("this.mu0") / self.sl[w])
            self.z[z] = T.ite(self.duals, given, s("NLP." + msk))
        ops = [self.z[n] for n in ("zl", "zu", "vl", "vu")] + [ev("grad"), ev("Jc"), ev("Jd")]
        self.uselsq = eq0(s.i("this.dualsInitializ"))
        self.y = {n: T.ite(self.duals, u(n), T.ite(self.uselsq, T.fn("lsq_" + n, *ops), ZERO)) for n in ("yc", "yd")}
        self.ev0, self.ev1 = T.inp(("U", "ev0"), "bool"), T.inp(("U", "ev1"), "bool")
        self.run = self.ev0 * self.ev1


st_ = lambda w: lambda s: getattr(Start(s), w)
IT0 = {"it." + n: (lambda s, n=n: Start(s).__dict__[n]) for n in ("x", "d")}
IT0.update({"it." + w: (lambda s, w=w: Start(s).sl[w]) for w in B})
IT0.update({"it." + z: (lambda s, z=z: Start(s).z[z]) for z in ("zl", "zu", "vl", "vu")})
IT0.update({"it." + y: (lambda s, y=y: Start(s).y[y]) for y in ("yc", "yd")})
IT0.update({n: (lambda s, k=k: Start(s).ev(k)) for n, k in (("c", "c"), ("d", "d"), ("grad", "grad"))})
G = {k: st_("run") for k in IT0}
p21(IPM + "startingProcedure", "it f c d grad jc jd", models=START, frame=False, out=IT0,
    dims={"U.warm-" + n: SPACE.get(n, n) for n in ()},
    cells={"f": lambda s: Start(s).ev("f"), "CALLS.eval": lambda s: ONE + Start(s).ev0, "CALLS.scaling": st_("ev0"),
           "CALLS.adjust": lambda s: Start(s).run * lt(ZERO, T.inp(("U", "adjusted"), "int"), True), "CALLS.hess": st_("run"), "CALLS.warm": st_("warm"), "CALLS.cold": lambda s: ONE - Start(s).warm},
    mats={"jc": lambda s: Start(s).ev("Jc"), "jd": lambda s: Start(s).ev("Jd")},
    arrs={"ARGA.hess.of.data_": lambda s: T.fn("point", Start(s).x, Start(s).y["yc"], Start(s).y["yd"])},
    ret=lambda s: Start(s).run * T.inp(("U", "hessok"), "bool"),
    guard=dict(G, f=st_("run"), jc=st_("run"), jd=st_("run"), **{"ARGA.hess.of.data_": st_("run")}))

# ---------------------------------------------------------------- starting point: multipliers of the constraints
def dolsq(A, vn, e, st):
    """the least-squares estimate: recorded operands, unknown result"""
    o = [A.obj(vn, a, st) for a in e["a"]]
    if len(o) != 4 or not all(isinstance(p, Ptr) for p in o):
        return NotImplemented
    counted(st, vn, "dolsq")
    b = o[0].base
    rec(st, vn, ("ARG", "dolsq", "it"), o[0], "ptr")
    st.arr[("ARGA", "dolsq", "grad", "data_")] = A.rd(vn, st, o[1].base, ix(0))
    for nm, p in (("jc", o[2]), ("jd", o[3])):
        vn.setcontent(("ARGA", "dolsq", nm, "M"), A.mel(vn, st, p.base, ix(0), ix(1)), st, 2)
    for n in ("zl", "zu", "vl", "vu"):
        st.arr[("ARGA", "dolsq", n, "data_")] = field(A, vn, st, b, n)
    for n in ("yc", "yd"):
        setf(vn, st, b, n, A.rd(vn, st, ("U", "lsq-" + n), ix(0)))
    return T.inp(("U", "lsqok"), "bool")


def init(A, vn, e, st):
    return T.inp(("U", "initok"), "bool")


LSQM = {"do_lsq_update": dolsq, DU + "::init_for_ini_duals_comp": init, DU + "::init_for_duals_update": init}
LOK, IOK = T.inp(("U", "lsqok"), "bool"), T.inp(("U", "initok"), "bool")
JM = {"jc": lambda s: (MC, NX), "jd": lambda s: (MDI, NX), "ARGA.dolsq.jc": lambda s: (MC, NX), "ARGA.dolsq.jd": lambda s: (MDI, NX)}


def toolarge(s):
    n = [s.gmax(s.inf(sp, lambda k, n=n: s("U.lsq-" + n, k))) if False else s.inf(sp, lambda k, n=n: s("U.lsq-" + n, k)) for n, sp in (("yc", "c"), ("yd", "d"))]
    return lt(T.inp(("opt", "duals_lsq_ini_max"), "real"), fmax(*n))


LD = {"U.lsq-yc": "c", "U.lsq-yd": "d"}
p21(DU + "::compute_initial_duals_eq", "it grad jc jd", models=LSQM, frame=False, mdims=JM, dims={"lsq-yc": "c", "lsq-yd": "d"},
    out={"it." + y: (lambda s, y=y: T.ite(IOK, LOK * (ONE - toolarge(s)) * s("U.lsq-" + y), s("it." + y))) for y in ("yc", "yd")},
    cells={"CALLS.dolsq": lambda s: IOK}, mats={"ARGA.dolsq.jc": lambda s: s.m("jc"), "ARGA.dolsq.jd": lambda s: s.m("jd")}, arrs={"ARGA.dolsq.grad.data_": lambda s: s("grad")},
    guard={"ARGA.dolsq.jc": lambda s: IOK, "ARGA.dolsq.jd": lambda s: IOK, "ARGA.dolsq.grad.data_": lambda s: IOK}, ret=lambda s: IOK * LOK)

# ---------------------------------------------------------------- multipliers after a step


def stepd(s, n):
    w = {v: k for k, v in DUAL.items()}[n]
    z = s("iter." + n) + s.s("ad") * s("dir." + n)
    p = s.s("mu") / s("plus." + w)
    return T.ite(s("NLP." + MASK[w]), fmax(p / s.s("kappa"), fmin(z, p * s.s("kappa"))), z)


SKIP = lambda s: lt(T.inp(("opt", "recalc_lsq_duals_tol"), "real"), s.s("infeas"))
PZ = ("zl", "zu", "vl", "vu")
p21(DU + "::go", "iter plus f c d grad jc jd dir ap ad mu kappa infeas", models=LSQM, frame=False, mdims=JM,
    out=dict({"plus." + n: (lambda s, n=n: stepd(s, n)) for n in PZ},
             **{"plus." + y: (lambda s, y=y: T.ite(SKIP(s), s("iter." + y) + s.s("ap") * s("dir." + y), s("U.lsq-" + y))) for y in ("yc", "yd")}),
    cells={"CALLS.dolsq": lambda s: ONE - SKIP(s)}, mats={"ARGA.dolsq.jc": lambda s: s.m("jc"), "ARGA.dolsq.jd": lambda s: s.m("jd")},
    arrs=dict({"ARGA.dolsq.grad.data_": lambda s: s("grad")}, **{"ARGA.dolsq.%s.data_" % n: (lambda s, n=n: stepd(s, n)) for n in PZ}),
    guard=dict({"ARGA.dolsq." + j: (lambda s: ONE - SKIP(s)) for j in ("jc", "jd")}, **{"ARGA.dolsq.%s.data_" % n: (lambda s: ONE - SKIP(s)) for n in PZ + ("grad",)}),
    ret=lambda s: T.ite(SKIP(s), ONE, LOK))

# ---------------------------------------------------------------- least squares, dense
RD = DU + "LinsysRedDense"


def factorize(A, vn, e, st):
    counted(st, vn, "fact")
    b = ("M",)
    vn.setcontent(("ARGA", "fact", "M"), A.mel(vn, st, b, ix(0), ix(1)), st, 2)
    vn.setcontent(b + ("M",), vn.read(("U", "factors", "M"), [ix(0), ix(1)], "double", st), st, 2)
    return T.inp(("U", "factok"), "bool")


def solvefac(A, vn, e, st):
    o = A.obj(vn, e["a"][0], st)
    if not isinstance(o, Ptr):
        return NotImplemented
    counted(st, vn, "solve")
    st.arr[("ARGA", "solve", "r", "data_")] = A.rd(vn, st, o.base, ix(0))
    st.arr[data(o)] = A.rd(vn, st, ("U", "sol"), ix(0))
    return T.inp(("U", "solok"), "bool")


def sysm(A, vn, e, st):
    vn.nonnull.add(("M",))
    A.mdimval[("M",)] = (M_, M_)
    return Ptr(("M",))


def gram(s, X, Y, i, j):
    k = s.k()
    return mksum(NX, s.m(X, i, k) * s.m(Y, j, k), k)


def normal(s):
    i, j = ix(0), ix(1)
    eq, ine = lt0(i - MC, True), lt0(j - MC, True)
    return T.ite(eq, T.ite(ine, gram(s, "jc", "jc", i, j), gram(s, "jc", "jd", i, j - MC)), gram(s, "jd", "jd", i - MC, j - MC) + eq0(i - j))


def rhs(s):
    i, k = ix(0), s.k()
    v = lambda k: s("grad", k) - s("it.zl", k) + s("it.zu", k)
    p = mksum(NX, s.m("jc", i, k) * v(k), k)
    q = mksum(NX, s.m("jd", i - MC, k) * v(k), k) + s("it.vl", i - MC) - s("it.vu", i - MC)
    return -T.ite(lt0(i - MC, True), p, q)


FOK, SOK = T.inp(("U", "factok"), "bool"), T.inp(("U", "solok"), "bool")
M_ = MC + MDI
p21(RD + "::do_lsq_update", "it grad jc jd", models={"get_lsq_sysmatrix": sysm, "factorize_mat": factorize, "solve_with_factors": solvefac}, frame=False,
    mdims=dict({k: JM[k] for k in ("jc", "jd")}, **{"this.mexme_": lambda s: (MC, MC), "this.mexmi_": lambda s: (MC, MDI), "this.mixmi_": lambda s: (MDI, MDI), "this.mixme_": lambda s: (MDI, MC), "ARGA.fact": lambda s: (M_, M_)}),
    dims={"rhsc_": "c", "rhsd_": "d", "vec_n_": "x", "vec_mi_": "d", "rhs_": "m", "rhs_copy_": "m"}, dimval={"rhs_": M_, "m": M_},
    mats={"ARGA.fact": normal}, guard={"ARGA.fact": lambda s: ONE - lt0(ix(1) - ix(0), True), "ARGA.solve.r.data_": lambda s: FOK * inrng(ix(0), ZERO, M_), "return": lambda s: ONE - FOK * SOK},
    arrs={"ARGA.solve.r.data_": rhs}, cells={"CALLS.fact": lambda s: ONE, "CALLS.solve": lambda s: FOK},
    out={"it.yc": lambda s: T.ite(FOK * SOK, s("U.sol"), s("it.yc")), "it.yd": lambda s: T.ite(FOK * SOK, s("U.sol", ix(0) + MC), s("it.yd"))},
    ret=lambda s: ZERO)

# ---------------------------------------------------------------- Cholesky factorisation and solve
PD = DU + "LinsysRedDenseSymPD"


def potr(solve):
    def h(A, vn, e, st):
        from bfgsspec import deref
        a = e["a"]
        lv = [deref(A, vn, x, st) for x in a]
        ints = (0, 1, 2, 4, 6) if solve else (0, 1, 3)
        if any(lv[i] is None for i in ints) or lv[-1] is None:
            return NotImplemented
        M = A.arg(vn, a[3 if solve else 2], st)
        if not isinstance(M, Ptr):
            return NotImplemented
        counted(st, vn, "potr")
        for i in ints:
            rec(st, vn, ("ARG", "potr", str(i)), vn.num(lv[i][1]))
        vn.setcontent(("ARGA", "potr", "A", "M"), vn.content(M.base, st, 2), st, 2)
        if solve:
            R = A.arg(vn, a[5], st)
            if not isinstance(R, Ptr):
                return NotImplemented
            st.arr[("ARGA", "potr", "r", "data_")] = vn.content(R.base, st)
            vn.setcontent(R.base, A.rd(vn, st, ("U", "sol"), ix(0)), st)
        else:
            vn.setcontent(M.base, vn.read(("U", "factors", "M"), [ix(0), ix(1)], "double", st), st, 2)
        vn.store(lv[-1][0], T.inp(("U", "info"), "int"), st)
        return P(0)
    return h


POT = {"hiop::dpotrf_": potr(False), "hiop::dpotrs_": potr(True)}
POS, INFO0 = (lambda s: lt(ZERO, M_, True)), eq0(T.inp(("U", "info"), "int"))
DOMI = {("U", "info"): [-1, 0, 0, 1, 2]}
for w, q in (("factorize_mat", False), ("solve_with_factors", True)):
    ints = {"0": P(76), "1": M_, "2": ONE, "4": M_, "6": M_} if q else {"0": P(76), "1": M_, "3": M_}
    p21(PD + "::" + w, "r" if q else "", models=POT, frame=False, domain=DOMI, mdims={"this.M_": lambda s: (M_, M_), "ARGA.potr.A": lambda s: (M_, M_)}, dims={"r": "m"} if q else {}, dimval={"m": M_, "a0": M_} if q else {},
        cells=dict({"ARG.potr." + i: (lambda s, v=v: v) for i, v in ints.items()}, **{"CALLS.potr": POS}),
        mats={"ARGA.potr.A": lambda s: s.m("this.M_")} if q else {"ARGA.potr.A": lambda s: s.m("this.M_"), "this.M_": lambda s: T.ite(POS(s), s.vn.read(("U", "factors", "M"), [ix(0), ix(1)], "double", s.vn.st0), s.m("this.M_"))},
        arrs={"ARGA.potr.r.data_": lambda s: s("r")} if q else {}, out={"r": lambda s: s("U.sol")} if q else {},
        guard=dict({"ARG.potr." + i: POS for i in ints}, **{"ARGA.potr.r.data_": lambda s: POS(s) * inrng(ix(0), ZERO, M_), "ARGA.potr.A": POS}), ret=lambda s: T.ite(POS(s), INFO0, ONE))

# ---------------------------------------------------------------- projection of the starting point into the bounds
TINY = T.inp(("std::numeric_limits<double>::min",), "pos")


def projected(s, v, lo, up, ml, mu):
    x, xl, xu, k1, k2 = s("this." + v), s("NLP." + lo), s("NLP." + up), s.s("kappa1"), s.s("kappa2")
    tiny = TINY * 100
    aux = k2 * (xu - xl) - tiny
    l = xl + fmin(k1 * fmax(ONE, fabs(xl)), aux)
    u = xu - fmin(k1 * fmax(ONE, fabs(xu)), aux)
    both = T.ite(lt(x, l), l, T.ite(lt(u, x), u, x))
    ol, ou = fmax(x, xl + k1 * fmax(ONE, fabs(xl)) - tiny), fmin(x, xu - k1 * fmax(ONE, fabs(xu)) - tiny)
    bl, bu = s("NLP." + ml), s("NLP." + mu)
    return bl * bu * both + bl * (ONE - bu) * ol + (ONE - bl) * bu * ou + (ONE - bl) * (ONE - bu) * x


for n, sp, a in (("X", "x", ("xl_", "xu_", "ixl_", "ixu_")), ("D", "d", ("dl_", "du_", "idl_", "idu_"))):
    p21(IT + "projectPrimals%sIntoBounds" % n, "kappa1 kappa2", frame=False, out={"this." + sp: lambda s, sp=sp, a=a: projected(s, sp, *a)},
        guard={"this." + sp: lambda s, sp=sp, a=a: ONE - s.any(sp, lambda k: s("NLP." + a[2], k) * s("NLP." + a[3], k) * lt(s("NLP." + a[1], k), s("NLP." + a[0], k)))})
p21(IT + "setEqualityDualsToConstant", "v", out={"this.yc": lambda s: s.s("v"), "this.yd": lambda s: s.s("v")})


# ---------------------------------------------------------------- least squares, sparse augmented system
AS = DU + "LinsysAugSparse"


def add(vn, st, entries, start, count):
    """entries and the interval of nonzeros they occupy"""
    b = ("ARGA", "sys", "M")
    vn.setcontent(b, vn.content(b, st, 2) + entries, st, 2)
    c = ("ARGA", "used", "data_")
    vn.setcontent(c, vn.content(c, st) + inrng(ix(0), start, start + count), st)
    return P(0)


def assemble(A, vn, e, st, name):
    """assembly of a part of the sparse (lower triangular) system matrix, as dense entries"""
    i, j = ix(0), ix(1)
    a = [A.obj(vn, x, st) if "hiop" in (x.get("t") or "") else vn.num(A.arg(vn, x, st)) for x in e["a"]]
    if name == "setToZero":
        vn.setcontent(("ARGA", "sys", "M"), ZERO, st, 2)
        vn.setcontent(("ARGA", "used", "data_"), ZERO, st)
        return P(0)
    if name == "copyDiagMatrixToSubblock":
        al, r, c, s0, n = a
        return add(vn, st, al * eq0(i - r - j + c) * inrng(i, r, r + n), s0, n)
    if name == "setSubDiagonalTo":
        r, n, v, s0 = a
        return add(vn, st, v * eq0(i - j) * inrng(i, r, r + n), s0, n)
    if not isinstance(a[0], Ptr):
        return NotImplemented
    src, r0, n, r, s0 = a
    rows, cols = A.mdim(src.base)
    if r0 != ZERO or n != rows:
        return NotImplemented
    return add(vn, st, inrng(i, r, r + n) * inrng(j, ZERO, cols) * A.mel(vn, st, src.base, i - r, j), s0, T.inp(("dim", "nnz" + src.base[-1]), "int"))


def sysmat(A, vn, e, st):
    vn.nonnull.add(("MSYS",))
    return Ptr(("MSYS",))


def changed(A, vn, e, st):
    counted(st, vn, "changed")
    vn.setcontent(("ARGA", "fact", "M"), vn.content(("ARGA", "sys", "M"), st, 2), st, 2)
    vn.setcontent(("ARGA", "nnz", "data_"), vn.content(("ARGA", "used", "data_"), st), st)
    return T.inp(("U", "mc"), "int")


def nnz(A, vn, e, st):
    o = A.obj(vn, e["o"], st)
    return T.inp(("dim", "nnz" + o.base[-1]), "int") if isinstance(o, Ptr) else NotImplemented


PARTS = ("setToZero", "copyDiagMatrixToSubblock", "copyRowsBlockFrom", "setSubDiagonalTo")


def part(name):
    def h(A, vn, e, st):
        o = e.get("o")
        if o is None:
            return NotImplemented
        o = A.obj(vn, o, st)
        if isinstance(o, Ptr) and o.base == ("MSYS",):
            return assemble(A, vn, e, st, name)
        return NotImplemented
    return h


ND, NC = MDI, MC
NZC, NZD = T.inp(("dim", "nnza2"), "int"), T.inp(("dim", "nnza3"), "int")
CH = {"hiop::hiopLinSolverSymSparse::sys_matrix": sysmat, "sys_matrix": sysmat, "matrixChanged": changed, "numberOfNonzeros": nnz, "solve": solvefac}
CH.update({n: part(n) for n in PARTS})
FACT = ONE - lt(T.inp(("U", "mc"), "int"), ZERO, True)
TOT = NX + ND + NC + ND


def augrhs(s):
    i = ix(0)
    gx = s("it.zl", i) - s("grad", i) - s("it.zu", i)
    gs = s("it.vl", i - NX) - s("it.vu", i - NX)
    rest = T.ite(lt0(i - NX - ND - NC, True), s("this.rhsc_", i - NX - ND), s("this.rhsd_", i - NX - ND - NC))
    return T.ite(lt0(i - NX, True), gx, T.ite(lt0(i - NX - ND, True), gs, rest))


def augmented(s):
    i, j = ix(0), ix(1)
    r = i - NX - ND
    q = r - NC
    return (inrng(i, ZERO, NX + ND) * eq0(i - j) + inrng(r, ZERO, NC) * inrng(j, ZERO, NX) * s.m("jc", r, j) + inrng(q, ZERO, ND) * inrng(j, ZERO, NX) * s.m("jd", q, j)
            - inrng(q, ZERO, ND) * eq0(j - NX - q))


p21(AS + "::do_lsq_update", "it grad jc jd", models=CH, frame=False, mdims=dict({k: JM[k] for k in ("jc", "jd")}, **{"ARGA.fact": lambda s: (TOT, TOT)}), nonnull=("this.lin_sys_",), domain={("U", "mc"): [-1, 0, 0, 1]},
    dims={"rhsc_": "c", "rhsd_": "d", "vec_n_": "x", "vec_mi_": "d", "rhs_": "m"}, dimval={"rhs_": TOT, "m": TOT},
    cells={"CALLS.changed": lambda s: ONE, "CALLS.solve": lambda s: FACT}, mats={"ARGA.fact": augmented},
    arrs={"ARGA.solve.r.data_": augrhs, "ARGA.nnz.data_": lambda s: ONE},
    guard={"ARGA.solve.r.data_": lambda s: FACT * inrng(ix(0), ZERO, TOT), "ARGA.nnz.data_": lambda s: inrng(ix(0), ZERO, NX + ND + NZC + NZD + ND + TOT)},
    out={"it.yc": lambda s: T.ite(FACT, SOK * s("U.sol", ix(0) + NX + ND), s("it.yc")), "it.yd": lambda s: T.ite(FACT, SOK * s("U.sol", ix(0) + NX + ND + NC), s("it.yd"))}, ret=lambda s: FACT)
