"""Dense linear solvers and Krylov methods (property P02): what a factorization, a solve and an iterative solve report and leave behind."""
from term import *
import term as T
from vn import eq0, lt0, Ptr, inrng, NULL
from vecspec import lt
from nlpmodels import rec, counted
from bfgsspec import deref

P02 = []
LAP = "hiop::hiopLinSolverSymDenseLapack::"
LRK = "hiop::hiopKKTLinSysLowRank::"
INFO = T.inp(("U", "info"), "int")
NN = T.inp(("dim", "n"), "int")


def p02(fn, params="", **kw):
    kw.setdefault("asserts", False)
    kw.setdefault("frame", False)
    P02.append(dict(fn=fn, params=params, **kw))


# ---------------------------------------------------------------- symmetric indefinite factorization and its inertia
def mat(vn, b, i, j):
    return vn.read(b + ("M",), [i, j], "double", vn.st0)


def sytrf(A, vn, e, st):
    a = e["a"]
    lv = [deref(A, vn, x, st) for x in a]
    if any(lv[i] is None for i in (0, 1, 3, 6, 7)):
        return NotImplemented
    vals = {i: vn.num(lv[i][1]) for i in (0, 1, 3, 6)}
    if vals[6].const() == -1:
        w = deref(A, vn, a[5], st)
        if w is None:
            return NotImplemented
        vn.store(w[0], vn.read(("U", "work"), [], "double", st), st)
        vn.store(lv[7][0], ZERO, st)
        return P(0)
    M, ip = A.arg(vn, a[2], st), A.arg(vn, a[4], st)
    if not isinstance(M, Ptr) or not isinstance(ip, Ptr):
        return NotImplemented
    counted(st, vn, "trf")
    for i in (0, 1, 3):
        rec(st, vn, ("ARG", "trf", str(i)), vals[i])
    vn.setcontent(("ARGA", "trf", "A", "M"), vn.content(M.base, st, 2), st, 2)
    vn.setcontent(M.base, T.el(("U", "fac"), (ix(0) * A.mdim(M.base[:-1])[1] + ix(1),), "real"), st, 2)
    vn.arrtypes0[ip.base] = "int"
    vn.setcontent(ip.base, T.el(("U", "ipiv"), (ix(0),), "int"), st)
    vn.store(lv[7][0], INFO, st)
    return P(0)


def sytrs(A, vn, e, st):
    a = e["a"]
    lv = [deref(A, vn, x, st) for x in a]
    if any(lv[i] is None for i in (0, 1, 2, 4, 7, 8)):
        return NotImplemented
    M, ip, R = (A.arg(vn, a[i], st) for i in (3, 5, 6))
    if not all(isinstance(x, Ptr) for x in (M, ip, R)):
        return NotImplemented
    counted(st, vn, "trs")
    for i in (0, 1, 2, 4, 7):
        rec(st, vn, ("ARG", "trs", str(i)), vn.num(lv[i][1]))
    vn.setcontent(("ARGA", "trs", "A", "M"), vn.content(M.base, st, 2), st, 2)
    st.arr[("ARGA", "trs", "r", "data_")] = vn.content(R.base, st)
    vn.setcontent(R.base, A.rd(vn, st, ("U", "sol"), ix(0)), st)
    vn.store(lv[8][0], INFO, st)
    return P(0)


def inertia(K):
    """number of negative pivots of the block diagonal factor; -1 if the factorization failed or a pivot vanishes"""
    M = lambda i, j: T.el(("U", "fac"), (P(i * K + j),), "real")
    ip = lambda k: T.el(("U", "ipiv"), (P(k),), "int")
    neg, null, second = ZERO, ZERO, ZERO
    for k in range(K):
        d = M(k, k)
        two = lt0(ip(k) - 1, True)
        if k + 1 < K:
            t = T.fabs(M(k, k + 1))
            det = d * T.inv(t) * M(k + 1, k + 1) - t
        else:
            t, det = None, d
        prev = T.fabs(M(k - 1, k)) if k else ZERO
        piv = T.ite(two, T.ite(second, prev, det), d)
        second = two * (ONE - second) if k + 1 < K else ZERO
        eps = P(Fraction(1, 10 ** 14))
        n = lt0(piv + eps, False)
        neg = neg + n
        z = (ONE - n) * lt0(piv - eps, False)
        null = T.ite(null, ONE, z)
    return T.ite(eq0(INFO), T.ite(null, P(-1), neg), P(-1))


def blocks(K):
    """2x2 blocks come in pairs with a nonzero off-diagonal entry"""
    M = lambda i, j: T.el(("U", "fac"), (P(i * K + j),), "real")
    ip = lambda k: T.el(("U", "ipiv"), (P(k),), "int")
    g, second = ONE, ZERO
    for k in range(K):
        two = lt0(ip(k) - 1, True)
        if k + 1 < K:
            g = g * (ONE - two * eq0(M(k, k + 1)))
        else:
            g = g * (ONE - two * (ONE - second))
        g = g * (ONE - second * (ONE - two))
        second = two * (ONE - second)
    return g


TRF = {"hiop::dsytrf_": sytrf, "hiop::dsytrs_": sytrs}
SMALL = [-1.5, -0.7, -2e-14, -5e-15, 0.0, 5e-15, 2e-14, 0.9, 2.0]
for K in range(5):
    ints = {"0": P(76), "1": P(K), "3": P(K)}
    p02(LAP + "matrixChanged", models=TRF, unroll=K + 1, mdims={"this.M_": lambda s, K=K: (P(K), P(K)), "ARGA.trf.A": lambda s, K=K: (P(K), P(K))}, elem=K, nonnull=["this.M_", "this.ipiv", "this.dwork"],
        domain={("U", "fac"): SMALL, ("U", "ipiv"): [-2, -1, 1, 2], ("U", "info"): [-1, 0, 0, 0, 1, 2]},
        cells=dict({"CALLS.trf": lambda s, K=K: P(int(K > 0))}, **({"ARG.trf." + i: (lambda s, v=v: v) for i, v in ints.items()} if K else {})),
        mats={"ARGA.trf.A": lambda s: s.m("this.M_")} if K else {}, guard={"return": lambda s, K=K: blocks(K)},
        ret=lambda s, K=K: inertia(K) if K else ZERO)
POS = lambda s: lt(ZERO, NN, True)
ints = {"0": P(76), "1": NN, "2": ONE, "4": NN, "7": NN}
p02(LAP + "solve", "x", models=TRF, domain={("U", "info"): [-1, 0, 0, 1, 2]}, mdims={"this.M_": lambda s: (NN, NN), "ARGA.trs.A": lambda s: (NN, NN)}, dims={"x": "n"}, dimval={"n": NN}, nonnull=["this.M_", "this.ipiv"],
    cells=dict({"CALLS.trs": POS}, **{"ARG.trs." + i: (lambda s, v=v: v) for i, v in ints.items()}), mats={"ARGA.trs.A": lambda s: s.m("this.M_")}, arrs={"ARGA.trs.r.data_": lambda s: s("x")},
    out={"x": lambda s: s("U.sol")}, guard=dict({"ARG.trs." + i: POS for i in ints}, **{"ARGA.trs.r.data_": lambda s: POS(s) * inrng(ix(0), ZERO, NN), "ARGA.trs.A": POS}),
    ret=lambda s: T.ite(POS(s), eq0(INFO), ONE))


# ---------------------------------------------------------------- positive definite solve with iterative refinement
def posvx(A, vn, e, st):
    """solution of A x = b in X; the matrix and right-hand side passed are overwritten (equilibration); nothing in X if the factorization failed"""
    a = e["a"]
    lv = [deref(A, vn, x, st) for x in a]
    M, B, X = (A.arg(vn, a[i], st) for i in (4, 10, 12))
    if any(lv[i] is None for i in (1, 2, 3, 5, 8, 11, 13, 19)) or not all(isinstance(x, Ptr) for x in (M, B, X)):
        return NotImplemented
    counted(st, vn, "posvx")
    for i in (1, 2, 3, 5, 11, 13):
        rec(st, vn, ("ARG", "posvx", str(i)), vn.num(lv[i][1]))
    vn.setcontent(("ARGA", "posvx", "A", "M"), vn.content(M.base, st, 2), st, 2)
    st.arr[("ARGA", "posvx", "b", "data_")] = vn.content(B.base, st)
    vn.setcontent(M.base, T.el(("U", "eqA"), (ix(0), ix(1)), "real"), st, 2)
    vn.setcontent(B.base, A.rd(vn, st, ("U", "eqB"), ix(0)), st)
    vn.setcontent(X.base, A.rd(vn, st, ("U", "x"), ix(0)), st)
    vn.store(lv[8][0], T.inp(("U", "equed"), "int"), st)
    vn.store(lv[19][0], INFO, st)
    return P(0)


def potr(solve):
    def h(A, vn, e, st):
        a = e["a"]
        lv = [deref(A, vn, x, st) for x in a]
        M = A.arg(vn, a[3 if solve else 2], st)
        if not isinstance(M, Ptr) or lv[-1] is None:
            return NotImplemented
        if solve:
            R = A.arg(vn, a[5], st)
            if not isinstance(R, Ptr):
                return NotImplemented
            A.corr = getattr(A, "corr", 0)
            st.arr[("ARGA", "r%d" % A.corr, "data_")] = vn.content(R.base, st)
            # the correction is the solve with the matrix factored last
            vn.setcontent(R.base, A.rd(vn, st, ("U", "corr%d" % A.corr), ix(0)), st)
            A.corr += 1
        else:
            vn.setcontent(("ARGA", "potrf%d" % getattr(A, "corr", 0), "A", "M"), vn.content(M.base, st, 2), st, 2)
            vn.setcontent(M.base, T.el(("U", "chol"), (ix(0), ix(1)), "real"), st, 2)
        vn.store(lv[-1][0], T.inp(("U", "info2"), "int"), st)
        return P(0)
    return h


def infnorm(A, vn, e, st):
    """the vector of the condensed system is not distributed: the norm is that of the local entries"""
    o = A.obj(vn, e["o"], st)
    if not isinstance(o, Ptr):
        return NotImplemented
    A.refs = getattr(A, "refs", 0) + 1
    k = T.raw("k", ("ref2", A.refs))
    return fmax(ZERO, T.binder("redmax", (A.dim(o.base), ((ONE, fabs(A.rd(vn, st, o.base, k))),)), k))


def residual(s, x):
    return lambda i: s("rhs", i) - (lambda k: mksum(NN, s.m("M", i, k) * x(k), k))(s.k())


def refined(s, what):
    """x after at most three corrections, each made while the residual is not below 1e-8; what: the solution, or the k-th residual and its guard"""
    xs, go = [lambda i: s("U.x", i)], ONE
    val = None
    conds = []
    for k in range(3):
        r = residual(s, xs[-1])
        big = ONE - lt0(s.inf("rhs", r) - P(Fraction(1, 10 ** 8)), False)
        conds.append(big)
        xs.append((lambda x, k: lambda i: x(i) + s("U.corr%d" % k, i))(xs[-1], k))
    if what == "x":
        v = xs[3](ix(0))
        for k in (2, 1, 0):
            v = T.ite(conds[k], v, xs[k](ix(0)))
        return v
    g = ONE
    for c in conds[:what + 1]:
        g = g * c
    return residual(s, xs[what])(ix(0)), g


FAILED = lambda: lt0(INFO, True) + lt0(ZERO - INFO, True) * lt0(INFO - NN - 1, True)
OKX = lambda s: POS(s) * (ONE - FAILED())
ints = {"1": P(76), "2": NN, "3": ONE, "5": NN, "11": NN, "13": NN}
p02(LRK + "solveWithRefin", "M rhs", models={"infnorm": infnorm, "hiop::dposvx_": posvx, "hiop::dpotrf_": potr(False), "hiop::dpotrs_": potr(True)}, unroll=5, 
    domain={**{("U", "info"): [-1, 0, 0, 0, 1, 2, 3, 4], ("U", "info2"): [0], ("U", "equed"): [78, 89], ("a0", "M"): [0.0, 0.5, 1.0], ("a1", "data_"): [5e-9, 2e-8, 1e-7, 1e-5, 1.0], ("U", "x", "data_"): [0.0, 0.0, 0.0, 1.0]},
            **{("U", "corr%d" % k, "data_"): [0.0, 0.0, 1.0, 2e-8] for k in range(3)}},
    mdims={k: (lambda s: (NN, NN)) for k in ["M", "ARGA.posvx.A"] + ["ARGA.potrf%d.A" % k for k in range(3)]}, dims={"rhs": "n"}, dimval={"n": NN},
    cells=dict({"CALLS.posvx": POS}, **{"ARG.posvx." + i: (lambda s, v=v: v) for i, v in ints.items()}),
    mats={"ARGA.posvx.A": lambda s: s.m("M"), **{"ARGA.potrf%d.A" % k: (lambda s: s.m("M")) for k in range(3)}},
    arrs=dict({"ARGA.posvx.b.data_": lambda s: s("rhs")}, **{"ARGA.r%d.data_" % k: (lambda s, k=k: refined(s, k)[0]) for k in range(3)}),
    out={"rhs": lambda s: refined(s, "x")},
    guard=dict({"ARG.posvx." + i: POS for i in ints}, **{"ARGA.posvx.b.data_": lambda s: POS(s) * inrng(ix(0), ZERO, NN), "ARGA.posvx.A": POS, "rhs": OKX},
               **{"ARGA.potrf%d.A" % k: (lambda s, k=k: OKX(s) * refined(s, k)[1]) for k in range(3)},
               **{"ARGA.r%d.data_" % k: (lambda s, k=k: OKX(s) * refined(s, k)[1] * inrng(ix(0), ZERO, NN)) for k in range(3)}),
    retmap=eq0, ret=lambda s: T.ite(POS(s), ONE - FAILED(), ONE))

# ---------------------------------------------------------------- users of the factorization that only pass its verdict on
SYM = "hiop::hiopDualsLsqUpdateLinsysRedDenseSym::"
p02(SYM + "factorize_mat", models={"matrixChanged": lambda A, vn, e, st: (counted(st, vn, "fact"), T.inp(("U", "nneg"), "int"))[1]}, nonnull=["this.linsys_"],
    cells={"CALLS.fact": lambda s: ONE}, domain={("U", "nneg"): [-2, -1, 0, 1, 2]}, ret=lambda s: eq0(T.inp(("U", "nneg"), "int")))


def passon(A, vn, e, st):
    v = A.obj(vn, e["a"][0], st)
    if not isinstance(v, Ptr):
        return NotImplemented
    counted(st, vn, "solve")
    rec(st, vn, ("ARG", "solve"), v, "ptr")
    return T.inp(("U", "ok"), "bool")


p02(SYM + "solve_with_factors", "r", models={"solve": passon}, nonnull=["this.linsys_"], cells={"CALLS.solve": lambda s: ONE}, ptrs={"ARG.solve": "r"}, ret=lambda s: T.inp(("U", "ok"), "bool"))
