"""Reference semantics of the operations of the dense row-major matrix, written from the comments in hiopMatrix.hpp /
hiopMatrixDenseRowMajor.cpp.  View: A(b,i,j) entry of matrix b before the call, v(k,i) entry of vector (or array) argument k, s(k) scalar,
M/N number of (local) rows/columns."""
import term as T
from term import *
from vn import Ptr, eq0, lt0, inrng, allred
from vecspec import K, lt

I, J = ix(0), ix(1)


class KM(K):
    def __init__(self, kinds, conc):
        self.kinds, self.args, self.h = kinds, conc, 0
        self.dim = None

    def A(self, b, i, j):
        base = ("this",) if b == "this" else ("a%d" % b,)
        return T.el(base + ("M_",), T.rowcol(base + ("M_",), (i, j)), "real")

    def me(self, i=I, j=J):
        return self.A("this", i, j)

    def x(self, k, i=I, j=J):
        c = self.kinds[k]
        if c in "dD":
            return self.A(k, i, j)
        return self.v(k, i)

    def v(self, k, i=I):
        b = ("a%d" % k,)
        if self.kinds[k] in "pP":
            return T.el(b, (i,), "real")
        if self.kinds[k] == "q":
            return T.el(b, (i,), "int")
        return T.el(b + ("data_",), (i,), "real")

    def inside(self, i, m, j=None, n=None):
        g = inrng(i, ZERO, m)
        return g if j is None else g * inrng(j, ZERO, n)


OPS = {}


def op(name, sig, **kw):
    """sig: d matrix, D output matrix, v vector, V output vector, s scalar, p/P array, q index array.
    eq: facts 'a.m=b.n' between dimensions (m rows, n columns, l length of a vector); this: new content; dest; ret; pre: conditions"""
    OPS[(name, sig)] = kw


def rk0(k, beta, y):
    """beta*y is contributed by rank 0 only"""
    return ite(eq0(T.inp(("this", "myrank_"), "int")), beta * y, ZERO)


op("setToZero", "", this=lambda k: ZERO)
op("setToConstant", "s", this=lambda k: k.s(0))
op("copyFrom", "d", eq="0.m=m 0.n=n", this=lambda k: k.x(0))
op("copyFrom", "p", this=lambda k: k.v(0, I * k.N("this") + J))
op("copy_to", "P", dest={0: lambda k: k.me(ZERO, I)}, ext={0: lambda k: k.M("this") * k.N("this")})
op("timesVec", "sVsv", eq="1.l=m 3.l=n", dest={1: lambda k: k.global_("sum", rk0(k, k.s(0), k.v(1)) + k.s(2) * k.sum(lambda j: k.me(I, j) * k.v(3, j), k.N("this")))},
   alt=lambda k: k.N("this"))
op("timesVec", "sPsp", dest={1: lambda k: k.global_("sum", rk0(k, k.s(0), k.v(1)) + k.s(2) * k.sum(lambda j: k.me(I, j) * k.v(3, j), k.N("this")))}, ext={1: lambda k: k.M("this")})
op("transTimesVec", "sVsv", eq="1.l=n 3.l=m", dest={1: lambda k: k.s(0) * k.v(1) + k.s(2) * k.sum(lambda j: k.me(j, I) * k.v(3, j), k.M("this"))})
op("transTimesVec", "sPsp", dest={1: lambda k: k.s(0) * k.v(1) + k.s(2) * k.sum(lambda j: k.me(j, I) * k.v(3, j), k.M("this"))}, ext={1: lambda k: k.N("this")})
# beta*W is not formed by the quick return for an empty inner dimension
op("timesMat", "sDsd", local=True, eq="1.m=m 3.m=n 1.n=3.n", pre=lambda k: [ONE - eq0(k.N("this"))],
   dest={1: lambda k: k.s(0) * k.x(1) + k.s(2) * k.sum(lambda j: k.me(I, j) * k.x(3, j, J), k.N("this"))})
op("timesMat_local", "sDsd", local=True, eq="1.m=m 3.m=n 1.n=3.n",
   dest={1: lambda k: k.s(0) * k.x(1) + k.s(2) * k.sum(lambda j: k.me(I, j) * k.x(3, j, J), k.N("this"))})
op("transTimesMat", "sDsd", local=True, eq="1.m=n 3.m=m 1.n=3.n",
   dest={1: lambda k: k.s(0) * k.x(1) + k.s(2) * k.sum(lambda j: k.me(j, I) * k.x(3, j, J), k.M("this"))})
op("timesMatTrans", "sDsd", eq="1.m=m 3.n=n 1.n=3.m",
   dest={1: lambda k: k.global_("sum", rk0(k, k.s(0), k.x(1)) + k.s(2) * k.sum(lambda j: k.me(I, j) * k.x(3, J, j), k.N("this")))})
op("timesMatTrans_local", "sDsd", eq="1.m=m 3.n=n 1.n=3.m",
   dest={1: lambda k: k.s(0) * k.x(1) + k.s(2) * k.sum(lambda j: k.me(I, j) * k.x(3, J, j), k.N("this"))})
op("addDiagonal", "sv", square=True, eq="1.l=n", this=lambda k: k.me() + ite(eq0(I - J), k.s(0) * k.v(1), ZERO))
op("addDiagonal", "s", square=True, this=lambda k: k.me() + ite(eq0(I - J), k.s(0), ZERO))
op("addSubDiagonal", "ssv", square=True, pre=lambda k: [ONE - lt(k.s(1), ZERO, True), ONE - lt(k.N("this"), k.s(1) + k.L(2), True)],
   this=lambda k: k.me() + ite(eq0(I - J) * inrng(I, k.s(1), k.s(1) + k.L(2)), k.s(0) * k.v(2, I - k.s(1)), ZERO))


def nadd(k):
    n = ite(lt(k.s(4), ZERO, True), k.L(2) - k.s(3), k.s(4))
    return fmin(n, k.M("this") - k.s(0))


op("addSubDiagonal", "ssvss", square=True, pre=lambda k: [ONE - lt(k.s(0), ZERO, True), lt(k.s(0), k.M("this"), True)],
   this=lambda k: k.me() + ite(eq0(I - J) * inrng(I, k.s(0), k.s(0) + nadd(k)), k.s(1) * k.v(2, I - k.s(0) + k.s(3)), ZERO))
op("addSubDiagonal", "sss", square=True, pre=lambda k: [ONE - lt(k.s(0), ZERO, True), ONE - lt(k.M("this"), k.s(0) + k.s(1), True)],
   this=lambda k: k.me() + ite(eq0(I - J) * inrng(I, k.s(0), k.s(0) + k.s(1)), k.s(2), ZERO))
op("addMatrix", "sd", eq="1.m=m 1.n=n", this=lambda k: k.me() + k.s(0) * k.x(1))
op("transAddToSymDenseMatrixUpperTriangle", "sssD", local=True,
   dest={3: lambda k: k.x(3) + ite(k.inside(J - k.s(1), k.M("this"), I - k.s(0), k.N("this")), k.s(2) * k.me(J - k.s(1), I - k.s(0)), ZERO)},
   pre=lambda k: [ONE - lt(k.s(0), ZERO, True), ONE - lt(k.s(1), ZERO, True), ONE - lt(k.M(3), k.N("this") + k.s(0), True), ONE - lt(k.N(3), k.M("this") + k.s(1), True)])
op("addUpperTriangleToSymDenseMatrixUpperTriangle", "ssD", local=True, square=True,
   dest={2: lambda k: k.x(2) + ite(k.inside(I - k.s(0), k.M("this"), J - k.s(0), k.N("this")) * (ONE - lt(J, I, True)), k.s(1) * k.me(I - k.s(0), J - k.s(0)), ZERO)},
   pre=lambda k: [ONE - lt(k.s(0), ZERO, True), ONE - lt(k.M(2), k.N("this") + k.s(0), True), ONE - lt(k.N(2), k.M("this") + k.s(0), True)])
op("max_abs_value", "", ret=lambda k: k.global_("max", fmax(ZERO, k.red(lambda a: fabs(k.me(ZERO, a)), n=k.M("this") * k.N("this")))))
op("row_max_abs_value", "V", eq="0.l=m", dest={0: lambda k: k.global_("max", fmax(ZERO, k.red(lambda j: fabs(k.me(I, j)), n=k.N("this"))))})
op("scale_row", "Vs", eq="0.l=m", this=lambda k: k.me() * ite(k.s(1), ONE / k.v(0), k.v(0)))
op("isfinite", "", ret=lambda k: ONE - k.any(lambda a: eq0(T.fn("isfinite", k.me(ZERO, a))), k.M("this") * k.N("this")))
op("appendRow", "v", eq="0.l=n", grow=True, this=lambda k: ite(eq0(I - k.M("this")), k.v(0, J), k.me()), cells={("this", "m_local_"): lambda k: k.M("this") + ONE})
op("copyRowsFrom", "dss", eq="0.n=n", pre=lambda k: [ONE - lt(k.s(2), ZERO, True), ONE - lt(k.M("this"), k.s(1) + k.s(2), True), ONE - lt(k.M(0), k.s(1), True)],
   this=lambda k: ite(inrng(I, k.s(2), k.s(2) + k.s(1)), k.x(0, I - k.s(2), J), k.me()))
op("copyRowsFrom", "dqs", eq="0.n=n", pre=lambda k: [eq0(k.s(2) - k.M("this")), ONE - lt(k.M(0), k.s(2), True)],
   this=lambda k: k.x(0, k.v(1), J))
op("copyBlockFromMatrix", "ssd", local=True, pre=lambda k: [ONE - lt(k.s(0), ZERO, True), ONE - lt(k.s(1), ZERO, True), ONE - lt(k.M("this"), k.s(0) + k.M(2), True), ONE - lt(k.N("this"), k.s(1) + k.N(2), True)],
   this=lambda k: ite(k.inside(I - k.s(0), k.M(2), J - k.s(1), k.N(2)), k.x(2, I - k.s(0), J - k.s(1)), k.me()))
op("copyFromMatrixBlock", "dss", local=True, pre=lambda k: [ONE - lt(k.s(1), ZERO, True), ONE - lt(k.s(2), ZERO, True), ONE - lt(k.M(0), k.s(1) + k.M("this"), True), ONE - lt(k.N(0), k.s(2) + k.N("this"), True)],
   this=lambda k: k.x(0, I + k.s(1), J + k.s(2)))
op("shiftRows", "s", pre=lambda k: [lt(k.s(0), k.M("this"), True), lt(-k.s(0), k.M("this"), True)],
   this=lambda k: ite(inrng(I - k.s(0), ZERO, k.M("this")), k.me(I - k.s(0), J), k.me()))
op("replaceRow", "sv", pre=lambda k: [inrng(k.s(0), ZERO, k.M("this"))],
   this=lambda k: ite(eq0(I - k.s(0)) * lt(J, k.L(1), True), k.v(1, J), k.me()))
op("getRow", "sV", eq="1.l=n", dest={1: lambda k: k.me(k.s(0), I)})
op("set_Hess_FR", "dv", square=True, eq="0.m=m 0.n=n 1.l=n", this=lambda k: k.x(0) + ite(eq0(I - J), k.v(1), ZERO))


def jacfr(k):
    mc, md, n = k.M(0), k.M(1), k.N(0)
    last = eq0(k.res(("this", "myrank_")) - k.res(("this", "comm_size_")) + 1)
    top = lt(I, mc, True)
    base = lt(J, n, True) * (top * k.x(0) + (ONE - top) * k.x(1, I - mc, J))
    ident = (eq0(J - n - mc - I) - eq0(J - n - I)) * top + (eq0(J - n - mc * 2 - md - (I - mc)) - eq0(J - n - mc * 2 - (I - mc))) * (ONE - top)
    return base + ident * last


op("set_Jac_FR", "dd", eq="1.n=0.n", eqm=lambda k: {("this", "m_local_"): k.M(0) + k.M(1)}, cases=[
    ("last rank", {("this", "myrank_"): lambda k: T.inp(("this", "comm_size_"), "int") - 1, ("this", "n_local_"): lambda k: k.N(0) + k.M(0) * 2 + k.M(1) * 2}),
    ("other ranks", {("this", "comm_size_"): lambda k: T.inp(("this", "myrank_"), "int") + 2, ("this", "n_local_"): lambda k: k.N(0)})],
   pre=lambda k: [lt(k.res(("this", "myrank_")), k.res(("this", "comm_size_")), True)], this=jacfr)
op("overwriteUpperTriangleWithLower", "", local=True, square=True, this=lambda k: ite(lt(I, J, True), k.me(J, I), k.me()))
op("overwriteLowerTriangleWithUpper", "", local=True, square=True, this=lambda k: ite(lt(J, I, True), k.me(J, I), k.me()))
op("symmetrize", "", local=True, square=True, this=lambda k: ite(lt(J, I, True), k.me(J, I), k.me()), ret=lambda k: ONE)
op("m", "", ret=lambda k: k.M("this"))
op("n", "", ret=lambda k: T.inp(("this", "n_global_"), "int"))
op("get_local_size_m", "", ret=lambda k: k.M("this"))
op("get_local_size_n", "", ret=lambda k: k.N("this"))
