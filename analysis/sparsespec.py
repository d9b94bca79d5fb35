"""Reference semantics of the sparse (triplet) matrices and of the mixed dense-sparse matrices, written from the comments in
hiopMatrix.hpp / hiopMatrixSparse.hpp / hiopMatrixMDS.hpp.  A triplet matrix is the sum over its nonzeros t of values[t] at (iRow[t], jCol[t])."""
import term as T
from term import *
from vn import Ptr, eq0, lt0, inrng
from vecspec import lt

I, J = ix(0), ix(1)
SP, SY, MDS, SMDS = "hiop::hiopMatrixSparseTriplet", "hiop::hiopMatrixSymSparseTriplet", "hiop::hiopMatrixMDS", "hiop::hiopMatrixSymBlockDiagMDS"
OPS = []


def op(cls, name, kinds, **kw):
    """kinds: s scalar, v/V vector, p/P array of numbers, q/Q array of integers, e/E sparse, d/D dense, x/X mixed"""
    OPS.append(dict(cls=cls, name=name, kinds=kinds, **kw))


class KS:
    def __init__(self, kinds, res):
        self.kinds, self.res, self.h = kinds, res, 0

    def fresh(self):
        self.h += 1
        return T.raw("k", ("ref", self.h))

    def b(self, o):
        return o if isinstance(o, tuple) else ("this",) if o == "this" else ("a%d" % o,)

    def s(self, i, t="real"):
        return T.inp(("a%d" % i,), t)

    def i(self, i):
        return self.res(("a%d" % i,))

    def v(self, i, e=I):
        b = self.b(i)
        return T.el(b if self.kinds[i] in "pP" else b + ("data_",), (e,), "real")

    def q(self, i, e=I):
        return T.el(self.b(i), (e,), "int")

    def len(self, i):
        return self.res(self.b(i) + ("n_local_",))

    def V(self, o, t):
        return T.el(self.b(o) + ("values_",), (t,), "real")

    def R(self, o, t):
        return T.el(self.b(o) + ("iRow_",), (t,), "int")

    def C(self, o, t):
        return T.el(self.b(o) + ("jCol_",), (t,), "int")

    def nnz(self, o="this"):
        return self.res(self.b(o) + ("nnz_",))

    def m(self, o="this"):
        return self.res(self.b(o) + ("nrows_",))

    def n(self, o="this"):
        return self.res(self.b(o) + ("ncols_",))

    def D(self, o, i=I, j=J):
        b = self.b(o) + ("M_",)
        return T.el(b, T.rowcol(b, (i, j)), "real")

    def dm(self, o):
        return self.res(self.b(o) + ("m_local_",))

    def dn(self, o):
        return self.res(self.b(o) + ("n_local_",))

    def rs(self, o, i):
        return T.el(self.b(o) + ("row_starts_", "idx_start_"), (i,), "int")

    def sumnz(self, o, f):
        """sum over the nonzeros of f(t)"""
        t = self.fresh()
        return mksum(self.nnz(o), f(t), t)

    def row(self, o, i, f):
        """sum over the nonzeros of row i"""
        t = self.fresh()
        s = self.rs(o, i)
        return mksum(self.rs(o, i + 1) - s, f(s + t), t)


def at(x, y):
    return eq0(x - y)


def mul(k, o, sym, tr, x, off=ZERO):
    """entry I of (this * x) for a triplet matrix"""
    a, b = (k.C, k.R) if tr else (k.R, k.C)
    r = k.sumnz(o, lambda t: at(a(o, t), I) * k.V(o, t) * x(b(o, t)))
    if sym:
        r = r + k.sumnz(o, lambda t: at(b(o, t), I) * (ONE - at(a(o, t), b(o, t))) * k.V(o, t) * x(a(o, t)))
    return r


for cls, sym in ((SP, False), (SY, True)):
    for nm, tr in (("timesVec", False), ("transTimesVec", True)):
        if sym and tr:
            continue
        for kd in ("sVsv", "sPsp"):
            op(cls, nm, kd, square=sym, dest={1: lambda k, sym=sym, tr=tr: k.s(0) * k.v(1) + k.s(2) * mul(k, "this", sym, tr, lambda c: k.v(3, c))},
               ext={1: lambda k, tr=tr: k.n() if tr else k.m()}, lens={1: "n" if tr else "m", 3: "m" if tr else "n"})
op(SP, "setToZero", "", arrs={"values_": lambda k: (ZERO, k.nnz())})
op(SP, "setToConstant", "s", arrs={"values_": lambda k: (k.s(0), k.nnz())})
op(SP, "copy_to", "QQP", dest={0: lambda k: k.R("this", I), 1: lambda k: k.C("this", I), 2: lambda k: k.V("this", I)}, ext={i: lambda k: k.nnz() for i in range(3)})
op(SP, "copy_to", "D", dest={0: lambda k: k.sumnz("this", lambda t: at(k.R("this", t), I) * at(k.C("this", t), J) * k.V("this", t))}, dims={0: ("m", "n")}, nz=True)
SUB = dict(iRow_=lambda k, p, a: a, jCol_=lambda k, p, a: a)


def block(k, first, num, val, old):
    """elements first..first+num-1 hold val(0), val(1), ..."""
    g = inrng(I, first, first + num)
    return g * val(I - first) + (ONE - g) * old


def triplets(start, num, row, col, val):
    return {"iRow_": lambda k: (block(k, start(k), num(k), lambda q: row(k, q), k.R("this", I)), None),
            "jCol_": lambda k: (block(k, start(k), num(k), lambda q: col(k, q), k.C("this", I)), None),
            "values_": lambda k: (block(k, start(k), num(k), lambda q: val(k, q), k.V("this", I)), None)}


op(SP, "copySubDiagonalFrom", "ssvss", arrs=triplets(lambda k: k.i(3), lambda k: k.i(1), lambda k, q: k.i(0) + q, lambda k, q: k.i(0) + q, lambda k, q: k.s(4) * k.v(2, q)))
op(SP, "setSubDiagonalTo", "ssss", arrs=triplets(lambda k: k.i(3), lambda k: k.i(1), lambda k, q: k.i(0) + q, lambda k, q: k.i(0) + q, lambda k, q: k.s(2)))
op(SP, "copyDiagMatrixToSubblock", "sssss", arrs=triplets(lambda k: k.i(3), lambda k: k.i(4), lambda k, q: k.i(1) + q, lambda k, q: k.i(2) + q, lambda k, q: k.s(0)))


def packed(k, start, n, keep, val, old):
    """the elements with keep(t), in order, from position start on"""
    t, u = k.fresh(), k.fresh()
    pos = start + mksum(t, keep(u), u)
    return T.binder("scat", ((I,), n, (pos,), keep(t), val(t, pos - start), old), t)


def packs(start, n, keep, row, col, val):
    return {"iRow_": lambda k: (packed(k, start(k), n(k), lambda t: keep(k, t), lambda t, q: row(k, t, q), k.R("this", I)), None),
            "jCol_": lambda k: (packed(k, start(k), n(k), lambda t: keep(k, t), lambda t, q: col(k, t, q), k.C("this", I)), None),
            "values_": lambda k: (packed(k, start(k), n(k), lambda t: keep(k, t), lambda t, q: val(k, t, q), k.V("this", I)), None)}


nz = lambda i: lambda k, t: ONE - eq0(k.v(i, t))
op(SP, "copyDiagMatrixToSubblock_w_pattern", "vssssv", lens={0: 5},
   arrs=packs(lambda k: k.i(3), lambda k: k.len(5), nz(5), lambda k, t, q: k.i(1) + q, lambda k, t, q: k.i(2) + q, lambda k, t, q: k.v(0, t)))
op(SP, "setSubmatrixToConstantDiag_w_colpattern", "sssssv",
   arrs=packs(lambda k: k.i(3), lambda k: k.len(5), nz(5), lambda k, t, q: k.i(1) + t, lambda k, t, q: k.i(2) + q, lambda k, t, q: k.s(0)))
op(SP, "setSubmatrixToConstantDiag_w_rowpattern", "sssssv",
   arrs=packs(lambda k: k.i(3), lambda k: k.len(5), nz(5), lambda k, t, q: k.i(1) + q, lambda k, t, q: k.i(2) + t, lambda k, t, q: k.s(0)))
sub = lambda k, t: ONE - T.inp(("a4",), "bool") * at(k.R(0, t), k.C(0, t))
op(SP, "copySubmatrixFrom", "essss", arrs=packs(lambda k: k.i(3), lambda k: k.nnz(0), sub, lambda k, t, q: k.i(1) + k.R(0, t), lambda k, t, q: k.i(2) + k.C(0, t), lambda k, t, q: k.V(0, t)))
op(SP, "copySubmatrixFromTrans", "essss", arrs=packs(lambda k: k.i(3), lambda k: k.nnz(0), sub, lambda k, t, q: k.i(1) + k.C(0, t), lambda k, t, q: k.i(2) + k.R(0, t), lambda k, t, q: k.V(0, t)))

op(SP, "max_abs_value", "", ret=lambda k: redmax(k, k.nnz(), lambda t: ONE, lambda t: T.fabs(k.V("this", t))))
op(SP, "row_max_abs_value", "V", lens={0: "m"}, dest={0: lambda k: T.fmax(ZERO, redmax(k, k.nnz(), lambda t: at(k.R("this", t), I), lambda t: T.fabs(k.V("this", t))))}, ext={0: lambda k: k.m()})
op(SP, "scale_row", "Vs", lens={0: "m"}, arrs={"values_": lambda k: (k.V("this", I) * T.ite(T.inp(("a1",), "bool"), T.inv(k.v(0, k.R("this", I))), k.v(0, k.R("this", I))), k.nnz())})
op(SP, "isfinite", "", ret=lambda k: allnz(k, lambda t: ONE - eq0(T.fn("isfinite", k.V("this", t)))))
op(SP, "is_diagonal", "", ret=lambda k: at(k.m(), k.n()) * allnz(k, lambda t: at(k.R("this", t), k.C("this", t))))
op(SY, "numberOfOffDiagNonzeros", "", eqm={("this", "nnz_offdiag_"): P(-1)}, ret=lambda k: k.sumnz("this", lambda t: ONE - at(k.R("this", t), k.C("this", t))), cells={("this", "nnz_offdiag_"): None})


def redmax(k, n, g, e):
    t = k.fresh()
    return T.binder("redmax", (n, ((g(t), e(t)),)), t)


def allnz(k, f):
    t = k.fresh()
    return ONE - T.binder("any", (k.nnz(), ONE - f(t)), t)


def dense(k, o, base, i, j, f=None):
    """contribution of the triplets of o placed at (i(t), j(t)) to entry (I,J)"""
    return k.sumnz(base, lambda t: at(i(t), I) * at(j(t), J) * k.V(base, t))


op(SP, "transAddToSymDenseMatrixUpperTriangle", "sssD", sqD=3, dest={3: lambda k: k.D(3) + k.s(2) * dense(k, 3, "this", lambda t: k.C("this", t) + k.i(0), lambda t: k.R("this", t) + k.i(1))})
op(SY, "addUpperTriangleToSymDenseMatrixUpperTriangle", "ssD", sqD=2, dest={2: lambda k: k.D(2) + k.s(1) * dense(k, 2, "this", lambda t: k.R("this", t) + k.i(0), lambda t: k.C("this", t) + k.i(0))})
op(SY, "startingAtAddSubDiagonalToStartingAt", "ssVss", ext={2: lambda k: k.len(2)}, dest={2: lambda k: k.v(2) + k.s(1) * k.sumnz("this", lambda t: (lambda num:
   at(k.R("this", t), k.C("this", t)) * inrng(k.R("this", t), k.i(0), k.i(0) + num) * at(k.i(3) + k.R("this", t) - k.i(0), I) * k.V("this", t))(T.ite(lt0(k.i(4), True), k.len(2), k.i(4))))})
op(SP, "extract_diagonal", "V", lens={0: "m"}, square=True, ext={0: lambda k: k.m()},
   dest={0: lambda k: (lambda t: T.binder("scat", ((I,), k.nnz(), (k.R("this", t),), at(k.R("this", t), k.C("this", t)), k.V("this", t), ZERO), t))(k.fresh())})


def mmt(k, o1, o2, i, j, d):
    """(M1 diag(1/d) M2')[i,j] from the nonzeros of row i of M1 and row j of M2"""
    return k.row(o1, i, lambda p: k.row(o2, j, lambda q: at(k.C(o1, p), k.C(o2, q)) * k.V(o1, p) * k.V(o2, q) * d(k.C(o1, p))))


blk = lambda r0, c0, m, n: inrng(I, r0, r0 + m) * inrng(J, c0, c0 + n)
op(SP, "timesMatTrans", "sDse", dimsD={1: (("this", "nrows_"), ("a3", "nrows_"))}, dest={1: lambda k: k.s(0) * k.D(1) + k.s(2) * mmt(k, "this", 3, I, J, lambda c: ONE)})
op(SP, "addMDinvMtransToDiagBlockOfSymDeMatUTri", "ssvD", sqD=3, lens={2: "n"},
   dest={3: lambda k: k.D(3) + ite(blk(k.i(0), k.i(0), k.m(), k.m()) * lt0(I - J - 1, True), k.s(1) * ite(at(I, J), k.row("this", I - k.i(0), lambda p: k.V("this", p) * k.V("this", p) * T.inv(k.v(2, k.C("this", p)))),
                                     mmt(k, "this", "this", I - k.i(0), J - k.i(0), lambda c: T.inv(k.v(2, c)))), ZERO)})
op(SP, "addMDinvNtransToSymDeMatUTri", "sssveD", sqD=5, lens={3: "n"},
   dest={5: lambda k: k.D(5) + ite(blk(k.i(0), k.i(1), k.m(), k.m(4)), k.s(2) * mmt(k, "this", 4, I - k.i(0), J - k.i(1), lambda c: T.inv(k.v(3, c))), ZERO)})

# ---------------------------------------------------------------- mixed dense-sparse: [sparse | dense] and diag(sparse, dense)
SPp, DEp = ("this", "mSp"), ("this", "mDe")
NS = lambda k, b=SPp: k.n(b)
ND = lambda k, b=DEp: k.dn(b)


def dsum(k, n, f):
    t = k.fresh()
    return mksum(n, f(t), t)


MX = dict(mixed=True)
op(MDS, "setToZero", "", arrs={("mSp", "values_"): lambda k: (ZERO, k.nnz(SPp)), ("mDe", "M_"): lambda k: (ZERO, (k.dm(DEp), k.dn(DEp)))})
op(SMDS, "setToZero", "", arrs={("mSp", "values_"): lambda k: (ZERO, k.nnz(SPp)), ("mDe", "M_"): lambda k: (ZERO, (k.dm(DEp), k.dn(DEp)))})
op(MDS, "setToConstant", "s", arrs={("mSp", "values_"): lambda k: (k.s(0), k.nnz(SPp)), ("mDe", "M_"): lambda k: (k.s(0), (k.dm(DEp), k.dn(DEp)))})
op(SMDS, "setToConstant", "s", arrs={("mSp", "values_"): lambda k: (k.s(0), k.nnz(SPp)), ("mDe", "M_"): lambda k: (k.s(0), (k.dm(DEp), k.dn(DEp)))})
op(MDS, "timesVec", "sVsv", lens={1: lambda k: k.m(SPp), 3: lambda k: NS(k) + ND(k)}, ext={1: lambda k: k.m(SPp)},
   dest={1: lambda k: k.s(0) * k.v(1) + k.s(2) * (mul(k, SPp, False, False, lambda c: k.v(3, c)) + dsum(k, ND(k), lambda j: k.D(DEp, I, j) * k.v(3, NS(k) + j)))})
op(MDS, "transTimesVec", "sVsv", lens={3: lambda k: k.m(SPp), 1: lambda k: NS(k) + ND(k)}, ext={1: lambda k: NS(k) + ND(k)},
   dest={1: lambda k: k.s(0) * k.v(1) + k.s(2) * ite(lt0(I - NS(k), True), mul(k, SPp, False, True, lambda c: k.v(3, c)), dsum(k, k.m(SPp), lambda i: k.D(DEp, i, I - NS(k)) * k.v(3, i)))})
for nm in ("timesVec", "transTimesVec"):
    op(SMDS, nm, "sVsv", lens={i: lambda k: NS(k) + ND(k) for i in (1, 3)}, ext={1: lambda k: NS(k) + ND(k)},
       dest={1: lambda k: k.s(0) * k.v(1) + k.s(2) * ite(lt0(I - NS(k), True), mul(k, SPp, True, False, lambda c: k.v(3, c)), dsum(k, ND(k), lambda j: k.D(DEp, I - NS(k), j) * k.v(3, NS(k) + j)))})
op(MDS, "timesMatTrans", "sDsx", dimsD={1: (("this", "mSp", "nrows_"), ("a3", "mSp", "nrows_"))}, eqx=True,
   dest={1: lambda k: k.s(0) * k.D(1) + k.s(2) * (mmt(k, SPp, ("a3", "mSp"), I, J, lambda c: ONE) + dsum(k, ND(k), lambda j: k.D(DEp, I, j) * k.D(("a3", "mDe"), J, j)))})
op(MDS, "transAddToSymDenseMatrixUpperTriangle", "sssD", sqD=3,
   dest={3: lambda k: k.D(3) + k.s(2) * dense(k, 3, SPp, lambda t: k.C(SPp, t) + k.i(0), lambda t: k.R(SPp, t) + k.i(1))
         + ite(inrng(J - k.i(1), ZERO, k.m(SPp)) * inrng(I - k.i(0) - NS(k), ZERO, ND(k)), k.s(2) * k.D(DEp, J - k.i(1), I - k.i(0) - NS(k)), ZERO)})
op(SMDS, "addUpperTriangleToSymDenseMatrixUpperTriangle", "ssD", sqD=2,
   dest={2: lambda k: k.D(2) + k.s(1) * dense(k, 2, SPp, lambda t: k.R(SPp, t) + k.i(0), lambda t: k.C(SPp, t) + k.i(0))
         + ite(blk(k.i(0) + NS(k), k.i(0) + NS(k), ND(k), ND(k)) * lt0(I - J - 1, True), k.s(1) * k.D(DEp, I - k.i(0) - NS(k), J - k.i(0) - NS(k)), ZERO)})
for c_ in (MDS, SMDS):
    c_ == MDS and op(c_, "scale_row", "Vs", lens={0: lambda k: k.m(SPp)}, arrs={
       ("mSp", "values_"): lambda k: (k.V(SPp, I) * T.ite(T.inp(("a1",), "bool"), T.inv(k.v(0, k.R(SPp, I))), k.v(0, k.R(SPp, I))), k.nnz(SPp)),
       ("mDe", "M_"): lambda k: (k.D(DEp) * T.ite(T.inp(("a1",), "bool"), T.inv(k.v(0, I)), k.v(0, I)), (k.dm(DEp), k.dn(DEp)))})
    op(c_, "isfinite", "", ret=lambda k: (lambda t, u: (ONE - T.binder("any", (k.nnz(SPp), eq0(T.fn("isfinite", k.V(SPp, t)))), t)) *
       (ONE - T.binder("any", (k.dm(DEp) * k.dn(DEp), eq0(T.fn("isfinite", k.D(DEp, ZERO, u)))), u)))(k.fresh(), k.fresh()))
    op(c_, "max_abs_value", "", ret=lambda k: T.fmax(redmax(k, k.nnz(SPp), lambda t: ONE, lambda t: T.fabs(k.V(SPp, t))),
       ZERO, redmax(k, k.dm(DEp) * k.dn(DEp), lambda t: ONE, lambda t: T.fabs(k.D(DEp, ZERO, t)))))
op(MDS, "row_max_abs_value", "V", lens={0: lambda k: k.m(SPp)}, ext={0: lambda k: k.m(SPp)},
   dest={0: lambda k: T.fmax(ZERO, redmax(k, k.nnz(SPp), lambda t: at(k.R(SPp, t), I), lambda t: T.fabs(k.V(SPp, t))), redmax(k, ND(k), lambda t: ONE, lambda t: T.fabs(k.D(DEp, I, t))))})
for c_ in (MDS, SMDS):
    op(c_, "m", "", ret=(lambda k: k.m(SPp)) if c_ == MDS else (lambda k: NS(k) + ND(k)))
    op(c_, "n", "", ret=lambda k: NS(k) + ND(k))
