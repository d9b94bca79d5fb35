"""Reference semantics of the hiopVector operations.

One entry per operation of the abstract interface, written from its documentation in hiopVector.hpp.  The table is used
twice: as the obligation of the host implementation (property P12) and as the meaning of a call on an abstract vector when
algorithmic code is analysed.
"""
from term import *
import term as T
from vn import Ptr, eq0, lt0, inrng, allred


class K:
    """view of one call: receiver, arguments and the contents before the call"""

    def __init__(self, this, args, rd, length, isvec):
        self.this, self.args, self.rd, self.length, self.isvec = this, args, rd, length, isvec
        self.h = 0

    # content of the receiver / of vector argument k at index e
    def me(self, e=None):
        return self.rd(self.this, e if e is not None else ix(0))

    def x(self, k, e=None):
        return self.rd(self.args[k], e if e is not None else ix(0))

    def s(self, k):
        return self.args[k]

    def n(self, k=None):
        return self.length(self.this if k is None else self.args[k])

    # reductions over the receiver: f(index) -> term
    def fresh(self):
        self.h += 1
        return T.raw("k", ("spec", self.h))

    def sum(self, f, n=None):
        k = self.fresh()
        return mksum(self.n() if n is None else n, f(k), k)

    def red(self, f, guard=None, n=None):
        """max over the elements of f"""
        k = self.fresh()
        return T.binder("redmax", (self.n() if n is None else n, ((guard(k) if guard else ONE, f(k)),)), k)

    def any(self, f, n=None):
        k = self.fresh()
        return T.binder("any", (self.n() if n is None else n, f(k)), k)

    def global_(self, op, v):
        return allred(op, v)

    def nz(self, p):
        return ONE - eq0(p)

    def null(self, k):
        return T.raw("isnull", self.args[k].base, mask=True)


MAXD = T.inp(("std::numeric_limits<double>::max",), "pos")
TINY = T.inp(("std::numeric_limits<double>::min",), "pos")


def lt(a, b, isint=False):
    return lt0(a - b, isint)


def sel(c, a, b):
    return ite(c, a, b)


def proj(k):
    # hiopVector::projectIntoBounds_local(xl, ixl, xu, ixu, kappa1, kappa2)
    x, xl, il, xu, iu = k.me(), k.x(0), k.x(1), k.x(2), k.x(3)
    k1, k2 = k.s(4), k.s(5)
    tiny = TINY * 100
    aux = k2 * (xu - xl) - tiny
    lo = xl + fmin(k1 * fmax(ONE, fabs(xl)), aux)
    up = xu - fmin(k1 * fmax(ONE, fabs(xu)), aux)
    both = ite(lt(x, lo), lo, ite(lt(up, x), up, x))
    one_l = fmax(x, xl + k1 * fmax(ONE, fabs(xl)) - tiny)
    one_u = fmin(x, xu - k1 * fmax(ONE, fabs(xu)) - tiny)
    bl, bu = k.nz(il), k.nz(iu)
    new = bl * bu * both + bl * (ONE - bu) * one_l + (ONE - bl) * bu * one_u + (ONE - bl) * (ONE - bu) * x
    bad = k.any(lambda j: k.nz(k.x(1, j)) * k.nz(k.x(3, j)) * lt(k.x(2, j), k.x(0, j)))
    return {"new": new, "ret": ONE - bad, "when": ONE - bad}


def ftb(k, pat):
    g = (lambda j: lt0(k.x(0, j), False) * (k.nz(k.x(2, j)) if pat else ONE))
    # 1 or the smallest -tau*x/d over d<0
    return fmin(ONE, -k.red(lambda j: k.s(1) * k.me(j) / k.x(0, j), g))


def count(k):
    """elements of pattern x(1) selected before index i"""
    pass


# name, parameter kinds -> dict(this=new content of the receiver, dest={arg: content}, ret=..., masks=(args that are 0/1 patterns), pre=...)
# parameter kinds: v vector, V output vector, s scalar, p pointer to data, P output pointer, m pattern vector (0/1), I index vector
OPS = {}


def op(name, sig, masks_me=False, **kw):
    OPS[(name, sig)] = kw


op("setToZero", "", this=lambda k: ZERO)
op("setToConstant", "s", this=lambda k: k.s(0))
op("setToConstant_w_patternSelect", "sm", this=lambda k: k.s(0) * k.x(1))
op("copyFrom", "v", this=lambda k: k.x(0))
op("copyFrom", "p", this=lambda k: ite(k.null(0), k.me(), k.x(0)))
op("copy_from_vectorpar", "v", this=lambda k: k.x(0))
op("copy_to_vectorpar", "V", dest={0: lambda k: k.me()})
op("copyTo", "P", dest={0: lambda k: ite(inrng(ix(0), ZERO, k.n()), k.me(), k.x(0))})
op("copy_from_w_pattern", "vm", this=lambda k: ite(k.x(1), k.x(0), k.me()))
op("copy_from_indexes", "vI", this=lambda k: k.x(0, k.x(1)))
op("copy_from_indexes", "pI", this=lambda k: ite(k.null(0), k.me(), k.x(0, k.x(1))))
op("copyFromStarting", "sps", this=lambda k: ite(inrng(ix(0), k.s(0), k.s(0) + k.s(2)), k.x(1, ix(0) - k.s(0)), k.me()))
op("copyFromStarting", "sv", this=lambda k: ite(inrng(ix(0), k.s(0), k.s(0) + k.n(1)), k.x(1, ix(0) - k.s(0)), k.me()))
# used with undistributed vectors: the whole local vector is read from v + start
op("copy_from_starting_at", "pss", this=lambda k: k.x(0, ix(0) + k.s(1)), whole=True)
op("startingAtCopyFromStartingAt", "svs", this=lambda k: ite(inrng(ix(0), k.s(0), k.n()), k.x(1, ix(0) - k.s(0) + k.s(2)), k.me()),
   pre=lambda k: ONE - lt(k.n(1) - k.s(2), k.n() - k.s(0), True))
op("copyToStarting", "sV", dest={1: lambda k: k.me(ix(0) + k.s(0))})
op("copyToStarting", "Vs", dest={0: lambda k: ite(inrng(ix(0), k.s(1), k.s(1) + k.n()), k.me(ix(0) - k.s(1)), k.x(0))}, whole=True)
op("copyToStartingAt_w_pattern", "Vsm", dest={0: lambda k: pack(k)})
op("copy_from_two_vec_w_pattern", "vIvI", this=lambda k: two_to_one(k))
op("copy_to_two_vec_w_pattern", "VIVI", dest={0: lambda k: k.me(k.x(1)), 2: lambda k: k.me(k.x(3))})
op("startingAtCopyToStartingAt", "sVss", dest={1: lambda k: ite(inrng(ix(0), k.s(2), k.s(2) + cnt4(k, k.n(1))), k.me(ix(0) - k.s(2) + k.s(0)), k.x(1))})
op("twonorm", "", ret=lambda k: T.fn("sqrt", k.global_("sum", k.sum(lambda j: k.me(j) * k.me(j)))))
op("infnorm_local", "", ret=lambda k: fmax(ZERO, k.red(lambda j: fabs(k.me(j)))))
op("infnorm", "", ret=lambda k: k.global_("max", fmax(ZERO, k.red(lambda j: fabs(k.me(j))))))
op("onenorm_local", "", ret=lambda k: k.sum(lambda j: fabs(k.me(j))))
op("onenorm", "", ret=lambda k: k.global_("sum", k.sum(lambda j: fabs(k.me(j)))))
op("componentMult", "v", this=lambda k: k.me() * k.x(0))
op("componentDiv", "v", this=lambda k: k.me() / k.x(0))
op("componentDiv_w_selectPattern", "vm", this=lambda k: ite(k.x(1), k.me() / k.x(0), ZERO))
op("component_min", "s", this=lambda k: fmin(k.me(), k.s(0)))
op("component_min", "v", this=lambda k: fmin(k.me(), k.x(0)))
op("component_max", "s", this=lambda k: fmax(k.me(), k.s(0)))
op("component_max", "v", this=lambda k: fmax(k.me(), k.x(0)))
op("component_abs", "", this=lambda k: fabs(k.me()))
op("component_sgn", "", this=lambda k: lt0(-k.me(), False) - lt0(k.me(), False))
op("component_sqrt", "", this=lambda k: T.fn("sqrt", k.me()))
op("scale", "s", this=lambda k: k.s(0) * k.me())
op("axpy", "sv", this=lambda k: k.me() + k.s(0) * k.x(1))
op("axpy_w_pattern", "svm", this=lambda k: k.me() + k.s(0) * k.x(1) * k.x(2))
op("axpy", "svI", this=lambda k: k.me() + k.s(0) * scatadd(k))
op("axzpy", "svv", this=lambda k: k.me() + k.s(0) * k.x(1) * k.x(2))
op("axdzpy", "svv", this=lambda k: k.me() + k.s(0) * k.x(1) / k.x(2))
op("axdzpy_w_pattern", "svvm", this=lambda k: k.me() + k.x(3) * k.s(0) * k.x(1) / k.x(2))
op("addConstant", "s", this=lambda k: k.me() + k.s(0))
op("addConstant_w_patternSelect", "sm", this=lambda k: k.me() + k.s(0) * k.x(1))
op("dotProductWith", "v", ret=lambda k: k.global_("sum", k.sum(lambda j: k.me(j) * k.x(0, j))))
op("negate", "", this=lambda k: -k.me())
op("invert", "", this=lambda k: ONE / k.me())
op("logBarrier_local", "m", ret=lambda k: k.sum(lambda j: k.x(0, j) * T.fn("log", k.me(j))))
op("addLogBarrierGrad", "svm", this=lambda k: k.me() + k.s(0) * k.x(2) / k.x(1))
op("sum_local", "", ret=lambda k: k.sum(lambda j: k.me(j)))
op("linearDampingTerm_local", "mmss", ret=lambda k: k.s(2) * k.s(3) * k.sum(lambda j: k.me(j) * k.x(0, j) * (ONE - k.x(1, j))))
op("addLinearDampingTerm", "mmss", this=lambda k: k.s(2) * k.me() + k.s(3) * (k.x(0) - k.x(1)))
op("allPositive", "", ret=lambda k: k.global_("land", ONE - k.any(lambda j: ONE - lt0(-k.me(j), False))))
op("allPositive_w_patternSelect", "m", ret=lambda k: k.global_("land", ONE - k.any(lambda j: k.x(0, j) * (ONE - lt0(-k.me(j), False)))))
op("min", "", ret=lambda k: k.global_("min", fmin(MAXD, -k.red(lambda j: -k.me(j)))))
op("min_w_pattern", "m", ret=lambda k: k.global_("min", fmin(MAXD, -k.red(lambda j: -k.me(j), lambda j: k.x(0, j)))))
op("projectIntoBounds_local", "vmvmss", full=proj)
op("fractionToTheBdry_local", "vs", ret=lambda k: ftb(k, False))
op("fractionToTheBdry_w_pattern_local", "vsm", ret=lambda k: ftb(k, True))
op("selectPattern", "m", this=lambda k: k.me() * k.x(0))
op("matchesPattern", "m", ret=lambda k: k.global_("land", ONE - k.any(lambda j: (ONE - k.x(0, j)) * k.nz(k.me(j)))))
op("adjustDuals_plh", "vmss", this=lambda k: ite(k.x(1), fmax(k.s(2) / k.x(0) / k.s(3), fmin(k.me(), k.s(2) / k.x(0) * k.s(3))), k.me()))
op("is_zero", "", ret=lambda k: k.global_("land", ONE - k.any(lambda j: k.nz(k.me(j)))))
op("isnan_local", "", ret=lambda k: k.any(lambda j: k.nz(T.fn("isnan", k.me(j)))))
op("isinf_local", "", ret=lambda k: k.any(lambda j: k.nz(T.fn("isinf", k.me(j)))))
op("isfinite_local", "", ret=lambda k: ONE - k.any(lambda j: eq0(T.fn("isfinite", k.me(j)))))
op("numOfElemsLessThan", "s", ret=lambda k: k.global_("sum", k.sum(lambda j: lt(k.me(j), k.s(0)))))
op("numOfElemsAbsLessThan", "s", ret=lambda k: k.global_("sum", k.sum(lambda j: lt(fabs(k.me(j)), k.s(0)))))
op("set_array_from_to", "Pssps", dest={0: lambda k: ite(inrng(ix(0), k.s(1), k.s(2)), k.x(3, ix(0) - k.s(1) + k.s(4)), k.x(0))})
op("set_array_from_to", "Psss", dest={0: lambda k: ite(inrng(ix(0), k.s(1), k.s(2)), k.s(3), k.x(0))})
op("is_equal", "v", ret=lambda k: k.global_("land", ONE - k.any(lambda j: k.nz(k.me(j) - k.x(0, j)))))
op("get_local_size", "", ret=lambda k: k.n())


def scatadd(k):
    j = k.fresh()
    return T.binder("scatadd", ((ix(0),), k.n(2), (k.x(2, j),), k.x(1, j)), j)


def scat(k, n, idx, g, val, old):
    j = k.fresh()
    return T.binder("scat", ((ix(0),), n, (idx(j),), g(j), val(j), old), j)


def pack(k):
    """element of dest: the selected elements of the receiver, in order, from position s(1) on"""
    def pos(j):
        q = k.fresh()
        return k.s(1) + mksum(j, k.x(2, q), q)
    return scat(k, k.n(), pos, lambda j: k.x(2, j), lambda j: k.me(j), k.x(0))


def two_to_one(k):
    a = scat(k, k.n(0), lambda j: k.x(1, j), lambda j: ONE, lambda j: k.x(0, j), k.me())
    return scat(k, k.n(2), lambda j: k.x(3, j), lambda j: ONE, lambda j: k.x(2, j), a)


def cnt4(k, nd):
    m = fmin(k.n() - k.s(0), nd - k.s(2))
    return ite(lt0(k.s(3), True), m, fmin(k.s(3), m))
