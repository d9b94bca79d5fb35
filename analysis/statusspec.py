"""Reference formulas of the termination test (P08)."""
from fractions import Fraction
import term as T
from term import *
from vn import eq0, lt0
from filterspec import le, NOT, OR

P08 = []
IPM = "hiop::hiopAlgFilterIPMBase::"


def met(s):
    v = le(s.s("this._err_nlp"), s.s("this.eps_tol"))
    for e, t in (("_err_nlp_optim", "dual_tol_"), ("_err_cons_violation", "cons_tol_"), ("_err_nlp_complem", "comp_tol_")):
        v = v * le(s.s("this." + e), s.s("this." + t))
    return v


def limit(s):
    return le(s.i("this.max_n_it"), s.i("this.iter_num_"))


def relative(s):
    r = s.s("this.eps_rtol")
    v = NOT(le(r, ZERO))
    for e in ("optim", "feas"):
        v = v * le(s.s("this._err_nlp_" + e), r * s.s("this._err_nlp_%s0" % e))
    return v * le(s.s("this._err_nlp_complem"), fmax(r, P(Fraction(1, 10**6))) * fmin(ONE, s.s("this._err_nlp_complem0")))


def count(s):
    return T.ite(le(s.s("this._err_nlp"), s.s("this.eps_tol_accep")), s.i("this.n_accep_iters_") + 1, ZERO)


def acceptable(s):
    return le(s.i("this.accep_n_it"), count(s))


def stop(s):
    return OR(met(s), limit(s), relative(s), acceptable(s))


def cell(*p):
    return lambda s: ("ref", ("cell", s.base(".".join(p[:-1])), p[-1]))


P08.append(dict(fn=IPM + "checkTermination", params="err iter status", frame=False, ret=stop,
    args={0: cell("this", "_err_nlp", "double"), 1: cell("this", "iter_num_", "int"), 2: cell("this", "solver_status_", "int")},
    cells={"this.solver_status_": lambda s: T.ite(met(s), ZERO, T.ite(limit(s), P(10), T.ite(relative(s), ONE, T.ite(acceptable(s), P(2), s.i("this.solver_status_"))))),
           "this.n_accep_iters_": lambda s: count(s)},
    guard={"this.n_accep_iters_": lambda s: NOT(OR(met(s), limit(s), relative(s)))}))
