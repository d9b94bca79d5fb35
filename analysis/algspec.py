"""Reference formulas of the iterate, the residual and the barrier problem (property P10), written from the documentation of the classes and the
definition of the barrier problem:
    min f(x) - mu [sum log(x-xl) + ...] + damping   s.t. c(x)=c_rhs, d(x)=d,  slacks sxl=x-xl, sxu=xu-x, sdl=d-dl, sdu=du-d
duals zl,zu (x bounds), vl,vu (d bounds), yc,yd."""
from fractions import Fraction
from term import *
import term as T
from vn import eq0, lt0
from vecspec import MAXD, lt

IT = "hiop::hiopIterate::"
RS = "hiop::hiopResidual::"
LB = "hiop::hiopLogBarProblem::"
P10 = []


def p10(fn, params="", **kw):
    kw.update(fn=fn, params=params)
    P10.append(kw)


B = {"sxl": ("x", "zl", "xl_", "ixl_", 1), "sxu": ("x", "zu", "xu_", "ixu_", -1), "sdl": ("d", "vl", "dl_", "idl_", 1), "sdu": ("d", "vu", "du_", "idu_", -1)}
SPACE = {"sxl": "x", "sxu": "x", "sdl": "d", "sdu": "d"}
DUAL = {k: v[1] for k, v in B.items()}
MASK = {k: v[3] for k, v in B.items()}
ALLV = "x d yc yd sxl sxu sdl sdu zl zu vl vu".split()

# ---------------------------------------------------------------- iterate
p10(IT + "takeStep_primals", "iter dir ap ad", out={"this." + v: (lambda s, v=v: s("iter." + v) + s.s("ap") * s("dir." + v)) for v in ("x", "d")})
# equality multipliers move with the primal step, bound multipliers with the dual step
p10(IT + "takeStep_duals", "iter dir ap ad",
    out=dict({"this." + v: (lambda s, v=v: s("iter." + v) + s.s("ap") * s("dir." + v)) for v in ("yc", "yd")},
             **{"this." + v: (lambda s, v=v: s("iter." + v) + s.s("ad") * s("dir." + v)) for v in ("zl", "zu", "vl", "vu")}))
p10(IT + "copyFrom", "src", out={"this." + v: (lambda s, v=v: s("src." + v)) for v in ALLV})


def slack(s, w, e=None, it="this"):
    v, _, bd, msk, sg = B[w]
    return s("NLP." + msk, e) * sg * (s(it + "." + v, e) - s("NLP." + bd, e))


p10(IT + "determineSlacks", "", out={"this." + w: (lambda s, w=w: slack(s, w)) for w in B})
p10(IT + "determineDualsBounds_d", "mu", out={"this." + DUAL[w]: (lambda s, w=w: s("NLP." + MASK[w]) * s.s("mu") / s("this." + w)) for w in ("sdl", "sdu")})
p10(IT + "selectPattern", "", out=dict({"this." + w: (lambda s, w=w: s("NLP." + MASK[w]) * s("this." + w)) for w in B},
                                       **{"this." + DUAL[w]: (lambda s, w=w: s("NLP." + MASK[w]) * s("this." + DUAL[w])) for w in B}))
p10(IT + "setBoundsDualsToConstant", "v", out={"this." + DUAL[w]: (lambda s, w=w: s("NLP." + MASK[w]) * s.s("v")) for w in B})
p10(IT + "setEqualityDualsToConstant", "v", out={"this." + w: (lambda s: s.s("v")) for w in ("yc", "yd")})


def nrm_bnd(s):
    return s.gsum(s.one("x", lambda k: s("this.zl", k)) + s.one("x", lambda k: s("this.zu", k))) + s.one("d", lambda k: s("this.vl", k)) + s.one("d", lambda k: s("this.vu", k))


def nrm_eq(s):
    return s.one("c", lambda k: s("this.yc", k)) + s.one("d", lambda k: s("this.yd", k))


p10(IT + "normOneOfBoundDuals", "", ret=nrm_bnd)
p10(IT + "normOneOfEqualityDuals", "", ret=nrm_eq)
p10(IT + "normOneOfDuals", "a b", cells={"a": nrm_eq, "b": nrm_bnd})


def ftb(s, vs):
    """min(1, min over the selected elements with a negative direction of -tau v/dv)"""
    return s.gmin(fmin(ONE, *[-s.red(SPACE[w], lambda k, v=v: s.s("tau") * s("this." + v, k) / s("dir." + v, k),
                                     lambda k, v=v, w=w: s("NLP." + MASK[w], k) * lt0(s("dir." + v, k), False)) for v, w in vs]))


p10(IT + "fractionToTheBdry", "dir tau ap ad", cells={"ap": lambda s: ftb(s, [(w, w) for w in B]), "ad": lambda s: ftb(s, [(DUAL[w], w) for w in B])})
p10(IT + "adjustDuals_primalLogHessian", "mu kappa",
    out={"this." + DUAL[w]: (lambda s, w=w: T.ite(s("NLP." + MASK[w]), fmax(s.s("mu") / s("this." + w) / s.s("kappa"), fmin(s("this." + DUAL[w]), s.s("mu") / s("this." + w) * s.s("kappa"))), s("this." + DUAL[w]))) for w in B})
EPS = T.inp(("std::numeric_limits<double>::epsilon",), "pos")


def logbar(s, it):
    def t(w):
        return s.sum(SPACE[w], lambda k: s("NLP." + MASK[w], k) * T.fn("log", s(it + "." + w, k)))
    return s.gsum(t("sxl") + t("sxu")) + t("sdl") + t("sdu")


def damp(s, it, mu, kd):
    def t(w, o):
        return s.sum(SPACE[w], lambda k: mu * kd * s(it + "." + w, k) * s("NLP." + MASK[w], k) * (ONE - s("NLP." + MASK[o], k)))
    return s.gsum(t("sxl", "sxu") + t("sxu", "sxl")) + t("sdl", "sdu") + t("sdu", "sdl")


def dlog(s, it, lo, up, mu):
    """derivative of -mu * log barrier"""
    return mu * (s("NLP." + MASK[up]) / s(it + "." + up) - s("NLP." + MASK[lo]) / s(it + "." + lo))


def ddamp(s, lo, up, mu, kd, e=None):
    """derivative of the damping term: variables bounded on one side only"""
    a, b = s("NLP." + MASK[lo], e), s("NLP." + MASK[up], e)
    return mu * kd * (a * (ONE - b) - b * (ONE - a))


p10(IT + "evalLogBarrier", "", ret=lambda s: logbar(s, "this"))
p10(IT + "linearDampingTerm", "mu kd", ret=lambda s: damp(s, "this", s.s("mu"), s.s("kd")))
p10(IT + "addLogBarGrad_x", "mu g", out={"g": lambda s: s("g") + dlog(s, "this", "sxl", "sxu", s.s("mu"))}, dims={"a1": "x"})
p10(IT + "addLogBarGrad_d", "mu g", out={"g": lambda s: s("g") + dlog(s, "this", "sdl", "sdu", s.s("mu"))}, dims={"a1": "d"})
p10(IT + "addLinearDampingTermToGrad_x", "mu kd beta g", out={"g": lambda s: s("g") + s.s("beta") * ddamp(s, "sxl", "sxu", s.s("mu"), s.s("kd"))})
p10(IT + "addLinearDampingTermToGrad_d", "mu kd beta g", out={"g": lambda s: s("g") + s.s("beta") * ddamp(s, "sdl", "sdu", s.s("mu"), s.s("kd"))})


def small(mu):
    return EPS * fmin(ONE, mu)


def adjusted(s, sl, bound, dual, msk, mu):
    sv, b, z, i = s(sl), s(bound), s(dual), s(msk)
    sm = small(mu)
    pos = fmax(sv, ZERO)
    new = fmin(fmax(mu / z, sm), T.fn("pow", EPS, P(Fraction(3, 4))) * fmax(ONE, fabs(b)) + pos)
    return T.ite(i * lt(sv, sm), new, sv)


def nadj(s, sl, msk, mu, sp):
    mn = s.gmin(fmin(MAXD, -s.red(sp, lambda k: -sl(k), lambda k: s(msk, k))))
    return lt(mn, small(mu)) * s.gsum(s.sum(sp, lambda k: s(msk, k) * lt(sl(k), small(mu))))


p10(IT + "adjust_small_slacks", "slack bound dual select mu t1 t2 t3",
    out={"slack": lambda s: adjusted(s, "slack", "bound", "dual", "select", s.s("mu"))},
    pre=[("slack", "select")], scratch="t1 t2 t3", masks=("a3",), dims={"a%d" % i: "x" for i in (0, 1, 2, 3, 5, 6, 7)},
    ret=lambda s: nadj(s, lambda k: s("slack", k), "select", s.s("mu"), "x"),
    facts=lambda s: [lt0(-s("dual"), False), lt0(-s.s("mu"), False), ONE - eq0(s.dim("x"))])


def adj2(s, w, sl):
    """sl: function of the index; dual of the current iterate"""
    mu, i, z, b = s.s("mu"), s("NLP." + MASK[w]), s("cur." + DUAL[w]), s("NLP." + B[w][2])
    sm, sv = small(mu), sl(None)
    new = fmin(fmax(mu / z, sm), T.fn("pow", EPS, P(Fraction(3, 4))) * fmax(ONE, fabs(b)) + fmax(sv, ZERO))
    return T.ite(i * lt(sv, sm), new, sv)


SLF = dict(facts=lambda s: [lt0(-s.s("mu"), False), ONE - eq0(s.dim("x")), ONE - eq0(s.dim("d"))] + [lt0(-s("cur." + DUAL[w]), False) for w in B],
           scratch=" ".join("this.s%s_arg%d_" % (a, i) for a in "xd" for i in (1, 2, 3)), nonnull=["this.sx_arg1_"])
p10(IT + "adjust_small_slacks", "cur mu", out={"this." + w: (lambda s, w=w: adj2(s, w, lambda e: s("this." + w, e))) for w in B}, pre=[("this." + w, "NLP." + MASK[w]) for w in B],
    ret=lambda s: sum((nadj(s, lambda k, w=w: s("this." + w, k), "NLP." + MASK[w], s.s("mu"), SPACE[w]) for w in B), ZERO), **SLF)
p10(IT + "compute_safe_slacks", "cur mu", out={"this." + w: (lambda s, w=w: adj2(s, w, lambda e: slack(s, w, e))) for w in B},
    ret=lambda s: sum((nadj(s, lambda k, w=w: slack(s, w, k), "NLP." + MASK[w], s.s("mu"), SPACE[w]) for w in B), ZERO), **SLF)

# ---------------------------------------------------------------- residual
RB = {"sxl": ("rxl", "rszl"), "sxu": ("rxu", "rszu"), "sdl": ("rdl", "rsvl"), "sdu": ("rdu", "rsvu")}
PREB = [("this." + r, "NLP." + MASK[w]) for w, rr in RB.items() for r in rr]


def feas(s, w):
    """residual of the slack equation, on the bounded components"""
    v, _, bd, msk, sg = B[w]
    return s("NLP." + msk) * (sg * (s("it." + v) - s("NLP." + bd)) - s("it." + w))


def compl(s, w, mu, e=None):
    return s("NLP." + MASK[w], e) * (mu - s("it." + w, e) * s("it." + DUAL[w], e))


def lagx(s, e=None):
    """gradient of the Lagrangian in x"""
    return s("grad", e) + s.Mtx("jc", "it.yc", e) + s.Mtx("jd", "it.yd", e) - s("it.zl", e) + s("it.zu", e)


def lagd(s, e=None):
    return s("it.yd", e) + s("it.vl", e) - s("it.vu", e)


def dampres(s, lo, up, e=None):
    return s.posk * ddamp(s, lo, up, s.s("lp.mu"), s.s("lp.kappa_d"), e)


def setup(s):
    s.posk = lt0(-s.s("lp.kappa_d"), False)
    return s


def rx(s, e=None):
    setup(s)
    return -(lagx(s, e) + dampres(s, "sxl", "sxu", e))


def rd(s, e=None):
    setup(s)
    # d enters the damping term and the barrier through its slacks
    return lagd(s, e) - dampres(s, "sdl", "sdu", e)


ENV = dict(models={})
UPD = "it f c d grad jc jd lp"
RSP = {"a2": "c", "a3": "d", "a4": "x"}


def common(ryc, ryd):
    out = {"this.rx": rx, "this.rd": rd, "this.ryc": ryc, "this.ryd": ryd}
    for w, (a, b) in RB.items():
        out["this." + a] = lambda s, w=w: feas(s, w)
        out["this." + b] = lambda s, w=w: compl(s, w, s.s("lp.mu"))
    return out


def norms(ryc, ryd, viol):
    def mx(*fs):
        return lambda s: s.gmax(fmax(ZERO, *[f(s) for f in fs]))
    o = {"nrmInf_nlp_optim": lambda s: s.gmax(fmax(s.inf("x", lambda k: lagx(s, k)), s.inf("d", lambda k: lagd(s, k)))),
         "nrmInf_bar_optim": lambda s: s.gmax(fmax(s.inf("x", lambda k: rx(s, k)), s.inf("d", lambda k: rd(s, k)))),
         "nrmOne_nlp_optim": lambda s: s.gsum(s.one("x", lambda k: lagx(s, k))) + s.gsum(s.one("d", lambda k: lagd(s, k))),
         "nrmOne_bar_optim": lambda s: s.gsum(s.one("x", lambda k: rx(s, k))) + s.gsum(s.one("d", lambda k: rd(s, k))),
         "nrmInf_nlp_complem": lambda s: s.gmax(fmax(ZERO, *[s.inf(SPACE[w], lambda k, w=w: compl(s, w, ZERO, k)) for w in B])),
         "nrmInf_bar_complem": lambda s: s.gmax(fmax(ZERO, *[s.inf(SPACE[w], lambda k, w=w: compl(s, w, s.s("lp.mu"), k)) for w in B]))}
    for w in ("nlp", "bar"):
        o["nrmInf_%s_feasib" % w] = lambda s: s.gmax(fmax(s.inf("c", lambda k: ryc(s, k)), s.inf("d", lambda k: ryd(s, k))))
        o["nrmOne_%s_feasib" % w] = lambda s: s.gsum(s.one("c", lambda k: ryc(s, k))) + s.gsum(s.one("d", lambda k: ryd(s, k)))
    if viol:
        o["nrmInf_cons_violation"] = viol
    return {"this." + k: v for k, v in o.items()}


def viol(s):
    # largest violation of c(x)=c_rhs and dl<=d(x)<=du
    lo = s.gmin(fmin(MAXD, -s.red("d", lambda k: s("NLP.dl_", k) - s("d", k), lambda k: s("NLP.idl_", k))))
    up = s.gmin(fmin(MAXD, -s.red("d", lambda k: s("d", k) - s("NLP.du_", k), lambda k: s("NLP.idu_", k))))
    return fmax(s.inf("c", lambda k: ryc0(s, k)), -lo, -up)


ryc0 = lambda s, e=None: s("NLP.c_rhs_", e) - s("c", e)
ryd0 = lambda s, e=None: s("it.d", e) - s("d", e)
p10(RS + "update", UPD, out=common(ryc0, ryd0), cells=norms(ryc0, ryd0, viol), pre=PREB, dims=RSP)
ryc1 = lambda s, e=None: s("c", e)
ryd1 = lambda s, e=None: s("d", e)
p10(RS + "update_soc", "it c d grad jc jd lp", out=common(ryc1, ryd1), cells=norms(ryc1, ryd1, None), pre=PREB, dims={"a1": "c", "a2": "d", "a3": "x"})
p10(RS + "compute_nlp_infeasib_onenorm", "it c d", ret=lambda s: s.gsum(s.one("c", lambda k: ryc0(s, k))) + s.gsum(s.one("d", lambda k: ryd0(s, k))),
    dims={"a1": "c", "a2": "d"}, frame=False)
RV = "rx rd rxl rxu rdl rdu ryc ryd rszl rszu rsvl rsvu".split()
RN = ["nrm%s_%s" % (a, b) for a, b in (("Inf", "nlp_optim"), ("Inf", "bar_optim"), ("Inf", "nlp_complem"), ("Inf", "bar_complem"), ("Inf", "nlp_feasib"), ("Inf", "bar_feasib"),
                                       ("One", "nlp_feasib"), ("One", "bar_feasib"), ("One", "nlp_optim"), ("One", "bar_optim"), ("Inf", "cons_violation"))]
p10(RS + "copyFrom", "src", out={"this." + v: (lambda s, v=v: s("src." + v)) for v in RV}, cells={"this." + v: (lambda s, v=v: s.s("src." + v)) for v in RN}, scratch="this.nlp")

# ---------------------------------------------------------------- barrier problem
LBD = {"a3": "c", "a4": "d", "a5": "x"}


def pk(s):
    return lt0(-s.s("this.kappa_d"), False)


p10(LB + "updateWithNlpInfo", "it mu f c d grad jc jd",
    out={"this._grad_x_logbar": lambda s: s("grad") + dlog(s, "it", "sxl", "sxu", s.s("mu")) + pk(s) * ddamp(s, "sxl", "sxu", s.s("mu"), s.s("this.kappa_d")),
         "this._grad_d_logbar": lambda s: dlog(s, "it", "sdl", "sdu", s.s("mu")) + pk(s) * ddamp(s, "sdl", "sdu", s.s("mu"), s.s("this.kappa_d"))},
    cells={"this.mu": lambda s: s.s("mu"), "this.f_logbar": lambda s: s.s("f") - s.s("mu") * logbar(s, "it") + pk(s) * damp(s, "it", s.s("mu"), s.s("this.kappa_d"))},
    ptrs={"this.iter": "it", "this.c_nlp": "c", "this.d_nlp": "d", "this.Jac_c_nlp": "jc", "this.Jac_d_nlp": "jd"}, dims=LBD)
p10(LB + "updateWithNlpInfo_trial_funcOnly", "it f c d",
    cells={"this.f_logbar_trial": lambda s: s.s("f") - s.s("this.mu") * logbar(s, "it") + pk(s) * damp(s, "it", s.s("this.mu"), s.s("this.kappa_d"))},
    ptrs={"this.iter_trial": "it", "this.c_nlp_trial": "c", "this.d_nlp_trial": "d"})
p10(LB + "addNonLogBarTermsToGrad_x", "beta g", out={"g": lambda s: s("g") + s.s("beta") * pk(s) * ddamp(s, "sxl", "sxu", s.s("this.mu"), s.s("this.kappa_d"))})
p10(LB + "addNonLogBarTermsToGrad_d", "beta g", out={"g": lambda s: s("g") + s.s("beta") * pk(s) * ddamp(s, "sdl", "sdu", s.s("this.mu"), s.s("this.kappa_d"))})
p10(LB + "directionalDerivative", "dir", ret=lambda s: s.gsum(s.sum("x", lambda k: s("dir.x", k) * s("this._grad_x_logbar", k))) + s.gsum(s.sum("d", lambda k: s("dir.d", k) * s("this._grad_d_logbar", k))))

# ---------------------------------------------------------------- drivers
IPM = "hiop::hiopAlgFilterIPMBase::"
EN = "it resid mu nlpoptim nlpfeas nlpcomplem nlpoverall logoptim logfeas logcomplem logoverall cons_violation"


def nrm_bnd_it(s):
    return s.gsum(s.one("x", lambda k: s("it.zl", k)) + s.one("x", lambda k: s("it.zu", k))) + s.one("d", lambda k: s("it.vl", k)) + s.one("d", lambda k: s("it.vu", k))


def nrm_eq_it(s):
    return s.one("c", lambda k: s("it.yc", k)) + s.one("d", lambda k: s("it.yd", k))


def sd_sc(s):
    nb = s.i("NLP.n_bnds_low_") + s.i("NLP.n_bnds_upp_") + s.i("NLP.n_ineq_low_") + s.i("NLP.n_ineq_upp_")
    pm, big = s.s("this.p_smax"), P(10**8)
    sd = fmin(fmax(pm, (nrm_bnd_it(s) + nrm_eq_it(s)) / (nb + s.i("NLP.n_cons_"))) / pm, big)
    sc = fmin(T.ite(eq0(nb), ZERO, fmax(pm, nrm_bnd_it(s) / nb) / pm), big)
    return sd, sc


def scaled(w):
    def g(s):
        sd, sc = sd_sc(s)
        return fmax(s.s("resid.nrmInf_%s_optim" % w) / sd, fmax(s.s("resid.nrmInf_cons_violation"), s.s("resid.nrmInf_%s_complem" % w) / sc))
    return g


p10(IPM + "evalNlpAndLogErrors", EN,
    cells=dict({a: (lambda s, b=b: s.s("resid.nrmInf_" + b)) for a, b in (("nlpoptim", "nlp_optim"), ("nlpfeas", "nlp_feasib"), ("nlpcomplem", "nlp_complem"), ("logoptim", "bar_optim"),
                                                                         ("logfeas", "bar_feasib"), ("logcomplem", "bar_complem"), ("cons_violation", "cons_violation"))},
               nlpoverall=scaled("nlp"), logoverall=scaled("bar")),
    facts=lambda s: [ONE - eq0(s.i("NLP.n_bnds_low_") + s.i("NLP.n_bnds_upp_") + s.i("NLP.n_ineq_low_") + s.i("NLP.n_ineq_upp_"))])


def objscale(s):
    # the factor that takes the user's objective to the one being minimised
    nul = T.raw("isnull", s.base("NLP.nlp_scaling_"), mask=True)
    return T.ite(nul, ONE, s.s("NLP.nlp_scaling_.scale_factor_obj"))


def new_mu(s):
    mu = s.s("mu_curr")
    tgt = s.s("this.comp_tol_") / objscale(s)
    return fmax(fmax(ZERO, fmin(s.s("this.kappa_mu") * mu, T.fn("pow", mu, s.s("this.theta_mu")))), fmin(s.s("this.eps_tol"), tgt) / 11)


def moved(s):
    # the barrier parameter changes
    return ONE - lt(fabs(new_mu(s) - s.s("mu_curr")), P(Fraction(1, 10**16)))


p10(IPM + "update_log_barrier_params", "it mu_curr tau_curr elastic mu_new tau_new", ret=moved, frame=False,
    cells={"mu_new": lambda s: T.ite(moved(s), new_mu(s), s.s("mu_new")), "tau_new": lambda s: T.ite(moved(s), fmax(s.s("this.tau_min"), ONE - new_mu(s)), s.s("tau_new"))},
    facts=lambda s: [lt0(-s.s("mu_curr"), False)])
p10(IPM + "thetaLogBarrier", "it resid mu", ret=lambda s: s.s("resid.nrmInf_nlp_feasib"))


def clamped(s, w):
    """bound dual of the full step kept within kappa of the primal Hessian mu/s"""
    z = s("iter." + DUAL[w]) + s.s("ad") * s("dir." + DUAL[w])
    p = s.s("mu") / s("plus." + w)
    return T.ite(s("NLP." + MASK[w]), fmax(p / s.s("kappa"), fmin(z, p * s.s("kappa"))), z)


p10("hiop::hiopDualsNewtonLinearUpdate::go", "iter plus f c d grad jc jd dir ap ad mu kappa infeas", ret=lambda s: ONE,
    out=dict({"plus." + v: (lambda s, v=v: s("iter." + v) + s.s("ap") * s("dir." + v)) for v in ("yc", "yd")}, **{"plus." + DUAL[w]: (lambda s, w=w: clamped(s, w)) for w in B}))
