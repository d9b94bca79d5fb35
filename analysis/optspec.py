"""Options (property P04): reference behaviour of the setters, of the consistency rules and of the parameters read from options."""
import re
from term import *
import term as T
from vn import eq0, lt0, Ptr, Phi
from vecspec import lt
from algspec import IPM
from nlpmodels import rec, counted
from fractions import Fraction

P04 = []
FLOOR = 0
IDLE = {"checkpoint_file", "checkpoint_save", "checkpoint_save_every_N_iter", "exec_policies", "ginkgo_exec", "ginkgo_trisolve", "ir_inner_conv_cond",
        "ir_inner_gs_scheme", "ir_inner_maxit", "ir_inner_restart", "ir_inner_tol", "ir_inner_tol_factor", "ir_inner_tol_min", "linear_solver_sparse_ordering",
        "mem_backend", "resolve_factorization", "resolve_refactorization"}
BUILD = {"mem_space": ("default", "host", "device", "um"), "callback_mem_space": ("default", "host", "device", "um"), "compute_mode": ("cpu", "hybrid", "gpu", "auto")}


def p04(fn, params="", **kw):
    kw.setdefault("asserts", False)
    P04.append(dict(fn=fn, params=params, **kw))


def num(o):
    return T.inp(("opt", o), "real")


def int_(o):
    return T.inp(("opt", o), "int")


def is_(o, v):
    return T.inp(("optis", o, v), "bool")


# ---------------------------------------------------------------- parameters of the solver
DENSE = ONE - T.raw("isnull", ("dense",), mask=True)


def dense(A, vn, e, v, st):
    return Ptr(("dense",))


REAL = {"mu0": "mu0", "_mu": "mu0", "kappa_mu": "kappa_mu", "theta_mu": "theta_mu", "tau_min": "tau_min", "eps_tol": "tolerance", "cons_tol_": "cons_tol", "dual_tol_": "dual_tol",
        "comp_tol_": "comp_tol", "eps_rtol": "rel_tolerance", "kappa_eps": "kappa_eps", "kappa1": "kappa1", "kappa2": "kappa2", "p_smax": "smax", "eps_tol_accep": "acceptable_tolerance",
        "eta_phi": "eta_phi", "theta_max_fact_": "theta_max_fact", "theta_min_fact_": "theta_min_fact"}
CONST = {"gamma_theta": "0.00001", "gamma_phi": "0.00000001", "s_theta": "1.1", "s_phi": "2.3", "delta": "1", "kappa_Sigma": "10000000000", "theta_max": "10000000", "theta_min": "10000000"}
cells = {"this." + k: (lambda s, v=v: num(v)) for k, v in REAL.items()}
cells.update({"this." + k: (lambda s, v=v: P(Fraction(v))) for k, v in CONST.items()})
cells.update({"this.max_n_it": lambda s: int_("max_iter"), "this.accep_n_it": lambda s: int_("acceptable_iterations"),
              "this.duals_update_type": lambda s: ONE - is_("duals_update_type", "lsq") * DENSE,
              "this.dualsInitializ": lambda s: ONE - is_("duals_init", "lsq"),
              "this._tau": lambda s: fmax(num("tau_min"), ONE - num("mu0")),
              "this.perf_report_kkt_": lambda s: is_("time_kkt", "on")})
p04(IPM + "reload_options", models={"dyncast": dense}, cells=cells, frame=True)


# ---------------------------------------------------------------- setters
KNOWN, TYPED = T.inp(("U", "known"), "bool"), ONE - T.raw("isnull", ("U", "entry", "second"), mask=True)
OPT = "U.entry.second."


def find(A, vn, e, st):
    return Ptr(("U", "entry")) if (e.get("fq") or "").startswith("std::map<") else NotImplemented


def itercmp(eq):
    def h(A, vn, e, st):
        if len(e["a"]) != 2 or not any("_iterator" in (x.get("t") or "") for x in e["a"]):
            return NotImplemented
        return ONE - KNOWN if eq else KNOWN
    return h


def deref(A, vn, e, st):
    return Ptr(("U", "entry")) if "_iterator" in (e.get("fq") or "") else NotImplemented


def consist(A, vn, e, st):
    """the consistency rules run on the stored values"""
    counted(st, vn, "consist")
    return P(0)


def count(A, vn, e, st):
    return KNOWN if (e.get("fq") or "").startswith("std::map<") else NotImplemented


MAP = {"find": find, "end": lambda A, vn, e, st: Ptr(("U", "end")) if (e.get("fq") or "").startswith("std::map<") else NotImplemented, "operator!=": itercmp(False),
       "operator==": itercmp(True), "operator->": deref, "ensure_consistence": consist, "count": count, "log_printf": lambda A, vn, e, st: P(0)}


def setter(fn, t, atruntime=True):
    g = (lambda s, n: s.s(n)) if t == "real" else (lambda s, n: s.i(n))
    inr = lambda s: (ONE - lt(g(s, "value"), g(s, OPT + "lb"))) * (ONE - lt(g(s, OPT + "ub"), g(s, "value")))
    act = lambda s: KNOWN * TYPED * (ONE - s.b(OPT + "specifiedInFile") * (ONE - s.b("file")))
    p04("hiop::hiopOptions::" + fn, "name value file", models=MAP, frame=True, nonnull=("U.entry",),
        cells={OPT + "val": lambda s: T.ite(act(s) * inr(s), g(s, "value"), g(s, OPT + "val")),
               OPT + "specifiedInFile": lambda s: T.ite(act(s) * s.b("file"), ONE, s.b(OPT + "specifiedInFile")),
               OPT + "specifiedAtRuntime": lambda s: T.ite(act(s) * (ONE - s.b("file")), ONE, s.b(OPT + "specifiedAtRuntime")),
               "CALLS.consist": lambda s: ONE - KNOWN * TYPED * s.b(OPT + "specifiedInFile") * (ONE - s.b("file"))},
        ret=lambda s: ONE, where=lambda f: True)


setter("SetNumericValue", "real")
setter("SetIntegerValue", "int")
for t, ty in (("real", "double"), ("int", "int")):
    g = (lambda s, n: s.s(n)) if t == "real" else (lambda s, n: s.i(n))
    p04("hiop::hiopOptions::set_val", "name value", models=MAP, frame=True, nonnull=("U.entry",), where=lambda f, ty=ty: ty in f["p"][1]["t"],
        cells={OPT + "val": lambda s, g=g: T.ite(KNOWN * TYPED * (ONE - lt(g(s, "value"), g(s, OPT + "lb"))) * (ONE - lt(g(s, OPT + "ub"), g(s, "value"))), g(s, "value"), g(s, OPT + "val"))})
p04("hiop::hiopOptions::is_user_defined", "name", models=MAP, frame=True, nonnull=("U.entry",),
    ret=lambda s: KNOWN * (ONE - (ONE - s.b(OPT + "specifiedInFile")) * (ONE - s.b(OPT + "specifiedAtRuntime"))))
for nm, t in (("GetNumeric", "real"), ("GetInteger", "int")):
    p04("hiop::hiopOptions::" + nm, "name", models=MAP, frame=True, nonnull=("U.entry",), ret=lambda s, t=t: s.s(OPT + "val") if t == "real" else s.i(OPT + "val"))


# ---------------------------------------------------------------- string options

def content(A, vn, st, p):
    """the text of a string object, of a character array or of an element of the list of legal values"""
    if isinstance(p, Phi):
        return T.ite(p.c, content(A, vn, st, p.a), content(A, vn, st, p.b))
    if not isinstance(p, Ptr):
        return T.opq("text")
    if p.base[-1] == "$e":
        return vn.read(p.base + ("data_",), [p.idx[0]], "int", st)
    k = p.base + ("$s",)
    return st.cells[k] if k in st.cells else T.inp(k, "int")


def newstr(A, vn, e, st):
    a = [x for x in e["a"] if "allocator" not in (x.get("t") or "")]
    if len(a) != 1:
        return NotImplemented
    c = content(A, vn, st, A.obj(vn, a[0], st))
    vn.news += 1
    b = Ptr(("tmp", "str", vn.news))
    rec(st, vn, b.base + ("$s",), c, "int")
    return b


def assignstr(A, vn, e, st):
    if "basic_string" not in (e.get("fq") or "") or len(e["a"]) != 2:
        return NotImplemented
    o, v = A.obj(vn, e["a"][0], st), A.obj(vn, e["a"][1], st)
    if not isinstance(o, Ptr) or o.base[-1] == "$e":
        return NotImplemented
    rec(st, vn, o.base + ("$s",), content(A, vn, st, v), "int")
    return o


def transform(A, vn, e, st):
    from core import walk, strip
    a = [strip(x) for x in e["a"]]
    if len(a) != 4 or any(x.get("k") != "Call" or x.get("o") is None for x in a[:3]) or not any(x.get("n") == "tolower" for x in walk(a[3])):
        return NotImplemented
    o = [A.obj(vn, x["o"], st) for x in a[:3]]
    if [x["fq"].split("::")[-1] for x in a[:3]] not in (["begin", "end", "begin"], ["cbegin", "cend", "begin"]) or any(not isinstance(x, Ptr) or x.base != o[0].base for x in o):
        return NotImplemented
    rec(st, vn, o[0].base + ("$s",), T.fn("lower", content(A, vn, st, o[0])), "int")
    return P(0)


def eqstr(A, vn, e, st):
    r = itercmp(True)(A, vn, e, st)
    if r is not NotImplemented:
        return r
    a, b = (A.arg(vn, x, st) for x in e["a"])
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        return NotImplemented
    return eq0(content(A, vn, st, a) - content(A, vn, st, b))


def nestr(A, vn, e, st):
    r = itercmp(False)(A, vn, e, st)
    if r is not NotImplemented:
        return r
    r = eqstr(A, vn, e, st)
    return r if r is NotImplemented else ONE - r


def at(A, vn, e, st):
    o = e["o"] if e.get("o") is not None else e["a"][0]
    p = A.obj(vn, o, st)
    if not isinstance(p, Ptr):
        return NotImplemented
    return Ptr(p.base + ("$e",), (vn.num(A.arg(vn, e["a"][-1], st)),))


def vecsize(A, vn, e, st):
    p = A.obj(vn, e["o"], st)
    return T.inp(("dim",) + p.base, "int") if isinstance(p, Ptr) else NotImplemented


STR = dict(MAP, **{"new std::basic_string<char>": newstr, "operator=": assignstr, "transform": transform, "operator==": eqstr, "operator!=": nestr, "std::vector::operator[]": at, "std::vector::at": at,
                   "std::vector::size": vecsize, "operator<<": lambda A, vn, e, st: P(0), "std::vector::empty": lambda A, vn, e, st: eq0(vecsize(A, vn, e, st))})
RNG = ("U", "entry", "second", "range")


LOWER, RAW = T.fn("lower", T.inp(("a1", "$s"), "int")), T.inp(("a1", "$s"), "int")
NRNG = T.inp(("dim",) + RNG, "int")


def newvalue(s):
    """(the value is legal, what is stored): names of files and the like, options without a list of legal values, are kept as given"""
    k = s.k()
    some = T.binder("any", (NRNG, eq0(s.a("U.entry.second.range.$e.data_", k, "int") - LOWER)), k)
    return ONE - (ONE - some) * (ONE - eq0(NRNG)), T.ite(eq0(NRNG), RAW, LOWER)


OLD = T.inp(("U", "entry", "second", "val", "$s"), "int")
_act = lambda s: KNOWN * TYPED * (ONE - s.b(OPT + "specifiedInFile") * (ONE - s.b("file")))
p04("hiop::hiopOptions::SetStringValue", "name value file", models=STR, frame=True, nonnull=("U.entry",),
    cells={OPT + "val.$s": lambda s: T.ite(_act(s) * newvalue(s)[0], newvalue(s)[1], OLD),
           OPT + "specifiedInFile": lambda s: T.ite(_act(s) * s.b("file"), ONE, s.b(OPT + "specifiedInFile")),
           OPT + "specifiedAtRuntime": lambda s: T.ite(_act(s) * (ONE - s.b("file")), ONE, s.b(OPT + "specifiedAtRuntime")),
           "CALLS.consist": lambda s: ONE - KNOWN * TYPED * s.b(OPT + "specifiedInFile") * (ONE - s.b("file"))},
    ret=lambda s: ONE)
p04("hiop::hiopOptions::set_val", "name value", models=STR, frame=True, nonnull=("U.entry",), where=lambda f: "char" in f["p"][1]["t"],
    cells={OPT + "val.$s": lambda s: T.ite(KNOWN * TYPED * newvalue(s)[0], newvalue(s)[1], OLD)})


# ---------------------------------------------------------------- consistency rules
# values of string options are represented by the index of their text; the options form a store
from vn import Str
from core import walk as _walk

VALUES = {"KKTLinsys": ("auto", "xycyd", "xdycyd", "full", "condensed", "normaleqn"), "Hessian": ("quasinewton_approx", "analytical_exact"), "duals_update_type": ("lsq", "linear"),
          "linear_solver_sparse": ("auto", "ma57", "pardiso", "strumpack", "resolve", "ginkgo", "cusolver-chol"), "compute_mode": ("auto", "cpu", "hybrid", "gpu"),
          "mem_space": ("default", "host", "device", "um"), "callback_mem_space": ("default", "host", "device", "um"), "fixed_var": ("remove", "relax", "none"),
          "fact_acceptor": ("inertia_correction", "inertia_free")}
CODES = {}


def code(text):
    return CODES.setdefault(text, len(CODES))


for _v in VALUES.values():
    for _x in _v:
        code(_x)


def optname(e):
    l = [x["v"] for x in _walk(e) if x.get("k") == "Str"]
    return l[0] if len(l) == 1 else None


def stored(st, kind, o):
    k = (kind, o)
    return st.cells[k] if k in st.cells else T.inp(k, "real" if kind == "OPTN" else "int")


def getn(A, vn, e, st):
    o = optname(e["a"][0])
    return NotImplemented if o is None else stored(st, "OPTN", o)


def gets(A, vn, e, st):
    o = optname(e["a"][0])
    if o is None:
        return NotImplemented
    vn.news += 1
    b = Ptr(("tmp", "str", vn.news))
    rec(st, vn, b.base + ("$s",), stored(st, "OPTS", o), "int")
    return b


def text(A, vn, e, st):
    """code of the text an expression denotes"""
    v = A.arg(vn, e, st)
    if isinstance(v, Str):
        return P(code(str(v)))
    return content(A, vn, st, v) if isinstance(v, Ptr) else T.opq("text")


def cmptext(neg):
    def h(A, vn, e, st):
        if not (e.get("fq") or "").startswith("std::") or len(e["a"]) != 2 or any("_iterator" in (x.get("t") or "") for x in e["a"]):
            return NotImplemented
        r = eq0(text(A, vn, e["a"][0], st) - text(A, vn, e["a"][1], st))
        return ONE - r if neg else r
    return h


def setval(A, vn, e, st):
    o = optname(e["a"][0])
    if o is None:
        return NotImplemented
    if "char" in " ".join(e.get("pt") or []).split("const char *", 1)[-1] or "char" in (e["a"][1].get("t") or ""):
        rec(st, vn, ("OPTS", o), text(A, vn, e["a"][1], st), "int")
    else:
        rec(st, vn, ("OPTN", o), vn.num(A.arg(vn, e["a"][1], st)))
    return ONE


def cstr(A, vn, e, st):
    return A.arg(vn, e["o"], st) if "basic_string" in (e.get("fq") or "") else NotImplemented


def userdef(A, vn, e, st):
    o = optname(e["a"][0])
    return T.inp(("U", "other"), "bool") if o is None else T.inp(("user", o), "bool")



STORE = {"optionis": False, "GetNumeric": getn, "GetString": gets, "set_val": setval, "c_str": cstr, "is_user_defined": userdef, "operator==": cmptext(False), "operator!=": cmptext(True),
         "log_printf": lambda A, vn, e, st: P(0), "new std::basic_string<char>": newstr}


class Store:
    """the options after the rules"""
    def __init__(self):
        self.n, self.s = {}, {}

    def num(self, o):
        return self.n.get(o, T.inp(("OPTN", o), "real"))

    def str(self, o):
        return self.s.get(o, T.inp(("OPTS", o), "int"))

    def user(self, o):
        return T.inp(("user", o), "bool")

    def is_(self, o, *vals, v=None):
        x, r = self.str(o) if v is None else v, ONE
        for w in vals:
            r = r * (ONE - eq0(x - P(code(w))))
        return ONE - r

    def setn(self, when, o, v):
        self.n[o] = T.ite(when, v, self.num(o))

    def sets(self, when, o, v):
        self.s[o] = T.ite(when, P(code(v)) if isinstance(v, str) else v, self.str(o))


def tolerances(S_, names):
    for o in names:
        S_.setn(lt(S_.num(o), S_.num("tolerance")) * S_.user(o), o, S_.num("tolerance"))


def consistent():
    S_ = Store()
    tolerances(S_, ("acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol"))
    S_.sets(S_.is_("Hessian", "quasinewton_approx") * S_.is_("KKTLinsys", "xycyd", "xdycyd", "full", "normaleqn") * S_.user("Hessian"), "KKTLinsys", "auto")
    S_.sets(S_.is_("Hessian", "analytical_exact"), "duals_update_type", "linear")
    sp = S_.str("linear_solver_sparse")
    full, cond = S_.is_("KKTLinsys", "full"), S_.is_("KKTLinsys", "condensed")
    S_.sets(full * (ONE - S_.is_("", "resolve", "pardiso", "strumpack", "auto", v=sp)), "linear_solver_sparse", "auto")
    S_.sets(cond * (ONE - S_.is_("", "cusolver-chol", "auto", v=sp)), "linear_solver_sparse", "auto")
    S_.sets(S_.is_("", "resolve", "cusolver-chol", v=sp), "linear_solver_sparse", "auto")
    S_.sets(ONE, "mem_space", "default")
    diff = ONE - eq0(S_.str("mem_space") - S_.str("callback_mem_space"))
    adopt = ONE - (ONE - S_.user("callback_mem_space") * (ONE - S_.is_("mem_space", "device"))) * (ONE - S_.is_("callback_mem_space", "um") * S_.is_("mem_space", "device"))
    S_.sets(diff * (ONE - (ONE - adopt) * (ONE - S_.is_("callback_mem_space", "default"))), "callback_mem_space", S_.str("mem_space"))
    S_.sets(S_.is_("compute_mode", "gpu", "hybrid", "auto"), "compute_mode", "cpu")
    S_.sets(S_.is_("fact_acceptor", "inertia_correction") * (ONE - (ONE - full) * (ONE - S_.is_("linear_solver_sparse", "strumpack", "resolve"))), "fact_acceptor", "inertia_free")
    S_.setn(ONE - eq0(S_.num("moving_lim_rel") * S_.num("moving_lim_abs")), "moving_lim_rel", ZERO)
    return S_


def rules(fn, mk, names, strs):
    cl = {"OPTN." + o: (lambda s, o=o: mk().num(o)) for o in names}
    cl.update({"OPTS." + o: (lambda s, o=o: mk().str(o)) for o in strs})
    p04(fn, models=STORE, frame=not strs, cells=cl, domain={("OPTS", o): tuple(code(x) for x in v) for o, v in VALUES.items()}, unroll=4)


def pridec():
    S_ = Store()
    tolerances(S_, ("acceptable_tolerance",))
    return S_


rules("hiop::hiopOptionsNLP::ensure_consistence", consistent, ("acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol", "tolerance", "moving_lim_rel", "moving_lim_abs"),
      ("KKTLinsys", "Hessian", "duals_update_type", "linear_solver_sparse", "mem_space", "callback_mem_space", "compute_mode", "fact_acceptor", "fixed_var"))
rules("hiop::hiopOptionsPriDec::ensure_consistence", pridec, ("acceptable_tolerance", "tolerance"), ())


# ---------------------------------------------------------------- parameters of the inertia correction and of the primal decomposition
PD = {"delta_w_min_bar_": "delta_w_min_bar", "delta_w_max_bar_": "delta_w_max_bar", "delta_w_0_bar_": "delta_0_bar", "kappa_w_minus_": "kappa_w_minus", "kappa_w_plus_bar_": "kappa_w_plus_bar",
      "kappa_w_plus_": "kappa_w_plus", "delta_c_bar_": "delta_c_bar", "kappa_c_": "kappa_c"}
p04("hiop::hiopPDPerturbation::initialize", "nlp", frame=False, cells={"this." + k: (lambda s, v=v: num(v)) for k, v in PD.items()})
PRIDEC = {"tol_": num("tolerance"), "accp_tol_": num("acceptable_tolerance"), "accp_count_": int_("acceptable_iterations"), "max_iter_": int_("max_iter"), "alpha_max_": num("alpha_max"),
          "alpha_min_": num("alpha_min"), "ver_": int_("verbosity_level")}
for _n in (2, 4):
    p04("hiop::hiopAlgPrimalDecomposition::hiopAlgPrimalDecomposition", " ".join("abcd"[:_n]), frame=False, slice=True, cells={"this." + k: (lambda s, v=v: v) for k, v in PRIDEC.items()})


def made(n):
    def h(A, vn, e, st):
        counted(st, vn, n)
        return Ptr(("new", n))
    return h


LSQ = is_("duals_update_type", "lsq")
p04("hiop::hiopAlgFilterIPMBase::reInitializeNlpObjects", frame=False, slice=True,
    models={"dyncast": dense, "alloc_duals_lsq_updater": made("lsq"), "new hiop::hiopDualsNewtonLinearUpdate": made("linear")},
    cells={"this.dualsInitializ": lambda s: ONE - is_("duals_init", "lsq") * (ONE - LSQ * (ONE - DENSE)), "this.duals_update_type": lambda s: ONE - LSQ * DENSE,
           "CALLS.lsq": lambda s: LSQ * DENSE, "CALLS.linear": lambda s: ONE - LSQ * DENSE})


# ---------------------------------------------------------------- what the logger prints: nothing above the verbosity level, nothing on the other ranks
def shown(A, vn, e, st):
    counted(st, vn, "shown")
    return P(0)


def tofile(A, vn, e, st):
    """output to the log file (formatting into a local buffer is not output)"""
    return shown(A, vn, e, st)


LOG = {"print": shown, "fprintf": shown, "vfprintf": shown, "fputs": shown}
VERB = int_("verbosity_level")


def once(A, vn, e, st):
    rec(st, vn, ("CALLS", "shown"), ONE, "int")
    return P(0)


LOG = {k: once for k in LOG}
for _c in ("hiopVector", "hiopMatrix", "hiopResidual", "hiopIterate", "hiopHessianLowRank", "hiopOptions", "hiopNlpFormulation", "hiopFilter"):
    p04("hiop::hiopLogger::write", "msg what v id", frame=False, models=LOG, where=lambda f, c=_c: bool(re.search(r"\b%s\b" % c, f["p"][1]["t"])),
        cells={"CALLS.shown": lambda s, c=_c: (ONE - lt(VERB, s.i("v"))) * (ONE if c == "hiopVector" else eq0(s.i("this.master_rank_") - s.i("this.my_rank_")))})
p04("hiop::hiopLogger::write", "msg v id", frame=False, models=LOG,
    cells={"CALLS.shown": lambda s: (ONE - lt(VERB, s.i("v"))) * eq0(s.i("this.master_rank_") - s.i("this.my_rank_"))})
p04("hiop::hiopLogger::printf", "v format", frame=False, models=LOG,
    cells={"CALLS.shown": lambda s: (ONE - lt(VERB, s.i("v"))) * eq0(s.i("this.master_rank_") - s.i("this.my_rank_"))})
FLOOR = 12


# ---------------------------------------------------------------- options of the feasibility problem
def frget(A, vn, e, st):
    o, r = optname(e["a"][0]), A.obj(vn, e["o"], st)
    if o is None or not isinstance(r, Ptr):
        return NotImplemented
    vn.news += 1
    b = Ptr(("tmp", "str", vn.news))
    rec(st, vn, b.base + ("$s",), stored(st, "FR" if r.base[:1] == ("a1",) else "OPTS", o), "int")
    return b


def frset(A, vn, e, st):
    o, r = optname(e["a"][0]), A.obj(vn, e["o"], st)
    if o is None or not isinstance(r, Ptr) or r.base[:1] != ("a1",):
        return NotImplemented
    t = (e.get("fq") or "").split("::")[-1]
    rec(st, vn, ("FR", o), text(A, vn, e["a"][1], st) if t == "SetStringValue" else vn.num(A.arg(vn, e["a"][1], st)), "double" if t == "SetNumericValue" else "int")
    rec(st, vn, ("FRT", o), P({"SetStringValue": 1, "SetNumericValue": 2, "SetIntegerValue": 3}[t]), "int")
    return ONE


def runs(A, vn, e, st):
    counted(st, vn, "run")
    return T.inp(("U", "status"), "int")


def frspec(m):
    ev = {}
    for en in m.enums:
        if en["q"].endswith("::hiopSolveStatus"):
            ev = dict(map(tuple, en["vals"]))
    fr = {o: code(v) for o, v in (("duals_update_type", "linear"), ("duals_init", "zero"), ("KKTLinsys", "xdycyd"), ("warm_start", "yes"), ("scaling_type", "none"))}
    cl = {"FR." + o: (lambda s, v=v: P(v)) for o, v in fr.items()}
    cl.update({"FR." + o: (lambda s, o=o: T.inp(("OPTS", o), "int")) for o in ("Hessian", "compute_mode", "mem_space")})
    cl["FR.verbosity_level"] = lambda s: ZERO
    cl["FR.bound_relax_perturb"] = lambda s: ZERO
    cl["FR.mu0"] = lambda s: fmax(s.s("this._mu"), T.inp(("U", "theta"), "real"))
    u = T.inp(("U", "status"), "int")
    is_s = lambda *n: ONE - prodof([ONE - eq0(u - P(ev[x])) for x in n])
    cl["this.solver_status_"] = lambda s: T.ite(is_s("User_Stopped"), s.i("this.solver_status_"), T.ite(is_s("Solve_Success", "Solve_Acceptable_Level"), P(ev["Infeasible_Problem"]), P(ev["Error_In_FR"])))
    cl["CALLS.run"] = lambda s: ONE
    return dict(fn=IPM + "solve_feasibility_restoration", params="kkt nlpfr", asserts=False, frame=False, cells=cl, ret=lambda s: is_s("User_Stopped"),
                where=lambda f: "hiopNlpFormulation" in f["p"][1]["t"],
                models=dict(STORE, GetString=frget, SetStringValue=frset, SetNumericValue=frset, SetIntegerValue=frset, run=runs, getInfeasInfNorm=lambda A, vn, e, st: T.inp(("U", "theta"), "real"),
                            **{"new hiop::hiopAlgFilterIPMNewton": made("newton"), "new hiop::hiopAlgFilterIPM": made("qn")}),
                domain={("U", "status"): tuple(ev.values()), ("OPTS", "Hessian"): tuple(code(x) for x in VALUES["Hessian"])})


def prodof(l):
    r = ONE
    for x in l:
        r = r * x
    return r
