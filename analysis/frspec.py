"""Reference formulas of the feasibility restoration problem (property P17):
    min  rho sum(p_c + n_c + p_d + n_d) + zeta/2 ||D_R (x - x_R)||^2
    s.t. c(x) - p_c + n_c = c_rhs,  d_l <= d(x) - p_d + n_d <= d_u,  x_l <= x <= x_u,  p, n >= 0
with the reference point x_R, D_R = min(1, 1/|x_R|), zeta = sqrt(mu), variables in the order [x pc nc pd nd] or, for mixed dense-sparse problems,
[x_sparse pc nc pd nd x_dense] (equations (29)-(33) of the IPOPT implementation paper, which the code cites)."""
from term import *
import term as T
from vn import eq0, lt0, Ptr, inrng, phis, Phi
from vecspec import lt
import vn as V
import nlpmodels
from nlpmodels import rec, counted

P17 = []
HUGE = T.P(10 ** 20)
NX, MC, MD = (T.inp(("dim", c), "int") for c in "xcd")
NSP, NDE = T.inp(("dim", "sp"), "int"), T.inp(("dim", "de"), "int")
M_ = MC + MD


def U(tag, i, t="double"):
    return T.inp(("U", tag, str(i)), t)


def baseeval(A, vn, e, st):
    """an evaluation of the base problem: records what it is asked, fills its outputs with unknowns, may fail"""
    fn = (e.get("fq") or "").split("::")[-1]
    f = A.m.funcs.get(e["f"])
    pts = [p["t"] for p in f["p"]] if f else e.get("pt") or []
    counted(st, vn, fn)
    for i, (t, a) in enumerate(zip(pts, e["a"])):
        if "hiopVector" in t or "hiopMatrix" in t:
            o = A.obj(vn, a, st)
            if not isinstance(o, Ptr):
                return NotImplemented
            if "const" in t or i == 0 or fn == "eval_Hess_Lagr" and "hiopVector" in t:
                rec(st, vn, ("ARGP", fn, str(i)), o, "ptr")
                st.arr[("ARGA", fn, str(i), "data_")] = vn.content(o.base + ("data_",), st)
            elif "hiopVector" in t:
                vn.setcontent(o.base + ("data_",), A.rd(vn, st, ("U", fn, str(i)), ix(0)), st)
            else:
                rec(st, vn, ("ARGP", fn, str(i)), o, "ptr")
                vn.setcontent(o.base + ("M",), vn.read(("U", fn, str(i), "M"), [ix(0), ix(1)], "double", st), st, 2)
        elif t.rstrip().endswith("&") and "const" not in t:
            lv = vn.lval(a, st)
            if lv is None:
                return NotImplemented
            vn.store(lv, U(fn, i, vn.bare(t)), st)
        else:
            rec(st, vn, ("ARG", fn, str(i)), vn.num(A.arg(vn, a, st)), "bool" if t == "bool" else "real")
    return ONE if fn in A.succeed else T.inp(("U", fn, "ok"), "bool")


def extend(A, vn, e, st):
    """the extension of the Jacobian or Hessian of the base problem by the elastic variables, decided on its own"""
    fn = (e.get("fq") or "").split("::")[-1]
    counted(st, vn, fn)
    recv = A.obj(vn, e["o"], st)
    if isinstance(recv, Ptr):
        rec(st, vn, ("ARGP", fn, "this"), recv, "ptr")
    f = A.m.funcs.get(e["f"])
    pts = [p["t"] for p in f["p"]] if f else e.get("pt") or []
    for i, (t, a) in enumerate(zip(pts, e["a"])):
        o = A.obj(vn, a, st) if "&" in t else A.arg(vn, a, st)
        if isinstance(o, Ptr):
            rec(st, vn, ("ARGP", fn, str(i)), o, "ptr")
            if "hiopVector" in t:
                st.arr[("ARGA", fn, str(i), "data_")] = vn.content(o.base + ("data_",), st)
    return P(0)


def copied(A, vn, e, st):
    """the matrix is handed over as a plain array"""
    o, d = A.obj(vn, e["o"], st), A.arg(vn, e["a"][0], st)
    if not isinstance(o, Ptr) or not isinstance(d, Ptr):
        return NotImplemented
    counted(st, vn, "copy_to")
    rec(st, vn, ("ARGP", "copy_to", "to"), Ptr(d.base), "ptr")
    rec(st, vn, ("ARGP", "copy_to", "of"), o, "ptr")
    vn.setcontent(("ARGA", "copy_to", "M"), vn.content(o.base + ("M",), st, 2), st, 2)
    return P(0)


def getter(*path):
    def h(A, vn, e, st):
        b = tuple(path)
        vn.nonnull.add(b)
        return Ptr(b)
    return h


def member(name):
    """a part of an iterate or of the residual"""
    def h(A, vn, e, st):
        o = A.obj(vn, e["o"], st)
        if not isinstance(o, Ptr):
            return NotImplemented
        b = o.base + (name,)
        vn.nonnull.add(b)
        return Ptr(b)
    return h


def number(*path):
    return lambda A, vn, e, st: T.inp(tuple(path), "real")


BASE = "hiop::hiopAlgFilterIPMBase::"
IT = "hiop::hiopIterate::"
MODS = {"MPI_Bcast": lambda A, vn, e, st: P(0)}
MODS.update({BASE + "get_" + k: getter("BASE", v) for k, v in
        dict(c="c", d="d", Jac_c="Jc", Jac_d="Jd", Hess_Lagr="H", it_curr="it", it_trial_nonconst="trial", resid="resid", logbar="logbar").items()})
MODS[BASE + "get_it_trial"] = getter("BASE", "trial")
for k in ("x", "d", "zl", "zu", "vl", "vu", "sxl", "sxu", "sdl", "sdu", "yc", "yd"):
    MODS[IT + "get_" + k] = member(k)
MODS[BASE + "get_mu"] = number("BASE", "mu")
NLPS = ("hiop::hiopNlpFormulation", "hiop::hiopNlpSparse", "hiop::hiopNlpMDS", "hiop::hiopNlpDenseConstraints")
MODS[BASE + "get_nlp"] = getter("NLPB")


def integer(*path):
    return lambda A, vn, e, st: T.inp(tuple(path), "int")


for c in NLPS:
    MODS.update({c + "::m_eq": lambda A, vn, e, st: MC, c + "::m_ineq": lambda A, vn, e, st: MD, c + "::nx_sp": lambda A, vn, e, st: NSP, c + "::nx_de": lambda A, vn, e, st: NDE,
                 c + "::n": lambda A, vn, e, st: NSP + NDE if A.mds else NX})
    for w, n in (("c", "eq"), ("d", "ineq")):
        MODS[c + "::get_nnz_Jac" + n] = MODS[c + "::get_nnz_sp_Jac" + n] = integer("nnz", w)
    for n in ("eval_f", "eval_c_d", "eval_c", "eval_d", "eval_Jac_c_d", "eval_Jac_c", "eval_Jac_d", "eval_Hess_Lagr", "eval_grad_f"):
        MODS[c + "::" + n] = baseeval
    for n, v in dict(get_xl="xl_", get_xu="xu_", get_dl="dl_", get_du="du_", get_crhs="c_rhs_").items():
        MODS[c + "::" + n] = getter("NLPB", v)
for c in ("hiopMatrixDense", "hiopMatrixDenseRowMajor", "hiopMatrixSparse", "hiopMatrixSparseTriplet", "hiopMatrixSymSparseTriplet", "hiopMatrixMDS", "hiopMatrixSymBlockDiagMDS"):
    MODS["hiop::" + c + "::set_Jac_FR"] = extend
    MODS["hiop::" + c + "::set_Hess_FR"] = extend
    if "Dense" in c:
        MODS["hiop::" + c + "::copy_to"] = copied



def asked(tag, args):
    """records the numbers and vectors passed"""
    def h(A, vn, e, st):
        counted(st, vn, tag)
        for i in args:
            t = e["a"][i].get("t") or ""
            o = A.obj(vn, e["a"][i], st)
            if isinstance(o, Ptr):
                rec(st, vn, ("ARGP", tag, str(i)), o, "ptr")
            elif isinstance(o, Poly):
                rec(st, vn, ("ARG", tag, str(i)), o, "real")
        return T.inp(("U", tag, "ret"), "bool")
    return h


def trialbar(A, vn, e, st):
    """the barrier function of the base problem at its trial iterate"""
    counted(st, vn, "trialbar")
    o = A.obj(vn, e["a"][0], st)
    if isinstance(o, Ptr):
        rec(st, vn, ("ARGP", "trialbar", "it"), o, "ptr")
        for v in "xd":
            st.arr[("ARGA", "trialbar", v, "data_")] = vn.content(o.base + (v, "data_"), st)
    rec(st, vn, ("ARG", "trialbar", "f"), vn.num(A.arg(vn, e["a"][1], st)), "real")
    rec(st, vn, ("ARG", "trialbar", "safe"), st.cells.get(("CALLS", "safe"), ZERO), "int")
    k = ("BASE", "logbar", "f_logbar_trial")
    rec(st, vn, k, T.inp(("BAR",), "real"), "double")
    return P(0)


for c in ("hiopMatrixSparse", "hiopMatrixSparseTriplet", "hiopMatrixSymSparseTriplet"):
    MODS["hiop::" + c + "::numberOfOffDiagNonzeros"] = integer("offdiag")
MODS[BASE + "filter_contains"] = asked("filter", (0, 1))
MODS[IT + "compute_safe_slacks"] = asked("safe", (0, 1))
MODS["hiop::hiopLogBarProblem::updateWithNlpInfo_trial_funcOnly"] = trialbar
MODS["hiop::hiopResidual::get_theta"] = number("RES", "theta")
MODS["hiop::hiopResidual::get_nrmInf_bar_feasib"] = number("RES", "feas")
NAMES = dict(wrk_primal_="F", wrk_dual_="M", wrk_x_sp_="sp", wrk_x_de_="de", x_ref_="x", DR_="x", wrk_x_="x", last_x_="x", x="x", zl="x", zu="x", xl_="x", xu_="x", wrk_c_="c", wrk_eq_="c", wrk_cbody_="c", c="c", c_rhs_="c", wrk_d_="d",
             wrk_ineq_="d", wrk_dbody_="d", last_d_="d", d="d", vl="d", vu="d", dl_="d", du_="d")
SCRATCH = "this.wrk_x_ this.wrk_c_ this.wrk_eq_ this.wrk_cbody_ this.wrk_d_ this.wrk_ineq_ this.wrk_dbody_ this.wrk_primal_ this.wrk_dual_"


class L:
    """layout of the variables of one of the three classes"""

    def __init__(self, kind):
        self.kind = kind
        self.q = "hiop::hiopFRProb%s::" % kind
        self.split = NSP if kind == "MDS" else NX
        self.nx = NSP + NDE if kind == "MDS" else NX
        self.n = self.nx + 2 * MC + 2 * MD
        # start of the p and n blocks
        a = self.split
        self.st = {"pe": a, "ne": a + MC, "pi": a + 2 * MC, "ni": a + 2 * MC + MD}
        self.end = a + 2 * MC + 2 * MD

    def cells(self):
        c = {"this.n_x_": self.nx, "this.m_eq_": MC, "this.m_ineq_": MD, "this.n_": self.n, "this.m_": M_}
        c.update({"this.%s_st_" % k: v for k, v in self.st.items()})
        if self.kind == "MDS":
            c.update({"this.x_sp_st_": ZERO, "this.x_de_st_": self.end, "this.n_sp_": NSP + 2 * MC + 2 * MD, "this.n_de_": NDE, "this.n_x_sp_": NSP, "this.n_x_de_": NDE})
        if self.kind == "Dense":
            c.update({"this.rank_": ZERO, "this.comm_size_": ONE})
        return c

    def pos(self, k):
        """position of variable k of the base problem"""
        return k if self.kind != "MDS" else T.ite(lt(k, NSP), k, k + 2 * MC + 2 * MD)

    def cat(self, x, pe=None, ne=None, pi=None, ni=None, k=None):
        """entry k of a vector in the space of the restoration problem"""
        k = ix(0) if k is None else k
        z = lambda i: ZERO
        v = x(k) if self.kind != "MDS" else None
        blocks = [("ni", ni or z), ("pi", pi or z), ("ne", ne or z), ("pe", pe or z)]
        out = x(k - self.end + NSP) if self.kind == "MDS" else ZERO
        ends = {"pe": self.st["ne"], "ne": self.st["pi"], "pi": self.st["ni"], "ni": self.end}
        for n, f in blocks:
            out = T.ite(lt(k, ends[n]), f(k - self.st[n]), out)
        return T.ite(lt(k, self.split), x(k), out)


def lam(s, c, d, k=None):
    k = ix(0) if k is None else k
    return T.ite(lt(k, MC), c(k), d(k - MC))


def inr(n):
    return lambda s: inrng(ix(0), ZERO, n)


def p17(l, fn, params, **kw):
    dims = dict(NAMES)
    cells = l.cells()
    kw.setdefault("scratch", SCRATCH + (" this.wrk_x_sp_ this.wrk_x_de_" if l.kind == "MDS" else ""))
    kw["init_cells"] = {k: v for k, v in dict(cells, **kw.get("init_cells", {})).items() if v is not None}
    kw["dimval"] = {"F": l.n, "M": M_, "sp": NSP, "de": NDE, "x": l.nx}
    kw["models"] = dict(MODS, **kw.get("models", {}))
    ps = params.split()
    kw["dims"] = {k: v for k, v in dims.items() if k not in ps}
    if l.kind == "Dense":
        kw["init_arrs"] = {"this.col_partition_": lambda s: ZERO}
    kw.setdefault("frame", False)
    kw["asserts"] = False
    kw["mds"] = l.kind == "MDS"
    kw.update(fn=l.q + fn, params=params)
    P17.append(kw)


def X(l):
    """what the base problem is evaluated at"""
    return lambda s: s.a("x", l.pos(ix(0)))


for kind in ("Sparse", "MDS", "Dense"):
    l = L(kind)
    zeta, rho = (lambda s: s.s("this.zeta_")), (lambda s: s.s("this.rho_"))
    okf = T.inp(("U", "eval_f", "ok"), "bool")

    def obj(s, l=l, zeta=zeta, rho=rho):
        q = lambda k: s("this.DR_", k) * (s.a("x", l.pos(k)) - s("this.x_ref_", k))
        K = s.k()
        d = s.gsum(mksum(l.nx, q(K) * q(K), K))
        k = s.k()
        el = mksum(2 * MC + 2 * MD, s.a("x", l.split + k), k)
        return rho(s) * (s.gsum(el) if l.kind == "Dense" else el) + zeta(s) * (T.P(1) / 2) * d
    asked = {"CALLS.eval_f": lambda s: ONE, "ARG.eval_f.1": lambda s: s.b("new_x")}
    p17(l, "eval_f", "n x new_x obj_value", cells=dict(asked, **{"obj_value": obj, "this.obj_base_": lambda s: U("eval_f", 2)}), guard={"obj_value": lambda s, o=okf: o, "ARGA.eval_f.0.data_": inr(l.nx)},
        ret=lambda s, o=okf: o, arrs={"ARGA.eval_f.0.data_": X(l)})

    def diff(s, k, l=l):
        return s("this.DR_", k) * s("this.DR_", k) * (s.a("x", l.pos(k)) - s("this.x_ref_", k)) * zeta(s)
    # the generic position of the base variable behind entry k: the blocks are read through cat
    rr = lambda s: (lambda k: rho(s))
    p17(l, "eval_grad_f", "n x new_x gradf", arrs={"gradf": lambda s, l=l, diff=diff: l.cat(lambda k: diff(s, k), *[lambda k: rho(s)] * 4)}, guard={"gradf": inr(l.n)}, ret=lambda s: ONE)
    okcd = T.inp(("U", "eval_c_d", "ok"), "bool")

    def cons(s, l=l):
        def part(cd, i, a, b):
            return lambda k: s("U.eval_c_d.%d" % i, k) - s.a("x", l.st[a] + k) + s.a("x", l.st[b] + k)
        return lam(s, part("c", 2, "pe", "ne"), part("d", 3, "pi", "ni"))
    p17(l, "eval_cons", "n m x new_x cons", arrs={"cons": cons, "ARGA.eval_c_d.0.data_": X(l)}, guard={"cons": lambda s: inr(M_)(s) * okcd, "ARGA.eval_c_d.0.data_": inr(l.nx)},
        cells={"CALLS.eval_c_d": lambda s: ONE, "ARG.eval_c_d.1": lambda s: s.b("new_x")}, ret=lambda s: okcd)
    bnd = lambda s, v, e: (lambda s=s: None)
    p17(l, "get_vars_info", "n xlow xupp type", arrs={"xlow": lambda s, l=l: l.cat(lambda k: s("NLPB.xl_", k)), "xupp": lambda s, l=l: l.cat(lambda k: s("NLPB.xu_", k), *[lambda k: HUGE] * 4)},
        guard={"xlow": inr(l.n), "xupp": inr(l.n)}, ret=lambda s: ONE)
    p17(l, "get_cons_info", "m clow cupp type", arrs={"clow": lambda s: lam(s, lambda k: s("NLPB.c_rhs_", k), lambda k: s("NLPB.dl_", k)),
        "cupp": lambda s: lam(s, lambda k: s("NLPB.c_rhs_", k), lambda k: s("NLPB.du_", k))}, guard={"clow": inr(M_), "cupp": inr(M_)}, ret=lambda s: ONE)

    # elastic variables that minimise the barrier problem for fixed x (equation (33))
    def elastic(s, w, mu=None):
        r = lambda k: (s("BASE.c", k) - s("NLPB.c_rhs_", k)) if w == "c" else (s("BASE.d", k) - s("BASE.it.d", k))
        mu, rh = s.s("this.mu_"), rho(s)

        def n(k):
            a = (mu - rh * r(k)) / (2 * rh)
            return a + T.fn("sqrt", a * a + mu * r(k) / (2 * rh))
        return (lambda k: r(k) + n(k)), n
    POS = {"this.mu_": lambda s: T.inp(("mu_",), "pos"), "this.rho_": lambda s: T.inp(("rho_",), "pos")}

    def x0(s, l=l, elastic=elastic):
        return l.cat(lambda k: s("this.x_ref_", k), *elastic(s, "c"), *elastic(s, "d"))

    def zl0(s, l=l, elastic=elastic):
        return l.cat(lambda k: fmin(s("BASE.it.zl", k), rho(s)), *[(lambda k, f=f: s.s("this.mu_") / f(k)) for f in elastic(s, "c") + elastic(s, "d")])
    p17(l, "get_warmstart_point", "n m x0 z_bndL0 z_bndU0 lambda0 ineq_slack vl0 vu0", eqm=POS,
        arrs={"x0": x0, "z_bndL0": zl0, "z_bndU0": lambda s, l=l: l.cat(lambda k: fmin(s("BASE.it.zu", k), rho(s))), "lambda0": lambda s: ZERO, "ineq_slack": lambda s: s("BASE.it.d"),
              "vl0": lambda s: fmin(s("BASE.it.vl"), rho(s)), "vu0": lambda s: fmin(s("BASE.it.vu"), rho(s))},
        guard={"x0": inr(l.n), "z_bndL0": inr(l.n), "z_bndU0": inr(l.n), "lambda0": inr(M_), "ineq_slack": inr(MD), "vl0": inr(MD), "vu0": inr(MD)}, ret=lambda s: ONE)
    p17(l, "force_update_x", "n x", eqm=POS, arrs={"x": lambda s, l=l, elastic=elastic: l.cat(lambda k: s.a("x", l.pos(k)), *elastic(s, "c"), *elastic(s, "d"))},
        guard={"x": inr(l.n)}, ret=lambda s: ONE)

    # derivatives: those of the base problem, extended by the elastic variables
    okj = T.inp(("U", "eval_Jac_c_d", "ok"), "bool")
    jp = {"ARGP.set_Jac_FR.this": "this.Jac_cd_", "ARGP.set_Jac_FR.0": "BASE.Jc", "ARGP.set_Jac_FR.1": "BASE.Jd"}
    jpar = {"Sparse": "n m x new_x nnzJacS iJacS jJacS MJacS", "MDS": "n m x new_x nsparse ndense nnzJacS iJacS jJacS MJacS JacD", "Dense": "n m x new_x Jac"}[kind]
    if kind != "Dense":
        jp.update({"ARGP.set_Jac_FR.2": "iJacS", "ARGP.set_Jac_FR.3": "jJacS", "ARGP.set_Jac_FR.4": "MJacS"})
    else:
        jp.update({"ARGP.copy_to.to": "Jac", "ARGP.copy_to.of": "this.Jac_cd_"})
    if kind == "MDS":
        jp["ARGP.set_Jac_FR.5"] = "JacD"
    p17(l, "eval_Jac_cons", jpar, nonnull=["MJacS"] if kind != "Dense" else ["Jac"], ret=lambda s: okj, arrs={"ARGA.eval_Jac_c_d.0.data_": X(l)}, guard={"ARGA.eval_Jac_c_d.0.data_": inr(l.nx), "CALLS.set_Jac_FR": lambda s: okj},
        cells={"CALLS.eval_Jac_c_d": lambda s: ONE, "ARG.eval_Jac_c_d.1": lambda s: s.b("new_x"), "CALLS.set_Jac_FR": lambda s: ONE},
        ptrs={"ARGP.eval_Jac_c_d.2": "BASE.Jc", "ARGP.eval_Jac_c_d.3": "BASE.Jd"})
    # (where the extension is called: only if the evaluation succeeded)
    p17(l, "eval_Jac_cons", jpar, nonnull=["MJacS"] if kind != "Dense" else ["Jac"], succeed=["eval_Jac_c_d"], ptrs=jp)
    if kind != "Dense":
        hp = {"ARGP.set_Hess_FR.this": "this.Hess_cd_", "ARGP.set_Hess_FR.0": "BASE.H", "ARGP.set_Hess_FR.1": "iHSS", "ARGP.set_Hess_FR.2": "jHSS", "ARGP.set_Hess_FR.3": "MHSS"}
        add = lambda s, k: zeta(s) * s("this.DR_", k) * s("this.DR_", k)
        if kind == "MDS":
            hp["ARGP.set_Hess_FR.4"] = "HDD"
            arr = {"ARGA.set_Hess_FR.5.data_": (lambda s: add(s, ix(0)), NSP), "ARGA.set_Hess_FR.6.data_": (lambda s: add(s, ix(0) + NSP), NDE)}
            par = "n m x new_x obj_factor lambda new_lambda nsparse ndense nnzHSS iHSS jHSS MHSS HDD nnzHSD iHSD jHSD MHSD"
        else:
            arr = {"ARGA.set_Hess_FR.4.data_": (lambda s: add(s, ix(0)), l.nx)}
            par = "n m x new_x obj_factor lambda new_lambda nnzHSS iHSS jHSS MHSS"
        arr.update({"ARGA.eval_Hess_Lagr.0.data_": (X(l), l.nx), "ARGA.eval_Hess_Lagr.3.data_": (lambda s: s.a("lambda"), MC), "ARGA.eval_Hess_Lagr.4.data_": (lambda s: s.a("lambda", ix(0) + MC), MD)})
        p17(l, "eval_Hess_Lagr", par, nonnull=["MHSS"], succeed=["eval_Hess_Lagr"], arrs={a: f for a, (f, _) in arr.items()}, guard={a: inr(n) for a, (_, n) in arr.items()}, ret=lambda s: ONE,
            cells={"CALLS.eval_Hess_Lagr": lambda s: ONE, "CALLS.set_Hess_FR": lambda s: ONE, "ARG.eval_Hess_Lagr.1": lambda s: s.b("new_x"), "ARG.eval_Hess_Lagr.2": lambda s: ZERO,
                   "ARG.eval_Hess_Lagr.5": lambda s: s.b("new_lambda")}, ptrs=dict(hp, **{"ARGP.eval_Hess_Lagr.6": "BASE.H"}))
        p17(l, "eval_Hess_Lagr", par, nonnull=["MHSS"], ret=lambda s: T.inp(("U", "eval_Hess_Lagr", "ok"), "bool"))

        for call, cpar, ev_ in (("eval_Hess_Lagr", par, "set_Hess_FR"), ("eval_Jac_cons", jpar, "set_Jac_FR")):
            # the structure is asked for: nothing is evaluated
            i = cpar.split().index("MHSS" if "Hess" in call else "MJacS")
            p17(l, call, cpar, args={i: lambda s: V.NULL}, cells={"CALLS.eval_Hess_Lagr": lambda s: ZERO, "CALLS.eval_Jac_c_d": lambda s: ZERO, "CALLS." + ev_: lambda s: ONE}, ret=lambda s: ONE,
                ptrs={k: v for k, v in (hp if "Hess" in call else jp).items() if v not in ("MHSS", "MJacS")})

    # construction at the current iterate of the base problem
    def built(l, rho_of=None):
        c = {k: (lambda s, v=v: v) for k, v in l.cells().items() if k not in ("this.rank_", "this.comm_size_")}
        m0 = fmax(T.inp(("BASE", "mu"), "real"), T.inp(("RES", "feas"), "real"))
        c.update({"this.mu_": lambda s: m0, "this.zeta_": lambda s: T.fn("sqrt", m0), "this.theta_ref_": lambda s: T.inp(("RES", "theta"), "real"), "this.nrmInf_feas_ref_": lambda s: T.inp(("RES", "feas"), "real"),
                  "this.rho_": lambda s: T.P(1000)})
        if l.kind != "Dense":
            pre = "sp_" if l.kind == "MDS" else ""
            for w, d in (("c", MC), ("d", MD)):
                c["this.nnz_%sJac_%s_" % (pre, w)] = lambda s, w=w, d=d: T.inp(("nnz", w), "int") + 2 * d
            c["this.nnz_sp_Hess_Lagr_SS_" if pre else "this.nnz_Hess_Lag_"] = lambda s, l=l: l.split + T.inp(("offdiag",), "int")
        return c
    p17(l, "hiopFRProb" + kind, "solver_base", init_cells={k: None for k in l.cells()}, cells=built(l), ptrs={"this.x_ref_": "BASE.it.x"}, scratch="",
        outp={"this.DR_": lambda s: fmin(ONE, ONE / fabs(s("BASE.it.x")))}, facts=lambda s: [ONE - eq0(s("BASE.it.x"))])

    # stopping test: feasible enough for the base problem and acceptable to its filter
    def errs(s):
        rc = lambda k: s("U.eval_c_d.2", k) - s("NLPB.c_rhs_", k)
        rd = lambda k: s("U.eval_c_d.3", k) - s.a("s", k)
        k = s.k()
        th = s.gsum(mksum(MC, fabs(rc(k)), k)) + s.gsum(mksum(MD, fabs(rd(k)), k))
        inf = fmax(s.gmax(s.inf("c", rc)), s.gmax(s.inf("d", rd)))
        return th, inf

    def close(s, errs=errs):
        return (ONE - lt(T.inp(("opt", "kappa_resto"), "real") * s.s("this.nrmInf_feas_ref_"), errs(s)[1])) * lt(ZERO, s.i("iter"))

    def done(s, close=close):
        return close(s) * (ONE - T.inp(("U", "filter", "ret"), "bool"))
    ipar = "iter obj_value logbar_obj_value n x z_L z_U m_ineq s m g lambda inf_pr inf_du onenorm_pr mu alpha_du alpha_pr ls_trials"
    xx = lambda s, l=l: s.a("x", l.pos(ix(0)))
    p17(l, "iterate_callback", ipar, ret=lambda s, done=done: ONE - done(s), init_cells={"ARG.filter.0": ZERO, "ARG.filter.1": ZERO, "ARG.trialbar.f": ZERO, "ARG.trialbar.safe": ZERO}, cells={
        "ARG.filter.0": lambda s, errs=errs: errs(s)[0], "ARG.filter.1": lambda s: T.inp(("BAR",), "real"), "CALLS.filter": lambda s, close=close: close(s), "ARG.eval_c_d.1": lambda s: ONE,
        "ARG.trialbar.f": lambda s: s.s("this.obj_base_"), "ARG.trialbar.safe": lambda s: ONE, "this.mu_": lambda s: s.s("mu"), "this.zeta_": lambda s: T.fn("sqrt", s.s("mu"))},
        arrs={"ARGA.eval_c_d.0.data_": xx, "ARGA.trialbar.x.data_": xx, "ARGA.trialbar.d.data_": lambda s: s.a("s")}, out={"this.last_x_": xx, "this.last_d_": lambda s: s.a("s")},
        guard={"ARG.filter.0": close, "ARG.filter.1": close, "ARG.trialbar.f": close, "ARG.trialbar.safe": close, "this.mu_": lambda s, d=done: ONE - d(s), "this.zeta_": lambda s, d=done: ONE - d(s),
               "this.last_x_": done, "this.last_d_": done, "ARGA.eval_c_d.0.data_": inr(l.nx), "ARGA.trialbar.x.data_": lambda s, c=close, l=l: c(s) * inr(l.nx)(s), "ARGA.trialbar.d.data_": lambda s, c=close: c(s) * inr(MD)(s)})
    p17(l, "get_prob_sizes", "n m", cells={"n": lambda s, l=l: l.n, "m": lambda s: M_}, ret=lambda s: ONE)

P17.append(dict(fn="hiop::hiopFRProbSparse::get_sparse_blocks_info", params="nx nnz_c nnz_d nnz_h", asserts=False, ret=lambda s: ONE,
                cells={"nx": lambda s: s.i("this.n_"), "nnz_c": lambda s: s.i("this.nnz_Jac_c_"), "nnz_d": lambda s: s.i("this.nnz_Jac_d_"), "nnz_h": lambda s: s.i("this.nnz_Hess_Lag_")}))
P17.append(dict(fn="hiop::hiopFRProbMDS::get_sparse_dense_blocks_info", params="nxs nxd nnz_c nnz_d nnz_h nnz_sd", asserts=False, ret=lambda s: ONE,
                cells={"nxs": lambda s: s.i("this.n_sp_"), "nxd": lambda s: s.i("this.n_de_"), "nnz_c": lambda s: s.i("this.nnz_sp_Jac_c_"), "nnz_d": lambda s: s.i("this.nnz_sp_Jac_d_"),
                       "nnz_h": lambda s: s.i("this.nnz_sp_Hess_Lagr_SS_"), "nnz_sd": lambda s: s.i("this.nnz_sp_Hess_Lagr_SD_")}))

# ---------------------------------------------------------------- mixed dense-sparse matrices: the dense block has no elastic columns
MDSC = "hiop::hiopMatrixMDS::"
DN = T.inp(("dim", "de"), "int")


def blocks(s):
    return T.ite(lt(ix(0), MC), s.m("Jac_c.de_mat"), s.m("Jac_d.de_mat", ix(0) - MC, ix(1)))


SUB = {k: v for k, v in MODS.items() if k.endswith("_FR") and "Sparse" in k or k.endswith("::copy_to")}
P17.append(dict(fn=MDSC + "set_Jac_FR", params="Jac_c Jac_d iJacS jJacS MJacS JacD", models=SUB, frame=False, asserts=False,
                mdims={"ARGA.copy_to": lambda s: (MC + MD, DN), "this.mDe": lambda s: (MC + MD, DN), "Jac_c.de_mat": lambda s: (MC, DN), "Jac_d.de_mat": lambda s: (MD, DN)}, mats={"this.mDe": blocks, "ARGA.copy_to": blocks},
                ptrs={"ARGP.set_Jac_FR.this": "this.mSp", "ARGP.set_Jac_FR.0": "Jac_c.sp_mat", "ARGP.set_Jac_FR.1": "Jac_d.sp_mat", "ARGP.set_Jac_FR.2": "iJacS", "ARGP.set_Jac_FR.3": "jJacS", "ARGP.set_Jac_FR.4": "MJacS", "ARGP.copy_to.to": "JacD"}))
P17.append(dict(fn="hiop::hiopMatrixSymBlockDiagMDS::set_Hess_FR", params="Hess iHSS jHSS MHSS MHDD add_sp add_de", models=SUB, frame=False, asserts=False,
                dims={"add_sp": "sp", "add_de": "de"}, dimval={"sp": NSP, "de": NDE},
                mdims={"ARGA.copy_to": lambda s: (NDE, NDE), "this.mDe": lambda s: (NDE, NDE), "Hess.de_mat": lambda s: (NDE, NDE)}, mats={k: lambda s: s.m("Hess.de_mat") + eq0(ix(0) - ix(1)) * s("add_de") for k in ("this.mDe", "ARGA.copy_to")},
                ptrs={"ARGP.set_Hess_FR.this": "this.mSp", "ARGP.set_Hess_FR.0": "Hess.sp_mat", "ARGP.set_Hess_FR.1": "iHSS", "ARGP.set_Hess_FR.2": "jHSS", "ARGP.set_Hess_FR.3": "MHSS", "ARGP.set_Hess_FR.4": "add_sp", "ARGP.copy_to.to": "MHDD"}))
