"""Reference formulas of the filter line-search (P14): filter, acceptance test (18)-(20) of Waechter & Biegler, second-order correction, augmentation of the filter."""
from fractions import Fraction
import term as T
from term import *
from vn import eq0, lt0, Ptr, Give
from core import walk, calls, strip_soft, path
import alg

P14 = []
FI, IPM = "hiop::hiopFilter::", "hiop::hiopAlgFilterIPMBase::"
FE = ("hiop::hiopFilter::FilterEntry",)


def p14(fn, params, **kw):
    P14.append(dict(fn=fn, params=params, **kw))


def le(a, b):
    """a <= b"""
    return ONE - lt0(b - a, False)


def NOT(a):
    return ONE - a


def OR(*a):
    v = ONE
    for x in a:
        v = v * NOT(x)
    return NOT(v)


# ---- the filter is the union of the corners of its entries
def rec(st, vn, key, v, t="double"):
    st.cells[key] = v
    vn.celltypes[key] = t


def entry(A, vn, e, st):
    """(theta, phi) given to an insertion"""
    a = e["a"] if not (e.get("fq") or "").endswith(("insert", "emplace")) else e["a"][1:]
    if len(a) == 2:
        return [vn.num(A.arg(vn, x, st)) for x in a]
    v = A.obj(vn, a[0], st)
    if not isinstance(v, Ptr):
        return None
    return [vn.getcell(v.base + (n,), "double", st) for n in ("theta", "phi")]


def insert(A, vn, e, st):
    if not (e.get("fq") or "").startswith("std::"):
        return NotImplemented
    v = entry(A, vn, e, st)
    if v is None:
        return NotImplemented
    n = vn.getcell(("FILT", "n"), "int", st)
    rec(st, vn, ("FILT", "n"), n + 1, "int")
    rec(st, vn, ("FILT", "theta"), v[0])
    rec(st, vn, ("FILT", "phi"), v[1])
    return P(0)


def clear(A, vn, e, st):
    if not (e.get("fq") or "").startswith("std::"):
        return NotImplemented
    rec(st, vn, ("FILT", "n"), ZERO, "int")
    return P(0)


LIST = {n: insert for n in ("push_front", "push_back", "emplace_front", "emplace_back", "insert", "emplace")}
LIST["clear"] = clear
for K in range(5):
    def f(s, K=K):
        return OR(*[le(T.inp(("elem", i, "theta"), "real"), s.s("theta")) * le(T.inp(("elem", i, "phi"), "real"), s.s("phi")) for i in range(K)])
    p14(FI + "contains", "theta phi", ret=f, lists={"*": K}, unroll=K + 2, frame=False)
FILT = {"FILT.theta": lambda s: s.s("theta"), "FILT.phi": lambda s: s.s("phi"), "FILT.n": lambda s: s.i("FILT.n") + 1}
p14(FI + "add", "theta phi", cells=FILT, models=LIST, values=FE, frame=False)
for n in ("initialize", "reinitialize"):
    p14(FI + n, "theta", cells={"FILT.theta": lambda s: s.s("theta"), "FILT.phi": lambda s: P(-1e20), "FILT.n": lambda s: ONE}, models=LIST, values=FE, frame=False)

# ---- acceptance of a trial point
CONT = T.inp(("CONTAINS",), "bool")
SLOPE = T.inp(("SLOPE",), "real")


def contains(A, vn, e, st):
    a = [vn.num(A.arg(vn, x, st)) for x in e["a"]]
    rec(st, vn, ("ARG", "theta"), a[0])
    rec(st, vn, ("ARG", "phi"), a[1])
    return CONT


def slope(A, vn, e, st):
    p = A.obj(vn, e["a"][0], st)
    rec(st, vn, ("ARGP", "slope"), p if isinstance(p, Ptr) else T.opq("direction"), "ptr")
    return SLOPE


TEST = {FI + "contains": contains, "hiop::hiopLogBarProblem::directionalDerivative": slope}
NEWPHI, PHI = "this.logbar.f_logbar_trial", "this.logbar.f_logbar"


def conds(s):
    """(switching condition (19), Armijo condition (20)) for given slope"""
    def switching(g, alpha):
        theta = s.s("theta")
        return lt0(g, False) * lt0(s.s("this.delta") * T.fn("pow", theta, s.s("this.s_theta")) - alpha * T.fn("pow", -g, s.s("this.s_phi")), False)

    def armijo(g, alpha):
        return le(s.s(NEWPHI), s.s(PHI) + s.s("this.eta_phi") * alpha * g)
    return switching, armijo


def suff(s):
    return OR(le(s.s("theta_trial"), (ONE - s.s("this.gamma_theta")) * s.s("theta")), le(s.s(NEWPHI), s.s(PHI) - s.s("this.gamma_phi") * s.s("theta")))


def passed(s):
    far = le(s.s("this.theta_min"), s.s("theta"))
    g = T.ite(s.b("computed"), s.s("g"), SLOPE)
    sw, ar = conds(s)
    sw, ar = sw(g, s.s("alpha")), ar(g, s.s("alpha"))
    return T.ite(far, suff(s), T.ite(sw, P(3) * ar, P(2) * suff(s)))


def isok(s):
    return NOT(eq0(passed(s)))


near = lambda s: NOT(le(s.s("this.theta_min"), s.s("theta")))
p14(IPM + "accept_line_search_conditions", "theta theta_trial alpha computed g", models=TEST, frame=False,
    ret=lambda s: NOT(CONT) * passed(s),
    cells={"ARG.theta": lambda s: s.s("theta_trial"), "ARG.phi": lambda s: s.s(NEWPHI),
           "computed": lambda s: T.ite(near(s), ONE, s.b("computed")), "g": lambda s: T.ite(near(s) * NOT(s.b("computed")), SLOPE, s.s("g"))},
    guard={"ARG.theta": isok, "ARG.phi": isok, "computed": near, "g": near})


# ---- augmentation of the filter after the line search: the statements between the line search and the next decision
def adds(A, vn, e, st):
    a = [vn.num(A.arg(vn, x, st)) for x in e["a"]]
    n = vn.getcell(("FILT", "n"), "int", st)
    rec(st, vn, ("FILT", "n"), n + 1, "int")
    rec(st, vn, ("FILT", "theta"), a[0])
    rec(st, vn, ("FILT", "phi"), a[1])
    return P(0)


def slices(m, roots):
    """synthetic functions for the statements after the line search, with the locals they share with the rest as parameters"""
    out = []
    for f in roots:
        def isls(s):
            return any((c.get("fq") or "").endswith("::accept_line_search_conditions") for c in calls(s))
        # the innermost loop around the acceptance test, and the statements after it
        best = None
        for b in walk(f["body"]):
            if b.get("k") != "Block":
                continue
            for i, s in enumerate(b["b"]):
                if s["k"] in ("While", "For", "Do", "DoWhile") and isls(s):
                    best = (b["b"], i, s)
        if best is None:
            continue
        blk, i, loop = best
        call = [c for c in calls(loop) if (c.get("fq") or "").endswith("::accept_line_search_conditions")][0]
        status = None
        for n in walk(loop):
            if n.get("k") == "Bin" and n.get("op") == "=" and any(c is call for c in calls(n["y"])) and strip_soft(n["x"])["k"] == "Ref":
                status = strip_soft(n["x"])["id"]
            if n.get("k") == "Var" and n.get("init") is not None and any(c is call for c in calls(n["init"])):
                status = None
        roles = {}
        if status is not None:
            roles["ls"] = status
        for nm, a in zip(("theta", "theta_trial", "alpha", "computed", "g"), call["a"]):
            a = strip_soft(a)
            if a["k"] == "Ref":
                roles[nm] = a["id"]
            elif path(a) != ("this", "_alpha_primal"):
                roles = {}
                break
        rest = []
        for s in blk[i + 1:]:
            if any((c.get("fq") or "").endswith(("::evalNlp_derivOnly", "hiopDualsUpdater::go")) for c in calls(s)):
                break
            rest.append(s)
        declared = {v["id"] for s in rest for v in walk(s) if v.get("k") == "Var"}
        free = {}
        for s in rest:
            for n in walk(s):
                if n.get("k") == "Ref" and n.get("dk") in ("var", "parm") and n["id"] not in declared:
                    free.setdefault(n["id"], n)
        ps, names = [], []
        inv = {v: k for k, v in roles.items()}
        for j, (d, n) in enumerate(sorted(free.items())):
            t = n["t"].replace("const ", "")
            ps.append({"id": d, "n": n["n"], "t": t if t.endswith(("&", "*")) else t + " &"})
            names.append(inv.get(d, "v%d" % j))
        g = dict(f, id="%s#afterlinesearch" % f["id"], p=ps, body={"k": "Block", "b": rest, "l": f["l"]}, inits=())
        out.append((f, g, names, set(roles) == {"ls", "theta", "theta_trial", "computed", "g"} and set(roles) <= set(names)))
    return out


AFTER = {FI + "add": adds, "hiop::hiopLogBarProblem::directionalDerivative": slope, "hiop::hiopNlpFormulation::adjust_bounds": lambda A, vn, e, st: P(0),
         "hiop::hiopResidual::compute_nlp_infeasib_onenorm": lambda A, vn, e, st: T.inp(("THETA2",), "real"),
         "apply_feasibility_restoration": lambda A, vn, e, st: T.inp(("FR",), "bool")}
FORCED = T.inp(("optis", "force_resto", "yes"), "bool")
FREE = lambda s: NOT(FORCED)


def after(g, names):
    """the filter is augmented with the accepted trial point unless both the switching and the Armijo condition hold for it"""
    out = []
    for ls in (1, 2, 3):
        def n(s, ls=ls):
            gr = T.ite(s.b("computed"), s.s("g"), SLOPE)
            sw, ar = conds(s)
            al = s.s("this._alpha_primal")
            return {1: NOT(sw(gr, al) * ar(gr, al)), 2: ONE, 3: ZERO}[ls]
        out.append(dict(fn=g["q"], func=g, params=" ".join(names), models=AFTER, frame=False, slice=True,
                        init_cells={"FILT.n": 0, "ls": ls},
                        cells=dict({"FILT.n": n}, **({} if ls == 3 else {"FILT.theta": lambda s: s.s("theta_trial"), "FILT.phi": lambda s: s.s(NEWPHI)})),
                        guard={"FILT.n": FREE, "FILT.theta": lambda s, n=n: FREE(s) * n(s), "FILT.phi": lambda s, n=n: FREE(s) * n(s)}))
    return out


# ---- second-order correction: right-hand sides, step, acceptance, for one and two corrections
def n_of(st, vn, tag):
    k = ("CALLS", tag)
    v = st.cells.get(k, ZERO)
    v = v.const() if isinstance(v, Poly) else None
    if v is None:
        raise Give("number of calls")
    rec(st, vn, k, P(v + 1), "int")
    return int(v)


def upd_soc(A, vn, e, st):
    i = n_of(st, vn, "update_soc")
    for j, nm in ((0, "it"), (1, "c"), (2, "d"), (3, "grad"), (6, "logbar")):
        v = A.obj(vn, e["a"][j], st)
        if not isinstance(v, Ptr):
            raise Give("argument of update_soc")
        rec(st, vn, ("SOC", str(i), nm), v, "ptr")
        if nm in "cd":
            st.arr[("SOC", str(i), nm + "rhs", "data_")] = vn.content(v.base + ("data_",), st)
    rec(st, vn, ("SOC", str(i), "resid"), A.obj(vn, e["o"], st), "ptr")
    return P(0)


def ptrs(tag, idx, ret=None, outs=(), o=None, nums=()):
    def h(A, vn, e, st):
        i = n_of(st, vn, tag)
        for j, nm in idx:
            v = A.obj(vn, e["a"][j] if j >= 0 else e["o"], st)
            if not isinstance(v, Ptr):
                raise Give("argument of " + tag)
            rec(st, vn, (tag, str(i), nm), v, "ptr")
        for j, nm in nums:
            rec(st, vn, (tag, str(i), nm), vn.num(A.arg(vn, e["a"][j], st)))
        for j, nm in outs:
            vn.store(vn.lval(e["a"][j], st), T.inp((tag, str(i), nm), "real"), st)
        return T.inp((tag, str(i), "ret"), ret) if ret else P(0)
    return h


def trial(A, vn, e, st):
    i = n_of(st, vn, "EV")
    for j, nm in ((2, "c"), (3, "d")):
        v = A.obj(vn, e["a"][j], st)
        if not isinstance(v, Ptr):
            raise Give("argument of the evaluation")
        vn.setcontent(v.base + ("data_",), A.rd(vn, st, ("EV", str(i), nm), ix(0)), st)
    return T.inp(("EV", str(i), "ok"), "bool")


def step_primals(A, vn, e, st):
    i = n_of(st, vn, "STEP")
    for j, nm in ((-1, "to"), (0, "from"), (1, "dir")):
        v = A.obj(vn, e["a"][j] if j >= 0 else e["o"], st)
        if not isinstance(v, Ptr):
            raise Give("argument of the step")
        rec(st, vn, ("STEP", str(i), nm), v, "ptr")
        if nm == "to":
            vn.setcontent(v.base + ("d", "data_"), A.rd(vn, st, ("STEP", str(i), "dnew"), ix(0)), st)
    rec(st, vn, ("STEP", str(i), "alpha"), vn.num(A.arg(vn, e["a"][2], st)))
    return ONE


def copied(tag):
    def h(A, vn, e, st):
        a, b = A.obj(vn, e["o"], st), A.obj(vn, e["a"][0], st)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Give("copy")
        rec(st, vn, ("COPIED",) + a.base, T.inp(("id",) + b.base, "real"))
        return P(0)
    return h


R = "hiop::hiopResidual::"
IT = "hiop::hiopIterate::"
SOCM = {R + "update_soc": upd_soc, "hiop::hiopKKTLinSys::computeDirections": ptrs("DIR", ((0, "rhs"), (1, "dir")), "bool"),
        IT + "fractionToTheBdry": ptrs("FTB", ((-1, "it"), (0, "dir")), "bool", ((2, "ap"), (3, "ad")), nums=((1, "tau"),)),
        IT + "takeStep_primals": step_primals, IT + "compute_safe_slacks": ptrs("SLK", ((-1, "it"), (0, "from")), "int", nums=((1, "mu"),)),
        "evalNlp_funcOnly": trial, R + "compute_nlp_infeasib_onenorm": ptrs("THE", (), "real"),
        "updateWithNlpInfo_trial_funcOnly": lambda A, vn, e, st: P(0),
        "accept_line_search_conditions": ptrs("ACC", (), "int", nums=((0, "theta"), (1, "trial"))),
        IT + "copyFrom": copied("it"), R + "copyFrom": copied("resid"),
        "hiop::hiopNlpFormulation::get_crhs": lambda A, vn, e, st: Ptr(("NLP", "c_rhs_"))}


def socopt(n):
    def h(A, vn, e, st):
        lit = [x for x in walk(e["a"][0]) if x.get("k") == "Str"]
        return P(n) if len(lit) == 1 and lit[0]["v"] == "max_soc_iter" else NotImplemented
    return h


def socspec(N):
    i = lambda t, *a: T.inp(a, t)
    crhs = lambda s: s("NLP.c_rhs_")
    ap = [T.inp(("FTB", str(k), "ap"), "real") for k in range(N)]
    acc = [T.inp(("ACC", str(k), "ret"), "int") for k in range(N)]
    the = [T.inp(("THE", str(k), "ret"), "real") for k in range(N)]
    evok = [T.inp(("EV", str(k), "ok"), "bool") for k in range(N)]

    def rhs(s, k, v):
        """right-hand side of the k-th correction"""
        cur = lambda n: s("this._c") if n == "c" else s("this._d")
        tr = lambda n, k: s("this._%s_trial" % n) if k == 0 else s("EV.%d.%s" % (k - 1, n))
        if v == "c":
            c = crhs(s) - cur("c")
            for j in range(k + 1):
                c = c * (s.s("this._alpha_primal") if j == 0 else ap[j - 1]) + crhs(s) - tr("c", j)
            return c
        c = s("this.it_curr.d") - cur("d")
        for j in range(k + 1):
            c = c * (s.s("this._alpha_primal") if j == 0 else ap[j - 1]) + (s("this.it_trial.d") if j == 0 else s("STEP.%d.dnew" % (j - 1))) - tr("d", j)
        return c

    # the k-th correction is tried
    def on(s, k):
        v = ONE
        for j in range(k):
            last = s.s("theta_trial") if j == 0 else the[j - 1]
            v = v * evok[j] * NOT(lt0(-acc[j], True)) * le(the[j], T.inp(("opt", "kappa_soc"), "real") * last)
        return v
    kw = dict(cells={}, guard={}, ptrs={}, arrs={})

    def done(s, k):
        """accepted at the k-th correction"""
        return on(s, k) * evok[k] * lt0(-acc[k], True)

    def ret(s):
        v = acc[N - 1] if N else ZERO
        e = P(ERR)
        for k in reversed(range(N)):
            nxt = v if k == N - 1 else T.ite(lt0(-acc[k], True), acc[k], T.ite(le(the[k], T.inp(("opt", "kappa_soc"), "real") * (s.s("theta_trial") if k == 0 else the[k - 1])), v, acc[k]))
            v = T.ite(evok[k], nxt, e)
        return v

    def alpha(s):
        v = s.s("this._alpha_primal")
        for k in range(N):
            v = T.ite(done(s, k), ap[k], v)
        return v
    kw["cells"]["this._alpha_primal"] = alpha
    anydone = lambda s: NOT(eq0(sum((done(s, k) for k in range(N)), ZERO)))
    for k in range(N):
        if k == 0:
            for nm, b in (("it", "this.it_curr"), ("resid", "this.resid_trial"), ("grad", "this._grad_f"), ("logbar", "this.logbar")):
                kw["ptrs"]["SOC.0." + nm] = b
            kw["ptrs"].update({"DIR.0.rhs": "this.resid_trial", "FTB.0.it": "this.it_curr", "STEP.0.to": "this.it_trial", "STEP.0.from": "this.it_curr",
                               "SLK.0.it": "this.it_trial", "SLK.0.from": "this.it_curr"})
        kw["arrs"]["SOC.%d.crhs.data_" % k] = lambda s, k=k: rhs(s, k, "c")
        kw["arrs"]["SOC.%d.drhs.data_" % k] = lambda s, k=k: rhs(s, k, "d")
        kw["cells"]["STEP.%d.alpha" % k] = lambda s, k=k: ap[k]
        kw["cells"]["FTB.%d.tau" % k] = lambda s: s.s("this._tau")
        kw["cells"]["ACC.%d.theta" % k] = lambda s: s.s("theta")
        kw["cells"]["ACC.%d.trial" % k] = lambda s, k=k: the[k]
        for n in ("STEP.%d.alpha", "FTB.%d.tau", "SOC.%d.crhs.data_", "SOC.%d.drhs.data_"):
            kw["guard"][n % k] = lambda s, k=k: on(s, k)
        for n in ("ACC.%d.theta", "ACC.%d.trial"):
            kw["guard"][n % k] = lambda s, k=k: on(s, k) * evok[k]
    kw["cells"]["COPIED.this.dir"] = lambda s: T.inp(("id", "this", "soc_dir"), "real")
    kw["cells"]["COPIED.this.resid"] = lambda s: T.inp(("id", "this", "resid_trial"), "real")
    kw["guard"]["COPIED.this.dir"] = kw["guard"]["COPIED.this.resid"] = anydone
    if not N:
        kw = dict(cells={"this._alpha_primal": lambda s: s.s("this._alpha_primal")})
    p14(IPM + "apply_second_order_correction", "kkt theta theta_trial computed g nslacks", models=dict(SOCM, GetInteger=socopt(N)), frame=False, ret=ret, unroll=N + 1,
        nonnull=["this.soc_dir", "this.dir", "this.it_curr", "this.it_trial", "kkt"], dims={"c_soc": "c", "d_soc": "d", "_c": "c", "_d": "d", "_c_trial": "c", "_d_trial": "d", "c_rhs_": "c"}, **kw)


ERR = -15           # Error_In_User_Function
for N in range(3):
    socspec(N)


# ---- parameters: the options of the same meaning, the constants of the method
OPTS = {"eta_phi": "eta_phi", "theta_max_fact_": "theta_max_fact", "theta_min_fact_": "theta_min_fact", "mu0": "mu0", "_mu": "mu0", "kappa_mu": "kappa_mu", "theta_mu": "theta_mu", "tau_min": "tau_min",
        "eps_tol": "tolerance", "cons_tol_": "cons_tol", "dual_tol_": "dual_tol", "comp_tol_": "comp_tol", "eps_rtol": "rel_tolerance", "kappa_eps": "kappa_eps", "kappa1": "kappa1", "kappa2": "kappa2",
        "p_smax": "smax", "max_n_it": "max_iter", "accep_n_it": "acceptable_iterations", "eps_tol_accep": "acceptable_tolerance"}
CONST = {"gamma_theta": "1e-5", "gamma_phi": "1e-8", "s_theta": "1.1", "s_phi": "2.3", "delta": "1", "kappa_Sigma": "1e10"}
p14(IPM + "reload_options", "", frame=False, cells=dict({"this." + k: (lambda s, v=v, k=k: T.inp(("opt", v), "int" if k.endswith("_it") else "real")) for k, v in OPTS.items()},
                                                        **dict({"this." + k: (lambda s, v=v: P(Fraction(v))) for k, v in CONST.items()},
                                                               **{"this._tau": lambda s: fmax(T.inp(("opt", "tau_min"), "real"), ONE - T.inp(("opt", "mu0"), "real"))})))


# ---- the limits of the filter are fractions of the initial infeasibility
def limits(m):
    out = []
    for f in m.funcs.values():
        if not f.get("body") or not f["q"].startswith("hiop::hiopAlgFilter"):
            continue
        for n in walk(f["body"]):
            if n.get("k") == "Bin" and n.get("op") == "=" and path(n["x"]) in (("this", "theta_max"), ("this", "theta_min")):
                if not list(calls(n["y"])) and not any(x.get("k") == "Mem" for x in walk(n["y"])):
                    continue
                w = path(n["x"])[1]
                ls = [x for x in walk(n["y"]) if x.get("k") == "Ref" and x.get("dk") in ("var", "parm")]
                if ls:
                    continue
                g = dict(f, id="%s#%s%s" % (f["id"], w, n.get("l")), p=[], body={"k": "Block", "b": [n], "l": n.get("l")}, inits=())
                out.append(dict(fn=f["q"], func=g, params="", models={"get_theta": lambda A, vn, e, st: T.inp(("THETA0",), "real")}, frame=False,
                                cells={"this." + w: lambda s, w=w: s.s("this.%s_fact_" % w) * fmax(ONE, T.inp(("THETA0",), "real"))}))
    return out


# ---- soft feasibility restoration: a trial point is returned only if it reduces the primal-dual error enough and is acceptable to the filter
def soft_update(A, vn, e, st):
    i = n_of(st, vn, "SOFT")
    o = A.obj(vn, e["o"], st)
    if not isinstance(o, Ptr):
        raise Give("residual")
    for n in ("nrmOne_bar_optim", "nrmOne_bar_feasib"):
        rec(st, vn, o.base + (n,), T.inp(("SOFT", str(i), n), "real"))
    return P(0)


def soft_contains(A, vn, e, st):
    i = n_of(st, vn, "CON")
    a = [vn.num(A.arg(vn, x, st)) for x in e["a"]]
    rec(st, vn, ("CON", str(i), "theta"), a[0])
    rec(st, vn, ("CON", str(i), "phi"), a[1])
    return T.inp(("CON", str(i), "in"), "bool")


def soft_go(A, vn, e, st):
    i = n_of(st, vn, "GO")
    return T.inp(("GO", str(i), "ok"), "bool")


SOFT = {R + "update": soft_update, FI + "contains": soft_contains, "hiop::hiopDualsUpdater::go": soft_go, "evalNlp_funcOnly": lambda A, vn, e, st: ONE,
        "compute_directions_w_IR": lambda A, vn, e, st: ONE, IT + "fractionToTheBdry": ptrs("FTB", (), "bool", ((2, "ap"), (3, "ad"))),
        IT + "takeStep_primals": lambda A, vn, e, st: ONE, IT + "determineSlacks": lambda A, vn, e, st: P(0), IT + "copyFrom": lambda A, vn, e, st: P(0),
        "updateWithNlpInfo_trial_funcOnly": lambda A, vn, e, st: P(0)}


def bounded(f, N):
    """the function with the bound of its loop (a constant) replaced by N; None if there is none"""
    import copy
    f = copy.deepcopy(f)
    loops = [n for n in walk(f["body"]) if n.get("k") in ("While", "For", "Do", "DoWhile") and any((c.get("fq") or "").endswith("hiopFilter::contains") for c in calls(n))]
    if len(loops) != 1 or loops[0].get("c") is None:
        return None
    refs = {x["id"] for x in walk(loops[0]["c"]) if x.get("k") == "Ref" and x.get("dk") == "var"}
    n = 0
    for v in walk(f["body"]):
        if v.get("k") == "Var" and v["id"] in refs and v.get("init") is not None:
            i = strip_soft(v["init"])
            if i["k"] == "Int" and int(i["v"]) > 2:
                i["v"] = N
                n += 1
    for x in walk(loops[0]["c"]):
        if x.get("k") == "Int" and int(x["v"]) > 2:
            x["v"] = N
            n += 1
    return f if n == 1 else None


def softspec(m):
    out = []
    for f in m.funcs.values():
        if f["n"] != "solve_soft_feasibility_restoration" or not f.get("body"):
            continue
        for N in (1, 2, 3):
            g = bounded(f, N)
            if g is None:
                continue
            err = lambda k: T.inp(("SOFT", str(2 * k), "nrmOne_bar_optim"), "real") + T.inp(("SOFT", str(2 * k), "nrmOne_bar_feasib"), "real")
            con = lambda k: T.inp(("CON", str(k), "in"), "bool")
            sm = lambda s, k: le(err(k), P(Fraction("0.999")) * (s.s("this.resid.nrmOne_bar_optim") + s.s("this.resid.nrmOne_bar_feasib")))

            def ret(s, N=N):
                v = ZERO
                for k in reversed(range(N)):
                    v = sm(s, k) * (NOT(con(k)) + con(k) * v)
                return v

            def tried(s, k):
                v = sm(s, k)
                for j in range(k):
                    v = v * sm(s, j) * con(j)
                return v
            cells, guard = {}, {}
            for k in range(N):
                cells["CON.%d.theta" % k] = lambda s, k=k: T.inp(("SOFT", str(2 * k), "nrmOne_bar_feasib"), "real")
                cells["CON.%d.phi" % k] = lambda s, k=k: s.s(NEWPHI)
                guard["CON.%d.theta" % k] = guard["CON.%d.phi" % k] = lambda s, k=k: tried(s, k)
            out.append(dict(fn=g["q"], func=g, params=" ".join(p["n"] for p in g["p"]), models=SOFT, frame=False, ret=ret, cells=cells, guard=guard, unroll=N + 1,
                            nonnull=["this.soc_dir", "this.dir", "this.resid", "this.resid_trial"]))
    return out
