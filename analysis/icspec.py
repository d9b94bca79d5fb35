"""Reference state machine of the primal-dual perturbation (inertia correction, property P15), written from Algorithm IC of the IPOPT implementation paper and
the documentation of the classes.  The discrete state is enumerated; sizes of perturbations stay symbolic."""
from fractions import Fraction
from term import *
import term as T
from vn import eq0, lt0
from vecspec import MAXD

PD = "hiop::hiopPDPerturbation"
NE, ND, DG = 0, 1, 2                    # not established, not degenerate, degenerate
NOTEST, C0X0, CPX0, C0XP, CPXP = range(5)
MAXDEG = 3
P15 = []
CUR = {"wx": "delta_wx_curr_", "wd": "delta_wd_curr_", "cc": "delta_cc_curr_", "cd": "delta_cd_curr_"}
LAST = {"wx": "delta_wx_last_", "wd": "delta_wd_last_", "cc": "delta_cc_last_", "cd": "delta_cd_last_"}


class M:
    """w: primal size, c: dual size, wl/cl: last nonzero ones; h, j, t: degeneracy flags and test; n: counter"""

    def __init__(self, s, case, dualfirst):
        self.s = s
        self.h, self.j, self.t, self.n, w, wl, c, cl = case
        z = lambda on, n: s.s("this." + n) if on else ZERO
        self.w, self.wl, self.c, self.cl = z(w, "delta_wx_curr_db_"), z(wl, "delta_wx_last_db_"), z(c, "delta_cc_curr_db_"), z(cl, "delta_cc_last_db_")
        self.w0, self.wl0, self.c0, self.cl0 = w, wl, c, cl
        self.df = dualfirst
        self.ok = ONE
        self.both = None

    def p(self, n):
        return self.s.s("this." + n)

    def finalize(self):
        if self.t == C0X0:
            self.h, self.j = self.h or ND, self.j or ND
        elif self.t == CPX0:
            self.h = self.h or ND
            if self.j == NE:
                self.n += 1
                if self.n >= MAXDEG:
                    self.j = DG
        elif self.t == C0XP:
            self.j = self.j or ND
            if self.h == NE:
                self.n += 1
                if self.n >= MAXDEG:
                    self.h = DG
        elif self.t == CPXP:
            self.n += 1
            if self.n >= MAXDEG:
                self.h = self.j = DG

    def deltac(self):
        return self.p("delta_c_bar_") * T.fn("pow", self.p("mu_"), self.p("kappa_c_"))

    def grow(self, v, last, first, again, lo, vz, lz):
        """next size after v, remembering the last one: first try, decreased last one, or increased current one"""
        if vz:
            return first if lz else fmax(lo, last * self.p("kappa_w_minus_"))
        big = self.p("kappa_w_plus_bar_") * v
        return big if lz else T.ite(lt0(last * P(100000) - v, False), big, again * v)

    def primal(self, wz=None, lz=None):
        nw = self.grow(self.w, self.wl, self.p("delta_w_0_bar_"), self.p("kappa_w_plus_"), self.p("delta_w_min_bar_"), not self.w0 if wz is None else wz, not self.wl0 if lz is None else lz)
        bad = lt0(self.p("delta_w_max_bar_") - nw, False)
        self.w, self.wl = nw, T.ite(bad, ZERO, self.wl)
        return ONE - bad

    def dual(self, cz=None, lz=None):
        first = fmax(self.p("delta_c_min_bar_"), self.deltac())
        nc = self.grow(self.c, self.cl, first, self.p("kappa_c_plus_"), self.p("delta_c_min_bar_"), not self.c0 if cz is None else cz, not self.cl0 if lz is None else lz)
        bad = lt0(self.p("delta_w_max_bar_") - nc, False)
        self.c, self.cl = nc, T.ite(bad, ZERO, self.cl)
        return ONE - bad

    # --- the three entry points
    def initial(self):
        self.finalize()
        if self.w0:
            self.wl, self.wl0 = self.w, 1
        if self.c0:
            self.cl, self.cl0 = self.c, 1
        self.t = C0X0 if NE in (self.h, self.j) else NOTEST
        self.c = self.w = ZERO
        self.c0 = self.w0 = 0
        if self.j == DG:
            if self.df:
                self.ok = self.dual()
            else:
                self.c = self.deltac()
        if self.h == DG:
            self.ok = self.ok * self.primal()

    def inertia(self):
        self.finalize()
        if self.df:
            ok1, c1, cl1 = self.dual(), self.c, self.cl
            if self.w0:
                self.ok = ok1
                return
            # fall back: a primal perturbation, and the dual one anew
            okp = self.primal()
            self.c, self.cl = ZERO, ZERO
            ok2 = self.dual(True, True)
            self.w, self.wl = T.ite(ok1, ZERO, self.w), T.ite(ok1, self.s.s("this.delta_wx_last_db_") if self.wl0 else ZERO, self.wl)
            self.c, self.cl = T.ite(ok1, c1, self.c), T.ite(ok1, cl1, self.cl)
            self.t = T.ite(ok1, P(self.t), P(NOTEST))
            self.j = T.ite(ok1, P(self.j), P(NE)) if self.j == DG else self.j
            self.ok = T.ite(ok1, ONE, okp * ok2)
            self.both = ONE - ok1
            return
        ok1, w1, wl1 = self.primal(), self.w, self.wl
        if self.c0:
            self.ok = ok1
            return
        self.w, self.wl = ZERO, ZERO
        ok2 = self.primal(True, True)
        self.w, self.wl = T.ite(ok1, w1, self.w), T.ite(ok1, wl1, self.wl)
        self.c = T.ite(ok1, ZERO, self.deltac())
        self.t = T.ite(ok1, P(self.t), P(NOTEST))
        self.h = T.ite(ok1, P(self.h), P(NE)) if self.h == DG else self.h
        self.ok = T.ite(ok1, ONE, ok2)
        self.both = ONE - ok1

    def singular(self):
        if self.df:
            return self.inertia()
        if NE in (self.h, self.j):
            if self.t == C0X0:
                if self.j == NE:
                    self.c, self.t = self.deltac(), CPX0
                else:
                    self.ok, self.t = self.primal(), C0XP
            elif self.t == CPX0:
                self.c = ZERO
                self.ok, self.t = self.primal(), C0XP
            elif self.t == C0XP:
                self.c = self.deltac()
                self.ok, self.t = self.primal(), CPXP
            else:
                self.ok = self.primal()
        elif self.c0:
            self.ok = self.primal()
        else:
            self.c = self.deltac()


def feasible(case, what, df):
    """states the methods may be called in: the test in progress and the sizes agree"""
    h, j, t, n, w, wl, c, cl = case
    if t in (C0X0, CPX0, C0XP, CPXP) and h != NE and j != NE:
        return False
    if not df:
        if t == C0X0 and (w or c and j != DG) or t == CPX0 and (w or not c or j != NE) or t == C0XP and (not w or c) or t == CPXP and not (w and c):
            return False
        if cl and what != "initial":
            return False
        if what == "singular" and t == NOTEST and NE in (h, j):
            return False
        if what == "singular" and t == C0X0 and j == DG:
            return False
        if what == "singular" and t == C0X0 and c:
            return False
    elif t not in (NOTEST, C0X0):
        return False
    return True


def cases(what, df):
    for h in range(3):
        for j in range(3):
            for t in range(5):
                for n in (0, MAXDEG - 1) if t > C0X0 else (0,):
                    for bits in range(16):
                        c = (h, j, t, n) + tuple(bits >> k & 1 for k in range(4))
                        if feasible(c, what, df):
                            yield c


NAMES = {"initial": "compute_initial_deltas", "inertia": "compute_perturb_wrong_inertia", "singular": "compute_perturb_singularity"}


def rand(A, vn, e, st):
    """an arbitrary value between the limits for every element"""
    o = A.obj(vn, e["o"], st)
    lo, hi = A.arg(vn, e["a"][0], st), A.arg(vn, e["a"][1], st)
    vn.setcontent(o.base + ("data_",), lo + A.rd(vn, vn.st0, ("RND",) + o.base, ix(0)) * (hi - lo), st)
    return P(0)


def spec(cls, what, case, isrand):
    df = "Dual" in cls
    memo = {}

    def mach(s):
        # one run of the machine per view
        if id(s) not in memo:
            memo.clear()
            mm = M(s, case, df)
            getattr(mm, what)()
            memo[id(s)] = mm
        return memo[id(s)]

    def vec(s, v, name):
        if not isrand:
            return v
        b = s.base("this." + name)
        return v * (s.s("this.min_uniform_ratio_") + s.A.rd(s.vn, s.vn.st0, ("RND",) + b, ix(0)) * (s.s("this.max_uniform_ratio_") - s.s("this.min_uniform_ratio_")))

    def num(x):
        return P(x) if isinstance(x, int) else x
    h, j, t, n, w, wl, c, cl = case
    val = {"wx": lambda m: m.w, "wd": lambda m: m.w, "cc": lambda m: m.c, "cd": lambda m: m.c}
    vall = {"wx": lambda m: m.wl, "wd": lambda m: m.wl, "cc": lambda m: m.cl, "cd": lambda m: m.cl}
    cells, out, init, eqm = {}, {}, {}, {}
    for k in CUR:
        cells["this.%sdb_" % CUR[k]] = lambda s, k=k: val[k](mach(s))
        cells["this.%sdb_" % LAST[k]] = lambda s, k=k: vall[k](mach(s))
        out["this." + CUR[k]] = lambda s, k=k: vec(s, val[k](mach(s)), CUR[k])
        on, lon = (w, wl) if k[0] == "w" else (c, cl)
        src = "delta_wx" if k[0] == "w" else "delta_cc"
        eqm["this.%sdb_" % CUR[k]] = lambda s, on=on, src=src: T.inp(("this", src + "_curr_db_"), "pos") if on else ZERO
        eqm["this.%sdb_" % LAST[k]] = lambda s, on=lon, src=src: T.inp(("this", src + "_last_db_"), "pos") if on else ZERO
        init["this." + CUR[k]] = lambda s, k=k: vec(s, s.s("this.%sdb_" % CUR[k]), CUR[k])
        init["this." + LAST[k]] = lambda s, k=k: vec(s, s.s("this.%sdb_" % LAST[k]), LAST[k])
    cells["this.hess_degenerate_"] = lambda s: num(mach(s).h)
    cells["this.jac_degenerate_"] = lambda s: num(mach(s).j)
    cells["this.num_degen_iters_"] = lambda s: num(mach(s).n)
    cells["this.deltas_test_type_"] = lambda s: num(mach(s).t)
    guard = {l: (lambda s: mach(s).ok) for l in list(cells) + list(out)}
    if what == "inertia" and df and not w and (c or cl):
        # a consumer that sees a dual update only does not refresh the primal part
        cells["this.deltas_curr_update_"] = lambda s: P(2)
        guard["this.deltas_curr_update_"] = lambda s: mach(s).ok * (mach(s).both if mach(s).both is not None else ZERO)
    for nme, v in (("hess_degenerate_", h), ("jac_degenerate_", j), ("deltas_test_type_", t), ("num_degen_iters_", n), ("num_degen_max_iters_", MAXDEG)):
        eqm["this." + nme] = lambda s, v=v: P(v)
    return dict(fn="hiop::" + cls + "::" + NAMES[what], params="", eqm=eqm, init=init, cells=cells, out=out, guard=guard, ret=lambda s: mach(s).ok,
                dyncls={("this",): PD + cls.split("Perturbation")[1] if not isrand else PD + cls.split("Perturbation")[1].replace("Scalar", "Rand")},
                models={"set_to_random_uniform": rand}, scratch="this.deltas_curr_update_ " + " ".join("this." + v for v in LAST.values()), case=case, label=what)

# ---------------------------------------------------------------- acceptance of a factorization
NEG, REQ, FORCE = (lambda s: s.i("neg")), (lambda s: s.i("this.n_required_neg_eig_")), (lambda s: s.b("force"))
ACC = []


def correction(tag):
    def h(A, vn, e, st):
        vn.celltypes[("CALLED",)] = "int"
        st.cells[("CALLED",)] = P(tag)
        return T.inp(("DONE", str(tag)), "bool")
    return h


CM = {"compute_perturb_singularity": correction(1), "compute_perturb_wrong_inertia": correction(2)}


def outcome(tag):
    return T.ite(T.inp(("DONE", str(tag)), "bool"), ONE, P(-1))


def decide(table):
    """table(s) -> 0 accept / 1 singularity correction / 2 inertia correction, as a term"""
    def ret(s):
        t = table(s)
        return T.ite(eq0(t), ZERO, T.ite(eq0(t - ONE), outcome(1), outcome(2)))
    return dict(ret=ret, cells={"CALLED": table}, guard={"CALLED": lambda s: ONE - eq0(table(s))})


def tic(s):
    some = lt0(-REQ(s), True)
    return T.ite(some, T.ite(lt0(NEG(s), True), ONE, T.ite(eq0(NEG(s) - REQ(s)), ZERO, P(2))), T.ite(eq0(NEG(s)), ZERO, P(2)))


def tdwd(s):
    some = lt0(-REQ(s), True)
    return T.ite(lt0(NEG(s), True), T.ite(some, ONE, P(2)), T.ite(FORCE(s), P(2), ZERO))


for c, tb in (("IC", tic), ("InertiaFreeDWD", tdwd)):
    ACC.append(dict(fn="hiop::hiopFactAcceptor%s::requireReFactorization" % c, params="nlp neg force", models=CM, frame=False, **decide(tb)))

# ---------------------------------------------------------------- (re)initialisation from the options
OPT = {"delta_w_min_bar_": "delta_w_min_bar", "delta_w_max_bar_": "delta_w_max_bar", "delta_w_0_bar_": "delta_0_bar", "kappa_w_minus_": "kappa_w_minus",
       "kappa_w_plus_bar_": "kappa_w_plus_bar", "kappa_w_plus_": "kappa_w_plus", "delta_c_bar_": "delta_c_bar", "kappa_c_": "kappa_c"}
ACC.append(dict(fn="hiop::hiopPDPerturbation::initialize", params="nlp", nonnull=["this." + v for v in CUR.values()] + ["this." + v for v in LAST.values()], ret=lambda s: ONE, frame=False,
                cells=dict({"this." + k: (lambda s, v=v: T.inp(("opt", v), "real")) for k, v in OPT.items()},
                           **{"this.num_degen_iters_": lambda s: ZERO, "this.deltas_test_type_": lambda s: ZERO}),
                out={"this." + v: (lambda s: ZERO) for v in list(CUR.values()) + list(LAST.values())}))

# inertia of the whole MDS system: the dense block plus the sparse Hessian block (Haynsworth), which must be nonsingular
CUT = P(1e-14)


def hx(s, zero):
    k = s.k()
    d = T.inp(("dim", "nxs"), "int")
    return s.gsum(mksum(d, lt0(fabs(s("this.Hxs_", k)) - CUT, False) if zero else lt0(s("this.Hxs_", k) + CUT, False), k))


INERTIA = T.inp(("INERTIA",), "int")
ACC.append(dict(fn="hiop::hiopKKTLinSysCompressedMDSXYcYd::factorizeWithCurvCheck", params="", models={"matrixChanged": lambda A, vn, e, st: INERTIA}, frame=False, dims={"Hxs_": "nxs"},
                ret=lambda s: T.ite(lt0(INERTIA, True), INERTIA, T.ite(eq0(hx(s, True)), INERTIA + hx(s, False), P(-1)))))
