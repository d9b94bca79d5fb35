"""Reference formulas of the limited-memory quasi-Newton Hessian (property P20): compact representation of Byrd, Nocedal and Schnabel (1994),
    B = B0 - [B0 S  Y] N^{-1} [S'B0; Y'],  B0 = sigma I,  H = B + Dx,
    H^{-1} = DhInv - DhInv [B0 S  Y] V^{-1} [S'B0; Y'] DhInv,  DhInv = (B0 + Dx)^{-1},
    V = [ S'B0(DhInv B0 - I)S   S'B0 DhInv Y - L ;  .   D + Y'DhInv Y ]."""
from fractions import Fraction
from term import *
import term as T
from vn import eq0, lt0, Ptr, inrng, phis, Phi
from vecspec import lt
import vn as V
import nlpmodels
from nlpmodels import rec, counted

P20 = []


def prod(l):
    r = ONE
    for x in l:
        r = r * x
    return r


Q = "hiop::hiopHessianLowRank::"
NX = T.inp(("dim", "x"), "int")
L = T.inp(("dim", "l"), "int")
LM = T.inp(("this", "l_max"), "int")
DIMS = {k: "x" for k in "DhInv _Dx yk sk _n_vec1 _n_vec2 grad_f_prev_ x zl zu sxl sxu grad_f_curr_ rhsx".split()}
DIMS.update({"D_": "l", "_l_vec1": "l", "_l_vec2": "l", "yc": "c", "yd": "d"})
MD = {"this.St_": lambda s: (L, NX), "this.Yt_": lambda s: (L, NX), "this.L_": lambda s: (L, L)}


def temp(member):
    def h(A, vn, e, st):
        vn.nonnull.add(("this", member))
        return Ptr(("this", member))
    return h


def tmat(member, rows, cols):
    def h(A, vn, e, st):
        b = ("this", member)
        A.mdimval[b] = (rows(A, vn, e, st), cols(A, vn, e, st))
        vn.nonnull.add(b)
        return Ptr(b)
    return h


def note(tag):
    """records the operands of an operation decided on its own"""
    def h(A, vn, e, st):
        fn = (e.get("fq") or "").split("::")[-1]
        who = fn
        if e.get("o") is not None and e["o"].get("k") != "This":
            o = A.obj(vn, e["o"], st)
            if not isinstance(o, Ptr):
                return NotImplemented
            who = fn + "-" + o.base[-1]
        counted(st, vn, who)
        f = A.m.funcs.get(e["f"])
        pts = [p["t"] for p in f["p"]] if f else e.get("pt") or []
        for i, (t, a) in enumerate(zip(pts, e["a"])):
            if "hiopVector" in t or "hiopMatrix" in t:
                o = A.obj(vn, a, st)
                if not isinstance(o, Ptr):
                    return NotImplemented
                if "hiopVector" in t:
                    st.arr[("ARGA", who, str(i), "data_")] = vn.content(o.base + ("data_",), st)
                else:
                    vn.setcontent(("ARGA", who, str(i), "M"), vn.content(o.base + ("M",), st, 2), st, 2)
            else:
                rec(st, vn, ("ARG", who, str(i)), vn.num(A.arg(vn, a, st)))
        return P(0)
    return h


MODS = {Q + "new_" + n: temp("_" + n) for n in ("n_vec1", "n_vec2", "l_vec1", "l_vec2")}


def p20(fn, params, **kw):
    kw.setdefault("dims", {k: v for k, v in DIMS.items() if k not in kw.pop("nodim", "").split()})
    kw["mdims"] = dict(MD, **kw.get("mdims", {}))
    kw["models"] = dict(MODS, **kw.get("models", {}))
    kw.setdefault("asserts", False)
    kw.setdefault("frame", False)
    P20.append(dict(fn=Q + fn, params=params, **kw))


# ---------------------------------------------------------------- the diagonal
p20("updateLogBarrierDiagonal", "Dx", dims=dict(DIMS, Dx="x"), out={"this.DhInv": lambda s: ONE / (s.s("this.sigma") + s("Dx")), "this._Dx": lambda s: s("Dx")},
    cells={"this.matrixChanged": lambda s: ONE}, ret=lambda s: ONE)

# ---------------------------------------------------------------- update of the secant pairs
EPS = T.inp(("std::numeric_limits<double>::epsilon",), "pos")


class Upd:
    def __init__(self, s):
        self.s = s
        sn = lambda k: s("it_curr.x", k) - s("this.it_prev_.x", k)

        def mtx(M, y, i):
            k = s.k()
            return mksum(s.dim(y[-1]), s.m(M, k, i) * s("it_curr." + y, k), k)

        def yn(i):
            return (s("grad_f_curr_", i) - s("this.grad_f_prev_", i) + mtx("Jac_c_curr_", "yc", i) - mtx("this.Jac_c_prev_", "yc", i)
                    + mtx("Jac_d_curr_", "yd", i) - mtx("this.Jac_d_prev_", "yd", i))
        self.sn, self.yn = sn, yn
        self.sTy = s.gsum(s.sum("x", lambda k: sn(k) * yn(k)))
        self.ss = T.fn("sqrt", s.gsum(s.sum("x", lambda k: sn(k) * sn(k))))
        self.yy = T.fn("sqrt", s.gsum(s.sum("x", lambda k: yn(k) * yn(k))))
        self.sinf = s.gmax(s.inf("x", sn))
        first = lt(s.i("this.l_curr"), ZERO, True)
        self.later = ONE - first
        self.taken = self.later * (ONE - lt(self.sinf, T.P(100) * EPS)) * lt(self.ss * self.yy * T.fn("sqrt", EPS), self.sTy)
        self.grow = self.taken * lt(ZERO, LM, True) * lt(s.i("this.l_curr"), LM, True)
        self.shift = self.taken * lt(ZERO, LM, True) * (ONE - lt(s.i("this.l_curr"), LM, True))

    def sigma(self):
        s, w = self.s, self.s.i("this.sigma_update_strategy")
        sTy, ss, yy = self.sTy, self.ss, self.yy
        v = [sTy / (ss * ss), yy * yy / sTy, T.fn("sqrt", ss * ss / yy / yy), P(Fraction(1, 2)) * (sTy / (ss * ss) + yy * yy / sTy), s.s("this.sigma0")]
        r = s.s("this.sigma")
        for i in range(5):
            r = T.ite(eq0(w - (i + 1)), v[i], r)
        return fmax(fmin(s.s("this.sigma_safe_max"), r), s.s("this.sigma_safe_min"))


upd = lambda w: lambda s: getattr(Upd(s), w)


def per(w, v):
    """content or value v(update) when w holds"""
    return lambda s: v(Upd(s))


def ytsum(s):
    u, k = Upd(s), s.k()
    return mksum(NX, s.m("this.Yt_", ix(0), k) * u.sn(k), k)


SN, YN, STY = (lambda s: Upd(s).sn(ix(0))), (lambda s: Upd(s).yn(ix(0))), (lambda s: Upd(s).sTy)
CALL = {}
for m_ in ("St_", "Yt_"):
    CALL["appendRow-" + m_] = "grow"
    CALL["shiftRows-" + m_] = CALL["replaceRow-" + m_] = "shift"
CALL.update({"growL": "grow", "growD": "grow", "updateL": "shift", "updateD": "shift"})
inx, inl = (lambda s: inrng(ix(0), ZERO, NX)), (lambda s: inrng(ix(0), ZERO, L))
arrs, cells, guard = {}, {}, {}
for m_, v in (("St_", SN), ("Yt_", YN)):
    for w, i in (("appendRow", 0), ("replaceRow", 1)):
        arrs["ARGA.%s-%s.%d.data_" % (w, m_, i)] = v
        guard["ARGA.%s-%s.%d.data_" % (w, m_, i)] = lambda s, w=w, m_=m_: inx(s) * getattr(Upd(s), CALL[w + "-" + m_])
    cells["ARG.shiftRows-%s.0" % m_] = lambda s: P(-1)
    cells["ARG.replaceRow-%s.0" % m_] = lambda s: LM - 1
for w, i in (("growL", 2), ("updateL", 0)):
    arrs["ARGA.%s.%d.data_" % (w, i)] = ytsum
    guard["ARGA.%s.%d.data_" % (w, i)] = lambda s, w=w: inl(s) * getattr(Upd(s), CALL[w])
cells.update({"ARG.growD.2": STY, "ARG.updateD.0": STY})
for c in list(cells):
    guard[c] = upd(CALL[c[4:].rsplit(".", 1)[0]])
cells.update({"CALLS." + w: upd(g) for w, g in CALL.items()})
cells["this.l_curr"] = lambda s: s.i("this.l_curr") + Upd(s).grow + (ONE - Upd(s).later)
guard["this.l_curr"] = lambda s: inrng(s.i("this.l_curr"), P(-1), LM + 1)
cells["this.sigma"] = lambda s: T.ite(Upd(s).taken, Upd(s).sigma(), s.s("this.sigma"))
guard["this.sigma"] = lambda s: inrng(s.i("this.sigma_update_strategy"), ONE, P(6))
DOMAIN = {"this.l_curr": [-1, 0, 1, 2, 3], "this.l_max": [0, 1, 2, 3, 3], "this.sigma_update_strategy": [1, 2, 3, 4, 5], ("std::numeric_limits<double>::epsilon",): [1e-4, 1e-3, 1e-2, 2e-2]}
NOTED = {"appendRow": note("appendRow"), "shiftRows": note("shiftRows"), "replaceRow": note("replaceRow"), **{Q + w: note(w) for w in ("growL", "growD", "updateL", "updateD")}}
p20("update", "it_curr grad_f_curr_ Jac_c_curr_ Jac_d_curr_", models=NOTED, domain=DOMAIN, arrs=arrs, cells=cells, guard=guard, ret=lambda s: ONE,
    mdims={k: (lambda s: (s.dim("c"), NX)) for k in ("Jac_c_curr_", "this.Jac_c_prev_")} | {k: (lambda s: (s.dim("d"), NX)) for k in ("Jac_d_curr_", "this.Jac_d_prev_")},
    out={"this.it_prev_.x": lambda s: s("it_curr.x"), "this.grad_f_prev_": lambda s: s("grad_f_curr_")},
    mats={"this.Jac_c_prev_": lambda s: s.m("Jac_c_curr_"), "this.Jac_d_prev_": lambda s: s.m("Jac_d_curr_")})

# ---------------------------------------------------------------- L and D of the compact representation
BELOW = lt0(ix(1) - ix(0), True)
low = lambda s, i=None, j=None: s.m("this.L_", i, j)
strict = {("this", "L_", "M"): None}


def lastrow(v):
    return lambda s: T.ite(BELOW, T.ite(lt0(ix(0) - L, True), s.m("this.L_"), s("YTs", ix(1))), ZERO) if v == "grow" else \
        T.ite(BELOW, T.ite(lt0(ix(0) - (L - 1), True), s.m("this.L_", ix(0) + 1, ix(1) + 1), s("YTs", ix(1) + 1)), ZERO)


LOWER = lambda s: T.ite(BELOW, s.m("this.L_"), ZERO)
p20("growL", "lmem_curr lmem_max YTs", dims=dict(DIMS, YTs="l"), initm={"this.L_": LOWER}, outpm={"this.L_": lambda s: (lastrow("grow")(s), L + 1, L + 1)})
p20("growD", "lmem_curr lmem_max sTy", outp={"this.D_": lambda s: T.ite(lt0(ix(0) - L, True), s("this.D_"), s.s("sTy"))}, outpdim={"this.D_": lambda s: L + 1})
p20("updateL", "YTs sTy", dims=dict(DIMS, YTs="l"), initm={"this.L_": LOWER}, mats={"this.L_": lastrow("shift")}, domain={("dim", "l"): [1, 2, 3, 3]})
p20("updateD", "sTy", out={"this.D_": lambda s: T.ite(lt0(ix(0) - (L - 1), True), s("this.D_", ix(0) + 1), s.s("sTy"))}, domain={("dim", "l"): [1, 2, 3, 3]})

# ---------------------------------------------------------------- products with a diagonal in the middle
W_, K_ = T.inp(("dim", "k"), "int"), T.inp(("dim", "k"), "int")


def mdm(s, X, d, Y, i=None, j=None):
    """(X diag(d) Y^T)[i, j], this rank's columns"""
    i, j, k = ix(0) if i is None else i, ix(1) if j is None else j, s.k()
    return mksum(NX, (s.m(X, i, k) if isinstance(X, str) else X(i, k)) * d(k) * (s.m(Y, j, k) if isinstance(Y, str) else Y(j, k)), k)


p20("symmMatTimesDiagTimesMatTrans_local", "beta W alpha X d", dims=dict(DIMS, d="x"), mdims={"W": lambda s: (K_, K_), "X": lambda s: (K_, NX)},
    mats={"W": lambda s: T.ite(lt0(ix(1) - ix(0), True), s.s("beta") * s.m("W", ix(1), ix(0)) + s.s("alpha") * mdm(s, "X", lambda k: s("d", k), "X", ix(1), ix(0)), s.s("beta") * s.m("W") + s.s("alpha") * mdm(s, "X", lambda k: s("d", k), "X"))})
p20("matTimesDiagTimesMatTrans_local", "W S d X", dims=dict(DIMS, d="x"), mdims={"W": lambda s: (L, K_), "S": lambda s: (L, NX), "X": lambda s: (K_, NX)},
    mats={"W": lambda s: mdm(s, "S", lambda k: s("d", k), "X")})


def sandwich(sym):
    """model of the two products"""
    def h(A, vn, e, st):
        o = [A.obj(vn, a, st) if "hiop" in (a.get("t") or "") else A.arg(vn, a, st) for a in e["a"]]
        be, W, al, X, d, Y = (o[0], o[1], o[2], o[3], o[4], o[3]) if sym else (ZERO, o[0], ONE, o[1], o[2], o[3])
        if not all(isinstance(p, Ptr) for p in (W, X, d, Y)):
            return NotImplemented
        k = nlpmodels_k(vn)
        v = mksum(A.mdim(X.base)[1], A.mel(vn, st, X.base, ix(0), k) * A.rd(vn, st, d.base, k) * A.mel(vn, st, Y.base, ix(1), k), k)
        old = A.mel(vn, st, W.base, ix(0), ix(1))
        vn.setcontent(W.base + ("M",), (vn.num(be) * old if be != ZERO else ZERO) + vn.num(al) * v, st, 2)
        return P(0)
    return h


def nlpmodels_k(vn):
    return V.newk(vn)


def dim(*e):
    return lambda A, vn, c, st: [vn.num(A.arg(vn, a, st)) for a in c["a"]]


def sized(member, rows, cols):
    def h(A, vn, e, st):
        b = ("this", member)
        a = [A.obj(vn, x, st) if "hiop" in (x.get("t") or "") else vn.num(A.arg(vn, x, st)) for x in e["a"]]
        A.mdimval[b] = (rows(A, a), cols(A, a))
        vn.nonnull.add(b)
        return Ptr(b)
    return h


POOLM = {Q + "new_lxl_mat1": sized("_lxl_mat1", lambda A, a: a[0], lambda A, a: a[0]),
         Q + "new_kx2l_mat1": sized("_kx2l_mat1", lambda A, a: a[0], lambda A, a: 2 * a[1]),
         Q + "new_kxl_mat1": sized("_kxl_mat1", lambda A, a: a[0], lambda A, a: a[1]),
         Q + "new_S1": sized("_S1", lambda A, a: A.mdim(a[0].base)[0], lambda A, a: A.mdim(a[1].base)[0]),
         Q + "new_Y1": sized("_Y1", lambda A, a: A.mdim(a[0].base)[0], lambda A, a: A.mdim(a[1].base)[0]),
         Q + "symmMatTimesDiagTimesMatTrans_local": sandwich(True), Q + "matTimesDiagTimesMatTrans_local": sandwich(False)}

# ---------------------------------------------------------------- V
SG = lambda s: s.s("this.sigma")
DH = lambda s: lambda k: s("this.DhInv", k)


def vmat(s):
    g = s.gsum
    i, j = ix(0), ix(1)
    b11 = g(mdm(s, "this.St_", lambda k: SG(s) * (SG(s) * s("this.DhInv", k) - 1), "this.St_"))
    b12 = g(mdm(s, "this.St_", lambda k: SG(s) * s("this.DhInv", k), "this.Yt_", i, j - L)) - s.m("this.L_", i, j - L)
    b22 = g(mdm(s, "this.Yt_", lambda k: s("this.DhInv", k), "this.Yt_", i - L, j - L)) + T.ite(eq0(i - j), s("this.D_", i - L), ZERO)
    up, left = lt0(i - L, True), lt0(j - L, True)
    return T.ite(up, T.ite(left, b11, b12), b22)


p20("updateInternalBFGSRepresentation", "", models=dict(POOLM, **{Q + "factorizeV": note("factorizeV")}), mdims={"this.V_": lambda s: (2 * L, 2 * L)},
    mats={"this.V_": vmat}, guard={"this.V_": lambda s: ONE - lt0(ix(1) - ix(0), True)}, cells={"this.matrixChanged": lambda s: ZERO, "CALLS.factorizeV": lambda s: ONE})

# ---------------------------------------------------------------- solves
def vsolve(A, vn, e, st):
    """the solve with V of two vectors: unknown results, the right-hand sides are recorded"""
    o = [A.obj(vn, a, st) for a in e["a"]]
    if len(o) != 2 or not all(isinstance(p, Ptr) for p in o):
        return NotImplemented
    counted(st, vn, "solveWithV")
    for i, p in enumerate(o):
        st.arr[("ARGA", "solveWithV", str(i), "data_")] = A.rd(vn, st, p.base, ix(0))
    for i, p in enumerate(o):
        vn.setcontent(p.base + ("data_",), A.rd(vn, st, ("U", "V%d" % i), ix(0)), st)
    return P(0)


def msolve(A, vn, e, st):
    o = A.obj(vn, e["a"][0], st)
    if len(e["a"]) == 2:
        return vsolve(A, vn, e, st)
    if not isinstance(o, Ptr):
        return NotImplemented
    counted(st, vn, "solveWithV")
    vn.setcontent(("ARGA", "solveWithV", "0", "M"), A.mel(vn, st, o.base, ix(0), ix(1)), st, 2)
    vn.setcontent(o.base + ("M",), vn.read(("U", "VS", "M"), [ix(0), ix(1)], "double", st), st, 2)
    return P(0)


def assigned(A, vn, e, st):
    """assignment of matrices"""
    o = [A.obj(vn, a, st) for a in ([e["o"]] if e.get("o") is not None else []) + list(e["a"])]
    return o[0] if len(o) == 2 and o[0] == o[1] else NotImplemented


REBUILD = {Q + "updateInternalBFGSRepresentation": note("updateInternal"), Q + "solveWithV": msolve, "operator=": assigned}
SD = {k: "l" for k in ("V0", "V1")}
rebuilt = {"CALLS.updateInternalBFGSRepresentation": lambda s: s.b("this.matrixChanged")}
hr = lambda s: lambda k: s("rhsx", k) * s("this.DhInv", k)


def mt(s, M, f, i=None):
    k = s.k()
    return mksum(L, s.m(M, k, ix(0) if i is None else i) * f(k), k)


def mv(s, M, f, i=None):
    k = s.k()
    return mksum(NX, s.m(M, ix(0) if i is None else i, k) * f(k), k)


p20("solve", "rhsx x", dims=dict(DIMS, rhsx="x", x="x", **SD), models=REBUILD, cells=dict(rebuilt, **{"CALLS.solveWithV": lambda s: ONE}),
    arrs={"ARGA.solveWithV.0.data_": lambda s: SG(s) * mv(s, "this.St_", hr(s)), "ARGA.solveWithV.1.data_": lambda s: mv(s, "this.Yt_", hr(s))},
    guard={"ARGA.solveWithV.0.data_": inl, "ARGA.solveWithV.1.data_": inl},
    out={"x": lambda s: hr(s)(ix(0)) - s("this.DhInv") * (SG(s) * mt(s, "this.St_", lambda k: s("U.V0", k)) + mt(s, "this.Yt_", lambda k: s("U.V1", k)))})

XB = lambda s: mdm(s, "X", lambda k: SG(s) * s("this.DhInv", k), "this.St_")


def sy(s, i, j):
    """entry of [X DhInv B0 S, X DhInv Y]"""
    return T.ite(lt0(j - L, True), mdm(s, "X", lambda k: SG(s) * s("this.DhInv", k), "this.St_", i, j), mdm(s, "X", lambda k: s("this.DhInv", k), "this.Yt_", i, j - L))


def wout(s):
    root = eq0(T.inp(("rank",), "int"))
    k = s.k()
    u = lambda i, j: s.vn.read(("U", "VS", "M"), [i, j], "double", s.vn.st0)
    q = s.k()
    first = s.gsum(T.ite(eq0(s.i("NLP.rank_")), s.s("beta"), ZERO) * s.m("W") + s.s("alpha") * mdm(s, "X", lambda k: s("this.DhInv", k), "X"))
    return first - s.s("alpha") * mksum(L, s.gsum(sy(s, ix(0), k)) * u(ix(1), k), k) - s.s("alpha") * mksum(L, s.gsum(sy(s, ix(0), q + L)) * u(ix(1), q + L), q)


p20("symMatTimesInverseTimesMatTrans", "beta W alpha X", models=dict(POOLM, **REBUILD), mdims={"W": lambda s: (K_, K_), "X": lambda s: (K_, NX)}, cells=dict(rebuilt, **{"CALLS.solveWithV": lambda s: ONE}),
    mats={"W": wout, "ARGA.solveWithV.0": lambda s: s.gsum(sy(s, ix(0), ix(1)))},
    )
P20[-1]["mdims"]["ARGA.solveWithV.0"] = lambda s: (K_, 2 * L)


# ---------------------------------------------------------------- recursive product, for up to three stored pairs
def nth(A, vn, e, st):
    """element of the members a and b: the vectors a_k and b_k (allocated once)"""
    i = vn.num(A.arg(vn, e["a"][-1], st)).const()
    o = strip_(e.get("o") if e.get("o") is not None else e["a"][0])
    if i is None or o.get("k") != "Mem" or o.get("n") not in ("a", "b"):
        return NotImplemented
    b = ("this", "%s%d" % (o["n"], i))
    vn.nonnull.add(b)
    return Ptr(b)


def strip_(e):
    while e.get("k") in ("Cast", "Paren", "ICast"):
        e = e["e"]
    return e


def fit(A, vn, e, st):
    return P(0)


class Rec:
    """b_k = y_k / sqrt(max(s_k'y_k, eps)), a_k = B_k s_k / sqrt(s_k' B_k s_k), B_{k+1} = B_k + b_k b_k' - a_k a_k'"""
    def __init__(self, s, n):
        self.s, self.ab = s, []
        for k in range(n):
            sk = lambda i, k=k: s.m("this.St_", P(k), i)
            yk = lambda i, k=k: s.m("this.Yt_", P(k), i)
            sty = self.dot(yk, sk)
            sty = T.ite(lt(sty, EPS), EPS, sty)
            b = lambda i, yk=yk, r=T.fn("sqrt", sty): yk(i) / r
            v = self.times(sk)
            a = lambda i, v=v, r=T.fn("sqrt", self.dot(v, sk)): v(i) / r
            self.ab.append((a, b))

    def dot(self, u, v):
        return self.s.gsum(self.s.sum("x", lambda k: u(k) * v(k)))

    def times(self, x):
        s = self.s
        c = [(self.dot(b, x), self.dot(a, x), a, b) for a, b in self.ab]
        return lambda i: sum((bx * b(i) - ax * a(i) for bx, ax, a, b in c), s.s("this.sigma") * x(i))


VEC = {"std::vector::operator[]": nth, "std::vector::at": nth, "std::vector::resize": fit}
for K in range(4):
    kw = dict(models=VEC, dims=dict(DIMS, x="x", y="x", **{"%s%d" % (c, i): "x" for c in "ab" for i in range(K)}), unroll=K + 2,
              init_cells={"this.l_curr": K}, mdims={k: (lambda s, K=K: (P(K), NX)) for k in ("this.St_", "this.Yt_")}, elem=K)
    p20("timesVecCmn", "beta y alpha x addLogTerm", domain={("std::numeric_limits<double>::epsilon",): [1e-4, 1e-3, 1e-2, 2e-2]},
        out={"y": lambda s, K=K: s.s("beta") * s("y") + s.s("alpha") * Rec(s, K).times(lambda i: s("x", i))(ix(0)) + T.ite(s.b("addLogTerm"), s.s("alpha") * s("x") * s("this._Dx"), ZERO)}, **kw)

# ---------------------------------------------------------------- factorisation of V and solves with it
def deref(A, vn, a, st):
    """value behind an argument passed by address"""
    if a.get("k") == "Un" and a.get("op") == "&":
        lv = vn.lval(a["e"], st)
        return None if lv is None else (lv, vn.load(lv, st))
    return None


def dsytr(solve):
    def h(A, vn, e, st):
        a = e["a"]
        lv = [deref(A, vn, x, st) for x in a]
        ints = (1, 2, 4, 7) if solve else (1, 3, 6)
        if any(lv[i] is None for i in (0,) + ints) or lv[-1] is None:
            return NotImplemented
        vals = {i: vn.num(lv[i][1]) for i in (0,) + ints}
        if not solve and vals[6].const() == -1:
            w = deref(A, vn, a[5], st)
            if w is None:
                return NotImplemented
            vn.store(w[0], vn.read(("U", "work"), [], "double", st), st)
            return P(0)
        who = "dsytrs" if solve else "dsytrf"
        M = A.arg(vn, a[3 if solve else 2], st)
        if not isinstance(M, Ptr):
            return NotImplemented
        counted(st, vn, who)
        for i, v in vals.items():
            rec(st, vn, ("ARG", who, str(i)), v)
        # the array of the matrix: entry (i, j) of V_
        vn.setcontent(("ARGA", who, "A", "M"), vn.content(M.base, st, 2), st, 2)
        if solve:
            R = A.arg(vn, a[6], st)
            if not isinstance(R, Ptr):
                return NotImplemented
            if R.base[-1] == "M":
                vn.setcontent(("ARGA", who, "B", "M"), vn.content(R.base, st, 2), st, 2)
                vn.setcontent(R.base, vn.read(("U", "sol", "M"), [ix(0), ix(1)], "double", st), st, 2)
            else:
                st.arr[("ARGA", who, "B", "data_")] = vn.content(R.base, st)
                vn.setcontent(R.base, A.rd(vn, st, ("U", "sol"), ix(0)), st)
        return P(0)
    return h


VV = {"hiop::dsytrs_": dsytr(True), "hiop::dsytrf_": dsytr(False)}
VM = {"this.V_": lambda s: (2 * L, 2 * L)}
p20("factorizeV", "", models=VV, mdims=VM, cells={"CALLS.dsytrf": lambda s: lt(ZERO, L, True), "ARG.dsytrf.0": lambda s: P(76), "ARG.dsytrf.1": lambda s: 2 * L, "ARG.dsytrf.3": lambda s: 2 * L},
    guard={"ARG.dsytrf." + i: (lambda s: lt(ZERO, L, True)) for i in "013"})

POS = lambda s: lt(ZERO, L, True)
LAP = {"ARG.dsytrs.0": lambda s: P(76), "ARG.dsytrs.1": lambda s: 2 * L, "ARG.dsytrs.4": lambda s: 2 * L, "ARG.dsytrs.7": lambda s: 2 * L}


def vec2l(A, vn, e, st):
    b = ("this", "_2l_vec1")
    A.inherit[b] = 2 * vn.num(A.arg(vn, e["a"][0], st))
    vn.nonnull.add(b)
    return Ptr(b)


half = lambda s, a, b, i: T.ite(lt0(i - L, True), s(a, i), s(b, i - L))
p20("solveWithV", "rhs_s rhs_y", models=dict(VV, **{Q + "new_2l_vec1": vec2l}), mdims=VM, dims=dict({k: v for k, v in DIMS.items()}, rhs_s="l", rhs_y="l"),
    cells=dict(LAP, **{"CALLS.dsytrs": POS, "ARG.dsytrs.2": lambda s: ONE}), arrs={"ARGA.dsytrs.B.data_": lambda s: half(s, "rhs_s", "rhs_y", ix(0))},
    out={"rhs_s": lambda s: s("U.sol"), "rhs_y": lambda s: s("U.sol", ix(0) + L)}, mats={"ARGA.dsytrs.A": lambda s: s.m("this.V_")},
    guard=dict({k: POS for k in list(LAP) + ["ARG.dsytrs.2"]}, **{"ARGA.dsytrs.B.data_": lambda s: inrng(ix(0), ZERO, 2 * L)}))
P20[-1]["mdims"]["ARGA.dsytrs.A"] = lambda s: (2 * L, 2 * L)
p20("solveWithV", "rhs", models=VV, mdims=dict(VM, rhs=lambda s: (K_, 2 * L)),
    cells=dict(LAP, **{"CALLS.dsytrs": POS, "ARG.dsytrs.2": lambda s: K_}),
    mats={"rhs": lambda s: s.vn.read(("U", "sol", "M"), [ix(0), ix(1)], "double", s.vn.st0), "ARGA.dsytrs.A": lambda s: s.m("this.V_"), "ARGA.dsytrs.B": lambda s: s.m("rhs")},
    guard={k: POS for k in list(LAP) + ["ARG.dsytrs.2"]})
P20[-1]["mdims"].update({"ARGA.dsytrs.A": lambda s: (2 * L, 2 * L), "ARGA.dsytrs.B": lambda s: (K_, 2 * L)})

# ---------------------------------------------------------------- the entry points
for fn, log, con in (("timesVec", False, True), ("timesVec", False, False), ("timesVec_noLogBarrierTerm", False, False)):
    kw = dict(models=VEC, dims=dict(DIMS, x="x", y="x", a0="x", b0="x"), unroll=3, init_cells={"this.l_curr": 1}, mdims={k: (lambda s: (ONE, NX)) for k in ("this.St_", "this.Yt_")})
    p20(fn, "beta y alpha x", where=lambda f, con=con: f["id"].startswith("_ZNK") == con, elem=con, domain={("std::numeric_limits<double>::epsilon",): [1e-4, 1e-3, 1e-2, 2e-2]},
        out={"y": lambda s, log=log: s.s("beta") * s("y") + s.s("alpha") * Rec(s, 1).times(lambda i: s("x", i))(ix(0)) + (s.s("alpha") * s("x") * s("this._Dx") if log else ZERO)}, **kw)

# ---------------------------------------------------------------- options
OPTIS = lambda v: T.inp(("optis", "sigma_update_strategy", v), "bool")
KNOWN = ("sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0")
p20("hiopHessianLowRank", "nlp_in max_mem_len", cells={"this.sigma0": lambda s: T.inp(("opt", "sigma0")), "this.sigma": lambda s: T.inp(("opt", "sigma0")),
    "this.sigma_safe_min": lambda s: P(Fraction(1, 10 ** 8)), "this.sigma_safe_max": lambda s: P(10 ** 8), "this.l_max": lambda s: s.i("max_mem_len"), "this.l_curr": lambda s: P(-1), "this.matrixChanged": lambda s: ZERO,
    "this.sigma_update_strategy": lambda s: sum(((i + 1) * OPTIS(v) for i, v in enumerate(KNOWN)), ZERO)},
    guard={"this.sigma_update_strategy": lambda s: sum((OPTIS(v) * prod(ONE - OPTIS(w) for w in KNOWN if w != v) for v in KNOWN), ZERO)})
