"""Reference formulas of the problem transformations and of the evaluation layer between the solver and the user (property P07):
the solver works on   min s_f f(x)  s.t.  S_c c(x) = S_c c_rhs,  S_d dl <= S_d d(x) <= S_d du   with fixed variables relaxed or removed;
what the user sees and returns is always in terms of the original problem."""
from term import *
import term as T
from vn import eq0, lt0, Ptr
from vecspec import lt
from vn import inrng
import nlpmodels

TR = "hiop::hiop"
P07 = []


def p07(fn, params="", **kw):
    kw.update(fn=fn, params=params)
    P07.append(kw)


def opt(n):
    return T.inp(("opt", n), "real")


# ---------------------------------------------------------------- fixed variables: relaxed
def fixed(s, xl, xu, tol):
    return ONE - lt0(tol * fmax(ONE, fabs(xu)) - fabs(xu - xl), False)


RX = "hiop::hiopFixedVarsRelaxer::"
p07(RX + "relax", "tol pert xl xu", dims={"xl": "x", "xu": "x"},
    out={"xu": lambda s: s("xu") + fixed(s, s("xl"), s("xu"), s.s("tol")) * s.s("pert") * fmax(ONE, fabs(s("xu"))),
         "xl": lambda s: s("xl") - fixed(s, s("xl"), s("xu"), s.s("tol")) * s.s("pert") * fmax(ONE, fabs(s("xu")))})

# ---------------------------------------------------------------- bounds relaxation
BR = "hiop::hiopBoundsRelaxer::"
BD = {"xl": -1, "xu": 1, "dl": -1, "du": 1}
for nm in ("relax", "relax_from_ori"):
    # relax is called right after construction, when the bounds are the original ones
    p07(BR + nm, "p xl xu dl du", dims={b: b[0] for b in BD},
        init={b: (lambda s, b=b: s("this." + b + "_ori")) for b in BD} if nm == "relax" else {},
        out={b: (lambda s, b=b: s("this." + b + "_ori") + sg * s.s("p") * fmax(ONE, fabs(s("this." + b + "_ori")))) for b, sg in BD.items() for sg in [sg]})
for b, sg in BD.items():
    for sp in P07:
        if sp["fn"].startswith(BR):
            sp["out"][b] = lambda s, b=b, sg=sg: s("this." + b + "_ori") + sg * s.s("p") * fmax(ONE, fabs(s("this." + b + "_ori")))
p07(BR + "hiopBoundsRelaxer", "nlp xl xu dl du", outp={"this.%s_ori" % b: (lambda s, b=b: s(b)) for b in BD}, frame=False)

# ---------------------------------------------------------------- gradient-based scaling
SC = "hiop::hiopNLPObjGradScaling::"


def s_obj(s):
    g = s.gmax(s.inf("gradf", lambda k: s("gradf", k)))
    s0 = T.ite(eq0(opt("scaling_max_obj_grad")), T.ite(lt(opt("scaling_max_grad"), g), opt("scaling_max_grad") / g, ONE),
               T.ite(lt(ZERO, g), opt("scaling_max_obj_grad") / g, ONE))
    return T.ite(lt(ZERO, opt("scaling_min_grad")), fmax(s0, opt("scaling_min_grad")), s0)


def rowmax(s, J, i=None):
    k = s.k()
    b = s.base(J)
    return fmax(ZERO, T.binder("redmax", (s.A.mdim(b)[1], ((ONE, fabs(s.m(J, i, k))),)), k))


def s_con(J, sp):
    def f(s, i=None):
        i = ix(0) if i is None else i
        nrm = s.gmax(s.inf(sp, lambda k: rowmax(s, J, k)))
        m = opt("scaling_max_grad")
        s0 = T.ite(eq0(opt("scaling_max_con_grad")), T.ite(lt(m, nrm), ONE / fmax(rowmax(s, J, i) / m, ONE), ONE), opt("scaling_max_con_grad") / nrm)
        return T.ite(lt(ZERO, opt("scaling_min_grad")), fmax(s0, opt("scaling_min_grad")), s0)
    return f


def s_cd(s):
    """all the constraints in the order of the user"""
    j, k = s.k(), s.k()
    v = T.binder("scat", ((ix(0),), s.dim("c"), (s.a("meq.buf_", j, "int"),), ONE, s_con("Jc", "c")(s, j), s("uninit")), j)
    return T.binder("scat", ((ix(0),), s.dim("d"), (s.a("mineq.buf_", k, "int"),), ONE, s_con("Jd", "d")(s, k), v), k)


def mk_sc():
    p07(SC + "hiopNLPObjGradScaling", "nlp c d gradf Jc Jd meq mineq", dims={"c": "c", "d": "d", "gradf": "gradf"},
        mdims={"Jc": lambda s: (s.dim("c"), s.dim("x")), "Jd": lambda s: (s.dim("d"), s.dim("x"))},
        cells={"this.scale_factor_obj": s_obj}, outp={"this.scale_factor_c": s_con("Jc", "c"), "this.scale_factor_d": s_con("Jd", "d"), "this.scale_factor_cd": s_cd}, frame=False)


mk_sc()
p07(SC + "apply_to_obj", "f", ret=lambda s: s.s("f") * s.s("this.scale_factor_obj"))
p07(SC + "apply_inv_to_obj", "f", ret=lambda s: s.s("f") / s.s("this.scale_factor_obj"))
p07(SC + "get_obj_scale", "", ret=lambda s: s.s("this.scale_factor_obj"))
p07(SC + "apply_to_grad_obj", "g", out={"g": lambda s: s("g") * s.s("this.scale_factor_obj")}, retp="g", dims={"g": "x"})
p07(SC + "apply_inv_to_grad_obj", "g", out={"g": lambda s: s("g") / s.s("this.scale_factor_obj")}, retp="g", dims={"g": "x"})
for n, w in (("cons_eq", "c"), ("cons_ineq", "d"), ("cons", "cd")):
    p07(SC + "apply_to_" + n, "v m", out={"v": lambda s, w=w: s("v") * s("this.scale_factor_" + w)}, retp="v", dims={"v": w, "scale_factor_" + w: w})
    p07(SC + "apply_inv_to_" + n, "v m", out={"v": lambda s, w=w: s("v") / s("this.scale_factor_" + w)}, retp="v", dims={"v": w, "scale_factor_" + w: w})
for n, w in (("jacob_eq", "c"), ("jacob_ineq", "d")):
    p07(SC + "apply_to_" + n, "J m", mats={"J": lambda s, w=w: s.m("J") * s("this.scale_factor_" + w)}, retp="J", dims={"scale_factor_" + w: w}, mdims={"J": lambda s, w=w: (s.dim(w), s.dim("x"))})
    p07(SC + "apply_inv_to_" + n, "J m", mats={"J": lambda s, w=w: s.m("J") / s("this.scale_factor_" + w)}, retp="J", dims={"scale_factor_" + w: w}, mdims={"J": lambda s, w=w: (s.dim(w), s.dim("x"))})

# ---------------------------------------------------------------- fixed variables: removed
RM = "hiop::hiopFixedVarsRemover::"
MAP = ("this", "fs2rs_idx_map")
NFS = T.inp(("dim", "this", "xl_fs"), "int")
RMD = dict(dimval={("this", "xl_fs"): T.inp(("dim",) + MAP, "int"), ("this", "xu_fs"): T.inp(("dim",) + MAP, "int"),
                   ("this", "x_fs"): T.inp(("dim",) + MAP, "int"), ("this", "grad_fs"): T.inp(("dim",) + MAP, "int")})
NF = T.inp(("dim",) + MAP, "int")


def mp(s, e=None):
    return s.a("this.fs2rs_idx_map", e, "int")


def removed(s, e=None):
    return fixed(s, s("this.xl_fs", e), s("this.xu_fs", e), s.s("this.fixedVarTol"))


def scat(s, src, dst):
    k = s.k()
    return T.binder("scat", ((ix(0),), NF, (mp(s, k),), ONE - lt0(mp(s, k), False), src(k), dst), k)


p07(RM + "setupDecisionVectorPart", "", arrs={"this.fs2rs_idx_map": lambda s: T.ite(removed(s), -ONE, (lambda k: mksum(ix(0), ONE - removed(s, k), k))(s.k()))},
    arrtype={"this.fs2rs_idx_map": "int"}, guard={"this.fs2rs_idx_map": lambda s: inrng(ix(0), ZERO, NF)}, **RMD)


def full(v):
    return lambda s: T.ite(lt0(mp(s), False), s("this.xl_fs"), s(v, mp(s)))


p07(RM + "apply_inv_to_vector", "rs fs", out={"fs": full("rs")}, dims={}, guard={"fs": lambda s: inrng(ix(0), ZERO, NF)}, **RMD)
p07(RM + "apply_to_vector", "fs rs", out={"rs": lambda s: scat(s, lambda k: s("fs", k), s("rs"))}, **RMD)
p07(RM + "copyFsToRs", "fs rs", out={"rs": lambda s: scat(s, lambda k: s("fs", k), s("rs"))}, where=lambda f: "hiopVector" in f["p"][0]["t"], **RMD)
p07(RM + "copyFsToRs", "fs rs", arrs={"rs": lambda s: scat(s, lambda k: s.a("fs", k, "int"), s.a("rs", None, "int"))}, arrtype={"rs": "int"}, where=lambda f: "hiopVector" not in f["p"][0]["t"], **RMD)
p07(RM + "apply_to_x", "fs rs", out={"rs": lambda s: scat(s, lambda k: s("fs", k), s("rs"))}, **RMD)
p07(RM + "apply_to_grad_obj", "fs", out={"this.grad_rs_ref": lambda s: scat(s, lambda k: s("fs", k), s("this.grad_rs_ref"))}, retp="this.grad_rs_ref", **RMD)
p07(RM + "apply_to_x", "fs", out={"this.x_rs_ref_": lambda s: scat(s, lambda k: s("fs", k), s("this.x_rs_ref_"))}, retp="this.x_rs_ref_", **RMD)
for new in (0, 1):
    p07(RM + "apply_inv_to_x", "x new_x", out={"this.x_fs": full("x") if new else (lambda s: s("this.x_fs"))}, ptrs={"this.x_rs_ref_": "x"}, retp="this.x_fs",
        args={1: lambda s, new=new: T.P(new)}, **RMD)
p07(RM + "apply_inv_to_grad_obj", "g", ptrs={"this.grad_rs_ref": "g"}, retp="this.grad_fs", scratch="this.grad_fs", **RMD)
p07(RM + "n_pre", "", ret=lambda s: s.i("this.n_fs"))
p07(RM + "n_post", "", ret=lambda s: s.i("this.n_rs"))
p07(RM + "n_pre_local", "", ret=lambda s: NF, **RMD)
p07(RM + "n_post_local", "", ret=lambda s: NF - s.i("this.n_fixed_vars_local"), **RMD)


def mapmat(s):
    i = ix(0)
    row = T.fn("idiv", i, NF)
    col = i - NF * row
    return s.a("rs", row * (NF - s.i("this.n_fixed_vars_local")) + mp(s, col))


def mapguard(s):
    i = ix(0)
    row = T.fn("idiv", i, NF)
    col = i - NF * row
    return inrng(i, ZERO, NF * s.i("m")) * (ONE - lt0(mp(s, col), False))


p07(RM + "applyToMatrix", "rs m fs", arrs={"fs": mapmat}, guard={"fs": mapguard}, **RMD)


def mapinv(rows):
    def f(s):
        v = s.a("rs")
        for r in range(rows):
            k = s.k()
            v = T.binder("scat", ((ix(0),), NF, (r * (NF - s.i("this.n_fixed_vars_local")) + mp(s, k),), ONE - lt0(mp(s, k), False), s.a("fs", r * NF + k), v), k)
        return v
    return f


for rows in (1, 2, 3):
    p07(RM + "applyInvToMatrix", "fs m rs", arrs={"rs": mapinv(rows)}, init_cells={"m": rows}, unroll=4, **RMD)

# ---------------------------------------------------------------- defaults: the identity
ID = "hiop::hiopNlpTransformation::"
for n in ("x", "grad_obj"):
    p07(ID + "apply_to_" + n, "v", retp="v", frame=True)
for n, pr in (("x", "v new_x"), ("grad_obj", "v"), ("cons_eq", "v m"), ("cons_ineq", "v m"), ("cons", "v m"), ("jacob_eq", "v m"), ("jacob_ineq", "v m"), ("jacob_cons", "v m")):
    p07(ID + "apply_inv_to_" + n, pr, retp="v")
    if n not in ("x", "grad_obj"):
        p07(ID + "apply_to_" + n, pr, retp="v")
for n in ("apply_to_obj", "apply_inv_to_obj"):
    p07(ID + n, "f", ret=lambda s: s.s("f"))

# ---------------------------------------------------------------- the chain
CH = nlpmodels.CHAIN


def elcall(name):
    def h(A, vn, e, st):
        o = A.obj(vn, e["o"], st) if e.get("o") is not None else None
        if not isinstance(o, Ptr) or o.base[:1] != ("elem",):
            return NotImplemented
        i = o.base[1]
        if name.endswith("to_obj"):
            return T.fn("%s@%s" % (name, i), vn.num(A.arg(vn, e["a"][0], st)))
        if name.startswith("n_"):
            return T.inp(("elem", str(i), name), "int")
        p = A.obj(vn, e["a"][0], st)
        if not isinstance(p, Ptr):
            return NotImplemented
        if name == "apply_to_x":
            q = A.obj(vn, e["a"][1], st) if len(e["a"]) == 2 else None
            if not isinstance(q, Ptr):
                return NotImplemented
            vn.setcontent(q.base + ("data_",), T.fn("apx@%s" % i, vn.content(p.base + ("data_",), st), vn.content(q.base + ("data_",), st)), st)
            return P(0)
        if len(e["a"]) > 1:
            a = vn.num(A.arg(vn, e["a"][1], st))
            if not a == vn.num(A.arg(vn, e["a"][1], vn.st0.copy())):
                return NotImplemented
        b = p.base + ("%s@%s" % (name, i),)
        vn.nonnull.add(b)
        return Ptr(b)
    return h


NAMES = ["apply_%sto_%s" % (i, n) for i in ("", "inv_") for n in ("x", "obj", "grad_obj", "cons_eq", "cons_ineq", "cons", "jacob_eq", "jacob_ineq")]
ELEM = {ID + n: elcall(n) for n in NAMES + ["n_pre", "n_post", "n_pre_local", "n_post_local"]}
for K in range(4):
    kw = dict(models=ELEM, lists={"list_trans_": K}, unroll=6, frame=False, elem=K)
    for n in NAMES:
        inv = "_inv_" in n
        order = range(K - 1, -1, -1) if inv else range(K)
        if n == "apply_to_x":
            def f(s, K=K):
                v = s("b")
                for i in range(K):
                    v = T.fn("apx@%d" % i, s("a"), v)
                return v
            p07(CH + n, "a b", out={"b": f}, **kw)
        elif n.endswith("to_obj"):
            def f(s, n=n, order=tuple(order)):
                v = s.s("f")
                for i in order:
                    v = T.fn("%s@%d" % (n, i), v)
                return v
            p07(CH + n, "f", ret=f, **kw)
        else:
            p07(CH + n, "v" if n.endswith("grad_obj") else "v m", retp="v" + "".join(".%s@%d" % (n, i) for i in order), **kw)
    for n, w in (("n_pre", 0), ("n_post", K - 1), ("n_pre_local", 0), ("n_post_local", K - 1)):
        p07(CH + n, "", ret=(lambda s, n=n, w=w: T.inp(("elem", str(w), n), "int")) if K else (lambda s, n=n: s.i("this.n_vars_local_usernlp" if "local" in n else "this.n_vars_usernlp")), **kw)

# ---------------------------------------------------------------- evaluation layer
NL = "hiop::hiopNlpFormulation::"
LIN, QUAD, NONLIN = 0, 1, 2
SIG = T.inp(("S", "obj"), "pos")
NPRE = T.inp(("n_pre",), "int")
SD = {"c": "c", "d": "d", "S": "S"}


def U(tag, i, t="double"):
    return T.inp(("U", tag, str(i)), t)


def ok(tag):
    return T.inp(("U", tag, "ok"), "bool")


def ev(fn, params, tag, xi, new, args, n=0, cells=None, ptrs=None, mods=None, npre=None, **kw):
    """the user's function is called once with the user's x, the new_x flag, the sizes of the user's problem"""
    # (where variables cannot be removed, the number of the user's variables is that of the solver)
    c = {"ARG.%s.%d" % (tag, n): (lambda s: s.i("this." + npre)) if npre else (lambda s: NPRE), "CALLS." + tag: lambda s: ONE}
    if new is not None:
        c["ARG.%s.%d" % (tag, new)] = lambda s: s.b("new_x")
        c["TX.new"] = lambda s: s.b("new_x")
    for i, a in args.items():
        c["ARG.%s.%d" % (tag, i)] = lambda s, a=a: s.i("this." + a) if isinstance(a, str) else a(s)
    c.update(cells or {})
    p = {"ARGP.%s.%d" % (tag, xi): "USER.x.data_", "TX.of": "x"}
    p.update(ptrs or {})
    p07(fn, params, cells=c, ptrs=p, ret=lambda s: ok(tag), models=("nlp", mods or {}), **kw)


ev(NL + "eval_f", "x new_x f", "eval_f4", 1, 2, {}, cells={"f": lambda s: U("eval_f4", 3) * SIG})
for st in ({"this.nlp_evaluated_": lambda s: ZERO}, {"this.prob_type_": lambda s: T.P(NONLIN)}):
    ev(NL + "eval_grad_f", "x new_x gradf", "eval_grad_f4", 1, 2, {}, out={"gradf": lambda s: SIG * T.fn("reduce", s("U.eval_grad_f4.3"))},
       ptrs={"ARGP.eval_grad_f4.3": "USER.grad.data_"}, eqm=st, dims={"gradf": "x"})
for c, n in (("c", "eq"), ("d", "ineq")):
    ev(NL + "eval_" + c, "x new_x " + c, "eval_cons7", 4, 5, {1: "n_cons_", 2: "n_cons_%s_" % n}, dims={c: c},
       ptrs={"ARGP.eval_cons7.3": "this.cons_%s_mapping_.buf_" % n, "ARGP.eval_cons7.6": c + ".data_"},
       out={c: lambda s, c=c: s("S." + c) * s("U.eval_cons7.6")})


# constraints: evaluated separately (type 0), in one call (type 1), or found out at the first call (type -1)
def sub_eval(nm, out, mat=False):
    """a nested evaluation that fills its output and may fail"""
    def h(A, vn, e, st):
        o = A.obj(vn, e["a"][2], st)
        x = A.obj(vn, e["a"][0], st)
        if not isinstance(o, Ptr) or not isinstance(x, Ptr):
            return NotImplemented
        nlpmodels.counted(st, vn, nm)
        nlpmodels.rec(st, vn, ("ARGP", nm, "x"), x, "ptr")
        nlpmodels.rec(st, vn, ("ARG", nm, "new"), vn.num(A.arg(vn, e["a"][1], st)), "bool")
        if mat:
            vn.setcontent(o.base + ("M",), vn.read(("U", nm, "M"), [ix(0), ix(1)], "double", st), st, 2)
        else:
            vn.setcontent(o.base + ("data_",), A.rd(vn, st, ("U", nm), ix(0)), st)
        return ok(nm)
    return h


def vecalloc(base):
    def h(A, vn, e, st):
        b = ("new", base)
        vn.nonnull.add(b)
        return Ptr(b)
    return h


SUBS = dict([(NL + "eval_" + w, sub_eval("eval_" + w, w)) for w in "cd"] + [(NL + "eval_Jac_" + w, sub_eval("eval_Jac_" + w, w, True)) for w in "cd"])
SUBS[NL + "alloc_dual_vec"] = vecalloc("dual")
SUBS[NL + "alloc_Jac_cons"] = vecalloc("jac")
SD2 = {"c": "c", "d": "d"}


def cont(c):
    n = {"c": "eq", "d": "ineq"}[c]
    return lambda s: s("S." + c) * s("U.eval_cons5.4", s.a("this.cons_%s_mapping_.buf_" % n, None, "int"))


okc, okd = ok("eval_c"), ok("eval_d")
p07(NL + "eval_c_d", "x new_x c d", models=("nlp", SUBS), eqm={"this.cons_eval_type_": lambda s: ZERO}, dims=SD2,
    out={"c": lambda s: s("U.eval_c"), "d": lambda s: s("U.eval_d")}, guard={"d": lambda s: okc}, ret=lambda s: okc * okd,
    cells={"ARG.eval_c.new": lambda s: s.b("new_x"), "CALLS.eval_cons5": lambda s: ZERO}, ptrs={"ARGP.eval_c.x": "x"})
CT1 = dict(models=("nlp", SUBS), dims=SD2)
p07(NL + "eval_c_d", "x new_x c d", eqm={"this.cons_eval_type_": lambda s: ONE}, out={"c": cont("c"), "d": cont("d")}, nonnull=("this.cons_body_", "this.cons_Jac_"),
    ret=lambda s: ok("eval_cons5"), cells={"ARG.eval_cons5.0": lambda s: NPRE, "ARG.eval_cons5.1": lambda s: s.i("this.n_cons_"), "ARG.eval_cons5.3": lambda s: s.b("new_x"),
    "CALLS.eval_cons5": lambda s: ONE, "CALLS.eval_c": lambda s: ZERO}, ptrs={"ARGP.eval_cons5.2": "USER.x.data_", "TX.of": "x"}, scratch="this.cons_body_", **CT1)
# the first call decides: both separate evaluations must fail before the one-call mode is chosen
p07(NL + "eval_c_d", "x new_x c d", eqm={"this.cons_eval_type_": lambda s: -ONE},
    out={"c": lambda s: T.ite(okc + okd - okc * okd, s("U.eval_c"), cont("c")(s)), "d": lambda s: T.ite(okc + okd - okc * okd, s("U.eval_d"), cont("d")(s))},
    ret=lambda s: T.ite(okc + okd - okc * okd, okc * okd, ok("eval_cons5")),
    cells={"this.cons_eval_type_": lambda s: (ONE - okc) * (ONE - okd), "CALLS.eval_cons5": lambda s: (ONE - okc) * (ONE - okd)}, frame=False, **CT1)

IMPL = NL + "eval_Jac_c_d_interface_impl"


def impl(A, vn, e, st):
    nlpmodels.counted(st, vn, "impl")
    for i, w in ((2, "c"), (3, "d")):
        o = A.obj(vn, e["a"][i], st)
        if not isinstance(o, Ptr):
            return NotImplemented
        vn.setcontent(o.base + ("M",), vn.read(("U", "impl" + w, "M"), [ix(0), ix(1)], "double", st), st, 2)
    return ok("impl")


JS = dict(SUBS, **{IMPL: impl})
okJc, okJd = ok("eval_Jac_c"), ok("eval_Jac_d")
JD = {"Jc": lambda s: (s.dim("c"), s.dim("x")), "Jd": lambda s: (s.dim("d"), s.dim("x"))}
for st in ({"this.nlp_evaluated_": lambda s: ZERO}, {"this.prob_type_": lambda s: T.P(NONLIN)}):
    p07(NL + "eval_Jac_c_d", "x new_x Jc Jd", models=("nlp", JS), eqm=dict(st, **{"this.cons_eval_type_": lambda s: ZERO}), mdims=JD,
        mats={"Jc": lambda s: s.m("U.eval_Jac_c"), "Jd": lambda s: s.m("U.eval_Jac_d")}, guard={"Jd": lambda s: okJc}, ret=lambda s: okJc * okJd)
    p07(NL + "eval_Jac_c_d", "x new_x Jc Jd", models=("nlp", JS), eqm=dict(st, **{"this.cons_eval_type_": lambda s: ONE}), mdims=JD, nonnull=("this.cons_body_", "this.cons_Jac_"),
        mats={"Jc": lambda s: s.m("U.implc"), "Jd": lambda s: s.m("U.impld")}, ret=lambda s: ok("impl"), cells={"CALLS.eval_Jac_c": lambda s: ZERO})
    J0 = okJc + okJd - okJc * okJd
    p07(NL + "eval_Jac_c_d", "x new_x Jc Jd", models=("nlp", JS), eqm=dict(st, **{"this.cons_eval_type_": lambda s: -ONE}), mdims=JD,
        mats={"Jc": lambda s: T.ite(J0, s.m("U.eval_Jac_c"), s.m("U.implc")), "Jd": lambda s: T.ite(J0, s.m("U.eval_Jac_d"), s.m("U.impld"))}, ret=lambda s: T.ite(J0, okJc * okJd, ok("impl")),
        cells={"this.cons_eval_type_": lambda s: (ONE - okJc) * (ONE - okJd)}, frame=False)

# ---------------------------------------------------------------- Jacobians and Hessians
DN = "hiop::hiopNlpDenseConstraints::"
MD = "hiop::hiopNlpMDS::"
EVAL = ({"this.nlp_evaluated_": lambda s: ZERO}, {"this.prob_type_": lambda s: T.P(NONLIN)})


def rank1(s):
    return ix(0)


for st in EVAL:
    for w, n in (("c", "eq"), ("d", "ineq")):
        ev(DN + "eval_Jac_" + w, "x new_x J", "eval_Jac_cons7", 4, 5, {1: "n_cons_", 2: "n_cons_%s_" % n}, eqm=st, mdims={"J": lambda s, w=w: (s.dim(w), s.dim("x"))},
           ptrs={"ARGP.eval_Jac_cons7.3": "this.cons_%s_mapping_.buf_" % n, "ARGP.eval_Jac_cons7.6": "USER.J%s.M" % w}, where=lambda f: "hiopMatrix" in f["p"][2]["t"],
           mats={"J": lambda s, w=w: s("S." + w) * T.fn("reducecols", s.m("U.eval_Jac_cons7.6"))}, nonnull=("J",))
ev(DN + "eval_Jac_c_d_interface_impl", "x new_x Jc Jd", "eval_Jac_cons5", 2, 3, {1: "n_cons_"}, mdims=JD, nonnull=("this.cons_Jac_", "Jc", "Jd"),
   mats={w2: (lambda s, w=w, n=n: s("S." + w) * s.m("U.eval_Jac_cons5.4", s.a("this.cons_%s_mapping_.buf_" % n, None, "int"))) for w2, w, n in (("Jc", "c", "eq"), ("Jd", "d", "ineq"))},
   scratch="this.cons_Jac_")


def acc(what, kind="ptr"):
    def h(A, vn, e, st):
        o = A.obj(vn, e["o"], st)
        if not isinstance(o, Ptr):
            return NotImplemented
        if kind == "int":
            return T.inp((what,) + o.base, "int")
        return Ptr(o.base + (what,), (ZERO, ZERO) if what == "M" else (ZERO,))
    return h


MODS = {}
for cl in ("hiop::hiopMatrixMDS::", "hiop::hiopMatrixSymBlockDiagMDS::"):
    for n, w in (("sp_M", "M"), ("sp_irow", "irow"), ("sp_jcol", "jcol"), ("de_local_data", "D")):
        MODS[cl + n] = acc(w)
    for n in ("n_sp", "n_de", "sp_nnz"):
        MODS[cl + n] = acc(n, "int")
for n, w in (("M", "M"), ("i_row", "irow"), ("j_col", "jcol")):
    MODS["hiop::hiopMatrixSparse::" + n] = acc(w)
MODS["hiop::hiopMatrixSparse::numberOfNonzeros"] = acc("sp_nnz", "int")
for st in EVAL:
    for w, n in (("c", "eq"), ("d", "ineq")):
        tag = "eval_Jac_cons13"
        A = "ARGP.%s." % tag
        ev(MD + "eval_Jac_" + w, "x new_x J", tag, 4, 5, {1: "n_cons_", 2: "n_cons_%s_" % n, 6: lambda s: T.inp(("n_sp", "a2"), "int"), 7: lambda s: T.inp(("n_de", "a2"), "int"), 8: lambda s: T.inp(("sp_nnz", "a2"), "int")},
           eqm=dict(st), mdims={"J": lambda s, w=w: (s.dim(w), s.dim("x"))}, mods=MODS, npre="n_vars_",
           ptrs={A + "3": "this.cons_%s_mapping_.buf_" % n, A + "9": "J.irow", A + "10": "J.jcol", A + "11": "J.M", A + "12": "J.D"}, scratch="J.D J.irow J.jcol",
           mats={"J": lambda s, w=w: s("S." + w) * s.m("U.eval_Jac_cons13.11")}, nonnull=("J",))
CM = "this.cons_Jac_"
ev(MD + "eval_Jac_c_d_interface_impl", "x new_x Jc Jd", "eval_Jac_cons11", 2, 3, {1: "n_cons_"}, mdims=JD, nonnull=("this.cons_Jac_", "Jc", "Jd"), mods=MODS, npre="n_vars_",
   ptrs={"ARGP.eval_Jac_cons11.7": CM + ".irow", "ARGP.eval_Jac_cons11.8": CM + ".jcol", "ARGP.eval_Jac_cons11.9": CM + ".M", "ARGP.eval_Jac_cons11.10": CM + ".D"},
   mats={w2: (lambda s, w=w, n=n: s("S." + w) * s.m("U.eval_Jac_cons11.9", s.a("this.cons_%s_mapping_.buf_" % n, None, "int"))) for w2, w, n in (("Jc", "c", "eq"), ("Jd", "d", "ineq"))},
   scratch="this.cons_Jac_ this.cons_Jac_.D this.cons_Jac_.irow this.cons_Jac_.jcol")


def obj_scale(A, vn, e, st):
    return SIG


HM = dict(MODS, **{NL + "get_obj_scale": obj_scale, NL + "alloc_dual_vec": vecalloc("dual"), NL + "alloc_dual_eq_vec": vecalloc("dualeq"), NL + "alloc_dual_ineq_vec": vecalloc("dualineq")})
HT = "eval_Hess_Lagr18"


def lam_mds(s):
    return T.ite(lt(ix(0), s.dim("c")), s("S.c") * s("leq"), s("S.d", ix(0) - s.dim("c")) * s("lineq", ix(0) - s.dim("c")))


for st in ({"this.nlp_evaluated_": lambda s: ZERO}, {"this.prob_type_": lambda s: T.P(NONLIN)}, {"this.prob_type_": lambda s: T.P(QUAD)}):
    p07(MD + "eval_Hess_Lagr", "x new_x of leq lineq new_l H", models=("nlp", HM), eqm=dict(st, **{"this.n_cons_eq_": lambda s: s.dim("c"), "this.n_cons_ineq_": lambda s: s.dim("d")}), dims={"leq": "c", "lineq": "d", "buf_lambda_": "cd", "temp_eq_": "c", "temp_ineq_": "d"},
        dimval={"cd": T.inp(("dim", "c"), "int") + T.inp(("dim", "d"), "int"), ("new", "dualeq"): T.inp(("dim", "c"), "int"), ("new", "dualineq"): T.inp(("dim", "d"), "int")},
        nonnull=("H", "this.buf_lambda_"), cells={"CALLS." + HT: lambda s: ONE, "ARG.%s.0" % HT: lambda s: s.i("this.n_vars_"), "ARG.%s.1" % HT: lambda s: s.i("this.n_cons_"),
        "ARG.%s.3" % HT: lambda s: s.b("new_x"), "ARG.%s.4" % HT: lambda s: s.s("of") * SIG, "ARG.%s.6" % HT: lambda s: s.b("new_l")},
        ptrs={"ARGP.%s.2" % HT: "x.data_", "ARGP.%s.10" % HT: "H.irow", "ARGP.%s.11" % HT: "H.jcol", "ARGP.%s.12" % HT: "H.M", "ARGP.%s.13" % HT: "H.D"},
        out={"ARGA.%s.5" % HT: lam_mds}, guard={"ARGA.%s.5" % HT: lambda s: inrng(ix(0), ZERO, s.dim("c") + s.dim("d"))}, ret=lambda s: ok(HT), frame=False)

# sparse Jacobians and Hessians: the sparsity pattern is asked for once, then the values only
SP = "hiop::hiopNlpSparse::"


def arg(tag, i):
    return "ARG.%s.%d" % (tag, i)


def argp(tag, i):
    return "ARGP.%s.%d" % (tag, i)


for st in EVAL:
    for w, n in (("c", "eq"), ("d", "ineq")):
        tag = "eval_Jac_cons10"
        ev(SP + "eval_Jac_" + w, "x new_x J", tag, 4, 5, {1: "n_cons_", 2: "n_cons_%s_" % n, 6: lambda s: T.inp(("sp_nnz", "a2"), "int")}, npre="n_vars_",
           eqm=dict(st), mdims={"J": lambda s, w=w: (s.dim(w), s.dim("x"))}, mods=MODS, scratch="J.irow J.jcol",
           ptrs={argp(tag, 3): "this.cons_%s_mapping_.buf_" % n, argp(tag, 7): "J.irow", argp(tag, 8): "J.jcol", argp(tag, 9): "J.M"},
           mats={"J": lambda s, w=w: s("S." + w) * s.m("U.eval_Jac_cons10.9")}, nonnull=("J",))
SJ = dict(mdims=JD, nonnull=("this.cons_Jac_", "Jc", "Jd"), models=("nlp", MODS), scratch="this.cons_Jac_ this.cons_Jac_.irow this.cons_Jac_.jcol")
SJM = {w2: (lambda s, w=w, n=n: s("S." + w) * s.m("U.eval_Jac_cons8.7", s.a("this.cons_%s_mapping_.buf_" % n, None, "int"))) for w2, w, n in (("Jc", "c", "eq"), ("Jd", "d", "ineq"))}
p07(SP + "eval_Jac_c_d_interface_impl", "x new_x Jc Jd", mats=SJM, eqm={"this.num_jac_eval_": lambda s: ZERO}, guard={w: lambda s: ok("eval_Jac_cons8") for w in ("Jc", "Jd")},
    cells={"CALLS.eval_Jac_cons8": lambda s: ONE + ok("eval_Jac_cons8"), "this.num_jac_eval_": lambda s: ok("eval_Jac_cons8")}, ret=lambda s: ok("eval_Jac_cons8"), frame=False, **SJ)
p07(SP + "eval_Jac_c_d_interface_impl", "x new_x Jc Jd", mats=SJM, eqm={"this.num_jac_eval_": lambda s: ONE}, ret=lambda s: ok("eval_Jac_cons8"),
    cells={"CALLS.eval_Jac_cons8": lambda s: ONE, "this.num_jac_eval_": lambda s: ONE, arg("eval_Jac_cons8", 0): lambda s: s.i("this.n_vars_"), arg("eval_Jac_cons8", 1): lambda s: s.i("this.n_cons_"),
           arg("eval_Jac_cons8", 3): lambda s: s.b("new_x"), arg("eval_Jac_cons8", 5): lambda s: ZERO, arg("eval_Jac_cons8", 6): lambda s: ZERO},
    ptrs={argp("eval_Jac_cons8", 2): "USER.x.data_", "TX.of": "x", argp("eval_Jac_cons8", 7): CM + ".M"}, **SJ)


def order(yc, yd, base, n1="c", n2="d"):
    """constraints in the order of the user"""
    def f(s):
        j, k = s.k(), s.k()
        v = T.binder("scat", ((ix(0),), s.dim(n1), (s.a("this.cons_eq_mapping_.buf_", j, "int"),), ONE, yc(s, j), base(s)), j)
        return T.binder("scat", ((ix(0),), s.dim(n2), (s.a("this.cons_ineq_mapping_.buf_", k, "int"),), ONE, yd(s, k), v), k)
    return f


HS = "eval_Hess_Lagr11"
HN = dict(HM)
HN["hiop::LinearAlgebraFactory::create_vector"] = vecalloc("dual")
for st in EVAL + ({"this.prob_type_": lambda s: T.P(QUAD)},):
    for first in (0, 1):
        p07(SP + "eval_Hess_Lagr", "x new_x of leq lineq new_l H", models=("nlp", HM), dims={"leq": "c", "lineq": "d", "buf_lambda_": "cd"},
            eqm=dict(st, **{"this.n_cons_eq_": lambda s: s.dim("c"), "this.n_cons_ineq_": lambda s: s.dim("d"), "this.num_hess_eval_": lambda s, first=first: P(1 - first)}),
            dimval={"cd": T.inp(("dim", "c"), "int") + T.inp(("dim", "d"), "int")}, nonnull=("H", "this.buf_lambda_"),
            cells=dict({"CALLS." + HS: lambda s, first=first: ONE + ok(HS) if first else ONE, arg(HS, 0): lambda s: s.i("this.n_vars_"), arg(HS, 1): lambda s: s.i("this.n_cons_"),
                   arg(HS, 3): lambda s: s.b("new_x"), arg(HS, 4): lambda s: s.s("of") * SIG, arg(HS, 6): lambda s: s.b("new_l")},
                   **({} if first else {arg(HS, 8): lambda s: ZERO, arg(HS, 9): lambda s: ZERO})),
            ptrs=dict({argp(HS, 2): "x.data_"}, **({} if first else {argp(HS, 10): "H.M"})), ret=lambda s: ok(HS), frame=False,
            out={"ARGA.%s.5" % HS: order(lambda s, j: s("leq", j), lambda s, k: s("lineq", k), lambda s: s("this.buf_lambda_"))} and
                {"ARGA.%s.5" % HS: (lambda f: lambda s: s("S.cd") * f(s))(order(lambda s, j: s("leq", j), lambda s, k: s("lineq", k), lambda s: s("this.buf_lambda_")))})

# ---------------------------------------------------------------- starting points
GS = "get_starting_point9"
for sfx, fn, ps in ((GS, "get_starting_point", "x da zl zu yc yd sa d"),):
    p07(NL + fn, ps, models="nlp", frame=False, dims={"yc": "c", "yd": "d", "d": "d", "zl": "x", "zu": "x"},
        eqm={"this.n_cons_eq_": lambda s: s.dim("c"), "this.n_cons_ineq_": lambda s: s.dim("d")},
        dimval={"cd": T.inp(("dim", "c"), "int") + T.inp(("dim", "d"), "int")},
        cells={"CALLS." + sfx: lambda s: ONE, "CALLS.get_starting_point2": lambda s: ONE - ok(sfx), arg(sfx, 0): lambda s: NPRE, arg(sfx, 1): lambda s: s.i("this.n_cons_"), "da": lambda s: U(sfx, 3, "bool"), "sa": lambda s: U(sfx, 7, "bool")},
        ptrs={argp(sfx, 2): "USER.x.data_", argp(sfx, 8): "d.data_"},
        ret=lambda s: ONE - (ONE - ok(GS)) * (ONE - ok("get_starting_point2")),
        out={"x": lambda s: T.fn("reduce", T.ite(ok(GS), s("U.%s.2" % GS), s("U.get_starting_point2.1"))),
             "yc": lambda s: s("U.%s.6" % GS, s.a("this.cons_eq_mapping_.buf_", None, "int")), "yd": lambda s: s("U.%s.6" % GS, s.a("this.cons_ineq_mapping_.buf_", None, "int")),
             "zl": lambda s: s("U.%s.4" % GS), "zu": lambda s: s("U.%s.5" % GS), "d": lambda s: s("U.%s.8" % GS)},
        guard={"x": lambda s: ok(GS), "yc": lambda s: ok(GS) * U(GS, 3, "bool"), "yd": lambda s: ok(GS) * U(GS, 3, "bool"), "d": lambda s: ok(GS) * U(GS, 7, "bool"), "zl": lambda s: ok(GS) * U(GS, 3, "bool"), "zu": lambda s: ok(GS) * U(GS, 3, "bool")})
GW = "get_warmstart_point9"
p07(NL + "get_warmstart_point", "x zl zu yc yd d vl vu", models="nlp", frame=False, dims={"yc": "c", "yd": "d", "d": "d", "zl": "x", "zu": "x", "vl": "d", "vu": "d"},
    eqm={"this.n_cons_eq_": lambda s: s.dim("c"), "this.n_cons_ineq_": lambda s: s.dim("d")}, dimval={"cd": T.inp(("dim", "c"), "int") + T.inp(("dim", "d"), "int")},
    cells={"CALLS." + GW: lambda s: ONE, "CALLS.get_starting_point2": lambda s: ONE - ok(GW), arg(GW, 0): lambda s: NPRE, arg(GW, 1): lambda s: s.i("this.n_cons_")},
    ptrs={argp(GW, 2): "USER.x.data_"}, ret=lambda s: ONE - (ONE - ok(GW)) * (ONE - ok("get_starting_point2")),
    out=dict({"x": lambda s: T.fn("reduce", T.ite(ok(GW), s("U.%s.2" % GW), s("U.get_starting_point2.1"))),
              "yc": lambda s: s("U.%s.5" % GW, s.a("this.cons_eq_mapping_.buf_", None, "int")), "yd": lambda s: s("U.%s.5" % GW, s.a("this.cons_ineq_mapping_.buf_", None, "int"))},
             **{v: (lambda s, i=i: s("U.%s.%d" % (GW, i))) for v, i in (("zl", 3), ("zu", 4), ("d", 6), ("vl", 7), ("vu", 8))}),
    guard={v: (lambda s: ok(GW)) for v in ("x", "yc", "yd", "zl", "zu", "d", "vl", "vu")})

# ---------------------------------------------------------------- what the user gets back

GO = {NL + "get_obj_scale": obj_scale, NL + "alloc_dual_vec": vecalloc("dual"), NL + "alloc_dual_eq_vec": vecalloc("dualeq"), NL + "alloc_dual_ineq_vec": vecalloc("dualineq"), NL + "alloc_primal_vec": vecalloc("prim")}
p07(NL + "user_obj", "f", models=("nlp", GO), ret=lambda s: s.s("f") / SIG)
p07(NL + "user_x", "x out", models=("nlp", GO), arrs={"out": lambda s: s("USER.x")}, guard={"out": lambda s: inrng(ix(0), ZERO, T.inp(("n_pre_local",), "int"))}, ptrs={"TX.of": "x"}, frame=False)
NN = ("this.cons_lambdas_", "this.cons_body_", "this.temp_x_", "this.temp_eq_", "this.temp_ineq_")
CDD = dict(dims={"c": "c", "d": "d", "yc": "c", "yd": "d", "cons_lambdas_": "cd", "cons_body_": "cd", "temp_x_": "x", "temp_eq_": "c", "temp_ineq_": "d", "z_L": "x", "z_U": "x"}, nonnull=NN,
           eqm={"this.n_cons_eq_": lambda s: s.dim("c"), "this.n_cons_ineq_": lambda s: s.dim("d")}, dimval={"cd": T.inp(("dim", "c"), "int") + T.inp(("dim", "d"), "int")}, frame=False)
for scaled in (0, 1):
    sy = (lambda w: (lambda s, k=None: s("S." + w, k) / SIG)) if scaled else (lambda w: (lambda s, k=None: ONE))
    sz = (lambda s: ONE / SIG) if scaled else (lambda s: ONE)
    sc = (lambda w: (lambda s, k: ONE / s("S." + w, k))) if scaled else (lambda w: (lambda s, k: ONE))
    nn = {"init_cells": {"this.nlp_scaling_": 0}} if not scaled else {}
    M = dict(CDD, models=("nlp", GO), **nn)
    if scaled:
        M["nonnull"] = NN + ("this.nlp_scaling_",)
    cb = "solution_callback9"
    lamv = lambda s, sy=sy: order(lambda s, j: s("yc", j) * sy("c")(s, j), lambda s, k: s("yd", k) * sy("d")(s, k), lambda s: s("this.cons_lambdas_"))(s)
    bodyv = lambda s, sc=sc: order(lambda s, j: s("c", j) * sc("c")(s, j), lambda s, k: s("d", k) * sc("d")(s, k), lambda s: s("this.cons_body_"))(s)
    cover = order(lambda s, j: ONE, lambda s, k: ONE, lambda s: ZERO)
    p07(NL + "user_callback_solution", "status x zl zu c d yc yd obj", cells={"CALLS." + cb: lambda s: ONE, arg(cb, 8): lambda s: s.s("obj") / SIG, arg(cb, 1): lambda s: s.i("this.n_vars_"), arg(cb, 5): lambda s: s.i("this.n_cons_")},
        out=dict({"ARGA.%s.2" % cb: lambda s: s("x"), "ARGA.%s.3" % cb: lambda s, sz=sz: s("zl") * sz(s), "ARGA.%s.4" % cb: lambda s, sz=sz: s("zu") * sz(s), "ARGA.%s.6" % cb: bodyv, "ARGA.%s.7" % cb: lamv},
                 **{v: (lambda s, v=v: s(v)) for v in ("zl", "zu", "yc", "yd", "c", "d")}), guard={"ARGA.%s.%d" % (cb, i): cover for i in (6, 7)}, **M)
    p07(NL + "get_dual_solutions", "it zla zua la", arrs={"zla": lambda s, sz=sz: s("it.zl") * sz(s), "zua": lambda s, sz=sz: s("it.zu") * sz(s),
        "la": lambda s, sy=sy: order(lambda s, j: s("it.yc", j) * sy("c")(s, j), lambda s, k: s("it.yd", k) * sy("d")(s, k), lambda s: s("this.cons_lambdas_"))(s)},
        guard={"zla": lambda s: inrng(ix(0), ZERO, s.dim("x")), "zua": lambda s: inrng(ix(0), ZERO, s.dim("x")), "la": lambda s: cover(s) * inrng(ix(0), ZERO, s.dim("c") + s.dim("d"))}, **M)
    if not scaled:
        cb = "iterate_callback19"
        p07(NL + "user_callback_iterate", "iter obj logbar x zl zu s c d yc yd inf_pr inf_du one_pr mu adu apr ls",
            cells=dict({"CALLS." + cb: lambda s: ONE, arg(cb, 0): lambda s: s.i("iter"), arg(cb, 1): lambda s: s.s("obj") / SIG, arg(cb, 3): lambda s: s.i("this.n_vars_"), arg(cb, 7): lambda s: s.i("this.n_cons_ineq_"),
                   arg(cb, 9): lambda s: s.i("this.n_cons_"), arg(cb, 18): lambda s: s.i("ls")},
                  **{arg(cb, i): (lambda s, w=w: s.s(w)) for i, w in ((2, "logbar"), (12, "inf_pr"), (13, "inf_du"), (14, "one_pr"), (15, "mu"), (16, "adu"), (17, "apr"))}),
            out=dict({"ARGA.%s.10" % cb: bodyv, "ARGA.%s.11" % cb: lamv}, **{"ARGA.%s.%d" % (cb, i): (lambda s, w=w: s(w)) for i, w in ((4, "x"), (5, "zl"), (6, "zu"), (8, "s"))}),
            ret=lambda s: ok("iterate_callback19"), guard={"ARGA.%s.%d" % (cb, i): cover for i in (10, 11)}, **M)
        cb = "iterate_full_callback8"
        p07(NL + "user_callback_full_iterate", "x zl zu yc yd s vl vu", cells={"CALLS." + cb: lambda s: ONE}, ret=lambda s: ok("iterate_full_callback8"),
            out={"ARGA.%s.%d" % (cb, i): (lambda s, w=w: s(w)) for i, w in enumerate("x zl zu yc yd s vl vu".split())}, **M)

# ---------------------------------------------------------------- bounds and constraints as the solver sees them
LOW, UPP = P(-10**20), P(10**20)
for nm in ("adjust_bounds",):
    p07(NL + nm, "it", out={"this.%s" % b: (lambda s, b=b, v=v, sg=sg: s("this.i%s" % b) * (s("it." + v) + sg * s("it.s" + b[:-1])) + (ONE - s("this.i%s" % b)) * s("this." + b))
        for b, v, sg in (("xl_", "x", -1), ("xu_", "x", 1), ("dl_", "d", -1), ("du_", "d", 1))})
p07(NL + "reset_bounds", "p", out={"this.%s_" % b: (lambda s, b=b, sg=sg: s("this.relax_bounds_.%s_ori" % b) + sg * s.s("p") * fmax(ONE, fabs(s("this.relax_bounds_.%s_ori" % b)))) for b, sg in BD.items()}, nonnull=("this.relax_bounds_",))


def has(lo, v):
    return lt(LOW, v) if lo else lt(v, UPP)


def cnt(dim, f):
    return lambda s: (lambda k: mksum_n(s, dim, f, k))(s.k())


def total(s, dim, f):
    k = s.k()
    return T.binder("sum", (s.dim(dim), f(s, k)), k)


XL = lambda s, k=None: s("this.xl_", k)
XU = lambda s, k=None: s("this.xu_", k)
p07(NL + "process_bounds", "nl nu nlu nf", dims={"xl_": "x", "xu_": "x", "ixl_": "x", "ixu_": "x"},
    out={"this.ixl_": lambda s: has(1, XL(s)), "this.ixu_": lambda s: has(0, XU(s))},
    cells={"nl": lambda s: s.sum("x", lambda k: has(1, XL(s, k))) , "nu": lambda s: s.sum("x", lambda k: has(0, XU(s, k))), "nlu": lambda s: s.sum("x", lambda k: has(1, XL(s, k)) * has(0, XU(s, k))),
           "nf": lambda s: s.sum("x", lambda k: has(0, XU(s, k)) * (ONE - lt0(opt("fixed_var_tolerance") * fmax(ONE, fabs(XU(s, k))) - fabs(XL(s, k) - XU(s, k)), False)))}, ret=lambda s: ONE)
CI = "get_cons_info4"


def ceq(s, k):
    return eq0(s("U.%s.1" % CI, k) - s("U.%s.2" % CI, k))


def split(eqpart, val, base="uninit"):
    """the k-th constraint goes behind those of its kind before it"""
    def f(s):
        k, j = s.k(), s.k()
        w = (lambda q: ceq(s, q)) if eqpart else (lambda q: ONE - ceq(s, q))
        return T.binder("scat", ((ix(0),), s.i("this.n_cons_"), (mksum(k, w(j), j),), w(k), val(s, k), s(base)), k)
    return f


GL, GU = (lambda s, k: s("U.%s.1" % CI, k)), (lambda s, k: s("U.%s.2" % CI, k))
NI = lambda s: mksum(s.i("this.n_cons_"), ONE - ceq(s, (k := s.k())), k)
NE = lambda s: mksum(s.i("this.n_cons_"), ceq(s, (k := s.k())), k)
def succeed(A, vn, e, st):
    nlpmodels.callback(A, vn, e, st)
    return ONE


def seqcopy(A, vn, e, st):
    o, a = A.obj(vn, e["o"], st), A.obj(vn, e["a"][0], st)
    if not isinstance(o, Ptr) or not isinstance(a, Ptr):
        return NotImplemented
    st.arr[o.base + ("buf_",)] = vn.read(a.base + ("buf_",), [ix(0)], "int", st)
    return P(0)


def intat(eqpart):
    def f(s):
        k, j = s.k(), s.k()
        w = (lambda q: ceq(s, q)) if eqpart else (lambda q: ONE - ceq(s, q))
        return T.binder("scat", ((ix(0),), s.i("this.n_cons_"), (mksum(k, w(j), j),), w(k), k, ZERO), k)
    return f


def ineqs(s, f):
    k = s.k()
    return mksum(s.i("this.n_cons_"), (ONE - ceq(s, k)) * f(k), k)


PC = {"hiop::hiopInterfaceBase::get_cons_info": succeed, "hiop::hiopVectorInt::copy_from_vectorseq": seqcopy, "hiop::hiopVectorIntSeq::copy_from_vectorseq": seqcopy}
p07(NL + "process_constraints", "", models=("nlp", PC), frame=False, ret=lambda s: ONE, guard={},
    cells={"this.n_cons_eq_": NE, "this.n_cons_ineq_": NI, "this.n_ineq_low_": lambda s: ineqs(s, lambda k: has(1, GL(s, k))), "this.n_ineq_upp_": lambda s: ineqs(s, lambda k: has(0, GU(s, k))),
           "this.n_ineq_lu_": lambda s: ineqs(s, lambda k: has(1, GL(s, k)) * has(0, GU(s, k)))},
    outp={"this.c_rhs_": split(1, GL), "this.dl_": split(0, GL), "this.du_": split(0, GU),
          "this.idl_": lambda s: has(1, split(0, GL)(s)), "this.idu_": lambda s: has(0, split(0, GU)(s))},
    outpi={"this.cons_eq_mapping_": intat(1), "this.cons_ineq_mapping_": intat(0)})


# scaling is switched on where a gradient is too large, once, and takes the constraint bounds along
def lit0(A, vn, e, st):
    return P(0)


def gmaxabs(name):
    def h(A, vn, e, st):
        o = A.obj(vn, e["o"], st)
        return T.inp(("nrm",) + o.base, "nonneg") if isinstance(o, Ptr) else NotImplemented
    return h


def newscaling(A, vn, c, st):
    vn.nonnull.add(("new", "scaling"))
    return Ptr(("new", "scaling"))


AS = {"new hiop::hiopNLPObjGradScaling": newscaling, "hiop::hiopNlpTransformations::append": lit0, SC + "apply_to_cons_eq": nlpmodels.scaled("c", False), SC + "apply_to_cons_ineq": nlpmodels.scaled("d", False)}
for cl in ("hiopVector", "hiopMatrix"):
    for n in ("infnorm", "max_abs_value"):
        AS["hiop::%s::%s" % (cl, n)] = gmaxabs(n)


def needs(s):
    mo, mc, mg = opt("scaling_max_obj_grad"), opt("scaling_max_con_grad"), opt("scaling_max_grad")
    to, tc = T.ite(lt(ZERO, mo), mo, mg), T.ite(lt(ZERO, mc), mc, mg)
    n = lambda b: T.inp(("nrm",) + s.base(b), "nonneg")
    return (ONE - T.inp(("optis", "scaling_type", "none"), "bool")) * (ONE - lt(n("g"), to) * lt(n("Jc"), tc) * lt(n("Jd"), tc))


p07(NL + "apply_scaling", "c d g Jc Jd", models=("nlp", AS), frame=False, ret=needs,
    out={"this.c_rhs_": lambda s: s("this.c_rhs_") * T.ite(needs(s), s("S.c"), ONE), "this.dl_": lambda s: s("this.dl_") * T.ite(needs(s), s("S.d"), ONE), "this.du_": lambda s: s("this.du_") * T.ite(needs(s), s("S.d"), ONE)})


def matmap(tag):
    def h(A, vn, e, st):
        a = [A.arg(vn, x, st) for x in e["a"]]
        if not isinstance(a[0], Ptr) or not isinstance(a[2], Ptr):
            return NotImplemented
        nlpmodels.counted(st, vn, tag)
        nlpmodels.rec(st, vn, ("ARGP", tag, "0"), Ptr(a[0].base), "ptr")
        nlpmodels.rec(st, vn, ("ARGP", tag, "2"), Ptr(a[2].base), "ptr")
        nlpmodels.rec(st, vn, ("ARG", tag, "1"), vn.num(a[1]), "int")
        return P(1)
    return h


MM = {RM + "applyInvToMatrix": matmap("inv"), RM + "applyToMatrix": matmap("to")}
for c, w in (("c", "eq"), ("d", "ineq")):
    p07(RM + "apply_to_jacob_" + w, "J m", models=MM, nonnull=("J",), cells={"CALLS.inv": lambda s: ONE, "ARG.inv.1": lambda s: s.i("m")},
        ptrs={"ARGP.inv.0": "J.M", "ARGP.inv.2": "this.Jac%s_rs_ref.M" % c}, retp="this.Jac%s_rs_ref" % c, frame=False)
    p07(RM + "apply_inv_to_jacob_" + w, "J m", models=MM, nonnull=("J",), ptrs={"this.Jac%s_rs_ref" % c: "J"}, retp="this.Jac%s_fs" % c, frame=False)
