"""P06: the C and Fortran interfaces hand the solver's requests and the user's answers through unchanged."""
from core import *
from framework import loc
import term as T
from term import *
from vn import *

EXTREME = (1e20, -1e20, 1e19, 1e30, -1e30, 2e20, -2e20, 1e-20, 100.0, -1000.0)   # copied data are compared at magnitudes used for 'no bound' as well
LEVEL = "other"
TECHNIQUE = ("Gated value numbering of every wrapper of the C and Fortran interfaces: the calls through user callback pointers are recorded with the symbolic values (and pointees) of their arguments "
             "and compared, position by position, with the parameters of the wrapper; stored problem data, callback tables and delivered results are compared with their sources.")

DATA = {"get_starting_point": [("x0", 0)], "get_prob_sizes": [], "get_vars_info": [("xlow", 0), ("xupp", 1)], "get_cons_info": [("clow", 0), ("cupp", 1)]}
CB = {"eval_f": "f_eval_f", "eval_cons": "f_eval_c", "eval_grad_f": "f_eval_grad", "eval_Jac_cons": "f_eval_jac"}


def isint(t):
    return not t.rstrip().endswith("*") and "double" not in t


class Hook:
    """records indirect calls; a callback leaves unknown answers in what it is given"""

    def __init__(self, m):
        self.m, self.calls, self.n, self.made, self.ran = m, [], 0, {}, 0

    def __call__(self, vn, what, e, _a, _b, st):
        if what in ("new", "ctor"):
            x = strip(e["init"]) if what == "new" else e
            q = (x.get("q") or x.get("t") or "").split("::")
            if x.get("k") != "Ctor" or len(x["a"]) < 1 or not any(w in "::".join(q) for w in ("cppUserProblem", "hiopNlp", "hiopAlgFilterIPM")):
                return NotImplemented
            self.n += 1
            b = ("new", "obj%d" % self.n)
            self.made[b] = (bare(x["t"]), vn.ev(x["a"][0], st))
            return Ptr(b)
        if what != "call":
            return NotImplemented
        name = (e.get("fq") or "").split("::")[-1]
        if name in ("malloc", "calloc"):
            self.n += 1
            return Ptr(("new", "mem%d" % self.n))
        if name in ("free", "printf", "fflush"):
            return P(0)
        if name in ("run", "getObjective", "getNumIterations", "getSolution", "getSolveStatus") and e.get("o") is not None:
            o = vn.ev(e["o"], st)
            src = self.made.get(o.base, (None, None))[1] if isinstance(o, Ptr) else None
            if src is None:
                return NotImplemented
            if name == "run":
                self.ran += 1
                st.cells[("CALLS", "run")] = st.cells.get(("CALLS", "run"), ZERO) + 1
                return T.inp(("U", "status"), "int")
            n = st.cells.get(("CALLS", "run"), ZERO)
            n = n.const() if isinstance(n, Poly) else None
            if name == "getSolution":
                p = vn.ev(e["a"][0], st)
                if not isinstance(p, Ptr):
                    return NotImplemented
                vn.setcontent(p.base, T.el(("U", "solution", n), (ix(0),), "real"), st, 1)
                return P(0)
            return T.inp(("U", name, n), "int" if name == "getNumIterations" else "real")
        if name.startswith("hiop_") and name.endswith("_problem") and e["a"]:
            st.cells[("CALLS", name)] = st.cells.get(("CALLS", name), ZERO) + 1
            p = vn.ev(e["a"][0], st)
            if isinstance(p, Ptr):
                self.made[("call", name)] = p
                if name.endswith("solve_problem"):
                    sol = vn.load(("cell", p.base + ("solution",), "double *"), st)
                    st.cells[p.base + ("obj_value",)] = T.inp(("U", "getObjective", 1), "real")
                    if isinstance(sol, Ptr):
                        vn.setcontent(sol.base, T.el(("U", "solution", 1), (ix(0),), "real"), st, 1)
                return P(0)
            return NotImplemented
        if e.get("ce") is None or e.get("fq"):
            return NotImplemented
        c = strip(e["ce"])
        while c.get("k") in ("Un", "Cast"):
            c = strip(c["e"])
        if c.get("k") != "Mem":
            return NotImplemented
        o = vn.ev(c["b"], st)
        vals = []
        for a in e["a"]:
            v = vn.ev(a, st)
            d = None
            if isinstance(v, Ptr) and v.base[0] == "&":
                d = vn.load(("cell", v.base[1], "int"), st) if v.base[1] in st.cells or v.base[1][0] != "L" else None
            vals.append((v, d))
        self.calls.append((c["n"], o, vals, st.guard, e.get("l")))
        # answers
        k = sum(1 for x in self.calls if x[0] == c["n"])
        for i, (v, d) in enumerate(vals):
            if isinstance(v, Ptr):
                if v.base[0] == "&":
                    st.cells[v.base[1]] = T.inp(("U", c["n"], i, k), "real")
                elif v.base[0][:1] == "a":
                    vn.setcontent(v.base, T.el(("U", c["n"], i, k), (ix(0),), "real"), st, 1)
        return T.inp(("U", c["n"], "rc", k), "int")


def bare(t):
    return t.replace("const", "").replace("&", "").replace("*", "").strip()


def run(ctx):
    m = ctx.model()
    ctx.rule("forward", "Each evaluation request reaches the user's callback exactly once, with the sizes, the point, the new-point flags, the multipliers and every array of the request, and what the callback wrote is delivered unchanged")
    ctx.rule("data", "Sizes, bounds and the starting point of a Fortran problem are those the user gave")
    ctx.rule("table", "Every callback slot of a problem built from Fortran holds the wrapper (the user routine) of that name")
    ctx.rule("solve", "A solve runs the solver once on the problem of the user and returns its objective, iteration count, status and solution")
    n = 0
    for cls in ("cppUserProblemMDS", "cppUserProblemDense", "cppUserProblemSparse"):
        c = m.classes.get(cls)
        if c is None:
            continue
        for me in c["methods"]:
            f = m.funcs.get(me["id"])
            if f and f.get("body") and f["n"] not in (cls, "~" + cls):
                cxx(ctx, m, f)
                n += 1
    fs = {f["n"]: f for f in m.funcs.values() if f["file"].endswith("hiopFortranInterface.c") and f.get("body")}
    for kind in ("dense", "sparse"):
        b = fs.get("hiop%sprob_" % kind)
        if b is not None:
            slots = build(ctx, m, b, kind)
            for slot, fn in sorted(slots.items()):
                w = fs.get(fn)
                if w is None:
                    ctx.undecided("table", b["q"], "%s: %s not found" % (slot, fn))
                    continue
                n += 1
                fortran(ctx, m, w, slot.rstrip("_"), kind)
        s = fs.get("hiop%ssolve_" % kind)
        if s is not None:
            n += 1
            solve_f(ctx, m, s)
    for f in m.funcs.values():
        if f["file"].endswith("chiopInterface.cpp") and f.get("body"):
            if f["n"].endswith("_solve_problem"):
                solve(ctx, m, f)
                n += 1
            elif f["n"].endswith("_create_problem"):
                create(ctx, m, f)
                n += 1
            elif f["n"].endswith("_destroy_problem"):
                destroy(ctx, m, f)
                n += 1
    ctx.floor("wrappers of the C and Fortran interfaces", n, 25)


def start(m, f, this):
    h = Hook(m)
    vn = VN(m, hook=h)
    vn.nonnull |= {("a%d" % i,) for i in range(len(f["p"]))} | {("this",), ("this", "cprob"), ("this", "cprob_")}
    return vn, h


def eqv(a, b):
    return a == b or T.same(a, b)[0]


def param(v, d, i, t, ref):
    """does the argument carry parameter i?  True | False | None"""
    loc_ = ("a%d" % i,)
    if ref:                                    # a reference handed on as an address
        if isinstance(v, Ptr) and v.base[0] == "&" and v.base[1][0] == "L":
            return True                        # through a local: what arrives in the reference is decided by delivered()
        if isinstance(v, Ptr):
            return v.base == ("&", loc_)
        return eqv(v, T.inp(loc_, "int" if isint(t) else "real")) if isinstance(v, Poly) else None
    if t.rstrip("& ").endswith("*"):
        if isinstance(v, Ptr):
            return v.base == loc_ and all(x == ZERO for x in v.idx)
        return None if not isinstance(v, Poly) or v.opq() else False
    want = T.inp(loc_, "int" if isint(t) and "bool" not in t else "bool" if "bool" in t else "real")
    x = d if isinstance(v, Ptr) and v.base[0] == "&" else v
    if not isinstance(x, Poly):
        return False if isinstance(v, Ptr) and v.base[0] == "&" and v.base[1] == loc_ else None
    return eqv(x, want)


def forwarded(ctx, m, f, h, vn, name, params, extra, where):
    """one call of the callback with the parameters in order"""
    key = f["q"].split("::")[-1]
    cs = [c for c in h.calls if c[0].rstrip("_") == name]
    oth = [c for c in h.calls if c[0].rstrip("_") != name]
    if oth:
        ctx.bad("forward", where, "%s: calls %s" % (f["q"], oth[0][0]), "%s asks the callback %s" % (f["q"], oth[0][0]), "%s:%s" % (f["file"], oth[0][4]))
        return None
    tot = ZERO
    for c in cs:
        tot = tot + c[3]
    if vn.trace and not cs:
        ctx.undecided("forward", where, "not summarised: %s" % vn.trace[0])
        return None
    if not cs:
        ctx.bad("forward", where, f["q"] + ": never calls " + name, "%s never calls the user's %s" % (f["q"], name), loc(f))
        return None
    r = eqv(tot, ONE)
    if r is False:
        ctx.bad("forward", where, f["q"] + ": number of calls", "%s does not call the user's %s exactly once on every path: %s" % (f["q"], name, T.show(tot)), loc(f))
    elif r is None:
        ctx.undecided("forward", where, "number of calls")
    else:
        ctx.ok("forward", where, "exactly one call of %s" % name)
    for c in cs:
        want = len(params) + (1 if extra is not None else 0)
        if len(c[2]) != want:
            ctx.undecided("forward", where, "%d arguments, expected %d" % (len(c[2]), want))
            continue
        for (i, p, ref), (v, d) in zip(params, c[2]):
            r = param(v, d, i, p["t"], ref)
            if r is True:
                ctx.ok("forward", where, "argument %s" % p["n"])
            elif r is None:
                ctx.undecided("forward", where, "argument %s: %s" % (p["n"], v))
            else:
                got = T.show(v) if isinstance(v, Poly) else T.show(d) if isinstance(d, Poly) else str(v)
                ctx.bad("forward", where, "%s: argument %s of %s" % (f["q"], p["n"], name), "%s hands %s to the user's %s where the request has %s" % (f["q"], got, name, p["n"]), "%s:%s" % (f["file"], c[4]))
        if extra is not None:
            v = c[2][-1][0]
            ok = isinstance(v, Ptr) and v.base == extra
            if ok:
                ctx.ok("forward", where, "user data")
            elif isinstance(v, Ptr) and v.base[0] in ("this",) or isinstance(v, Ptr) and v.base[0][:1] == "a":
                ctx.bad("forward", where, f["q"] + ": user data", "%s does not pass the user's data pointer" % f["q"], "%s:%s" % (f["file"], c[4]))
            else:
                ctx.undecided("forward", where, "user data: %s" % (v,))
    return cs


def delivered(ctx, f, vn, st, where, name, outs, cs):
    """the answers of the callback are still in the arrays of the request"""
    if len(cs) != 1:
        return
    for pos, (i, p, ref) in outs:
        if ref and pos < len(cs[0][2]) and not isinstance(cs[0][2][pos][0], Ptr):
            continue
        if ref:
            got, want = st.cells.get(("a%d" % i,)), T.inp(("U", cs[0][0], pos, 1), "real")
        elif p["t"].rstrip("& ").endswith("*"):
            got, want = vn.content(("a%d" % i,), st), T.el(("U", cs[0][0], pos, 1), (ix(0),), "real")
        else:
            continue
        r = eqv(got, want) if isinstance(got, Poly) else None
        if r is True:
            ctx.ok("forward", where, "%s is delivered as the callback left it" % p["n"])
        elif r is None:
            ctx.undecided("forward", where, "%s after the callback" % p["n"])
        else:
            ctx.bad("forward", where, "%s: %s after the callback" % (f["q"], p["n"]), "%s changes %s after the user's %s filled it: %s" % (f["q"], p["n"], name, T.show(got)[:200]), loc(f))


def cxx(ctx, m, f):
    where = "%s(%d)" % (f["q"], len(f["p"]))
    ctx.saw(f)
    vn, h = start(m, f, True)
    try:
        st, ret = vn.run(f)
    except (Give, TooBig) as g:
        ctx.undecided("forward", where, "not summarised: %s" % g)
        return
    fields = {x["n"] for x in m.classes[f["q"].rsplit("::", 1)[0]]["fields"]}
    cp = "cprob" if "cprob" in fields else "cprob_"
    ud = "user_data" if not cp.endswith("_") else "user_data_"
    split = any(p["n"].startswith("num_cons") for p in f["p"])
    if split:
        # constraints are asked for all at once
        if not h.calls and isinstance(ret, Poly) and ret.const() is not None and ret.const() != 0 and not vn.trace:
            ctx.bad("forward", where, f["q"] + ": subset", "%s reports success for a subset of the constraints without asking the user's callback" % f["q"], loc(f))
        elif h.calls or not isinstance(ret, Poly) or ret.const() != 0:
            ctx.undecided("forward", where, "answers requests for a subset of the constraints")
        else:
            ctx.ok("forward", where, "requests for a subset of the constraints are declined")
        return
    params = [(i, p, p["t"].strip().endswith("&") and "const" not in p["t"]) for i, p in enumerate(f["p"]) if "NonlinearityType" not in p["t"]]
    cs = forwarded(ctx, m, f, h, vn, f["n"], params, ("this", cp, ud), where)
    if cs is None:
        return
    delivered(ctx, f, vn, st, where, f["n"], list(enumerate(params)), cs)
    if isinstance(ret, Poly) and ret.const() == 0:
        ctx.bad("forward", where, f["q"] + ": declines", "%s reports a failure although the callback answered" % f["q"], loc(f))
    for i, p in enumerate(f["p"]):
        if "NonlinearityType" in p["t"]:
            got = vn.content(("a%d" % i,), st, 1, "int")
            g = lt0(ix(0) - T.inp(("a0",), "int"), True)
            new = isinstance(got, Poly) and not got.opq()
            if not new:
                ctx.undecided("forward", where, "kind of the variables (constraints)")
                continue
            # every one of the n entries is set to one constant
            r = any(T.same(got, P(v), guard=g, dims=1)[0] is True for v in range(0, 4))
            if r:
                ctx.ok("forward", where, "the kind of every variable (constraint) is set")
            else:
                if any(T.same(got, T.el(("a%d" % i,), (ix(0),), y), guard=g * h2, dims=1)[0] is True for y in ("int", "real") for h2 in (ONE, eq0(ix(0)), eq0(ix(0) - T.inp(("a0",), "int") + 1))):
                    ctx.bad("forward", where, "%s: %s" % (f["q"], p["n"]), "%s leaves the kind of the variables (constraints) unset" % f["q"], loc(f))
                else:
                    ctx.undecided("forward", where, "kind of the variables (constraints)")
            r = [T.same(got, T.el(("a%d" % i,), (ix(0),), y), guard=ONE - g, dims=1)[0] for y in ("int", "real")]
            r = True if True in r else None if None in r else False
            if r is False:
                ctx.bad("forward", where, "%s: %s out of range" % (f["q"], p["n"]), "%s writes beyond the %s entries of %s: %s" % (f["q"], f["p"][0]["n"], p["n"], T.show(got)[:200]), loc(f))
            elif r:
                ctx.ok("forward", where, "nothing beyond the kind of the last variable (constraint) is written")


def build(ctx, m, f, kind):
    """hiop<kind>prob_: copies the data and fills the tables; returns {slot: wrapper}"""
    where = f["q"]
    ctx.saw(f)
    vn, h = start(m, f, False)
    slots = {}
    for x in walk(f["body"]):
        if x.get("k") == "Bin" and x.get("op") == "=":
            l, r = strip(x["x"]), strip(x["y"])
            while r.get("k") in ("Un", "Cast"):
                r = strip(r["e"])
            if l.get("k") == "Mem" and r.get("k") == "Ref" and "HiopDenseProblem" in (l.get("q") or "") + "HiopDenseProblem" * (("HiopSparseProblem" in (l.get("q") or ""))) and r.get("dk") not in ("parm", "var"):
                slots[l["n"]] = r["n"]
    try:
        st, ret = vn.run(f, this=None)
    except (Give, TooBig) as g:
        ctx.undecided("data", where, "not summarised: %s" % g)
        return slots
    if not isinstance(ret, Ptr):
        ctx.undecided("data", where, "returned problem not known")
        return slots
    B, sfx = ret.base, "" if kind == "dense" else "_"
    pos = {p["n"]: i for i, p in enumerate(f["p"])}
    cell = lambda n: st.cells.get(B + (n + sfx,))

    def verdict(r, what, msg, rule="data"):
        if r is True:
            ctx.ok(rule, where, what)
        elif r is None:
            ctx.undecided(rule, where, what)
        else:
            ctx.bad(rule, where, "%s: %s" % (f["q"], what), msg, loc(f))
    order = ["n", "m"] + ([] if kind == "dense" else ["nnz_sparse_Jaceq", "nnz_sparse_Jacineq", "nnz_sparse_Hess_Lagr"])
    for q, n in enumerate(order):
        got = cell(n)
        verdict(eqv(got, T.el(("a%d" % q,), (ZERO,), "int")) if isinstance(got, Poly) else None, "size %s" % n, "the stored size %s is not the one given by the user" % n)
    k0 = len(order)
    for q, (n, size) in enumerate((("xlow", 0), ("xupp", 0), ("clow", 1), ("cupp", 1), ("x0", 0))):
        p = cell(n)
        if not isinstance(p, Ptr):
            verdict(None, "array %s" % n, "")
            continue
        got = vn.content(p.base, st)
        g = lt0(ix(0) - T.el(("a%d" % size,), (ZERO,), "int"), True)
        want = T.el(("a%d" % (k0 + q),), (ix(0),), "real")
        r = T.same(got, want, dims=1, guard=g)[0] if p.base[0] == "new" else p.base == ("a%d" % (k0 + q),)
        verdict(r, "array %s" % n, "the stored %s is not a copy of what the user gave: %s" % (n, T.show(got)[:200]))
    cbs = ["f_eval_f", "f_eval_c", "f_eval_grad", "f_eval_jac"] + (["f_eval_hess"] if kind != "dense" else [])
    for q, n in enumerate(cbs):
        p = cell(n)
        want = ("a%d" % (k0 + 5 + q),)
        verdict(p.base == want if isinstance(p, Ptr) and p.base[0][:1] == "a" else None, "routine %s" % n, "%s holds another of the user's routines (argument %s)" % (n, p.base[0] if isinstance(p, Ptr) else p), "table")
    c = cell("c_prob")
    if isinstance(c, Ptr):
        u = st.cells.get(c.base + ("user_data" + sfx,))
        verdict(u.base == B if isinstance(u, Ptr) else None, "user data", "the callbacks of the problem are not given the problem", "table")
        mk = h.made.get(("call", "hiop_%s_create_problem" % kind))
        verdict(mk.base == c.base if isinstance(mk, Ptr) else False, "problem created", "no solver problem is created from the callbacks")
    for slot in ["get_prob_sizes", "get_vars_info", "get_cons_info", "get_starting_point", "eval_f", "eval_cons", "eval_grad_f", "eval_Jac_cons"]:
        if slot + sfx not in slots:
            ctx.undecided("table", where, "slot %s" % slot)
        else:
            ctx.ok("table", where, "slot %s holds %s" % (slot, slots[slot + sfx]))
    return slots


def fortran(ctx, m, f, slot, kind):
    where = f["q"]
    ctx.saw(f)
    sfx = "" if kind == "dense" else "_"
    vn, h = start(m, f, False)
    u = ("a%d" % (len(f["p"]) - 1),)
    names = {p["n"].rstrip("_"): i for i, p in enumerate(f["p"])}
    for w in ("n", "m"):
        # the sizes of the request are those of the problem
        q = names.get(w)
        if q is not None and not f["p"][q]["t"].rstrip().endswith("*"):
            vn.eqmap[u + (w + sfx,)] = T.inp(("a%d" % q,), "int")
    try:
        st, ret = vn.run(f, this=None)
    except (Give, TooBig) as g:
        ctx.undecided("forward", where, "not summarised: %s" % g)
        return
    if slot in CB:
        params = [(i, p, False) for i, p in enumerate(f["p"][:-1])]
        cs = forwarded(ctx, m, f, h, vn, CB[slot], params, None, where)
        if cs is not None:
            delivered(ctx, f, vn, st, where, CB[slot], [(q, x) for q, x in enumerate(params) if x[1]["t"].rstrip().endswith("*")], cs)
        return
    obl = []
    if slot == "get_prob_sizes":
        for i, w in enumerate(("n", "m")):
            obl.append((w, vn.content(("a%d" % i,), st, 1, "int"), T.inp(u + (w + sfx,), "int"), eq0(ix(0))))
    else:
        w = "m" if slot == "get_cons_info" else "n"
        for name, q in DATA.get(slot, ()):
            size = T.inp(("a0",), "int")
            obl.append((name, vn.content(("a%d" % (q + 1),), st), T.el(u + (name + sfx,), (ix(0),), "real"), lt0(ix(0) - size, True)))
    for what, got, want, g in obl:
        r, why = T.same(got, want, dims=1, guard=g, pool=EXTREME)
        if r is True:
            ctx.ok("data", where, "%s: %s" % (what, why))
        elif r is None:
            ctx.undecided("data", where, what)
        else:
            ctx.bad("data", where, "%s: %s" % (f["q"], what), "%s delivers %s instead of the user's %s" % (f["q"], T.show(got)[:200], what), loc(f))
    if isinstance(ret, Poly) and ret.const() not in (0, None):
        ctx.undecided("data", where, "return code")


def result(ctx, f, rule, what, r, msg):
    if r is True:
        ctx.ok(rule, f["q"], what)
    elif r is None:
        ctx.undecided(rule, f["q"], what)
    else:
        ctx.bad(rule, f["q"], "%s: %s" % (f["q"], what), msg, loc(f))


def solve(ctx, m, f):
    ctx.saw(f)
    vn, h = start(m, f, False)
    try:
        st, ret = vn.run(f, this=None)
    except (Give, TooBig) as g:
        ctx.undecided("solve", f["q"], "not summarised: %s" % g)
        return
    n = st.cells.get(("CALLS", "run"))
    result(ctx, f, "solve", "one run", eqv(n, ONE) if isinstance(n, Poly) else False if not h.made else None, "the solver is not run exactly once")
    src = [v for c, v in h.made.values() if "hiopAlgFilterIPM" in (c or "")] if all(isinstance(v, tuple) for v in h.made.values()) else []
    b = ("a0",)
    s = "_" if "sparse" in f["n"] else ""
    result(ctx, f, "solve", "problem", (src[0].base == b + ("refcppHiop" + s,)) if len(src) == 1 and isinstance(src[0], Ptr) else None, "the solver does not get the problem of the user")
    fl = [x["n"] for c in m.classes if c.endswith("Problem") and bare(f["p"][0]["t"]) == c.split("::")[-1] for x in m.classes[c]["fields"]]
    for n, w, t in (("obj_value", ("U", "getObjective", 1), "real"), ("niters", ("U", "getNumIterations", 1), "int"), ("status", ("U", "status"), "int")):
        if fl and n + s not in fl:
            continue
        got = st.cells.get(b + (n + s,))
        if not fl and got is None:
            continue
        result(ctx, f, "solve", n, eqv(got, T.inp(w, t)) if isinstance(got, Poly) else None if got is not None else False, "%s of the solve is %s" % (n, T.show(got) if isinstance(got, Poly) else "not delivered"))
    got = vn.content(b + ("solution" + s,), st)
    want = T.el(("U", "solution", 1), (ix(0),), "real")
    result(ctx, f, "solve", "solution", eqv(got, want), "the solution delivered is %s" % T.show(got)[:200])


def solve_f(ctx, m, f):
    ctx.saw(f)
    vn, h = start(m, f, False)
    try:
        st, ret = vn.run(f, this=None)
    except (Give, TooBig) as g:
        ctx.undecided("solve", f["q"], "not summarised: %s" % g)
        return
    p = [v for k, v in h.made.items() if k[0] == "call"]
    if len(p) != 1 or not isinstance(p[0], Ptr):
        ctx.undecided("solve", f["q"], "problem solved")
        return
    got = vn.content(("a1",), st)
    result(ctx, f, "solve", "objective", T.same(got, T.inp(("U", "getObjective", 1), "real"), dims=1, guard=eq0(ix(0)))[0], "the objective delivered is %s" % T.show(got)[:200])
    got = vn.content(("a2",), st)
    u = p[0].base[:-1]
    size = T.inp(u + ("n" if "dense" in f["n"] else "n_",), "int")
    result(ctx, f, "solve", "solution", T.same(got, T.el(("U", "solution", 1), (ix(0),), "real"), dims=1, guard=lt0(ix(0) - size, True))[0], "the solution delivered is %s" % T.show(got)[:200])


def create(ctx, m, f):
    ctx.saw(f)
    vn, h = start(m, f, False)
    try:
        st, ret = vn.run(f, this=None)
    except (Give, TooBig) as g:
        ctx.undecided("solve", f["q"], "not summarised: %s" % g)
        return
    s = "_" if "sparse" in f["n"] else ""
    nlp, itf = st.cells.get(("a0", "refcppHiop" + s)), st.cells.get(("a0", "hiopinterface" + s))
    a, b = (h.made.get(x.base) if isinstance(x, Ptr) else None for x in (nlp, itf))
    result(ctx, f, "solve", "problem object", None if a is None or b is None else isinstance(a[1], Ptr) and a[1].base == itf.base and isinstance(b[1], Ptr) and b[1].base == ("a0",),
           "the formulation is not built on the user's callbacks")


def destroy(ctx, m, f):
    ctx.saw(f)
    names = [strip(x["e"]).get("n", "").rstrip("_") for x in walk(f["body"]) if x.get("k") == "Delete"]
    calls = [x for x in walk(f["body"]) if x.get("k") == "Call"]
    if calls:
        ctx.undecided("solve", f["q"], "release of the problem")
        return
    result(ctx, f, "solve", "release", sorted(names) == ["hiopinterface", "refcppHiop"] and names.index("refcppHiop") < names.index("hiopinterface"),
           "the formulation and then its callbacks are not each deleted exactly once: %s" % ", ".join(names))
