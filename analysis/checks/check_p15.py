"""P15: inertia correction and acceptance of factorizations and search directions."""
import icspec
from core import calls, walk, path, strip_soft, func_nodes
from framework import loc, parallel
from algcheck import check
from proto import Proto, reaching, last

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the perturbation state machine: from every discrete state (degeneracy flags, test in progress, counters, zero or nonzero sizes) each correction is summarised with symbolic sizes and "
             "compared with the reference machine (Algorithm IC); interprocedural typestate (path-merging dataflow) for the use of factorizations and search directions.")

PDP = "hiopPDPerturbation"


def run(ctx):
    m = ctx.model()
    ctx.rule("schedule", "Each perturbation method leaves exactly the sizes, flags and vectors of the reference state machine and reports failure exactly when the maximal perturbation is exceeded")
    ctx.rule("schedule-frame", "A perturbation method modifies nothing else")
    ctx.rule("acceptance", "A factorization is accepted, corrected for singularity or corrected for inertia exactly as its inertia requires; parameters come from the options of the same meaning")
    ctx.rule("factorize", "factorize() and factorize_inertia_free() return true only for the factorization of a matrix assembled with the current perturbations that was accepted (nonsingular); a failed correction or assembly is reported")
    ctx.rule("bounded", "The number of refactorizations for one matrix is bounded")
    ctx.rule("direction", "Step lengths are computed only along a direction that was solved for with the last factorization and passed the curvature test")
    ctx.rule("required-inertia", "The acceptor requires as many negative eigenvalues as there are constraints")
    jobs = []
    for cls, rnd in (("PrimalFirstScalar", 0), ("PrimalFirstScalar", 1), ("DualFirstScalar", 0), ("DualFirstScalar", 1)):
        for what in ("initial", "inertia", "singular"):
            df = cls.startswith("Dual")
            if df and what == "singular":
                cs = [c for c in icspec.cases(what, df) if c[0] == c[1] == 0]
            else:
                cs = list(icspec.cases(what, df))
            if rnd:
                cs = cs[::5]
            jobs += [(PDP + cls, what, c, rnd) for c in cs]
    n = sum(parallel(ctx, jobs, lambda j: check(ctx, m, icspec.spec(*j), "schedule", samples=60)))
    n += sum(parallel(ctx, icspec.ACC, lambda sp: check(ctx, m, sp, "acceptance")))
    ctx.notes.append("perturbation states and decision tables: %d" % n)
    factorize(ctx, m)
    direction(ctx, m)
    required(ctx, m)


def factorize(ctx, m):
    V, B, F = ("ver", "built", "fact")

    def ev(p, c, g, sim):
        k = last(c)
        if k == "requireReFactorization":
            return [(0, {"ver": 0}), (1, {"ver": 1, "built": 0}), (-1, {"ver": -1, "built": 0, "fail": 1})]
        if k in ("compute_initial_deltas", "compute_perturb_wrong_inertia", "compute_perturb_singularity"):
            return [(1, {"built": 0}), (0, {"built": 0, "fail": 1})]
        if k == "build_kkt_matrix":
            return [(1, {"built": 1, "ver": 9}), (0, {"built": 0, "fail": 1})]
        if k in ("factorizeWithCurvCheck", "matrixChanged"):
            if not g["built"]:
                p.report("unbuilt", "the matrix is factorized without having been assembled with the current perturbations", c)
            return [(-1, {"fact": -1, "ver": 9, "n": min(g["n"] + 1, 60)}), (0, {"fact": 3, "ver": 9, "n": min(g["n"] + 1, 60)}), (3, {"fact": 3, "ver": 9, "n": min(g["n"] + 1, 60)})]
        return None
    hot = reaching(m, lambda c: last(c) in ("requireReFactorization",))
    roots = [f for f in m.funcs.values() if f["n"] in ("factorize", "factorize_inertia_free") and f.get("body") and f["id"] in hot]
    for f in roots:
        ctx.saw(f)
        p = Proto(m, ev, lambda t: t in hot or m.funcs[t]["n"] == "factorizeWithCurvCheck")
        res = p.run(f["id"], {"ver": 9, "built": 0, "fact": 0, "fail": 0, "n": 0})
        if p.overflow or not res:
            ctx.undecided("factorize", f["q"], "too many states")
            continue
        bad = False
        for key, (what, fid, l) in p.viol.items():
            bad = True
            ctx.bad("factorize", f["q"], "%s: %s" % (f["n"], key), what, loc(m.funcs.get(fid, f)))
        mx = 0
        for ret, gs, _ in res:
            g = dict(gs)
            mx = max(mx, g["n"])
            if ret == 0:
                if not g["fail"] and (g["ver"] == 0 or f["n"] != "factorize" and g["fact"] > 0 and g["built"]):
                    bad = True
                    ctx.bad("factorize", f["q"], "%s: failure" % f["n"], "failure is returned for an acceptable factorization", loc(f))
                continue
            why = None
            if g["fail"]:
                why = "a failed correction or assembly of the matrix is not reported"
            elif not g["built"]:
                why = "success is returned although the perturbations changed after the last factorization"
            elif g["fact"] == 0:
                why = "success is returned without a factorization"
            elif f["n"] == "factorize" and g["ver"] != 0:
                why = "success is returned for a factorization that was not accepted"
            elif g["fact"] < 0 and g["ver"] != 0:
                why = "success is returned for a singular factorization"
            if why and ret in (1, None):
                bad = True
                ctx.bad("factorize", f["q"], "%s: %s" % (f["n"], why), why, loc(f))
        if not bad:
            ctx.ok("factorize", f["q"], "%d exit states" % len(res))
        if mx < 60:
            ctx.ok("bounded", f["q"], "at most %d factorizations" % mx)
        else:
            unbounded(ctx, m, p, f)


def unbounded(ctx, m, p, f):
    """a loop around a factorization none of whose condition variables ever changes"""
    found = False
    for fid in p.seen:
        g = m.funcs[fid]
        for n in func_nodes(g):
            if n["k"] not in ("While", "For", "Do") or not any(last(c) in ("factorizeWithCurvCheck", "matrixChanged") for c in calls(n)):
                continue
            vs = {x["id"] for x in walk(n.get("c") or {}) if x["k"] == "Ref" and x.get("dk") in ("var", "parm") and not x.get("t", "").startswith("const ")}
            if not vs:
                continue
            ch = set()
            for x in walk(n):
                t = None
                if x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    t = path(x["x"])
                elif x["k"] == "Un" and x["op"].strip("post") in ("++", "--") or x["k"] == "Un" and ("++" in x["op"] or "--" in x["op"] or x["op"] == "&"):
                    t = path(x["e"])
                elif x["k"] == "Call":
                    for a, ty in zip(x["a"], x.get("pt", ())):
                        if ty.endswith("&") and not ty.startswith("const ") and path(a):
                            ch.add(path(a)[0])
                if t:
                    ch.add(t[0])
            if not any(("v", v) in ch for v in vs):
                found = True
                ctx.bad("bounded", g["q"], "%s: loop condition never changes" % f["n"], "the variables in the condition of the refactorization loop are never modified in it", loc(g, n))
    if not found:
        ctx.undecided("bounded", f["q"], "the number of refactorizations is not a small constant")


def direction(ctx, m):
    def ev(p, c, g, sim):
        k, cls = last(c), (c.get("fq") or "").rsplit("::", 1)[0]
        if k == "compute_directions_w_IR" or k == "computeDirections" and "KKTLinSys" in cls:
            ok = {"dir": 1 if g["fac"] else 0}
            return [(1, ok), (0, {"dir": 0})]
        if k == "test_direction":
            return [(1, {}), (0, {"dir": 0})]
        if k in ("update", "factorize_inertia_free", "factorize") and "KKTLinSys" in cls:
            return [(1, {"dir": 0, "fac": 1}), (0, {"dir": 0, "fac": 0})]
        if k == "fractionToTheBdry":
            p.uses = getattr(p, "uses", 0) + 1
            if g["dir"] != 1:
                p.report("fractionToTheBdry", "step lengths are computed along a direction that was not solved for, or was rejected" if g["fac"] else "step lengths are computed although the last factorization failed", c)
        return None
    keys = ("compute_directions_w_IR", "computeDirections", "test_direction", "fractionToTheBdry")
    hot = reaching(m, lambda c: last(c) in keys or last(c) in ("update", "factorize_inertia_free") and "KKTLinSys" in (c.get("fq") or ""))
    roots = [f for f in m.funcs.values() if f.get("body") and f["id"] in hot and f["n"] in ("run", "compute_search_direction", "compute_search_direction_inertia_free")
             and f["q"].startswith("hiop::hiopAlg")]

    def one(f):
        ctx.saw(f)
        p = Proto(m, ev, lambda t: t in hot and m.funcs[t]["n"] != "run" and not m.funcs[t]["q"].startswith("hiop::hiopKKTLinSys"))
        res = p.run(f["id"], {"dir": 0, "fac": 0 if f["n"] == "run" else 1})
        if p.overflow or not res:
            ctx.undecided("direction", f["q"], "too many states")
            return
        for key, (what, fid, l) in p.viol.items():
            g = m.funcs.get(fid, f)
            ctx.bad("direction", g["q"], "%s: %s" % (g["n"], key), what, "%s:%s" % (loc(g).rsplit(":", 1)[0], l or g["l"]))
        bad = bool(p.viol)
        if f["n"] != "run":
            for ret, gs, _ in res:
                if ret in (1, None) and not dict(gs)["dir"]:
                    bad = True
                    ctx.bad("direction", f["q"], "%s: success without a direction" % f["n"], "success is returned although the direction was not computed with the last factorization or was rejected", loc(f))
                    break
        if not bad:
            ctx.ok("direction", f["q"], "%d uses of a direction, %d exit states" % (getattr(p, "uses", 0), len(res)))
    parallel(ctx, roots, one)


def required(ctx, m):
    """second argument of every acceptor constructed in the library"""
    for f in m.funcs.values():
        if not f.get("body"):
            continue
        for n in func_nodes(f):
            t = (n.get("t") or n.get("cls") or "")
            if n["k"] not in ("Construct", "Ctor", "New", "CtorCall") or "hiopFactAcceptor" not in t or len(n.get("a", ())) != 2:
                continue
            leaves, todo, odd = [], [n["a"][1]], False
            while todo:
                x = strip_soft(todo.pop())
                while x["k"] == "Cast":
                    x = strip_soft(x["e"])
                if x["k"] == "Bin" and x["op"] == "+":
                    todo += [x["x"], x["y"]]
                elif x["k"] == "Call" and not x["a"]:
                    leaves.append(last(x))
                elif x["k"] == "Int":
                    leaves.append(str(x["v"]))
                else:
                    odd = True
            leaves.sort()
            if odd:
                ctx.undecided("required-inertia", f["q"], "argument not recognised")
            elif leaves in (["m_eq", "m_ineq"], ["m"], ["0"]):
                ctx.ok("required-inertia", f["q"], "+".join(leaves))
            elif set(leaves) <= {"m_eq", "m_ineq", "n", "m", "0", "n_local"}:
                ctx.bad("required-inertia", f["q"], "%s: %s" % (f["n"], "+".join(leaves)), "the acceptor requires %s negative eigenvalues, the KKT matrix has m_eq+m_ineq" % "+".join(leaves), loc(f, n))
            else:
                ctx.undecided("required-inertia", f["q"], "+".join(leaves))
