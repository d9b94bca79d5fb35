"""P14: the filter line search accepts, augments and restores as specified."""
import filterspec
from algcheck import check
from core import calls, walk, path, strip_soft
from framework import loc, parallel
from proto import Proto, LeanSim, reaching, last
from simstate import mk

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the filter, the acceptance test, the second-order correction and the statements after the line search (normal form compared with the conditions of the filter method), "
             "and path-sensitive typestate dataflow of the line-search protocol over the optimization loops.")


def run(ctx):
    m = ctx.model()
    ctx.rule("filter", "Filter, acceptance test, corrections and augmentation of the filter are exactly the documented conditions, for all values")
    n = sum(parallel(ctx, filterspec.P14, lambda sp: check(ctx, m, sp, "filter")))
    roots = [f for f in m.funcs.values() if f.get("body") and f["n"] == "run" and f["q"].startswith("hiop::hiopAlgFilter")]
    jobs = filterspec.limits(m) + filterspec.softspec(m)
    for f, g, names, good in filterspec.slices(m, roots):
        if not good:
            ctx.undecided("filter", f["q"], "the roles of the variables of the line search are not known")
        else:
            jobs += filterspec.after(g, names)
    n += sum(parallel(ctx, jobs, lambda sp: check(ctx, m, sp, "filter")))
    ctx.floor("filter and line-search functions", n, 10)
    protocol(ctx, m)


STATUS = ("this", "solver_status_")
LIMITS = (("this", "theta_max"), ("this", "theta_min"))


class LSim(LeanSim):
    cap = 4000

    def assign(self, st, lhs, v, node=None):
        p = path(lhs)
        st2 = LeanSim.assign(self, st, lhs, v, node)
        if p == ("this", "_alpha_primal") and node is not None:
            env = dict(st2[0])
            env[("$g", "red")] = shrinks(node)
            st2 = mk(env, st2[1])
        if p in LIMITS:
            env = dict(st2[0])
            # a constant is a placeholder
            env[("$g", p[1])] = int(node is None or node["k"] != "Bin" or strip_soft(node["y"])["k"] not in ("Int", "Flt"))
            st2 = mk(env, st2[1])
        if p == ("this", "it_curr") and len(self.p.active) == 1:
            env = dict(st2[0])
            self.p.accept({k[1]: x for k, x in env.items() if k[0] == "$g"}, node)
            env[("$g", "acc")], env[("$g", "fr")] = 9, 0
            st2 = mk(env, st2[1])
        return st2


class LProto(Proto):
    sim = LSim

    def accept(self, g, node):
        self.n = getattr(self, "n", 0) + 1
        if g["acc"] in (1, 2, 3) or g["fr"] or g["dis"] or g["fq"]:
            return
        self.report("accepted", "the optimization continues from a trial point that %s" % ("was rejected by the line search" if g["acc"] == 0 else "was not tested by the line search"), node)


def shrinks(n):
    """1: the value is reduced by a constant factor, 0: it is not smaller, 2: unknown"""
    if n["k"] != "Bin":
        return 2
    y = strip_soft(n["y"])
    if n["op"] == "*=" and y["k"] in ("Flt", "Int"):
        return int(0 < float(y["v"]) < 1)
    if n["op"] == "/=" and y["k"] in ("Flt", "Int"):
        return int(float(y["v"]) > 1)
    if n["op"] == "=" and y["k"] == "Bin" and y["op"] in ("*", "/"):
        a, b = strip_soft(y["x"]), strip_soft(y["y"])
        if y["op"] == "*" and a["k"] in ("Flt", "Int"):
            a, b = b, a
        if path(a) == path(n["x"]) and b["k"] in ("Flt", "Int"):
            return shrinks({"k": "Bin", "op": y["op"] + "=", "x": n["x"], "y": b})
    return 2


def protocol(ctx, m):
    ctx.rule("line-search", "The optimization continues only from a trial point accepted by the test (or by restoration, or with testing switched off by the user); after a rejection the step is shortened before the next trial point")

    val = {n: v for e in m.enums if e["q"] == "hiop::hiopSolveStatus" for n, v in e["vals"]}
    pending, failed = val["NlpSolve_Pending"], val["Error_In_FR"]

    def strings(c):
        return {x["v"] for x in walk(c) if x.get("k") == "Str"}

    def ev(p, c, g, sim):
        k, fq = last(c), c.get("fq") or ""
        if k in ("operator==", "operator!=") and fq.startswith("std::"):
            s = strings(c)
            for opt, lit, gh in (("accept_every_trial_step", "yes", "dis"), ("linsol_mode", "forcequick", "fq"), ("force_resto", "yes", "force")):
                if opt in s and lit in s:
                    eq = k == "operator=="
                    return [(int(eq), {gh: 1}), (int(not eq), {gh: 0})]
            return None
        if not fq.startswith("hiop::"):
            return None
        if k in ("initialize", "reinitialize", "clear") and "hiopFilter" in fq:
            return [(None, {"filter": 1})]
        if k == "accept_line_search_conditions":
            for x in ("theta_max", "theta_min", "filter"):
                if not g[x]:
                    p.report(x, "trial points are tested before %s of this run is set" % x, c)
            return [(0, {"acc": 0, "red": 0})] + [(i, {"acc": i}) for i in (1, 2, 3)]
        if k == "apply_second_order_correction":
            return [(0, {})] + [(i, {"acc": i}) for i in (1, 2, 3)] + [(filterspec.ERR, {})]
        if k == "apply_feasibility_restoration":
            if g["dis"] and not g["force"]:
                p.report("untested", "the trial point is taken without testing it, yet feasibility restoration is started", c)
            # a failed restoration reports why (decided below for each of them)
            return [(1, {"fr": 1, STATUS: p.old.get(STATUS)}), (0, {STATUS: failed})]
        if k == "fractionToTheBdry":
            return [(None, {"acc": 9, "red": 2, "fr": 0})]
        if k == "takeStep_primals" and "hiopIterate" in fq:
            p.steps = getattr(p, "steps", 0) + 1
            if g["acc"] == 0 and g["red"] == 0:
                p.report("shortened", "the next trial point is tried with a step that was not shortened after the rejection", c)
            return [(None, {"acc": 9})]
        return None
    setting = {f["id"] for f in m.funcs.values() if f.get("body") and any(n.get("k") == "Bin" and n["op"] == "=" and path(n["x"]) in LIMITS for n in walk(f["body"]))}
    hot = setting | reaching(m, lambda c: c.get("id") in setting or last(c) in ("initialize", "reinitialize", "clear") and "hiopFilter" in (c.get("fq") or "") or last(c) in ("accept_line_search_conditions", "takeStep_primals", "apply_second_order_correction", "apply_feasibility_restoration", "fractionToTheBdry") and (c.get("fq") or "").startswith("hiop::"))
    roots = [f for f in m.funcs.values() if f.get("body") and f["id"] in hot and f["n"] == "run" and f["q"].startswith("hiop::hiopAlg")]
    ctx.floor("line searches", len(roots), 1)

    def enter(t):
        f = m.funcs[t]
        # also what may change a flag passed by reference
        flags = any(x["t"] in ("bool &", "int &") for x in f["p"])
        return (t in hot or flags) and f["n"] not in ("run", "accept_line_search_conditions", "apply_second_order_correction", "apply_feasibility_restoration") and f["q"].startswith("hiop::hiopAlg")

    def one(f):
        ctx.saw(f)
        p = LProto(m, ev, enter, None, ("solver_status_",))
        res = p.run(f["id"], {"acc": 9, "red": 2, "fr": 0, "dis": 0, "fq": 0, "force": 0, "theta_max": 0, "theta_min": 0, "filter": 0})
        if p.overflow or p.widened or not res:
            ctx.undecided("line-search", f["q"], "too many states")
            return
        for ret, g, mem in res:
            st = dict(mem).get(STATUS)
            if dict(g)["fr"] and st is not None and st != val["Error_In_User_Function"]:
                p.report("restored", "the optimization ends (status %s) although restoration provided a point to continue from" % {v: k for k, v in val.items()}.get(st, st))
        for key, (what, fid, l) in p.viol.items():
            g = m.funcs.get(fid, f)
            ctx.bad("line-search", g["q"], "%s: %s" % (g["n"], key), what, "%s:%s" % (loc(g).rsplit(":", 1)[0], l or g["l"]))
        if not p.viol:
            ctx.ok("line-search", f["q"], "%d trial steps, %d accepted points examined, %d exit states" % (getattr(p, "steps", 0), getattr(p, "n", 0), len(res)))
    parallel(ctx, roots, one)

    def restore(f):
        """every failure of the restoration leaves a status that ends the optimization"""
        ctx.saw(f)
        p = Proto(m, lambda *a: None, lambda t: m.funcs[t]["q"].startswith("hiop::hiopAlg") and m.funcs[t]["n"] != "run" and "~" not in m.funcs[t]["n"], None, ("solver_status_",))
        res = p.run(f["id"], {}, [(STATUS, pending)])
        if p.overflow or p.widened or not res:
            ctx.undecided("restoration", f["q"], "too many states")
            return
        end = {(r, dict(x).get(STATUS)) for r, _, x in res}
        if (0, pending) in end:
            ctx.bad("restoration", f["q"], "%s: fails silently" % f["n"], "a failure of the feasibility restoration leaves the status 'pending': the optimization continues from the rejected point", loc(f))
        elif any(r != 1 and s in (None, pending) for r, s in end):
            ctx.undecided("restoration", f["q"], "the outcome or the status is not known")
        else:
            ctx.ok("restoration", f["q"], "%d exit states" % len(end))
    ctx.rule("restoration", "A feasibility restoration that fails leaves a status other than 'pending' on every path")
    fr = [f for f in m.funcs.values() if f.get("body") and f["n"] == "apply_feasibility_restoration" and f["q"].startswith("hiop::hiopAlg")]
    ctx.floor("feasibility restorations", len(fr), 1)
    parallel(ctx, fr, restore)
