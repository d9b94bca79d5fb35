"""P08: the status a solve ends with says what happened; failures of user callbacks are never lost."""
import statusspec
from algcheck import check
from core import path, strip_soft, const_int
from framework import loc, parallel
from proto import Proto, LeanSim, PSim, reaching, last
from simstate import mk

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the termination test, and path-sensitive typestate dataflow: outcomes of user callbacks, steps and termination tests followed through all functions up to the status returned.")

STATUS = ("this", "solver_status_")
CALLBACKS = ("eval_f", "eval_grad_f", "eval_cons", "eval_Jac_cons", "eval_Hess_Lagr", "get_starting_point", "get_warmstart_point", "iterate_callback", "iterate_full_callback", "force_update_x")
ALG = "hiop::hiopAlgFilterIPM"


def run(ctx):
    m = ctx.model()
    ctx.rule("termination", "The termination test claims success exactly when the errors are within the tolerances it names")
    n = sum(parallel(ctx, statusspec.P08, lambda sp: check(ctx, m, sp, "termination")))
    ctx.floor("termination tests", n, 1)
    callbacks(ctx, m)
    layers(ctx, m)
    loops(ctx, m)


def callback(c):
    fq = c.get("fq") or ""
    return last(c) in CALLBACKS and fq.startswith("hiop::hiopInterface")


def closed(ctx, m, roots, rule, what, ev, enter, track=()):
    """no evaluation follows a failed one, and a failure is reported"""
    def one(f):
        ctx.saw(f)
        p = Proto(m, ev, enter, None, track)
        res = p.run(f["id"], {"fail": 0, "which": 0})
        if p.overflow or p.widened or not res:
            ctx.undecided(rule, f["q"], "too many states")
            return 0
        bad = False
        for ret, g, mem in res:
            g = dict(g)
            if g.get("fail") and ret == 1:
                bad = True
                ctx.bad(rule, f["q"], "%s: failure lost" % f["n"], "reports success although %s failed" % what, loc(f))
                break
        for key, (w, fid, l) in p.viol.items():
            h = m.funcs.get(fid, f)
            bad = True
            ctx.bad(rule, h["q"], "%s: %s" % (h["n"], key), w, "%s:%s" % (loc(h).rsplit(":", 1)[0], l or h["l"]))
        if bad:
            return 1
        if any(dict(g).get("fail") and r is None for r, g, _ in res):
            ctx.undecided(rule, f["q"], "the value returned after a failure is not known")
            return 0
        if not any(r in (1, None) and not dict(g).get("fail") for r, g, _ in res):
            ctx.bad(rule, f["q"], "%s: never succeeds" % f["n"], "reports failure although no evaluation failed", loc(f))
            return 1
        ctx.ok(rule, f["q"], "%d exit states" % len(res))
        return 1
    return sum(x or 0 for x in parallel(ctx, roots, one))


def callbacks(ctx, m):
    ctx.rule("callback", "An evaluation layer function reports failure if the user callback it calls fails, and success only if none failed")
    hot = reaching(m, callback)
    roots = [f for f in m.funcs.values() if f.get("body") and f["id"] in hot and f["q"].startswith("hiop::hiopNlp") and f.get("rt") == "bool"]

    forms = {}

    def ev(p, c, g, sim):
        if callback(c):
            # without a warm start the user is asked for a starting point; a callback that fails may be replaced by its other form
            k = 1 + CALLBACKS.index(last(c).replace("warmstart", "starting"))
            seen = forms.setdefault(k, [])
            if c.get("f") not in seen:
                seen.append(c.get("f"))
            form = k + 100 * (1 + seen.index(c.get("f")))
            if g["fail"] and g["which"] % 100 != k:
                p.report("continues", "%s is called although %s failed" % (last(c), CALLBACKS[g["which"] % 100 - 1]), c)
            return [(1, {} if g["which"] == form else {"fail": 0, "which": 0}), (0, {"fail": 1, "which": form})]
        return None
    n = closed(ctx, m, roots, "callback", "a user callback", ev, lambda t: t in hot and m.funcs[t]["q"].startswith("hiop::hiopNlp"))
    ctx.floor("functions calling user callbacks", n, 8)


def evaluation(m, c):
    """evaluation layer of the problem, seen from the algorithm"""
    fq = c.get("fq") or ""
    return fq.startswith("hiop::hiopNlp") and last(c).startswith("eval_") and (c.get("t") or "") == "bool"


def layers(ctx, m):
    ctx.rule("evaluation", "A function of the algorithm that evaluates the problem reports failure if an evaluation fails, evaluates nothing after it, and reports success only if none failed")
    hot = reaching(m, lambda c: evaluation(m, c))
    roots = [f for f in m.funcs.values() if f.get("body") and f["id"] in hot and f["q"].startswith(ALG) and f.get("rt") == "bool" and f["n"] not in ("apply_feasibility_restoration", "solve_feasibility_restoration")
             and "callback" not in f["n"]]

    def ev(p, c, g, sim):
        if evaluation(m, c):
            if g["fail"]:
                p.report("continues", "%s is called although an evaluation failed" % last(c), c)
            return [(1, {}), (0, {"fail": 1})]
        return None
    n = closed(ctx, m, roots, "evaluation", "an evaluation of the problem", ev, lambda t: t in hot and m.funcs[t]["q"].startswith(ALG) and m.funcs[t]["n"] != "run")
    ctx.floor("functions evaluating the problem", n, 5)


class RSim(LeanSim):
    cap = 6000

    def assign(self, st, lhs, v, node=None):
        p = path(lhs)
        st = LeanSim.assign(self, st, lhs, v, node)
        if p == ("this", "it_curr") and node is not None and len(self.p.active) == 1:
            env = dict(st[0])
            self.p.n_steps = getattr(self.p, "n_steps", 0) + 1
            if env.get(("$g", "fail")) == 1:
                self.p.report("continues", "the optimization continues although a user function failed", node)
            if env.get(("$g", "term")):
                self.p.report("terminated", "the optimization continues although the termination test succeeded", node)
            st = mk(env, st[1])
        if p == ("this", "iter_num_") and node is not None:
            env = dict(st[0])
            k = ("$g", "inc")
            one = node["k"] == "Un" and "++" in node["op"] or node["k"] == "Bin" and node["op"] == "+=" and const_int(node["y"]) == 1 or plusone(node)
            env[k] = min(2, env.get(k, 0) + 1) if one else 1 if node["k"] == "Bin" and node["op"] == "=" and const_int(node["y"]) is not None else 9
            st = mk(env, st[1])
        return st


def plusone(n):
    y = strip_soft(n["y"]) if n["k"] == "Bin" and n["op"] == "=" else {}
    return y.get("k") == "Bin" and y["op"] == "+" and any(path(strip_soft(y[a])) == path(n["x"]) and const_int(y[b]) == 1 for a, b in ("xy", "yx"))


class RProto(Proto):
    sim = RSim


def loops(ctx, m):
    vals = {n: v for e in m.enums if e["q"] == "hiop::hiopSolveStatus" for n, v in e["vals"]}
    name = {v: k for k, v in vals.items()}
    ctx.rule("status", "The optimization ends with the status returned: never 'pending'; success only by the termination test, which ends it; 'error in user function' if and only if an evaluation failed; 'user stopped' if and only if the user asked for it")
    ctx.rule("message", "Every status a solve ends its loop with has a termination message (the fallback of the message asserts)")
    succ = [vals[x] for x in ("Solve_Success", "Solve_Success_RelTol", "Solve_Acceptable_Level")]
    tested = succ + [vals["Max_Iter_Exceeded"]]
    USERERR, STOP, PEND = vals["Error_In_User_Function"], vals["User_Stopped"], vals["NlpSolve_Pending"]
    heads = ("checkTermination", "apply_feasibility_restoration", "apply_second_order_correction", "displayTerminationMsg")
    hot = reaching(m, lambda c: evaluation(m, c) or last(c) in heads and (c.get("fq") or "").startswith(ALG))
    roots = [f for f in m.funcs.values() if f.get("body") and f["id"] in hot and f["n"] == "run" and f["q"].startswith(ALG)]
    ctx.floor("optimization loops", len(roots), 1)
    # statuses the message knows
    shown = {}
    for f in m.funcs.values():
        if f["n"] == "displayTerminationMsg" and f.get("body") and f["q"].startswith(ALG):
            for v in set(name):
                p = Proto(m, lambda *a: None, lambda t: False, None, ("solver_status_",))
                r = p.run(f["id"], {}, [(STATUS, v)])
                shown[v] = bool(r)
    failing = {}

    def outcomes(fid):
        """statuses with which a failed restoration ends, and whether a user function failed"""
        if fid not in failing:
            def ev(p, c, g, sim):
                if evaluation(m, c):
                    return [(1, {}), (0, {"fail": 1})]
                return None
            p = Proto(m, ev, lambda t: m.funcs[t]["q"].startswith("hiop::hiopAlg") and m.funcs[t]["n"] != "run" and "~" not in m.funcs[t]["n"], None, ("solver_status_",))
            res = p.run(fid, {"fail": 0}, [(STATUS, PEND)])
            failing[fid] = None if p.overflow or p.widened or not res else {(r, dict(g)["fail"], dict(x).get(STATUS)) for r, g, x in res}
        return failing[fid]

    def ev(p, c, g, sim):
        k, fq = last(c), c.get("fq") or ""
        if not fq.startswith("hiop::"):
            return None
        if k == "checkTermination":
            if g["inc"] in (0, 2):
                p.report("iterations", "an iteration is counted %s between two termination tests" % ("not at all" if g["inc"] == 0 else "twice"), c)
            return [(0, {"inc": 0})] + [(1, {STATUS: s, "term": s + 1, "inc": 0}) for s in tested]
        if k in ("user_callback_iterate", "user_callback_full_iterate"):
            return [(1, {}), (0, {"stop": 1})]
        if k == "displayTerminationMsg":
            s = p.env.get(STATUS)
            if s is not None and not shown.get(s, True):
                p.report("message", "the loop ends with status %s, for which the termination message fails" % name.get(s, s), c)
            return [(None, {})]
        if k == "apply_feasibility_restoration":
            out = [(1, {STATUS: p.old.get(STATUS)})]
            for t in p.m.targets(c):
                o = outcomes(t) if p.m.funcs.get(t, {}).get("body") else None
                if not o:
                    return [(1, {}), (0, {"fail": 2, STATUS: None})]
                out += [(0, {"fail": fl, STATUS: s}) for r, fl, s in o if r != 1]
            return out
        if evaluation(m, c):
            if g["fail"] == 1:
                p.report("continues", "%s is called although an evaluation failed" % k, c)
            return [(1, {}), (0, {"fail": 1})]
        return None

    def enter(t):
        f = m.funcs[t]
        flags = any(x["t"] in ("bool &", "int &") for x in f["p"])
        return (t in hot or flags or f.get("rt") == "bool") and f["n"] not in ("run",) + heads[:2] + heads[3:] and f["q"].startswith("hiop::hiopAlg")

    def one(f):
        ctx.saw(f)
        p = RProto(m, ev, enter, None, ("solver_status_",))
        res = p.run(f["id"], {"fail": 0, "term": 0, "stop": 0, "inc": 1})
        if p.overflow or p.widened or not res:
            ctx.undecided("status", f["q"], "too many states")
            return
        bad = {}
        for ret, g, mem in res:
            g, st = dict(g), dict(mem).get(STATUS)
            ret = vals.get(ret, ret) if isinstance(ret, str) else ret
            s = st if ret is None else ret
            if ret is not None and st is not None and ret != st and ret != vals["SolveInitializationError"]:
                bad["differs"] = "the status returned is %s, the one kept for the getters is %s" % (name.get(ret, ret), name.get(st, st))
            if g["fail"] == 1 and s is not None and s != USERERR:
                bad["user function"] = "an evaluation of the user failed and the status is %s" % name.get(s, s)
            if g["fail"] == 0 and s == USERERR:
                bad["no failure"] = "the status is Error_In_User_Function although no evaluation failed"
            if s in tested and g["term"] != s + 1:
                bad["claimed"] = "the status is %s although the termination test did not find so" % name[s]
            if g["term"] and s is not None and s != g["term"] - 1 and not g["stop"]:
                bad["lost"] = "the termination test found %s and the status is %s" % (name[g["term"] - 1], name.get(s, s))
            if s == PEND:
                bad["pending"] = "the optimization ends with the status pending"
            if s == STOP and not g["stop"]:
                bad["stop"] = "the status is User_Stopped although the user did not ask for it"
            if g["stop"] and s is not None and s != STOP:
                bad["not stopped"] = "the user asked to stop and the status is %s" % name.get(s, s)
        for k, w in bad.items():
            ctx.bad("status", f["q"], "%s: %s" % (f["n"], k), w, loc(f))
        for key, (what, fid, l) in p.viol.items():
            g = m.funcs.get(fid, f)
            ctx.bad("message" if key == "message" else "status", g["q"], "%s: %s" % (g["n"], key), what, "%s:%s" % (loc(g).rsplit(":", 1)[0], l or g["l"]))
        if not bad and not p.viol:
            ctx.ok("status", f["q"], "%d exit states" % len(res))
            ctx.ok("message", f["q"], "")
    parallel(ctx, roots, one)
