"""P31: every quantity used in a decision about an iterate was evaluated at that iterate and barrier parameter."""
import fresh
from core import calls
from framework import loc, parallel
from proto import reaching, last
from simstate import Mods

LEVEL = "other"
TECHNIQUE = ("Interprocedural typestate over object identities (path-merging dataflow): storages and evaluated values carry the iterate they were evaluated at through pointers, copies, exchanges and helpers; every modification of an "
             "iterate or of the barrier parameter makes what depends on it stale; each use is checked for freshness.")

CLS = ("hiopNlp", "hiopLogBar", "hiopResid", "hiopFilter", "hiopKKT", "hiopDuals", "hiopIterate", "hiopHessian", "hiopPDPert", "hiopAlg")
KEYS = {"updateWithNlpInfo", "updateWithNlpInfo_trial_funcOnly", "eval_f", "eval_c_d", "eval_grad_f", "eval_Jac_c_d", "eval_Hess_Lagr", "directionalDerivative", "compute_nlp_infeasib_onenorm", "contains", "add",
        "set_logbar_mu", "compute_directions_w_IR", "computeDirections", "go", "user_force_update", "reset_bounds", "takeStep_primals", "compute_safe_slacks", "user_callback_iterate", "user_callback_solution",
        "reinitialize", "set_mu", "update", "getNlpErrors"}


def run(ctx):
    m = ctx.model()
    ctx.rule("fresh", "Whatever enters a barrier function, residual, KKT system, search direction, step length, filter test, multiplier update, termination test or report of an iterate was evaluated at that iterate, after its last "
                      "modification and with the current barrier parameter; the user is told that x is unchanged only when it is")
    tc = fresh.Touched(m)
    hot = reaching(m, lambda c: last(c) in KEYS and any(x in (c.get("fq") or "") for x in CLS))
    roots = [f for f in m.funcs.values() if f.get("body") and f["n"] == "run" and f["id"] in hot and f["q"].startswith("hiop::hiopAlgFilter")]
    ctx.floor("optimization loops", len(roots), 1)

    def small_out(f):
        return any(p["t"].replace(" ", "") in ("bool&", "int&") for p in f["p"])

    def enter(t):
        f = m.funcs.get(t)
        return bool(f) and f["n"] != "run" and f["q"].startswith("hiop::hiopAlg") and (t in hot or small_out(f)) and "checkTermination" not in f["n"] and f["n"] != "evalNlpAndLogErrors"
    mods = Mods(m)

    def one(f):
        p = fresh.Fresh(m, enter, tc, mods)
        p.qn = "QuasiNewton" in f["q"]
        try:
            p.run(f["id"], {}, p.start().items())
        except fresh.OutOfTime:
            p.overflow = True
        for fid in p.seen:
            ctx.saw(m.funcs[fid])
        if p.overflow or p.widened:
            ctx.undecided("fresh", f["q"], "too many states")
        for key, (what, fid, l) in p.viol.items():
            g = m.funcs.get(fid, f)
            ctx.bad("fresh", g["q"], "%s: %s" % (g["n"], key), what, "%s:%s" % (loc(g).rsplit(":", 1)[0], l or g["l"]))
        if p.overflow:
            return
        for what, ss in sorted(p.sites.items()):
            if what in p.viol:
                continue
            if p.uses[what]:
                ctx.ok("fresh", f["q"] + " / " + what, "%d sites, %d states" % (len(ss), p.uses[what]))
            else:
                ctx.undecided("fresh", f["q"] + " / " + what, "what the quantity belongs to is not known at any of %d sites" % len(ss))
    parallel(ctx, roots, one)
