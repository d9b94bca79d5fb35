"""Common machinery of all checks: contexts, verdicts, evidence, known findings."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("HIOP_REPO", "/repo")

from model import AnalysisBroken  # noqa: E402


def rel(file):
    f = file or "?"
    if f.startswith(REPO + "/"):
        f = f[len(REPO) + 1:]
    return f


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl = []               # decided obligations
        self.functions = set()
        self.rules = {}
        self.notes = []
        self._models = {}

    def model(self, **kw):
        from model import load
        key = tuple(sorted(kw.items()))
        if key not in self._models:
            self._models[key] = load(**kw)
        return self._models[key]

    def rule(self, name, text):
        self.rules[name] = text

    def saw(self, f):
        self.functions.add(f["q"] if isinstance(f, dict) else f)

    def ok(self, rule, where, detail=""):
        self.obl.append({"rule": rule, "where": where, "verdict": "holds", "detail": detail})

    def undecided(self, rule, where, detail):
        self.obl.append({"rule": rule, "where": where, "verdict": "undecided", "detail": detail})

    def bad(self, rule, where, key, detail, loc=""):
        """key: stable identity (no line numbers) used for known findings"""
        self.obl.append({"rule": rule, "where": where, "verdict": "violation", "key": "%s | %s" % (rule, key), "detail": detail, "loc": loc})

    def floor(self, what, n, minimum):
        """fail loudly if the analysis no longer finds what it is about"""
        self.notes.append("%s: %d instances" % (what, n))
        if n < minimum:
            raise AnalysisBroken("%s: only %d instances found (at least %d expected); the check would be vacuous" % (what, n, minimum))


def loc(f, n=None):
    l = None
    file = f["file"]
    if n is not None:
        l = n.get("l") or f["l"]
        file = n.get("file") or file
    else:
        l = f["l"]
    return "%s:%s" % (rel(file), l)


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    res = []
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["property"] == prop and e.get("status", "known") == "known":
                res.append(e)
    return res


def match_known(kn, key):
    """An entry names one finding by its key; a `*` in it stands for the name of the member function (a finding stays
    the same finding when its statements move into another member of the same class)."""
    import re
    for e in kn:
        if e["key"] == key:
            return e
        if "*" in e["key"] and re.fullmatch(".*".join(re.escape(x) for x in e["key"].split("*")), key):
            return e
    return None


_job = None


def _one(chunk):
    ctx, fn, jobs = _job
    ctx.obl, ctx.functions, ctx.notes = [], set(), []
    n = []
    for i in chunk:
        try:
            n.append(bool(fn(jobs[i])))
        except AnalysisBroken:
            raise
        except Exception as e:
            n.append(False)
            ctx.undecided("analysis", str(i), "not analysed: %s: %s" % (type(e).__name__, e))
    return ctx.obl, ctx.functions, ctx.notes, n


def parallel(ctx, jobs, fn):
    """fn(job) for every job, in worker processes -> list of truth values in the order of the jobs"""
    import multiprocessing as mp
    global _job
    jobs = list(jobs)
    k = min(8, os.cpu_count() or 1)
    _job = (ctx, fn, jobs)
    chunks = [range(i, min(i + max(1, len(jobs) // (4 * k)), len(jobs))) for i in range(0, len(jobs), max(1, len(jobs) // (4 * k)))]
    keep = ctx.obl, ctx.functions, ctx.notes
    done = []
    with mp.get_context("fork").Pool(k) as pool:
        for o, f, nt, n in pool.imap(_one, chunks):
            keep[0].extend(o)
            keep[1].update(f)
            keep[2].extend(nt)
            done += n
    ctx.obl, ctx.functions, ctx.notes = keep
    return done


def finish(ctx, level, technique):
    kn = known(ctx.prop)
    viol = [o for o in ctx.obl if o["verdict"] == "violation"]
    # de-duplicate by key
    seen, new, old = set(), [], []
    for o in viol:
        if o["key"] in seen:
            continue
        seen.add(o["key"])
        (old if match_known(kn, o["key"]) else new).append(o)
    n = {v: sum(1 for o in ctx.obl if o["verdict"] == v) for v in ("holds", "violation", "undecided")}
    per_rule = {}
    for o in ctx.obl:
        d = per_rule.setdefault(o["rule"], {"holds": 0, "violation": 0, "undecided": 0})
        d[o["verdict"]] += 1
    cov = {
        "explanation": "Static analysis of /repo's current source (type-checked AST of every translation unit of the solver library). "
                       + technique,
        "rules": ctx.rules,
        "obligations": len(ctx.obl), "discharged": n["holds"], "undecided": n["undecided"],
        "violations_known": len(old), "violations_new": len(new),
        "per_rule": per_rule,
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions)[:400],
        "instances": ctx.notes,
        "undecided_list": [{k: o[k] for k in ("rule", "where", "detail")} for o in ctx.obl if o["verdict"] == "undecided"][:200],
        "sample_obligations": [{k: o[k] for k in ("rule", "where", "detail")} for o in ctx.obl if o["verdict"] == "holds"][::max(1, n["holds"] // 60)],
        "evidence_kind": "static",
    }
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "wall_s": round(time.time() - ctx.t0, 3)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = []
    for o in new:
        rep.append({"rule": o["rule"], "where": o["where"], "location": o["loc"], "key": o["key"], "detail": o["detail"], "rule_text": ctx.rules.get(o["rule"], "")})
    replay = os.path.join("evidence", "%s.violation.json" % ctx.prop)
    rp = os.path.join(VERIF, replay)
    if rep:
        json.dump({"property": ctx.prop, "violations": rep}, open(rp, "w"), indent=1)
        cov["violations"] = rep
    elif os.path.exists(rp):
        os.unlink(rp)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    print("%s: %d functions, %d obligations: %d hold, %d undecided, %d known finding(s), %d new violation(s) [%.1fs]"
          % (ctx.prop, len(ctx.functions), len(ctx.obl), n["holds"], n["undecided"], len(old), len(new), time.time() - ctx.t0))
    for o in old:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (ctx.prop, o["key"], o["loc"], match_known(kn, o["key"])["what"]))
    for o in new:
        print("  %s [%s] %s: %s\n     key: %s" % (o["loc"], o["rule"], o["where"], o["detail"], o["key"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, replay))
        return 1
    return 0


def main(argv):
    import importlib
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    sys.path.insert(0, os.path.join(HERE, "checks"))
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module("check_" + prop.lower())
        mod.run(ctx)
        return finish(ctx, getattr(mod, "LEVEL", "other"), getattr(mod, "TECHNIQUE", ""))
    except AnalysisBroken as e:
        print("analysis-broken: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main(sys.argv))
