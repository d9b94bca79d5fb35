"""P01: a failure reported by a user evaluation callback is never swallowed."""
from core import CallGraph, calls, show, walk
from framework import loc
from model import AnalysisBroken
from simstate import Sim, Mods, NZ

LEVEL = "other"
TECHNIQUE = ("Property simulation (finite-domain, path-merging dataflow over the CFG): a call that can report a user-evaluation failure forks the "
             "abstract state into success and failure; the failure stays pending until it is reported through the function's own failure value or "
             "recovered by the documented one-call fallback. Callee summaries (return constant, solver status) are computed bottom-up over the call graph.")

EVALS = {"eval_f", "eval_grad_f", "eval_cons", "eval_Jac_cons", "eval_Hess_Lagr"}


def run(ctx):
    m = ctx.model()
    ctx.rule("propagate", "a function whose result is bool returns false whenever a user evaluation it triggered reported failure")
    ctx.rule("status", "run() of every solver algorithm returns Error_In_User_Function (Error_In_FR for a failure inside the nested restoration solve) "
                       "whenever a user evaluation reported failure")
    ctx.rule("stored", "the C/Fortran entry points store the status that the solver's run() returned in the problem structure")
    ifaces = {c for c in m.classes if c.startswith("hiop::hiopInterface")}
    stat = next((dict(e["vals"]) for e in m.enums if e["q"] == "hiop::hiopSolveStatus"), None)
    if not stat or "Error_In_User_Function" not in stat or not ifaces:
        raise AnalysisBroken("hiopSolveStatus or the user interface classes vanished")
    ERRV = stat["Error_In_User_Function"]
    ERRFR = stat["Error_In_FR"]

    def is_cb(c):
        cls, _, n = (c.get("fq") or "").rpartition("::")
        return n in EVALS and cls in ifaces and c.get("v")

    def tgts(c):
        # calls that cross the user interface are the user's business, except for the evaluations themselves
        if (c.get("fq") or "").rpartition("::")[0] in ifaces:
            return []
        return m.targets(c)

    fall = set()
    ncb = 0
    for f in m.funcs.values():
        for c in calls(f["body"]) if f.get("body") else ():
            if is_cb(c):
                ncb += 1
                fall.add(f["id"])
    ctx.floor("user evaluation call sites", ncb, 14)
    changed = True
    while changed:
        changed = False
        for f in m.funcs.values():
            if f["id"] in fall or not f.get("body"):
                continue
            if any(t in fall for c in calls(f["body"]) for t in tgts(c)):
                fall.add(f["id"])
                changed = True

    # what kind of user data a callee evaluates: (name, number of parameters)
    def cb_kinds(c):
        if is_cb(c):
            return frozenset([(c["fq"].rpartition("::")[2], len(c["a"]))])
        ks = set()
        seen = set()
        todo = [t for t in tgts(c) if t in fall]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            for cc in calls(m.funcs[t]["body"]):
                if is_cb(cc):
                    ks.add((cc["fq"].rpartition("::")[2], len(cc["a"])))
                else:
                    todo += [x for x in tgts(cc) if x in fall]
        return frozenset(ks)

    kind_cache = {}

    def kinds(c):
        k = (c.get("f"), len(c.get("a", ())))
        if k not in kind_cache:
            kind_cache[k] = cb_kinds(c)
        return kind_cache[k]

    mods = Mods(m)
    STATUS = ("this", "solver_status_")
    status_fields = set()
    for q, cl in m.classes.items():
        for fl in cl["fields"]:
            if fl["t"].endswith("hiopSolveStatus"):
                status_fields.add(fl["n"])
    track = [("this", s) for s in sorted(status_fields)]
    summ = {}
    ioc = {}

    def outcomes(t):
        f = m.funcs[t]
        if t in summ:
            return summ[t]
        if f["rt"] == "bool":
            return [(1, None), (0, True)]
        if is_run(f):
            return [(None, None), (ERRV, True)]
        return [(None, None)]

    def fallible(c, st):
        name = (c.get("fq") or "?").split("::")[-1]
        tok = (name, c.get("l"), kinds(c))
        if is_cb(c):
            return [(1, None), (0, tok)]
        tg = tgts(c)
        ts = [t for t in tg if t in fall]
        if not ts:
            return None
        out = {}
        for t in ts:
            for o in outcomes(t):
                out[(o[0], None if o[1] is None else tok) + tuple(o[2:])] = 1
        if len(ts) < len(tg):
            out[(None, None)] = 1
        return list(out)

    def recover(pend, c):
        """a successful one-call evaluation recovers a failed partial evaluation of the same quantity"""
        a, b = pend[2], kinds(c)
        return bool(a) and bool(b) and len({x[0] for x in a | b}) == 1 and not (a & b)

    def is_run(f):
        return f["rt"].endswith("hiopSolveStatus") and f["q"].endswith("::run")

    # bottom-up order: callees first (cycles through the nested restoration solve are cut at run())
    order, state = [], {}

    def visit(fid):
        state[fid] = 1
        f = m.funcs[fid]
        for c in calls(f["body"]):
            for t in tgts(c):
                if t in fall and t not in state and not is_cb(c) and not is_run(m.funcs[t]):
                    visit(t)
        order.append(fid)

    for fid in sorted(fall, key=lambda i: m.funcs[i]["q"]):
        if fid not in state:
            visit(fid)

    nruns = 0
    for fid in order:
        f = m.funcs[fid]
        ctx.saw(f)
        where = f["q"] + "/" + str(len(f["p"]))
        if f.get("ctor") or f["file"].startswith("src/Interface/"):
            continue
        s = Sim(m, f, fallible, mods, recover=recover, track_members=track, merge_clean=True).run()
        ex = {}
        for st in s.states[s.cfg.exit]:
            env = dict(st[0])
            eff = tuple(sorted(((k, env.get(k)) for k in track if k[1] in mods(fid) or True), key=str))
            ex[(env.get(("$ret",)), st[1], eff)] = st
        aborts = {}
        for i, kd in enumerate(s.cfg.kind):
            if kd == "abort":
                for st in s.states[i]:
                    if st[1]:
                        aborts.setdefault(st[1], (i, st))
        # summaries of functions that are not plain bool (int codes, solver status)
        if f["rt"] == "bool":
            res = {(1, None, ())}
            res = set()
            for (r, p, eff) in ex:
                rr = None if r == "?" else r
                if p is not None:
                    rr = 0          # contract; a breach is reported at its own function
                res.add((rr, p is not None or None, eff))
            if not any(p is None for _, p, _ in res):
                res.add((1, None, ()))
            res.add((0, True, tuple((k, None) for k in ())) if not any(p for _, p, _ in res) else next(iter(res)))
            summ[fid] = list(res)
        elif is_run(f):
            pass
        else:
            summ[fid] = list({(None if r in ("?", None) else r, p is not None or None, eff) for (r, p, eff) in ex})
        toks = {}
        for (r, p, eff), st in ex.items():
            if p is not None:
                toks.setdefault(p, []).append((r, eff, st))
        for n in aborts:
            toks.setdefault(n, [])
        if s.overflow:
            for p in toks:
                ctx.undecided("propagate", where, "state budget exceeded for failure of %s" % p[0])
            continue
        if f["rt"] == "bool" or f["rt"] == "int" and not f["q"].startswith("hiop_"):
            rule = "propagate"
            for p, outs in toks.items():
                bad = [o for o in outs if o[0] == 1] if f["rt"] == "bool" else \
                      [o for o in outs if o[0] not in (0, ERRV, None, "?") and o[0] != NZ]
                unk = [o for o in outs if o[0] in ("?", None)]
                if bad:
                    tr = s.trace(s.cfg.exit, bad[0][2])
                    ctx.bad(rule, where, "%s <- %s" % (f["q"], p[0]),
                            "a failure of %s() (line %s) is followed by a return of %s; abstract path through lines %s" % (p[0], p[1], "true" if bad[0][0] == 1 else bad[0][0], tr),
                            "%s:%s" % (f["file"], p[1]))
                elif p in aborts:
                    ctx.bad(rule, where, "%s <- %s (assert)" % (f["q"], p[0]), "a failure of %s() (line %s) ends in a failed assertion instead of being reported; "
                            "abstract path through lines %s" % (p[0], p[1], s.trace(*aborts[p])), "%s:%s" % (f["file"], p[1]))
                elif unk:
                    ctx.undecided(rule, where, "result after failure of %s (line %s) is not a constant" % (p[0], p[1]))
                else:
                    ctx.ok(rule, where, "failure of %s at line %s -> %s" % (p[0], p[1], sorted({str(o[0]) for o in outs})))
        elif is_run(f):
            nruns += 1
            for p, outs in toks.items():
                bad = [o for o in outs if isinstance(o[0], int) and o[0] not in (ERRV, ERRFR)]
                unk = [o for o in outs if not isinstance(o[0], int)]
                if bad:
                    nm = {v: k for k, v in stat.items()}.get(bad[0][0], bad[0][0])
                    ctx.bad("status", where, "%s <- %s -> %s" % (f["q"], p[0], nm),
                            "after a failure of %s() (line %s) run() can return %s; abstract path through lines %s" % (p[0], p[1], nm, s.trace(s.cfg.exit, bad[0][2])),
                            "%s:%s" % (f["file"], p[1]))
                elif p in aborts:
                    ctx.bad("status", where, "%s <- %s (assert)" % (f["q"], p[0]), "after a failure of %s() (line %s) the process is aborted by an assertion; lines %s"
                            % (p[0], p[1], s.trace(*aborts[p])), "%s:%s" % (f["file"], p[1]))
                elif unk:
                    ctx.undecided("status", where, "status after failure of %s (line %s) is not a constant" % (p[0], p[1]))
                else:
                    ctx.ok("status", where, "failure of %s at line %s -> %s" % (p[0], p[1], sorted({str(o[0]) for o in outs})))
    import os
    if os.environ.get('DBG'):
        for k in summ:
            print(m.funcs[k]['q'], [(o[0],o[1],[(a[1],b) for a,b in o[2]] if len(o)>2 else '') for o in summ[k]])
    ctx.floor("solver run() methods", nruns, 2)

    # C / Fortran entry points: status of run() is stored
    ns = 0
    for f in m.funcs.values():
        if not f.get("body") or not f["file"].startswith("src/Interface/"):
            continue
        for c in calls(f["body"]):
            if (c.get("fq") or "").endswith("::run") and (c.get("t") or "").endswith("hiopSolveStatus"):
                ns += 1
                ctx.saw(f)
                stored = any(n["k"] == "Bin" and n["op"] == "=" and n["x"]["k"] == "Mem" and any(x is c for x in walk(n["y"])) for n in walk(f["body"]))
                stored = stored or any(n["k"] == "Var" and n.get("init") and any(x is c for x in walk(n["init"])) and
                                       any(b["k"] == "Bin" and b["op"] == "=" and b["x"]["k"] == "Mem" and any(r["k"] == "Ref" and r.get("id") == n["id"] for r in walk(b["y"]))
                                           for b in walk(f["body"])) for n in walk(f["body"])) or \
                    any(n["k"] == "Return" and any(x is c for x in walk(n.get("e"))) for n in walk(f["body"]))
                if stored:
                    ctx.ok("stored", f["q"], show(c))
                else:
                    ctx.bad("stored", f["q"], f["q"], "the status returned by run() is not stored for the caller", loc(f, c))
    ctx.floor("C interface solve entry points", ns, 2)
