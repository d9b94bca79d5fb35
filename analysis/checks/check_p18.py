"""P18: the Krylov solvers report success only for solutions whose residual they verified."""
from core import *
from framework import loc
import krylov

LEVEL = "other"
TECHNIQUE = ("Must-facts dataflow over the Krylov solvers (loops to a fixed point, joins by intersection, one state per value of the convergence flag and per vector returned): which vector holds the right-hand "
             "side, an iterate, the operator applied to it or its true residual, which scalar its norm, and which residual was tested against the tolerance; checked at every return and every residual computation.")
ORDER = ["x", "d", "yc", "yd", "sxl", "sxu", "sdl", "sdu", "zl", "zu", "vl", "vu"]
RESID = ["rx", "rd", "ryc", "ryd", "rxl", "rxu", "rdl", "rdu", "rszl", "rszu", "rsvl", "rsvu"]


class Wrap(krylov.K):
    """solve(xsol, resid): the vector handed to the solver is the solution object of this call, filled with its right-hand side"""

    def run(self):
        self.seen, self.b, self.calls = set(), None, 0
        px, pr = [("l", p["id"], p["n"]) for p in self.f["p"]]
        self.px, self.pr = px, pr
        return self.stmt(self.f["body"], {(krylov.TOP, None): frozenset()})[0]

    def news(self, e):
        for n in walk(e):
            if n.get("k") == "Ctor" and (n.get("q") or n.get("t") or "").split("::")[-1].startswith("hiopVectorCompoundPD") and n["a"]:
                return self.name(n["a"][0])
        return None

    def wrapped(self, n, w, S):
        F = self.kill(S[1], n)
        if w is not None:
            F = F | {("W", n, w)}
            if w == self.pr:
                F = F | {("CF", n, w)}
        return S[0], F

    def expr(self, e, S):
        e = strip(e)
        if e.get("k") == "Bin" and e["op"] == "=" and strip(e["y"]).get("k") == "New":
            n = self.name(e["x"])
            return self.wrapped(n, self.news(e["y"]), S)
        return super().expr(e, S)

    def stmt(self, s, D):
        if s is not None and s.get("k") == "Decl":
            for v in s["d"]:
                i = v.get("init")
                if v.get("k") == "Var" and i is not None and "hiopVectorCompoundPD" in v["t"] and self.news(i) is not None and (strip(i).get("k") in ("New", "Ctor")):
                    return self.step(D, lambda S: self.wrapped(("l", v["id"], v["n"]), self.news(i), S)), {}, {}
        return super().stmt(s, D)

    def calleffects(self, e, S, pure=False):
        fn = (e.get("fq") or "").split("::")[-1]
        if fn == "copy_from_resid" and e.get("o") is not None:
            return S[0], S[1] | {("CF", self.name(e["o"]), self.name(e["a"][0]))}
        if fn == "copyFrom" and e.get("o") is not None:
            o, w = self.name(e["o"]), self.name(e["a"][0])
            if ("CF", w, self.pr) in S[1]:
                return S[0], S[1] | {("CF", o, self.pr)}
        if fn == "solve" and len(e["a"]) == 1:
            self.calls += 1
            v = self.name(e["a"][0])
            for nm, ok, msg in (("into", ("W", v, self.px) in S[1], "the vector the solver works on is not (on every path) the solution object of this call"),
                                ("rhs", ("CF", v, self.pr) in S[1], "the vector the solver works on is not (on every path) filled with the right-hand side of this call")):
                self.seen.add((nm, e.get("l")))
                if not ok:
                    self.bad[(nm, e.get("l"))] = msg
            return S
        return super().calleffects(e, S, pure)

    def ret(self, s, S):
        e = s.get("e")
        if e is None:
            return
        for n in walk(e):
            if n.get("k") == "Call":
                self.calleffects(n, S)
        x = strip(e)
        if x.get("k") == "Bool" and x["v"]:
            self.seen.add(("result", s.get("l")))
            self.bad[("result", s.get("l"))] = "success is reported whatever the solver says"
        if x.get("k") == "Un" and x["op"] == "!" and strip(x["e"]).get("k") == "Call":
            self.bad[("result", s.get("l"))] = "the verdict of the solver is inverted"


def emit(ctx, f, k, rule):
    where = "%s(%d)" % (f["q"], len(f["p"]))
    ctx.saw(f)
    if k.unknown:
        ctx.undecided(rule, where, "not tracked: %s" % k.unknown[0])
        return
    for nm, l in sorted(k.seen | set(k.bad), key=str):
        if (nm, l) in k.bad:
            ctx.bad(rule, where, "%s: %s" % (where, nm), k.bad[(nm, l)], "%s:%s" % (f["file"], l))
        else:
            ctx.ok(rule, where, "%s at line %s" % (nm, l))


def parts(m, f):
    """{position: member} of the vectors a function of the compound vector lines up"""
    out, n = {}, 0
    for x in walk(f["body"]):
        if x.get("k") != "Call":
            continue
        fn = (x.get("fq") or "").split("::")[-1]
        if fn == "push_back" and x["a"]:
            a = strip(x["a"][0])
            if a.get("k") != "Mem":
                return None
            out[n] = a["n"]
            n += 1
        elif fn == "copyFrom" and x.get("o") is not None:
            i = None
            for y in walk(x["o"]):
                if y.get("k") == "Int":
                    i = y["v"]
            a = strip(x["a"][0])
            while a.get("k") in ("Un", "Cast"):
                a = strip(a["e"])
            if i is None or a.get("k") != "Mem" or i in out:
                return None
            out[i] = a["n"]
    return out


def run(ctx):
    m = ctx.model()
    ctx.rule("verified", "Success is reported only when the residual of the returned vector, recomputed with the operator against the original right-hand side, has been compared with the tolerance; the reported residual is that of the returned vector")
    ctx.rule("call", "Each solve works on the right-hand side and into the solution object of that very call")
    ctx.rule("parts", "The compound vector lines up the parts of an iterate and of a residual in the order of the full KKT operator")
    n = 0
    for f in m.funcs.values():
        if not f.get("body") or f["n"] != "solve" or "hiopKrylovSolver.cpp" not in f["file"]:
            continue
        n += 1
        k = (krylov.K if len(f["p"]) == 1 else Wrap)(m, f, None)
        k.run()
        if len(f["p"]) == 1:
            emit(ctx, f, k, "verified")
            if not k.unknown and k.n["ret"] == 0:
                ctx.undecided("verified", f["q"], "no return reached")
        elif k.calls == 0 and not k.unknown:
            ctx.undecided("call", f["q"], "no call of the solver found")
        else:
            emit(ctx, f, k, "call")
    for f in m.funcs.values():
        if not f.get("body") or not f["q"].startswith("hiop::hiopVectorCompoundPD::") or len(f["p"]) != 1:
            continue
        it = "hiopIterate" in f["p"][0]["t"]
        if not it and "hiopResidual" not in f["p"][0]["t"] or f["n"] not in ("hiopVectorCompoundPD", "copy_from_resid", "copy_from_iterate"):
            continue
        ctx.saw(f)
        p = parts(m, f)
        want = ORDER if it else RESID
        if not p or sorted(p.values()) != sorted(want) and set(p) != set(range(12)):
            ctx.undecided("parts", f["q"], "not a list of parts")
            continue
        n += 1
        for i, w in enumerate(want):
            if p.get(i) == w:
                ctx.ok("parts", f["q"], "part %d is %s" % (i, w))
            else:
                ctx.bad("parts", f["q"], "%s(%s): part %d" % (f["q"], f["p"][0]["n"], i), "part %d is %s, the full KKT operator works with %s there" % (i, p.get(i), w), loc(f))
    ctx.floor("Krylov solves and compound vectors", n, 6)
