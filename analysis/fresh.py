"""Freshness: which iterate every evaluated quantity belongs to, followed through pointers, copies, swaps and helpers (P31)."""
import time
from core import walk, calls, path, strip_soft, func_nodes, children, const_int
from proto import Proto, PSim, LeanSim, last, small
from simstate import Sim, mk

IT = "hiop::hiopIterate"
TRACK = ("_c", "_d", "_c_trial", "_d_trial", "it_curr", "it_trial", "_grad_f", "_Jac_c", "_Jac_d", "_Hess_Lagr", "resid", "resid_trial", "dir", "soc_dir", "_f_nlp", "_f_nlp_trial", "_mu",
         "solver_status_", "_err_nlp", "_err_log")
PTRS = TRACK[:14]


def istok(v):
    return isinstance(v, str) and v[:1] == "@"


class Touched:
    """parts of an iterate a function may write, through this or through one of its parameters"""

    def __init__(self, m, cls=IT):
        self.m, self.cls, self.memo = m, cls, {}
        self.getters = {}
        for f in m.funcs.values():
            if f.get("cls") == cls and f.get("body") and not f["p"]:
                r = [n for n in func_nodes(f) if n["k"] == "Return"]
                p = path(r[0]["e"]) if len(r) == 1 and r[0].get("e") else None
                if p and p[0] == "this" and len(p) == 2:
                    self.getters[f["n"]] = p[1]

    def obj(self, e, binds):
        """-> (root path, member or None)"""
        e = strip_soft(e)
        while e is not None and (e["k"] == "Cast" or e["k"] == "Un" and e["op"] in ("*", "&")):
            e = strip_soft(e["e"])
        if e is None:
            return None
        if e["k"] == "Call" and e.get("o") is not None and not e.get("a") and last(e) in self.getters:
            o = self.obj(e["o"], binds)
            return (o[0], self.getters[last(e)]) if o and o[1] is None else None
        p = path(e)
        if p is None:
            return None
        if p[0] in binds and len(p) == 1:
            return binds[p[0]]
        return (p[0], p[1] if len(p) == 2 else None) if p[0] != "this" or len(p) <= 2 else None

    def __call__(self, fid, root):
        key = (fid, root)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        f = self.m.funcs.get(fid)
        if not f or not f.get("body"):
            self.memo[key] = {"*"}
            return {"*"}
        binds, out = {}, set()
        for n in func_nodes(f):
            if n["k"] == "Var" and n.get("init") and ("*" in n["t"] or n["t"].endswith("&")):
                o = self.obj(n["init"], binds)
                if o:
                    binds[("v", n["id"])] = o
        for n in func_nodes(f):
            if n["k"] == "Call":
                out |= self.call(n, root, binds)
        self.memo[key] = out
        return out

    def call(self, n, root, binds):
        out = set()
        o = n.get("o")
        ts = [t for t in self.m.targets(n) if self.m.funcs.get(t, {}).get("body")]
        if o is not None and not n.get("cst"):
            b = self.obj(o, binds) if o["k"] != "This" else ("this", None)
            if b and b[0] == root and not (last(n) in self.getters and not n.get("a")):
                if b[1]:
                    out.add(b[1])
                else:
                    for t in ts:
                        out |= self(t, "this")
        for i, (a, ty) in enumerate(zip(n.get("a", ()), n.get("pt", ()))):
            if ty.startswith("const ") or not ty.endswith(("&", "*")):
                continue
            b = self.obj(a, binds)
            if b and b[0] == root:
                if b[1]:
                    out.add(b[1])
                elif not ts:
                    out.add("*")
                else:
                    for t in ts:
                        ps = self.m.funcs[t]["p"]
                        if i < len(ps):
                            out |= self(t, ("v", ps[i]["id"]))
        return out


class FreshSim(LeanSim):
    cap = 10000

    def widen(self, t, s2):
        raise OutOfTime

    def keep(self, p, v):
        if isinstance(v, str) and (v[:1] in "@!" or ":" in v) and (p[0] != "this" or p[1:2] and p[1] in TRACK) or p in self.refs:
            return True
        if p[0] == "this":
            return len(p) == 2 and p[1] in TRACK
        return isinstance(p[0], tuple) and p[0][0] == "v" and p[0][1] in self.deciding

    def _address_taken(self):
        s = set()
        for n in func_nodes(self.f):
            if n["k"] == "Var" and n["t"].endswith("&") and n.get("init"):
                i = strip_soft(n["init"])
                if i["k"] == "Un" and i["op"] == "*":
                    continue
                p = path(i)
                if p:
                    s.add(p)
        return s

    def ev(self, e, st):
        if e is not None and e["k"] in ("Un", "Bin") and (path(e.get("e") or e.get("x")) or ("",))[0] == "this" and ("++" in e["op"] or "--" in e["op"] or e["op"] in ("+=", "-=")):
            return Sim.ev(self, e, st)      # iteration counters are not followed
        if e is not None and e["k"] == "Bin" and e["op"] in ("<", "<=", ">", ">="):
            env = dict(st[0])
            for y in (e["x"], e["y"]):
                v = env.get(path(y)) if path(y) else None
                if isinstance(v, str) and v.startswith(("EL:", "EN:")):
                    self.p.need(e, "error compared", v[3:], env.get(("this", "it_curr")), "the error of the barrier or NLP problem that is compared with a tolerance is not that of the current iterate and barrier parameter:")
        if e is not None and (e["k"] == "Un" and e["op"] == "&" or e["k"] == "Cast"):
            t = self.p.tok(e["e"], dict(st[0]))
            if istok(t) and not any(True for _ in calls(e["e"])):
                return [(st, t)]
            if e["k"] == "Cast" and "Derived" in (e.get("ck") or ""):
                return PSim.ev(self, e["e"], st)
        return PSim.ev(self, e, st)

    def binop(self, op, a, b):
        if "other" in (a, b):
            return int(op == "!=") if op in ("==", "!=") and isinstance(b if a == "other" else a, int) else None
        if istok(a) or istok(b):
            return None if op not in ("==", "!=") or 0 not in (a, b) else int(op == "!=")
        return PSim.binop(self, op, a, b)

    def step(self, n, st):
        if time.time() > self.p.deadline:
            raise OutOfTime
        kind, e = self.cfg.kind[n], self.cfg.e[n]
        if kind == "return" and len(self.p.active) == 1:
            return [(None, mk({}, None)) for s, _ in self.ev(e, st)][:1]
        if kind == "decl" and e.get("init") is not None and e["t"].endswith("&"):
            out = []
            for s, v in self.ev(e["init"], st):
                t = v if istok(v) else self.p.tok(e["init"], dict(s[0]))
                out.append((None, self.assign(s, {"k": "Ref", "dk": "var", "id": e["id"], "t": e["t"]}, t if istok(t) else None)))
            return out
        return PSim.step(self, n, st)

    def assign(self, st, lhs, v, node=None):
        p = path(lhs)
        if p is not None and p[0] == "this" and len(p) == 2 and p[1] in PTRS and not istok(v) and v != 0:
            y = strip_soft(node["y"]) if node is not None and node["k"] == "Bin" else None
            while y is not None and y["k"] == "Cast":
                y = strip_soft(y["e"])
            if y is not None and y["k"] in ("Call", "New"):
                v = "@" + p[1]                  # freshly allocated: a storage of its own
        if v is not None and p is not None and not self.keep(p, v):
            v = None
        if p == ("this", "solver_status_") and isinstance(v, int) and v not in self.p.statuses:
            v = "other"
        st2 = PSim.assign(self, st, lhs, v, node)
        if p is not None and istok(v) and len(self.p.active) == 1:
            st2 = self.p.canonical(st2)
        if p is not None and (lhs.get("t") or "").replace("const ", "").replace("&", "").strip() == "double":
            if p == ("this", "_mu"):
                st2 = self.p.mu_changed(st2)
            elif v is None and p in self.refs:
                env = dict(st2[0])
                env[p] = "!"
                st2 = mk(env, st2[1])
        return st2

    def call(self, e, st):
        out = []
        for s, v in PSim.call(self, e, st):
            env = dict(s[0])
            if any(x == "!" for k, x in env.items() if k[0] != "$g" and k not in self.refs):
                mu = env.get(("this", "_mu")) == "!"
                s = mk({k: x for k, x in env.items() if x != "!" or k in self.refs}, s[1])
                if mu:
                    s = self.p.mu_changed(s)
            out.append((s, v))
        return out


class OutOfTime(Exception):
    pass


class Fresh(Proto):
    """ghosts: storage token -> content tag "@iterate", "-" (does not belong to the present content of any iterate), or absent (unknown)"""
    sim = FreshSim

    def __init__(self, m, enter, touched, mods=None):
        global TRACK
        # members that are copies of tracked ones
        more = True
        while more:
            more = False
            for fid, f in m.funcs.items():
                if f.get("body") and f["q"].startswith("hiop::hiopAlg"):
                    for n in func_nodes(f):
                        if n["k"] == "Bin" and n["op"] == "=" and (n["x"].get("t") or "") == "double":
                            x, y = path(n["x"]), path(strip_soft(n["y"]))
                            if x and y and x[0] == y[0] == "this" and len(x) == len(y) == 2 and y[1] in TRACK and x[1] not in TRACK:
                                TRACK, more = TRACK + (x[1],), True
        Proto.__init__(self, m, None, enter, mods, TRACK)
        self.event = Fresh.on
        self.deadline = time.time() + 360
        self.touched = touched
        self.uses, self.qn, self.sites = {}, False, {}
        # the status values that decisions depend on
        self.statuses = set()
        for fid, f in m.funcs.items():
            if f.get("body") and (enter(fid) or f["n"] == "run"):
                for n in func_nodes(f):
                    if n["k"] == "Bin" and n["op"] in ("==", "!="):
                        for x, y in ((n["x"], n["y"]), (n["y"], n["x"])):
                            if path(x) == ("this", "solver_status_") and isinstance(const_int(y), int):
                                self.statuses.add(const_int(y))

    def small(self, t):
        return small(t) or t.replace("const ", "").replace("&", "").strip() == "double"

    # ---- tokens
    def tok(self, e, env):
        e = strip_soft(e)
        while e is not None and (e["k"] == "Cast" or e["k"] == "Un" and e["op"] in ("*", "&")):
            e = strip_soft(e["e"])
        if e is None:
            return None
        if e["k"] == "Call" and e.get("o") is not None and not e.get("a") and last(e) in self.touched.getters:
            t = self.tok(e["o"], env)
            return t + "." + self.touched.getters[last(e)] if istok(t) and "." not in t else None
        p = path(e)
        return env.get(p) if p else None

    def start(self):
        return {("this", p): "@" + p for p in PTRS}

    def bind(self, sim, params, args, old, inn):
        for x, a in zip(params, args):
            if not self.small(x["t"]):
                t = self.tok(a, old)
                if istok(t):
                    inn[(("v", x["id"]),)] = t
            elif "double" in x["t"] and not x["t"].endswith("*"):
                t = self.tok(a, old)
                if isinstance(t, str):
                    inn[(("v", x["id"]),)] = t

    def restore(self, call, old, env):
        # an object passed by reference may change; the pointer to it does not
        for a in call.get("a", ()):
            x = strip_soft(a)
            if x["k"] == "Un" and x["op"] == "*" or (x.get("t") or "").rstrip("&").split("::")[-1].startswith("hiop") and not (x.get("t") or "").endswith("*"):
                p = path(x)
                if p and istok(old.get(p)):
                    env[p] = old[p]

    # ---- modifications
    def mu_changed(self, st):
        env = dict(st[0])
        for k in (("$g", "LB"), ("$g", "LBT"), ("$g", "KM"), ("$g", "PM"), ("$g", "FL")):
            if k in env:
                env[k] = "-"
        for k in list(env):
            if isinstance(env[k], str) and env[k].startswith("EL:"):
                env[k] = "EL:-"
            if k[0] == "$g" and k[1].startswith("@resid"):
                env[k] = "-"
        return mk(env, st[1])

    def canonical(self, st):
        """after a complete exchange of two storages their names are exchanged (names are arbitrary)"""
        env = dict(st[0])
        ren = {}
        for x, y in (("it_curr", "it_trial"), ("_c", "_c_trial"), ("_d", "_d_trial")):
            if env.get(("this", x)) == "@" + y and env.get(("this", y)) == "@" + x:
                ren["@" + x], ren["@" + y] = "@" + y, "@" + x
        if not ren:
            return st

        def r(v):
            if not isinstance(v, str):
                return v
            pre, t = v.split(":", 1) if ":" in v else (None, v)
            b, _, sfx = t.partition(".")
            b = ren.get(b, b) + ("." + sfx if sfx else "")
            return b if pre is None else pre + ":" + b
        return mk({((k[0], ren.get(k[1], k[1])) if k[0] == "$g" else k): r(v) for k, v in env.items()}, st[1])

    @staticmethod
    def stale(env, it, parts):
        """the parts of iterate `it` have changed"""
        x, lam = "x" in parts or "*" in parts, parts & {"yc", "yd", "*"}
        other = bool(parts)
        hess = env.get(("$g", "hess"))
        for k, v in list(env.items()):
            if v == it and k[0] == "$g":
                n = k[1]
                if n in ("LB", "LBT", "K") or n.startswith(("@resid", "@dir", "@soc")):
                    hit = other
                elif n == hess:
                    hit = x or lam
                else:
                    hit = x
                if hit:
                    env[k] = "-"
                    if n in ("@soc_dir", "@resid_trial"):
                        del env[k]
            elif isinstance(v, str) and k[0] != "$g" and (x and v in ("F:" + it, "TH:" + it) or other and v in ("EL:" + it, "EN:" + it)):
                env[k] = v.split(":")[0] + ":-"

    def default(self, call, old, env, sim):
        ts = [t for t in self.m.targets(call) if self.m.funcs.get(t, {}).get("body")]
        o = call.get("o")
        todo = []
        if o is not None and not call.get("cst"):
            t = self.tok(o, old)
            if istok(t) and not (last(call) in self.touched.getters and not call.get("a")):
                todo.append((t, lambda f: "this"))
        for i, (a, ty) in enumerate(zip(call.get("a", ()), call.get("pt", ()))):
            if ty.startswith("const ") or not ty.endswith(("&", "*")):
                continue
            t = self.tok(a, old)
            if istok(t):
                todo.append((t, lambda f, i=i: ("v", f["p"][i]["id"]) if i < len(f["p"]) else None))
        for t, root in todo:
            if "." in t:
                self.stale(env, t.split(".")[0], {t.split(".")[1]})
            elif t.startswith("@it_"):
                parts = set()
                for fid in ts:
                    r = root(self.m.funcs[fid])
                    parts |= self.touched(fid, r) if r else {"*"}
                if ts and parts - {"*"}:
                    self.stale(env, t, parts - {"*"})
                elif not ts or parts:
                    for k, v in list(env.items()):
                        if isinstance(v, str) and v.endswith(t) and (k[0] == "$g" or ":" in v):
                            del env[k]
            else:
                env.pop(("$g", t), None)
            if t.startswith(("@dir", "@soc")):
                env.pop(("$g", t.split(".")[0]), None)

    # ---- checks
    def need(self, call, what, tag, want, why):
        """tag must be `want` (both known)"""
        self.uses[what] = self.uses.get(what, 0) + (tag is not None and want is not None)
        self.sites.setdefault(what, set()).add((self.active[-1][0], call.get("l")))
        if tag is None or want is None:
            return
        if tag != want:
            self.report(what, "%s: %s" % (why, "it was computed before the iterate or the barrier parameter it depends on last changed" if tag == "-" else
                                          "it belongs to another iterate"), call)

    def on(self, call, g, sim):
        k, cls = last(call), (call.get("fq") or "").rsplit("::", 1)[0].split("::")[-1]
        env, old, a = self.env, self.old, call.get("a", ())
        T = lambda i: self.tok(a[i], old) if i < len(a) else None
        cur = old.get(("this", "it_curr"))
        trial = old.get(("this", "it_trial"))

        def fval(i):
            v = T(i)
            return v[2:] if isinstance(v, str) and v.startswith("F:") else None

        def cont(i):
            t = T(i)
            return g.get(t) if istok(t) else None

        def scal(i, tag):
            p = path(a[i])
            return {p: tag} if p else {}

        def isx(t):
            return t[:-2] if istok(t) and t.endswith(".x") else None
        if cls.startswith("hiopNlp") and k in ("eval_f", "eval_c", "eval_d", "eval_c_d", "eval_grad_f", "eval_Jac_c", "eval_Jac_d", "eval_Jac_c_d", "eval_Hess_Lagr"):
            x = isx(T(0))
            nx = old.get(path(a[1])) if path(a[1]) else None
            if nx is None:
                nx = const_int(a[1])
            if nx == 0 and x:
                self.need(call, "new_x", g.get("X"), x, "x is declared unchanged (new_x=false) although the last evaluation was at another x")
            outs = {"eval_f": (2,), "eval_c": (2,), "eval_d": (2,), "eval_c_d": (2, 3), "eval_grad_f": (2,), "eval_Jac_c": (2,), "eval_Jac_d": (2,), "eval_Jac_c_d": (2, 3),
                    "eval_Hess_Lagr": (6,)}[k]
            good, bad = {"X": x}, {"X": x}
            if k == "eval_Hess_Lagr":
                for i in (3, 4):
                    t = T(i)
                    if istok(t) and x:
                        self.need(call, "Hessian multipliers", t.split(".")[0], x, "the multipliers given to the Hessian are those of another iterate")
                if istok(T(6)):
                    good["hess"] = bad["hess"] = T(6)
            if self.qn:
                outs = tuple(i for i in outs if i != 6)     # the Hessian approximation is not evaluated by the user
            for i in outs:
                if k == "eval_f":
                    good.update(scal(i, "F:" + x if x else None))
                    bad.update(scal(i, None))
                elif istok(T(i)):
                    good[T(i)] = x
                    bad[T(i)] = None
            return [(1, good), (0, bad)]
        if k == "apply_scaling":
            e2 = {T(i): "-" for i in range(len(a)) if istok(T(i))}
            return [(1, e2), (0, {})]
        if cls == "hiopLogBarProblem" and k == "updateWithNlpInfo":
            it = T(0)
            for i, w in ((2, "objective"), (3, "equality constraints"), (4, "inequality constraints"), (5, "gradient"), (6, "equality Jacobian"), (7, "inequality Jacobian")):
                self.need(call, "barrier " + w, fval(i) if i == 2 else cont(i), it, "the barrier function of an iterate is computed from the %s, but" % w)
            return [(None, {"LB": it})]
        if cls == "hiopLogBarProblem" and k == "updateWithNlpInfo_trial_funcOnly":
            it = T(0)
            for i, w in ((1, "objective"), (2, "equality constraints"), (3, "inequality constraints")):
                self.need(call, "trial barrier " + w, fval(i) if i == 1 else cont(i), it, "the barrier function of a trial point is computed from the %s, but" % w)
            return [(None, {"LBT": it})]
        if cls == "hiopLogBarProblem" and k == "directionalDerivative":
            self.need(call, "directional derivative", g.get("LB"), cur, "the directional derivative uses the barrier gradient, but")
            t = T(0)
            if t == "@dir":
                self.need(call, "slope direction", g.get(t), cur, "the slope is computed along the search direction, but")
            return None
        if cls == "hiopResidual" and k == "update":
            it = T(0)
            for i, w in ((1, "objective"), (2, "equality constraints"), (3, "inequality constraints"), (4, "gradient"), (5, "equality Jacobian"), (6, "inequality Jacobian")):
                if i < 4 or it == cur:
                    self.need(call, "residual " + w, fval(i) if i == 1 else cont(i), it, "the residual of an iterate is computed from the %s, but" % w)
            if it == cur:
                self.need(call, "residual barrier", g.get("LB"), it, "the residual of the current iterate is computed from the barrier function, but")
            r = self.tok(call["o"], old) if call.get("o") is not None else None
            return [(None, {r: it} if istok(r) else {})]
        if cls == "hiopResidual" and k == "compute_nlp_infeasib_onenorm":
            it, c, d = T(0), cont(1), cont(2)
            t = None
            if it and c and d:
                t = "TH:" + (it if c == d == it else "-")
            return [(t, {})]
        if cls == "hiopResidual" and k == "copyFrom" or cls == IT.split("::")[-1] and k == "copyFrom":
            d, s = self.tok(call["o"], old), T(0)
            if istok(d) and d.startswith(("@resid", "@dir", "@soc")):
                return [(None, {d: g.get(s)})]
            return None
        if k in ("get_theta",) and cls == "hiopResidual":
            r = self.tok(call["o"], old)
            return [("TH:" + g[r] if istok(r) and g.get(r) else None, {})]
        if k == "evalNlpAndLogErrors" or cls == "hiopResidual" and k in ("getNlpErrors", "getBarrierErrors"):
            r, it = (T(1), T(0)) if k == "evalNlpAndLogErrors" else (self.tok(call["o"], old), None)
            if r == "@resid":
                self.need(call, "convergence errors", g.get(r), it or cur, "the convergence errors are computed from the residual, but")
            if k == "evalNlpAndLogErrors" and it:
                upd = {}
                for i in range(3, len(a)):
                    if path(a[i]) in (("this", "_err_nlp"), ("this", "_err_log")):
                        upd[path(a[i])] = ("EN:" if i < 7 else "EL:") + it
                return [(1, upd), (0, {})]
            return None
        if k == "checkTermination" and a:
            v = T(0)
            if isinstance(v, str) and v[:3] in ("EN:", "EL:"):
                self.need(call, "termination error", v[3:], cur, "the error tested for termination is not that of the current iterate:")
            return None
        if k == "accept_line_search_conditions" and len(a) > 1:
            v = T(0)
            if isinstance(v, str) and v.startswith("TH:"):
                self.need(call, "current infeasibility", v[3:], cur, "the reference infeasibility of the line search is not that of the current iterate:")
            return None
        if cls == "hiopFilter" and k in ("reinitialize", "initialize", "clear"):
            return [(None, {"FL": None})]
        if cls == "hiopFilter" and k in ("contains", "add"):
            th = T(0)
            th = th[3:] if isinstance(th, str) and th.startswith("TH:") else None
            self.need(call, "filter infeasibility", th, trial, "the infeasibility compared with or added to the filter is not that of the trial point:")
            self.need(call, "filter barrier", g.get("LBT"), trial, "the barrier value compared with or added to the filter is not that of the trial point:")
            self.need(call, "filter of another barrier problem", "-" if g.get("FL") == "-" else "ok" if g.get("FL") else None, "ok", "the filter holds entries of another barrier parameter:")
            if k == "add":
                return [(None, {"FL": g.get("FL") or "used"})]
            return [(1, {}), (0, {})]
        if "KKTLinSys" in cls or cls.startswith("hiopKKT"):
            if k == "update" and len(a) == 5:
                it = T(0)
                for i, w in ((1, "gradient"), (2, "equality Jacobian"), (3, "inequality Jacobian"), (4, "Hessian")):
                    self.need(call, "KKT " + w, cont(i), it, "the KKT system of an iterate is assembled from the %s, but" % w)
                self.need(call, "KKT barrier parameter", g.get("KM"), "ok", "the KKT system is assembled with the barrier parameter it was given:")
                self.need(call, "perturbation barrier parameter", g.get("PM"), "ok", "the perturbations of the KKT system use the barrier parameter they were given:")
                return [(1, {"K": it}), (0, {"K": "-"})]
            if k == "set_logbar_mu":
                return [(None, {"KM": "ok" if path(a[0]) == ("this", "_mu") or True else None})]
            if k in ("compute_directions_w_IR", "computeDirections") and len(a) == 2:
                r, d = T(0), T(1)
                self.need(call, "factorization", g.get("K"), cur, "a direction is computed with the factorized KKT matrix, but")
                if d == "@dir" and istok(r):
                    self.need(call, "right-hand side", g.get(r), cur, "the search direction is computed from the residual, but")
                e2 = {d: cur} if istok(d) else {}
                return [(1, e2), (0, {d: "-"} if istok(d) else {})]
            return None
        if cls.startswith("hiopPDPerturbation") and k == "set_mu":
            return [(None, {"PM": "ok"})]
        if cls == "hiopHessianLowRank" and k == "update" and len(a) == 4:
            it, o = T(0), self.tok(call["o"], old)
            for i, w in ((1, "gradient"), (2, "equality Jacobian"), (3, "inequality Jacobian")):
                self.need(call, "secant " + w, cont(i), it, "the secant update uses the %s of the iterate, but" % w)
            return [(1, {o: it} if istok(o) else {})]
        if k in ("decideAndCreateLinearSystem",):
            return [("NZ", {"K": "-", "KM": "-"})]
        if k == "fractionToTheBdry":
            it, d = self.tok(call["o"], old), T(0)
            if d == "@dir" and it == cur:
                self.need(call, "step direction", g.get(d), cur, "the step length is computed along the search direction, but")
            return None
        if k == "go" and cls.startswith("hiopDuals") and len(a) >= 13 and cls:
            it = T(0)
            if it == cur and T(1) == trial:
                d = T(8)
                if d == "@dir":
                    for i, w in ((2, "objective"), (3, "equality constraints"), (4, "inequality constraints"), (5, "gradient"), (6, "equality Jacobian"), (7, "inequality Jacobian")):
                        self.need(call, "duals update " + w, fval(i) if i == 2 else cont(i), cur, "the multipliers are updated from the %s of the current iterate, but" % w)
                    self.need(call, "duals update direction", g.get(d), cur, "the multipliers are updated along the search direction, but")
            e2 = dict(env)
            self.default(call, old, e2, sim)
            upd = {k2: v for k2, v in e2.items() if env.get(k2) != v}
            upd.update({k2: None for k2 in env if k2 not in e2})
            return [(1, {(k2 if k2[0] != "$g" else k2[1]): v for k2, v in upd.items()})]
        if k in ("user_callback_iterate", "user_callback_solution") and cls.startswith("hiopNlp"):
            for i, x in enumerate(a):
                t = T(i)
                if isinstance(t, str) and t.startswith("F:"):
                    self.need(call, "reported objective", t[2:], cur, "the objective reported to the user is not that of the current iterate:")
                elif istok(t) and "." not in t:
                    self.need(call, "reported constraints", g.get(t), cur, "the constraint values reported to the user are not those of the current iterate:")
                elif istok(t):
                    self.need(call, "reported iterate", t.split(".")[0], cur, "the point reported to the user is not the current iterate:")
            return [(1, {}), (0, {})] if k.endswith("iterate") else [(None, {})]
        if k == "reset_bounds":
            return [(None, {x: "-" for x in g if x.startswith("@resid")})]
        if k == "user_force_update":
            e2 = dict(env)
            self.default(call, old, e2, sim)
            upd = {k2: v for k2, v in e2.items() if env.get(k2) != v}
            upd.update({k2: None for k2 in env if k2 not in e2})
            upd = {(k2 if k2[0] != "$g" else k2[1]): v for k2, v in upd.items()}
            return [(1, dict(upd, X="-")), (0, dict(upd, X="-"))]
        if k == "run" and cls.startswith("hiopAlg"):
            return [(None, {"X": "-"})]
        return None
