"""Which values may differ between the ranks of a distributed run, and which collective operations are executed under a condition on such values.

Structured forward taint analysis with implicit flows, interprocedural by summaries (returned values, by-reference outputs, members, parameters), to a global fixpoint.
Sources: the rank, the local parts of distributed data (elements of the local arrays, local sizes).  Results of Allreduce, Bcast and Allgather are the same on all ranks."""
from core import walk, strip, show

COLL = {"MPI_" + x for x in "Allreduce Bcast Reduce Allgather Allgatherv Gather Gatherv Scatter Scatterv Barrier Alltoall Alltoallv Exscan Scan Reduce_scatter Comm_dup Comm_split".split()}
RESULT = {"MPI_Allreduce": 1, "MPI_Allgather": 3, "MPI_Allgatherv": 3, "MPI_Alltoall": 3, "MPI_Bcast": 0}
SAME = ("MPI_Comm_size", "MPI_Initialized")
# members (and getters) that hold parts of vectors distributed over the ranks: everything in the space of the variables
DIST = {"x", "sxl", "sxu", "zl", "zu", "rx", "rxl", "rxu", "rszl", "rszu", "ixl_", "ixu_", "xl_", "xu_", "ixl", "ixu"}
DIST |= {"get_" + x.strip("_") for x in DIST}
KERNEL = ("hiop::hiopVectorPar", "hiop::hiopMatrixDenseRowMajor")      # code that serves distributed data
SERIAL = "hiop::hiopAlgPrimalDecomposition"     # its vectors live on one rank
STORAGE = {"data_", "data_host_", "data_dev_", "M_", "M_host_"}
GETTERS = {"local_data", "local_data_const", "local_data_host", "local_data_host_const"}
INTERFACE = "hiop::hiopInterface"


# positions of the count and of the root
COUNT = {"MPI_Allreduce": 2, "MPI_Reduce": 2, "MPI_Bcast": 1}
ROOT = {"MPI_Reduce": 5, "MPI_Bcast": 3}
USER = ("hiop::hiopInterfaceBase::", "hiop::hiopInterfaceDenseConstraints::", "hiop::hiopInterfaceSparse::", "hiop::hiopInterfaceMDS::")


def iscoll(e):
    """collective operations: those of MPI, and the callbacks of the user, which work on data distributed over the ranks"""
    fq = e.get("fq") or ""
    return fq in COLL or fq.startswith(USER) and fq.split("::")[-1].startswith(("eval_", "get_starting_point", "get_warmstart_point", "get_vars_info", "get_cons_info", "solution_callback", "iterate_callback"))


def key(e):
    """place denoted by an lvalue; elements of an array are one place"""
    e = strip(e)
    k = e.get("k")
    if k == "This":
        return ("this",)
    if k == "Ref":
        return (("v", e["id"]),) if e.get("dk") in ("var", "parm") else (("g", e.get("q") or e["n"]),)
    if k == "Mem":
        b = key(e["b"])
        return None if b is None else b + (e["n"],)
    if k == "Un" and e["op"] in ("&", "*"):
        return key(e["e"])
    if k == "Idx":
        return key(e["b"])
    if k == "Bin" and e["op"] in ("+", "-"):
        return key(e["x"])
    if k == "Call" and e.get("op") == "[]":
        return key((e["o"] if e.get("o") is not None else e["a"][0]))
    return None


def isptr(t):
    return t.rstrip(" const").rstrip().endswith("*")


class Spmd:
    params = False

    def __init__(self, m):
        self.m = m
        self.funcs = {f["id"]: f for f in m.funcs.values() if f.get("body")}
        self.ret, self.outs, self.mem, self.parm, self.pdist = set(), set(), set(), set(), set()
        self.coll = self.collectives()
        self.reports = {}
        self.sites = 0
        self.changed = True
        n = 0
        while self.changed and n < 12:
            self.changed = False
            n += 1
            for f in self.funcs.values():
                Fn(self, f, False).run()
        self.rounds = n

    def targets(self, e):
        return [t for t in self.m.targets(e) if t in self.funcs]

    def collectives(self):
        direct = {}
        calls = {}
        for i, f in self.funcs.items():
            d, c = set(), set()
            for x in walk(f["body"]):
                if x.get("k") == "Call":
                    if iscoll(x):
                        d.add(x["fq"])
                    c.update(self.targets(x))
                elif x.get("k") == "Ctor" and x.get("f") in self.funcs:
                    c.add(x["f"])
            direct[i], calls[i] = d, c
        may = {i for i in direct if direct[i]}
        grow = True
        while grow:
            grow = False
            for i in calls:
                if i not in may and calls[i] & may:
                    may.add(i)
                    grow = True
        return may

    HOME = ("hiop::hiopVectorPar", "hiop::hiopMatrixDenseRowMajor", "hiop::hiopVectorCompoundPD", "hiop::hiopIterate", "hiop::hiopResidual", "hiop::hiopLogBarProblem", "hiop::hiopNlpFormulation", "hiop::hiopLogger", "hiop::hiopAlgPrimalDecomposition", "hiop::hiopMatrixDense")

    def add(self, s, x):
        if x not in s:
            s.add(x)
            self.changed = True

    def judge(self, f):
        a = Fn(self, f, True)
        a.run()
        return a.bad, a.good


class Fn:
    def __init__(self, S, f, judge):
        self.S, self.f, self.judging = S, f, judge
        self.bad, self.good = [], []
        self.parms = {p["id"]: i for i, p in enumerate(f["p"]) if "id" in p}
        self.ptypes = {p["id"]: p["t"] for p in f["p"] if "id" in p}
        self.exit = None

    # env: {place: tainted?}; ("*",)+place: its elements come from local storage
    def run(self):
        env = {}
        self.why = {}
        self.div = []           # reasons why ranks may not be at the same point
        self.jumps = []
        for x in self.f.get("init") or []:
            if isinstance(x, dict) and x.get("n") and x.get("e"):
                if self.val(x["e"], env):
                    self.assign(("this", x["n"]), True, env)
        self.stmt(self.f["body"], env)
        self.leave(env)
        self.flush()

    def leave(self, env):
        if self.exit is None:
            self.exit = dict(env)
        else:
            for k, v in env.items():
                self.exit[k] = self.exit.get(k, False) or v

    def flush(self):
        S, f = self.S, self.f
        for k, v in (self.exit or {}).items():
            if not v or not (self.exit or {}).get(("d",) + k):
                continue
            if f.get("cls") not in S.HOME:
                continue
            if k[0] == "this" and len(k) == 2 and f.get("cls"):
                S.add(S.mem, (self.owner(k[1]), k[1]))
            elif isinstance(k[0], tuple) and k[0][0] == "v" and k[0][1] in self.parms and len(k) == 1:
                t = self.ptypes[k[0][1]]
                if t.rstrip().endswith("&") and "const" not in t or isptr(t) and not t.startswith("const") and "double" not in t:
                    S.add(S.outs, (f["id"], self.parms[k[0][1]]))

    def owner(self, name):
        return self.mq.get(name, self.f.get("cls")) if hasattr(self, "mq") else self.f.get("cls")

    def memkey(self, e):
        """(class, member) of a member access"""
        q = e.get("q") or ""
        return (q.rsplit("::", 1)[0], e["n"])

    def tainted(self, k, e, env):
        if k is not None:
            if k in env:
                return env[k]
            if len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == "v" and k[0][1] in self.parms:
                return (self.f["id"], self.parms[k[0][1]]) in self.S.parm
        if e.get("k") == "Mem":
            return self.memkey(e) in self.S.mem
        return False

    def local(self, e, env):
        """does the pointer refer to the local part of distributed data?"""
        e = strip(e)
        k = e.get("k")
        if k == "Mem":
            if e["n"] in STORAGE and e["b"].get("k") == "This" and (self.f.get("cls") or "") in KERNEL:
                return True
        if k == "Call":
            n = (e.get("fq") or "").split("::")[-1]
            return n in GETTERS and self.dist(e.get("o"), env)
        if k == "Bin" and e["op"] in ("+", "-"):
            return self.local(e["x"], env) or isptr(strip(e["y"]).get("t", "")) and self.local(e["y"], env)
        if k == "Un" and e["op"] in ("p++", "++", "--", "p--", "&"):
            return self.local(e["e"], env)
        if k == "Idx":
            return self.local(e["b"], env)
        if k == "Cond":
            return self.local(e["x"], env) or self.local(e["y"], env)
        kk = key(e)
        return kk is not None and env.get(("*",) + kk, False)

    def dist(self, o, env):
        """is the object one whose parts live on different ranks?"""
        o = strip(o or {"k": "This"})
        if o.get("k") == "This":
            return (self.f.get("cls") or "") in KERNEL
        if o.get("k") == "Un" and o["op"] in ("*", "&"):
            return self.dist(o["e"], env)
        if o.get("k") == "Mem":
            return o["n"] in DIST
        if o.get("k") == "Call":
            return (o.get("fq") or "").split("::")[-1] in DIST
        if o.get("k") == "Ref":
            if o.get("id") in self.parms and (self.f["id"], self.parms[o["id"]]) in self.S.pdist:
                return True
            return env.get(("D",) + (key(o) or ()), False)
        return False

    def val(self, e, env):
        """may the value differ between ranks? (side effects of the expression are applied)"""
        e = strip(e)
        if e is None:
            return False
        k = e.get("k")
        if k in ("Int", "Flt", "Bool", "Str", "Null", "This", "Sizeof", "Nop"):
            return False
        if k == "Ref":
            return self.tainted(key(e), e, env)
        if k == "Mem":
            kk = key(e)
            if e["b"].get("k") == "This":
                self.mq = getattr(self, "mq", {})
                self.mq[e["n"]] = self.memkey(e)[0]
            if kk is not None and kk in env:
                return env[kk]
            if e["b"].get("k") not in ("This", "Ref"):
                self.val(e["b"], env)
            return self.memkey(e) in self.S.mem
        if k == "Idx":
            i = self.val(e["i"], env)
            b = self.val(e["b"], env)
            return i or b or self.local(e["b"], env)
        if k == "Un":
            if e["op"] == "*":
                return self.val(e["e"], env) or self.local(e["e"], env)
            v = self.val(e["e"], env)
            if e["op"] in ("++", "--", "p++", "p--"):
                self.assign(key(e["e"]), v, env, weak=False, e=e["e"])
            return v if e["op"] != "&" else False
        if k == "Bin":
            op = e["op"]
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                v = self.val(e["y"], env)
                t = strip(e["x"])
                if t.get("k") in ("Idx", "Un"):
                    self.val(t.get("i") or t.get("e"), env)
                if t.get("k") == "Mem" and t["b"].get("k") == "This":
                    self.mq = getattr(self, "mq", {})
                    self.mq[t["n"]] = self.memkey(t)[0]
                if op != "=":
                    v = self.val(e["x"], env) or v
                kk = key(e["x"])
                if kk is not None and op == "=" and isptr(t.get("t", "")):
                    env[("*",) + kk] = self.local(e["y"], env)
                self.assign(kk, v, env, weak=t.get("k") == "Idx" or t.get("k") == "Un" and t["op"] == "*" , e=t)
                return v
            if op in ("&&", "||"):
                v = self.val(e["x"], env)
                if v:
                    self.under(e["x"], lambda: self.val(e["y"], env))
                    return True
                return self.val(e["y"], env)
            a, b = self.val(e["x"], env), self.val(e["y"], env)
            return b if op == "," else a or b
        if k == "Cond":
            c = self.val(e["c"], env)
            if c:
                r = []
                self.under(e["c"], lambda: r.extend([self.val(e["x"], env), self.val(e["y"], env)]))
                return True
            a, b = self.val(e["x"], env), self.val(e["y"], env)
            return a or b
        if k == "Call":
            return self.call(e, env)
        if k == "Ctor":
            vs = [self.val(a, env) for a in e.get("a", ())]
            if e.get("f") in self.S.funcs:
                self.enter(e, [e["f"]], vs)
            return any(vs) if "std::" in (e.get("t") or "") else False
        if k in ("InitList", "New"):
            return any([self.val(a, env) for a in e.get("a", ()) if isinstance(a, dict)])
        if k == "Lambda":
            return False
        r = False
        for c in e.values():
            if isinstance(c, dict) and "k" in c:
                r = self.val(c, env) or r
        return r

    def enter(self, e, ts, vs):
        for t in ts:
            g = self.S.funcs[t]
            for i, v in enumerate(vs):
                if v and i < len(g["p"]) and self.S.params:
                    self.S.add(self.S.parm, (t, i))

    def call(self, e, env):
        fq = e.get("fq") or ""
        nm = fq.split("::")[-1]
        args = e.get("a", [])
        if fq == "MPI_Comm_rank" and len(args) > 1:
            self.assign(key(args[1]), True, env, e=strip(strip(args[1]).get("e") or args[1]))
            return False
        vs = [self.val(a, env) for a in args]
        if e.get("o") is not None:
            ov = self.val(e["o"], env)
        else:
            ov = False
        if fq in COLL:
            self.collective(e, fq)
            if self.judging:
                self.uniform(e, fq, args, vs, env)
            if fq in RESULT and len(args) > RESULT[fq]:
                kk = key(args[RESULT[fq]])
                if kk is not None:
                    env[kk] = False
                    env[("*",) + kk] = False
            return False
        if fq.startswith("MPI_"):
            return False
        ts = self.S.targets(e)
        if iscoll(e):
            self.collective(e, fq)
        elif ts and any(t in self.S.coll for t in ts) and self.counts(fq, ts):
            self.collective(e, fq)
        if ts:
            for i, a in enumerate(args):
                if "hiop::hiopVector" in (strip(a).get("t") or "") and self.dist(a, env):
                    for t in ts:
                        if i < len(self.S.funcs[t]["p"]) and not (self.S.funcs[t].get("cls") or "").startswith(("hiop::hiopVector", "hiop::hiopMatrix")):
                            self.S.add(self.S.pdist, (t, i))
            self.enter(e, ts, vs)
            for t in ts:
                for i, a in enumerate(args):
                    if (t, i) in self.S.outs:
                        kk = key(a)
                        if kk is not None and len(kk) <= 2:
                            self.assign(kk, True, env, e=strip(a))
            cls = fq.rsplit("::", 1)[0]
            if cls.startswith(("hiop::hiopVector", "hiop::hiopMatrix")) and not self.dist(e.get("o"), env):
                return False
            return any(t in self.S.ret for t in ts)
        if e.get("op") == "=" and len(args) == 2:
            kk = key(args[0])
            self.assign(kk, vs[1], env, e=strip(args[0]))
            return vs[1]
        if e.get("op") == "=" and e.get("o") is not None and len(args) == 1:
            self.assign(key(e["o"]), vs[0], env, e=strip(e["o"]))
            return vs[0]
        if fq.startswith("std::") or not fq.startswith("hiop::"):
            if nm in ("size", "empty", "begin", "end") and e.get("o") is not None:
                return ov
            return any(vs) or ov
        return False

    def uniform(self, e, fq, args, vs, env):
        for what, tab in (("count", COUNT), ("root", ROOT)):
            i = tab.get(fq)
            if i is not None and i < len(args):
                (self.bad if vs[i] else self.good).append((e, fq, (args[i], what)) if vs[i] else (e, fq))

    def counts(self, fq, ts):
        """operations on vectors of the primal decomposition involve one rank only"""
        if not (self.f.get("cls") or "").startswith(SERIAL):
            return True
        return any(any(iscoll(x) for x in walk(self.S.funcs[t]["body"])) for t in ts) and not fq.startswith(("hiop::hiopVector", "hiop::hiopMatrix"))

    def assign(self, k, v, env, weak=False, e=None):
        if k is None:
            return
        env[("d",) + k] = v or weak and env.get(("d",) + k, False)
        v = v or bool(self.div)
        if weak:
            v = v or env.get(k, False)
        env[k] = v
        nm = strip(e).get("n") if e is not None else None
        for kk in [kk for kk in env if kk[0] == "F" and (nm is None or nm in kk[1])]:
            del env[kk]

    def collective(self, e, fq):
        if not self.judging:
            return
        if self.div:
            self.bad.append((e, fq, self.div[0]))
        else:
            self.good.append((e, fq))

    def under(self, c, fn):
        self.div.append((c, "cond"))
        fn()
        self.div.pop()

    # statements return whether control may not fall through
    def stmt(self, s, env):
        if s is None:
            return
        k = s.get("k")
        if k == "Block":
            for x in s["b"]:
                self.stmt(x, env)
                if self.ends(x):
                    break
        elif k == "Decl":
            for d in s["d"]:
                if d.get("k") == "Var":
                    kk = (("v", d["id"]),)
                    v = self.val(d["init"], env) if d.get("init") is not None else False
                    env[kk] = v or bool(self.div)
                    if d.get("init") is not None and "hiop::hiopVector" in d["t"]:
                        env[("D",) + kk] = self.dist(d["init"], env)
                    if d.get("init") is not None and (isptr(d["t"]) or d["t"].endswith("&")):
                        env[("*",) + kk] = self.local(d["init"], env)
        elif k == "If":
            self.cond(s["c"], s.get("t"), s.get("e"), env)
        elif k in ("While", "For", "Do", "RangeFor"):
            self.loop(s, env)
        elif k == "Switch":
            v = self.val(s["c"], env)
            if v:
                self.div.append((s["c"], "cond"))
                self.jumps.append(set())
            n = len(self.div)
            self.jumps.append("switch")
            self.stmt(s["b"], env)
            self.jumps.pop()
            if v:
                del self.div[n - 1]
                if "return" in self.jumps.pop():
                    self.div.append((s["c"], "exit"))
        elif k in ("Case", "Default"):
            self.stmt(s.get("b"), env)
        elif k == "Return":
            v = self.val(s["e"], env) if s.get("e") is not None else False
            if (v or self.div) and s.get("e") is not None:
                if self.f.get("cls") in self.S.HOME and not (isptr(self.f["rt"]) or "hiop::hiopVector" in self.f["rt"]):
                    self.S.add(self.S.ret, self.f["id"])
            self.leave(env)
            for j in self.jumps:
                if isinstance(j, set):
                    j.add("return")
        elif k in ("Break", "Continue"):
            for j in reversed(self.jumps):
                if j == "loop" or j == "switch" and k == "Break":
                    break
                if isinstance(j, set):
                    j.add(k.lower())
        elif k in ("Nop", "Assert"):
            return
        else:
            self.val(s, env)

    def ends(self, s):
        """does the statement never fall through?"""
        if s is None:
            return False
        k = s.get("k")
        if k in ("Return", "Break", "Continue"):
            return True
        if k == "Block":
            return any(self.ends(x) for x in s["b"])
        if k == "If":
            return self.ends(s.get("t")) and self.ends(s.get("e"))
        return False

    def names(self, s):
        """collective operations a statement may reach, in order"""
        out = []
        for x in walk(s) if s is not None else ():
            if x.get("k") == "Call":
                if iscoll(x):
                    out.append(x["fq"])
                elif any(t in self.S.coll for t in self.S.targets(x)):
                    out.append(x["fq"])
        return out

    def cond(self, c, t, e, env):
        """if(c) t else e; conjunctions are split so that the part that is the same on all ranks decides first"""
        c = strip(c)
        if c.get("k") == "Un" and c["op"] == "!":
            return self.cond(c["e"], e, t, env)
        if c.get("k") == "Bin" and c["op"] in ("&&", "||"):
            vx, vy = self.val(c["x"], env), self.val(c["y"], env)
            if vx != vy:
                x, y = (c["y"], c["x"]) if vx else (c["x"], c["y"])
                inner = {"k": "If", "c": y, "t": t, "e": e, "l": c.get("l")}
                return self.cond(x, inner, e, env) if c["op"] == "&&" else self.cond(x, t, inner, env)
        v = self.val(c, env)
        name, flip = show(c), False
        if c.get("k") == "Bin" and c["op"] in ("!=", "=="):
            name, flip = "%s == %s" % tuple(sorted((show(c["x"]), show(c["y"])))), c["op"] == "!="
        if not v and ("F", name) in env:
            self.stmt(t if env[("F", name)] != flip else e, env)
            return
        same = v and self.names(t) == self.names(e) and not any(x.get("k") in ("Return", "Break", "Continue") for b in (t, e) if b is not None for x in walk(b))
        nb = len(self.div)
        if v:
            self.div.append((c, "cond"))
            self.jumps.append(set())
        save, envs = len(self.bad), []
        for b, truth in ((t, True), (e, False)):
            e2 = dict(env)
            if not v:
                e2[("F", name)] = truth != flip
            self.stmt(b, e2)
            if not self.ends(b):
                e2.pop(("F", name), None)
                envs.append(e2)
        if v:
            del self.div[nb]
            if same and not self.div:
                del self.bad[save:]
            esc = self.jumps.pop()
            if "return" in esc:
                self.div.append((c, "exit"))
            if esc & {"break", "continue"}:
                self.brk.append((c, esc))
                self.div.append((c, "skip"))
        for k in {k for x in envs for k in x}:
            if k[0] == "F":
                if all(x.get(k) == envs[0].get(k) for x in envs):
                    env[k] = envs[0][k]
                else:
                    env.pop(k, None)
            else:
                env[k] = any(x.get(k, env.get(k, False)) for x in envs)

    brk = []

    def loop(self, s, env):
        k = s["k"]
        if k == "For":
            self.stmt(s.get("i"), env)
        c = s.get("c") if k != "RangeFor" else s.get("r")
        self.jumps.append("loop")
        for kk in [kk for kk in env if kk[0] == "F"]:
            del env[kk]
        depth = len(self.div)
        bad0, good0 = len(self.bad), len(self.good)
        jump = None
        for rnd in range(4):
            before = dict(env)
            del self.bad[bad0:]
            del self.good[good0:]
            oldbrk, self.brk = self.brk, []
            v = self.val(c, env) if c is not None and k != "Do" else False
            if v:
                self.div.append((c, "loop"))
            elif jump is not None:
                self.div.append((jump, "loop"))
            if k == "RangeFor" and isinstance(s.get("v"), dict) and "id" in s["v"]:
                env[(("v", s["v"]["id"]),)] = v
            inner = dict(env)
            self.stmt(s["b"], inner)
            if k == "For":
                self.stmt(s.get("n"), inner)
            if k == "Do":
                v = self.val(c, inner)
            for kk, vv in inner.items():
                if kk[0] != "F":
                    env[kk] = vv or env.get(kk, False)
            mine, self.brk = self.brk, oldbrk
            ex = [d for d in self.div[depth:] if d[1] == "exit"]
            del self.div[depth:]
            self.div += ex[:1]
            nj = jump
            for cc, esc in mine:
                if "break" in esc:
                    nj = cc
            if k == "Do" and v and nj is None:
                nj = c
            for d in ex:
                nj = nj or d[0]
            if env == before and nj is jump:
                break
            jump = nj
            if rnd < 3:
                del self.div[depth:]
        self.jumps.pop()
