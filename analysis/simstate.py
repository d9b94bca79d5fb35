"""Property simulation (finite-domain, path-merging dataflow).

State at a program point: a set of (constant environment over bool/int/enum
locals and members, pending token).  Constants come from literals and
enumerators only, so the domain is finite; equal states are merged.  A call to
a *fallible* function forks the state into success (result = success constant)
and failure (result = failure constant, token pending).  No path is
enumerated and no solver is consulted.
"""
from core import CFG, path, const_int, show, strip_soft, walk, calls, func_nodes

MAXSTATES = 3000
NZ = "NZ"       # some nonzero value


def truth(v):
    if v is None:
        return None
    if v == NZ:
        return True
    if isinstance(v, tuple):        # symbolic entry value of a member
        return None
    return bool(v)


class State(tuple):
    """(env frozenset of (key,val), pend)"""
    __slots__ = ()

    @property
    def env(self):
        return dict(self[0])

    @property
    def pend(self):
        return self[1]


def mk(env, pend):
    return State((frozenset(env.items()), pend))


SCALAR = ("bool", "int", "char", "long", "unsigned", "short", "size_t", "hiop::hiopSolveStatus")


class Mods:
    """members of `this` a function may assign (transitively through calls on this)"""

    def __init__(self, model):
        self.m = model
        direct, callees = {}, {}
        for fid, f in model.funcs.items():
            d, c = set(), set()
            for n in func_nodes(f):
                k = n["k"]
                if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    p = path(n["x"])
                    if p and p[0] == "this" and len(p) > 1:
                        d.add(p[1])
                elif k == "Un" and "++" in n["op"] or k == "Un" and "--" in n["op"]:
                    p = path(n["e"])
                    if p and p[0] == "this" and len(p) > 1:
                        d.add(p[1])
                elif k == "Call":
                    o = n.get("o")
                    if o is not None and o["k"] == "This":
                        for t in model.targets(n):
                            c.add(t)
                    for a, t in zip(n.get("a", ()), n.get("pt", ())):
                        if (t.endswith("&") and not t.startswith("const ")) or (a["k"] == "Un" and a["op"] == "&"):
                            p = path(a)
                            if p and p[0] == "this" and len(p) > 1:
                                d.add(p[1])
            direct[fid], callees[fid] = d, c
        res = {k: set(v) for k, v in direct.items()}
        changed = True
        while changed:
            changed = False
            for fid in res:
                for c in callees[fid]:
                    if c in res and not res[c] <= res[fid]:
                        res[fid] |= res[c]
                        changed = True
        self.mods = res

    def __call__(self, fid):
        return self.mods.get(fid, set())


class Sim:
    def __init__(self, model, func, fallible, mods, recover=None, asserts="abort", resolver=None, clear_on_test=False, init_env=None, init_pend=None,
                 callee_summary=None, track_members=(), merge_clean=False):
        """fallible(call) -> None or list of (value, token or None) outcomes"""
        self.m, self.f = model, func
        self.cfg = CFG(func, asserts)
        self.fallible = fallible
        self.mods = mods
        self.recover = recover or (lambda pend, call: False)
        self.clear_on_test = clear_on_test
        self.init_env, self.init_pend = dict(init_env or {}), init_pend
        self.track_members = track_members
        self.merge_clean = merge_clean
        for p in track_members:
            self.init_env.setdefault(p, ("in", p))
        self.summary = callee_summary
        self.overflow = False
        self.aliased = self._address_taken()
        self._liveness()

    def used(self, e):
        """locals whose value an expression uses"""
        for x in walk(e):
            if x["k"] == "Ref" and x.get("dk") in ("var", "parm"):
                yield x["id"]
            elif x["k"] == "Lambda":
                for y in walk(x):
                    if y["k"] == "Ref" and "id" in y:
                        yield y["id"]

    def _liveness(self):
        """locals live at entry of each node (dead constants are dropped, so states merge)"""
        cfg = self.cfg
        N = len(cfg.kind)
        use, kill = [set() for _ in range(N)], [set() for _ in range(N)]
        for n in range(N):
            e = cfg.e[n]
            if e is None or cfg.kind[n] == "loop":
                continue
            if cfg.kind[n] in ("decl", "rangevar"):
                use[n] |= set(self.used(e.get("init")))
                kill[n].add(e["id"])
            elif cfg.kind[n] == "expr" and e["k"] == "Bin" and e["op"] == "=" and strip_soft(e["x"])["k"] == "Ref" and strip_soft(e["x"]).get("dk") in ("var", "parm"):
                kill[n].add(strip_soft(e["x"])["id"])
                use[n] |= set(self.used(e["y"]))
            else:
                ee = e["e"] if cfg.kind[n] == "init" else e
                if isinstance(ee, dict):
                    use[n] |= set(self.used(ee))
        live = [set() for _ in range(N)]
        changed = True
        order = list(range(N))[::-1]
        while changed:
            changed = False
            for n in order:
                o = set()
                for t, _ in cfg.succ[n]:
                    o |= live[t]
                nw = use[n] | (o - kill[n])
                if nw != live[n]:
                    live[n] = nw
                    changed = True
        self.live = live

    def prune(self, n, st):
        lv = self.live[n]
        if any(isinstance(k[0], tuple) and k[0][0] == "v" and k[0][1] not in lv for k, _ in st[0]):
            return mk({k: v for k, v in st[0] if not (isinstance(k[0], tuple) and k[0][0] == "v" and k[0][1] not in lv)}, st[1])
        return st

    def _address_taken(self):
        s = set()
        for n in func_nodes(self.f):
            if n["k"] == "Var" and n["t"].endswith("&") and n.get("init"):
                p = path(n["init"])
                if p:
                    s.add(p)
        return s

    # ---------- expression evaluation ----------
    def ev(self, e, st):
        """-> list of (state, value)"""
        if e is None:
            return [(st, None)]
        k = e["k"]
        if k in ("Int", "Bool"):
            return [(st, int(e["v"]))]
        if k == "Null":
            return [(st, 0)]
        if k == "Flt":
            return [(st, None)]
        if k == "Assert":
            # nested assert (comma expressions); ignore
            return [(st, None)]
        if k == "Ref":
            if e.get("dk") == "enum":
                return [(st, e["v"])]
            p = path(e)
            return [(st, dict(st[0]).get(p))]
        if k == "Mem":
            p = path(e)
            if p is not None:
                return [(st, dict(st[0]).get(p))]
            return [(s, None) for s, _ in self.ev(e["b"], st)]
        if k == "Cast":
            r = self.ev(e["e"], st)
            ck = e.get("ck")
            if ck in ("IntegralToBoolean", "PointerToBoolean"):
                return [(s, None if truth(v) is None else int(truth(v))) for s, v in r]
            if ck in ("NoOp", "LValueToRValue", "IntegralCast", "BitCast", "NullToPointer", "Dynamic", "ConstructorConversion", "FunctionalCast"):
                return r
            return [(s, None) for s, v in r]
        if k == "Bin":
            op = e["op"]
            if op == "=":
                out = []
                for s, v in self.ev(e["y"], st):
                    for s2, _ in (self.ev(e["x"], s) if strip_soft(e["x"])["k"] not in ("Ref", "Mem") else [(s, None)]):
                        out.append((self.assign(s2, e["x"], v, e), v))
                return out
            if op in ("&&", "||"):
                out = []
                for s, v in self.ev(e["x"], st):
                    t = truth(v)
                    if t is None:
                        # short circuit side
                        out.append((s, 0 if op == "&&" else 1))
                        for s2, v2 in self.ev(e["y"], s):
                            t2 = truth(v2)
                            out.append((s2, None if t2 is None else int(t2)))
                    elif t == (op == "||"):
                        out.append((s, int(t)))
                    else:
                        for s2, v2 in self.ev(e["y"], s):
                            t2 = truth(v2)
                            out.append((s2, None if t2 is None else int(t2)))
                return self.dedupe(out)
            if op == ",":
                out = []
                for s, _ in self.ev(e["x"], st):
                    out += self.ev(e["y"], s)
                return self.dedupe(out)
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                out = []
                for s, v in self.ev(e["y"], st):
                    nv = None
                    p = path(e["x"])
                    old = dict(s[0]).get(p)
                    if op in ("|=", "&=") and old is not None and v is not None:
                        a, b = truth(old), truth(v)
                        nv = int(a or b) if op == "|=" else int(a and b)
                    out.append((self.assign(s, e["x"], nv, e), nv))
                return out
            out = []
            for s, a in self.ev(e["x"], st):
                for s2, b in self.ev(e["y"], s):
                    out.append((s2, self.binop(op, a, b)))
            return self.dedupe(out)
        if k == "Un":
            op = e["op"]
            r = self.ev(e["e"], st)
            if op == "!":
                return [(s, None if truth(v) is None else int(not truth(v))) for s, v in r]
            if op == "-":
                return [(s, -v if isinstance(v, int) else (NZ if v == NZ else None)) for s, v in r]
            if "++" in op or "--" in op:
                return [(self.assign(s, e["e"], None, e), None) for s, v in r]
            if op == "*" or op == "&":
                return [(s, v if op == "*" else None) for s, v in r]
            return [(s, None) for s, v in r]
        if k == "Cond":
            out = []
            for s, v in self.ev(e["c"], st):
                t = truth(v)
                if t is not False:
                    out += self.ev(e["x"], s if t else self.refine(e["c"], s, True))
                if t is not True:
                    out += self.ev(e["y"], s if t is False else self.refine(e["c"], s, False))
            return self.dedupe(out)
        if k == "Call":
            return self.call(e, st)
        if k in ("Lambda", "Str", "This", "Sizeof", "ZeroInit"):
            return [(st, 0 if k == "ZeroInit" else None)]
        # generic: evaluate children for effect
        sts = [st]
        from core import children
        for c in children(e):
            nxt = []
            for s in sts:
                nxt += [x for x, _ in self.ev(c, s)]
            sts = list(dict.fromkeys(nxt))
        val = None
        if k == "InitList" and len(e["a"]) == 1:
            return self.ev(e["a"][0], st)
        if k == "New":
            val = NZ
        return [(s, val) for s in sts]

    def dedupe(self, l):
        return list(dict.fromkeys(l))

    def binop(self, op, a, b):
        if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
            return None
        if a == NZ or b == NZ:
            if op in ("==", "!="):
                o = b if a == NZ else a
                if o == 0:
                    return int(op == "!=")
            return None
        try:
            return {"==": int(a == b), "!=": int(a != b), "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b),
                    "+": a + b if (a in (0, 1, -1) and b in (0, 1, -1)) else None, "-": a - b if (a in (0, 1, -1) and b in (0, 1, -1)) else None,
                    "&": a & b, "|": a | b}.get(op)
        except TypeError:
            return None

    def assign(self, st, lhs, v, node=None):
        p = path(lhs)
        if p is None:
            return st
        env = dict(st[0])
        for k in [k for k in env if k[:len(p)] == p]:
            del env[k]
        if isinstance(v, tuple) and p[0] != "this":
            v = None
        t = (lhs.get("t") or "")
        if v is not None and len(p) <= 3 and p not in self.aliased:
            if t == "bool" and v == NZ:
                v = 1
            env[p] = v
        return mk(env, st[1])

    def call(self, e, st):
        sts = [st]
        argvals = [[] for _ in e.get("a", ())]
        if e.get("o") is not None:
            sts = list(dict.fromkeys(s for s0 in sts for s, _ in self.ev(e["o"], s0)))
        if e.get("ce") is not None:
            sts = list(dict.fromkeys(s for s0 in sts for s, _ in self.ev(e["ce"], s0)))
        cur = [(s, ()) for s in sts]
        for i, a in enumerate(e.get("a", ())):
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + (v,)))
            cur = list(dict.fromkeys(nxt))
        out = []
        for s, vs in cur:
            # overloaded operators
            if e.get("op") == "!" and len(vs) == 1:
                out.append((s, None))
                continue
            env = dict(s[0])
            # invalidate by-reference arguments
            for a, t in zip(e.get("a", ()), e.get("pt", ())):
                byref = (t.endswith("&") and not t.startswith("const ")) or (a["k"] == "Un" and a["op"] == "&")
                if byref:
                    p = path(a)
                    if p:
                        for k in [k for k in env if k[:len(p)] == p]:
                            del env[k]
                if a["k"] == "This":
                    for k in [k for k in env if k[0] == "this"]:
                        del env[k]
            o = e.get("o")
            targets = self.m.targets(e)
            summ = None
            if self.summary and s[1] is not None:
                summ = self.summary(self, e, s, vs)
            if o is not None and o["k"] == "This" and not e.get("cst") and summ is None:
                for t in targets:
                    for fld in self.mods(t):
                        for k in [k for k in env if k[0] == "this" and len(k) > 1 and k[1] == fld]:
                            del env[k]
            s1 = mk(env, s[1])
            fl = self.fallible(e, s1)
            if fl:
                onthis = o is not None and o["k"] == "This"
                rec = s1[1] is not None and self.recover(s1[1], e)
                for v, tok, *eff in fl:
                    env2 = dict(env)
                    if onthis and eff:
                        for kk, vv in eff[0]:
                            if isinstance(vv, tuple):
                                vv = dict(s[0]).get(vv[1])
                            if vv is None:
                                env2.pop(kk, None)
                            else:
                                env2[kk] = vv
                    pend = tok if s1[1] is None else (None if (tok is None and rec) else s1[1])
                    out.append((mk(env2, pend), v))
            elif summ is not None:
                for ret, assigns, pend in summ:
                    env2 = dict(env)
                    for kk, vv in assigns:
                        if vv is None:
                            env2.pop(kk, None)
                        else:
                            env2[kk] = vv
                    out.append((mk(env2, pend), ret))
            else:
                out.append((s1, None))
        return self.dedupe(out)

    def refine(self, cond, st, val):
        """assume cond == val for simple conditions"""
        c = cond
        while c["k"] == "Cast" and c.get("ck") in ("IntegralToBoolean", "NoOp", "LValueToRValue", "IntegralCast"):
            c = c["e"]
        if c["k"] == "Un" and c["op"] == "!":
            return self.refine(c["e"], st, not val)
        if c["k"] in ("Ref", "Mem"):
            p = path(c)
            t = c.get("t", "")
            if p and p not in self.aliased and len(p) <= 3:
                env = dict(st[0])
                if p not in env or isinstance(env[p], tuple):
                    if val:
                        env[p] = 1 if t == "bool" else NZ
                    else:
                        env[p] = 0
                    return mk(env, st[1])
        if c["k"] == "Bin" and c["op"] in ("==", "!="):
            for x, y in ((c["x"], c["y"]), (c["y"], c["x"])):
                v = const_int(y)
                p = path(strip_int(x))
                if isinstance(v, int) and p and p not in self.aliased and len(p) <= 3:
                    eq = (c["op"] == "==") == val
                    env = dict(st[0])
                    if p not in env or isinstance(env[p], tuple):
                        if eq:
                            env[p] = v
                        elif (strip_int(x).get("t") == "bool"):
                            env[p] = 1 - v
                        elif v == 0:
                            env[p] = NZ
                        return mk(env, st[1])
        return st

    cap = 0
    widened = False

    def kept(self, s):
        return {(k, v) for k, v in s[0] if k[0] in ("$g", "$ret")}

    def widen(self, t, s2):
        """too many constant environments: forget what disagrees with the closest one of the same ghost state"""
        kept = self.kept
        g = kept(s2)
        best, n = None, -1
        for o in self.states[t]:
            if o[1] == s2[1] and kept(o) == g:
                c = len(o[0] & s2[0])
                if c > n:
                    best, n = o, c
        if best is None:
            return s2
        j = mk(dict(best[0] & s2[0]), s2[1])
        if j != best:
            self.states[t].discard(best)
        return j

    # ---------- fixpoint ----------
    def step(self, n, st):
        """-> list of (succ index or None for all, state)"""
        kind, e = self.cfg.kind[n], self.cfg.e[n]
        if kind == "expr":
            return [(None, s) for s, _ in self.ev(e, st)]
        if kind in ("decl", "rangevar"):
            if e.get("init") is not None:
                out = []
                for s, v in self.ev(e["init"], st):
                    out.append((None, self.assign(s, {"k": "Ref", "dk": "var", "id": e["id"], "t": e["t"]}, v if not e["t"].endswith("&") else None)))
                return out
            return [(None, self.assign(st, {"k": "Ref", "dk": "var", "id": e["id"], "t": e["t"]}, None))]
        if kind == "init":
            out = []
            for s, v in self.ev(e["e"], st):
                if e.get("m"):
                    out.append((None, self.assign(s, {"k": "Mem", "n": e["m"], "t": e.get("mt", ""), "b": {"k": "This"}}, v)))
                else:
                    out.append((None, s))
            return out
        if kind == "branch":
            out = []
            for s, v in self.ev(e, st):
                t = truth(v)
                if t is None and n in self.cfg.assert_nodes:
                    env = dict(s[0])
                    env[("$unk",)] = 1      # the assertion is not decided by the constants: assume it holds
                    s = mk(env, s[1])
                tested = self.clear_on_test and s[1] is not None and t is not None and self.tests_token(e, st, s)
                if tested:
                    s = mk(dict(s[0]), None)
                if t is not False:
                    out.append((True, s if t else self.refine(e, s, True)))
                if t is not True:
                    out.append((False, s if t is False else self.refine(e, s, False)))
            return out
        if kind == "switch":
            out = []
            for s, v in self.ev(e, st):
                out.append((("switch", v), s))
            return out
        if kind == "return":
            r = []
            for s, v in self.ev(e, st):
                env = dict(s[0])
                env[("$ret",)] = v if v is not None else "?"
                r.append((None, mk(env, s[1])))
            return r
        return [(None, st)]

    def tests_token(self, e, before, after):
        return True

    def run(self):
        cfg = self.cfg
        self.states = [set() for _ in cfg.kind]
        init = mk(self.init_env, self.init_pend)
        self.states[cfg.entry].add(init)
        self.origin = {(cfg.entry, init): None}
        work = [(cfg.entry, init)]
        while work:
            n, st = work.pop()
            if cfg.kind[n] in ("exit", "abort") or st not in self.states[n]:
                continue
            for lab, s in self.step(n, st):
                if cfg.kind[n] != "return" and ("$ret",) in dict(s[0]):
                    env = dict(s[0]); env.pop(("$ret",)); s = mk(env, s[1])
                for t, sl in cfg.succ[n]:
                    if lab is True or lab is False:
                        if sl is not lab:
                            continue
                    elif isinstance(lab, tuple) and lab[0] == "switch" and sl is not None:
                        v = lab[1]
                        if sl[0] == "case":
                            if v is not None and v != NZ and v != sl[1]:
                                continue
                        elif sl[0] == "default" and v is not None and v != NZ and len(sl) > 1 and v in sl[1]:
                            continue
                    s2 = self.prune(t, s)
                    if t not in cfg.assert_nodes and cfg.kind[t] not in ("assertfail", "abort") and ("$unk",) in dict(s2[0]):
                        s2 = mk({k: v for k, v in s2[0] if k != ("$unk",)}, s2[1])
                    elif cfg.kind[t] == "assertfail" and ("$unk",) in dict(s2[0]):
                        continue
                    if self.cap and len(self.states[t]) >= self.cap and s2 not in self.states[t]:
                        s2 = self.widen(t, s2)
                        self.widened = True
                    elif len(self.states[t]) > max(MAXSTATES, self.cap) and s2 not in self.states[t]:
                        self.overflow = True
                        s2 = mk({k: v for k, v in s2[0] if k == ("$ret",)}, s2[1])
                    if self.merge_clean and s2[1] is None and self.states[t] and s2 not in self.states[t]:
                        r2 = dict(s2[0]).get(("$ret",))
                        clean = [x for x in self.states[t] if x[1] is None and dict(x[0]).get(("$ret",)) == r2]
                        if clean:
                            o = clean[0]
                            j = mk({k: v for k, v in o[0] if dict(s2[0]).get(k) == v}, None)
                            if j == o:
                                continue
                            self.states[t].discard(o)
                            s2 = j
                    if s2 not in self.states[t]:
                        self.states[t].add(s2)
                        self.origin[(t, s2)] = (n, st)
                        work.append((t, s2))
        return self

    def trace(self, n, st, limit=14):
        """a representative abstract path (for the report text)"""
        out = []
        cur = (n, st)
        while cur is not None:
            out.append(cur[0])
            cur = self.origin.get(cur)
        out.reverse()
        lines = []
        for x in out:
            if self.cfg.kind[x] in ("branch", "return", "expr", "decl") and (not lines or lines[-1] != self.cfg.l[x]):
                lines.append(self.cfg.l[x])
        return lines[-limit:]


def strip_int(e):
    while e is not None and e["k"] == "Cast" and e.get("ck") in ("IntegralCast", "NoOp", "LValueToRValue", "IntegralToBoolean"):
        e = e["e"]
    return e
