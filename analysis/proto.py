"""Interprocedural protocol (typestate) checking on top of the property simulation: ghost variables follow events of interest through the paths of a
function and, context by context, through the helpers it calls.  Constants and ghosts range over finite domains; equal states merge."""
from core import *
from simstate import Sim, Mods, SCALAR, mk


LIMIT = 40


def small(t):
    return t.replace("const ", "").replace("&", "").strip() in SCALAR


class Proto:
    """event(p, call, ghosts, args) -> None | list of (value, {ghost: new value}); enter(fid) -> whether a callee is followed"""

    def __init__(self, m, event, enter, mods=None, track=()):
        self.m, self.event, self.enter = m, event, enter
        self.mods = mods or Mods(m)
        self.memo, self.active, self.track = {}, [], tuple(track)
        self.viol, self.overflow, self.widened = {}, False, False
        self.seen, self.ncalls = set(), 0

    def small(self, t):
        return small(t)

    def bind(self, sim, params, args, old, inn):
        """further facts about the arguments of a callee that is followed"""

    def restore(self, call, old, env):
        """undo what a call does not invalidate"""

    def default(self, call, old, env, sim):
        """effect of a call that is neither an event nor followed (may change env)"""

    def report(self, key, what, call=None):
        self.viol.setdefault(key, (what, self.active[-1][0] if self.active else None, (call or {}).get("l")))

    def run(self, fid, ghosts, env=()):
        """-> set of (returned constant or None, ghosts, members of this)"""
        key = (fid, frozenset(ghosts.items()), frozenset(env))
        if key in self.memo:
            return self.memo[key]
        if any(a[0] == fid for a in self.active) or len(self.active) > 12:
            return None
        self.active.append((fid, key))
        try:
            f = self.m.funcs[fid]
            self.seen.add(fid)
            init = dict(env)
            init.update({("$g", k): v for k, v in ghosts.items()})
            s = self.sim(self, f, init)
            s.run()
            self.overflow |= s.overflow
            self.widened |= s.widened
            out = {}
            for st in s.states[s.cfg.exit]:
                e = dict(st[0])
                r = e.get(("$ret",))
                out[(None if r == "?" else r, frozenset((k[1], v) for k, v in e.items() if k[0] == "$g"),
                     frozenset((k, v) for k, v in e.items() if k[0] == "this" and k[1:] and k[1] in self.track or k in s.refs))] = 1
            self.memo[key] = list(out)
            return self.memo[key]
        finally:
            self.active.pop()


class PSim(Sim):
    cap = 150
    limit = LIMIT

    def __init__(self, p, f, init):
        self.p = p
        self.refs = {(("v", x["id"]),) for x in f["p"] if p.small(x["t"]) and x["t"].endswith("&") and not x["t"].startswith("const")}
        Sim.__init__(self, p.m, f, lambda c, st: None, p.mods, init_env=init)
        for lv in self.live:
            lv |= {r[0][1] for r in self.refs}

    def ev(self, e, st):
        # small counters are followed exactly
        if e is not None and e["k"] == "Un" and ("++" in e["op"] or "--" in e["op"]):
            out = []
            for s, v in Sim.ev(self, e["e"], st):
                nv = v + (1 if "++" in e["op"] else -1) if isinstance(v, int) and not isinstance(v, bool) and abs(v) < self.limit else None
                out.append((self.assign(s, e["e"], nv, e), nv if "post" not in e["op"] else v))
            return out
        if e is not None and e["k"] == "Bin" and e["op"] in ("+=", "-="):
            p = path(e["x"])
            out = []
            for s, v in Sim.ev(self, e["y"], st):
                old = dict(s[0]).get(p)
                nv = old + (v if e["op"] == "+=" else -v) if isinstance(v, int) and isinstance(old, int) and abs(old) < LIMIT and abs(v) < LIMIT else None
                out.append((self.assign(s, e["x"], nv, e), nv))
            return out
        return Sim.ev(self, e, st)

    def binop(self, op, a, b):
        if op in ("+", "-") and isinstance(a, int) and isinstance(b, int) and abs(a) < LIMIT and abs(b) < LIMIT:
            return a + b if op == "+" else a - b
        return Sim.binop(self, op, a, b)

    def call(self, e, st):
        # arguments and invalidation as usual
        out = []
        vals = {}
        for s, v in Sim.call(self, e, st):
            env = dict(s[0])
            self.p.restore(e, dict(st[0]), env)
            g = {k[1]: x for k, x in env.items() if k[0] == "$g"}
            self.p.ncalls += 1
            self.p.old, self.p.env = dict(st[0]), env
            r = self.p.event(self.p, e, g, self)
            if r is not None:
                for val, upd in r:
                    e2 = dict(env)
                    for k, x in upd.items():
                        k = k if isinstance(k, tuple) else ("$g", k)
                        e2[k] = x
                        if x is None:
                            del e2[k]
                    out.append((mk(e2, s[1]), val))
                continue
            followed = False
            ts = self.p.m.targets(e)
            ts = [t for t in ts if self.p.m.funcs.get(t, {}).get("body")]
            hot = [t for t in ts if self.p.enter(t)]
            if hot and len(hot) <= 4:
                o = e.get("o")
                onthis = o is not None and o["k"] == "This"
                old = dict(st[0])
                keep = {k: x for k, x in old.items() if k[0] == "this" and len(k) > 1 and k[1] in self.p.track} if onthis else {}
                for t in hot:
                    # values of small arguments, and names of those passed by reference
                    ps, bind = self.p.m.funcs[t]["p"], {}
                    inn = dict(keep)
                    for x, a in zip(ps, e["a"]):
                        if self.p.small(x["t"]):
                            v0 = old.get(path(a)) if path(a) else None
                            v0 = const_int(a) if v0 is None else v0
                            if v0 is not None and not isinstance(v0, tuple):
                                inn[(("v", x["id"]),)] = v0
                            if x["t"].endswith("&") and not x["t"].startswith("const") and path(a) and path(a) not in self.aliased:
                                bind[(("v", x["id"]),)] = path(a)
                                inn.pop(path(a), None)      # the callee sees it under the name of its parameter
                    self.p.bind(self, ps, e["a"], old, inn)
                    rs = self.p.run(t, g, inn.items())
                    if rs is None:
                        continue
                    followed = True
                    for ret, gs, mem in rs:
                        e2 = {k: x for k, x in env.items() if k[0] != "$g" and not (onthis and k[0] == "this" and k[1:] and k[1] in self.p.track)}
                        e2.update({("$g", k): x for k, x in gs})
                        for k, x in mem:
                            if k in bind:
                                e2[bind[k]] = x
                            elif onthis and k[0] == "this":
                                e2[k] = x
                        out.append((mk(e2, s[1]), ret))
                if len(hot) < len(ts):
                    out.append((mk(env, s[1]), v))
            if not followed:
                self.p.default(e, dict(st[0]), env, self)
                out.append((mk(env, s[1]), v))
        return self.dedupe(out)


def reaching(m, pred):
    """functions from which an event call can be reached through calls"""
    hot = set()
    callers = {}
    for fid, f in m.funcs.items():
        if not f.get("body"):
            continue
        for c in calls(f["body"]):
            if pred(c):
                hot.add(fid)
            for t in m.targets(c):
                callers.setdefault(t, set()).add(fid)
    todo = list(hot)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in hot:
                hot.add(c)
                todo.append(c)
    return hot


def last(c):
    return (c.get("fq") or "").split("::")[-1]


Proto.sim = PSim


class LeanSim(PSim):
    """follows only the scalars that decide something"""
    limit = 4
    def __init__(self, p, f, init):
        self.p = p
        PSim.__init__(self, p, f, init)
        # scalars that decide a branch, directly or through an argument of a helper that is followed
        self.deciding = set()
        for n in func_nodes(f):
            src = []
            if n["k"] in ("If", "While", "For", "Do", "Cond", "Switch", "Return", "Assert"):
                src = [n.get("c"), n.get("e") if n["k"] in ("Return", "Switch", "Assert") else None]
            elif n["k"] == "Call" and any(t in p.m.funcs and p.enter(t) for t in p.m.targets(n)):
                src = n["a"]
            elif n["k"] == "Bin" and n["op"] == "=" or n["k"] == "Var" and n.get("init"):
                y = strip_soft(n["y"] if n["k"] == "Bin" else n["init"])
                if y["k"] != "Call":
                    src = [y]
            todo = [e for e in src if e]
            while todo:
                x = todo.pop()
                if x["k"] == "Ref" and "id" in x:
                    self.deciding.add(x["id"])
                if x["k"] != "Call" or any(t in p.m.funcs and p.enter(t) for t in p.m.targets(x)):
                    todo += list(children(x))
        # locals set once, by something unknown: remembering the outcome of a test of theirs only multiplies states
        ndef = {}
        for n in func_nodes(f):
            if n["k"] == "Var":
                ndef[n["id"]] = ndef.get(n["id"], 0) + (1 if n.get("init") and strip_soft(n["init"])["k"] not in ("Int", "Bool", "Ref", "Null") else 2 if n.get("init") else 0)
            elif n["k"] == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") or n["k"] == "Un" and ("++" in n["op"] or "--" in n["op"]):
                p2 = path(n.get("x") or n["e"])
                if p2 and isinstance(p2[0], tuple):
                    ndef[p2[0][1]] = ndef.get(p2[0][1], 0) + 1
            elif n["k"] == "Call":
                for a, ty in zip(n.get("a", ()), n.get("pt", ())):
                    p2 = path(a)
                    if p2 and isinstance(p2[0], tuple) and ty.endswith("&") and not ty.startswith("const "):
                        ndef[p2[0][1]] = ndef.get(p2[0][1], 0) + 2
        nuse = {}
        for x in func_nodes(f):
            if x["k"] == "Ref" and "id" in x:
                nuse[x["id"]] = nuse.get(x["id"], 0) + 1
        self.once = {v for v, c in ndef.items() if c == 1 and nuse.get(v, 0) <= 1}

    def used(self, e):
        todo = [e] if e else []
        while todo:
            x = todo.pop()
            if x["k"] == "Ref" and x.get("dk") in ("var", "parm"):
                yield x["id"]
            if x["k"] == "Call" and not any(t in self.p.m.funcs and self.p.enter(t) for t in self.p.m.targets(x)):
                # flags and counters handed to functions that are not followed decide nothing
                for y in children(x):
                    z = strip_soft(y)
                    if not (z["k"] == "Ref" and small(z.get("t") or "")):
                        todo.append(y)
            else:
                todo += list(children(x))

    def keep(self, p, v):
        if p in self.refs:
            return True
        if p[0] == "this":
            return len(p) == 2 and p[1] in self.p.track
        return isinstance(p[0], tuple) and p[0][0] == "v" and p[0][1] in self.deciding

    def refine(self, cond, st, val):
        s = PSim.refine(self, cond, st, val)
        if s is not st:
            a, b = dict(st[0]), dict(s[0])
            drop = [k for k in b if b[k] != a.get(k) and k[0] not in ("$g", "$ret", "$unk") and (not self.keep(k, b[k]) or isinstance(k[0], tuple) and k[0][1] in self.once)]
            if drop:
                s = mk({k: (a.get(k) if k in drop else v) for k, v in b.items() if k not in drop or k in a}, s[1])
        return s

    def ev(self, e, st):
        if e is not None and e["k"] in ("Un", "Bin") and (path(e.get("e") or e.get("x")) or ("",))[0] == "this" and ("++" in e["op"] or "--" in e["op"] or e["op"] in ("+=", "-=")):
            return Sim.ev(self, e, st)      # iteration counters are not followed
        return PSim.ev(self, e, st)

    def assign(self, st, lhs, v, node=None):
        p = path(lhs)
        if v is not None and p is not None and not self.keep(p, v):
            v = None
        return PSim.assign(self, st, lhs, v, node)
