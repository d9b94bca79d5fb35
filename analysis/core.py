"""AST helpers, control-flow graphs and call graph over the dumped program."""
import sys
sys.setrecursionlimit(100000)

CHILD_KEYS = ("i", "cv", "c", "o", "ce", "b", "x", "y", "e", "t", "n", "v", "r", "init", "sz", "body")
LIST_KEYS = ("a", "d", "h")


def children(n):
    """direct AST children in (approximate) evaluation order"""
    k = n["k"]
    for key in CHILD_KEYS:
        c = n.get(key)
        if isinstance(c, dict):
            yield c
        elif isinstance(c, list) and key == "b":
            for x in c:
                if isinstance(x, dict):
                    yield x
    for key in LIST_KEYS:
        c = n.get(key)
        if isinstance(c, list):
            for x in c:
                if isinstance(x, dict):
                    yield x


def walk(n, asserts=True):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        if not asserts and x["k"] == "Assert":
            continue
        yield x
        st.extend(reversed(list(children(x))))


def calls(n, asserts=True):
    for x in walk(n, asserts):
        if x["k"] == "Call":
            yield x


def func_nodes(f, asserts=True):
    for i in f.get("inits", ()):
        if i.get("e"):
            yield from walk(i["e"], asserts)
    if f.get("body"):
        yield from walk(f["body"], asserts)


def strip(e):
    """drop value-preserving casts"""
    while e is not None and e["k"] == "Cast" and e.get("ck") not in ("UserDefined",):
        e = e["e"]
    return e


def strip_soft(e):
    while e is not None and e["k"] == "Cast" and e.get("ck") in ("NoOp", "LValueToRValue", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "NullToPointer"):
        e = e["e"]
    return e


def const_int(e):
    e = strip(e)
    if e is None:
        return None
    k = e["k"]
    if k == "Int" or k == "Bool":
        return e["v"]
    if k == "Null":
        return 0
    if k == "Ref" and e.get("dk") == "enum":
        return e["v"]
    if k == "Flt":
        return float(e["v"])
    if k == "Sizeof":
        return e.get("v")
    if k == "Un" and e["op"] in ("-", "+", "!", "~"):
        v = const_int(e["e"])
        if v is None:
            return None
        return {"-": lambda: -v, "+": lambda: v, "!": lambda: int(not v), "~": lambda: ~int(v)}[e["op"]]()
    if k == "Bin":
        a, b = const_int(e["x"]), const_int(e["y"])
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                    "/": lambda: (a / b if isinstance(a, float) or isinstance(b, float) else int(a / b))}[e["op"]]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


def path(e):
    """access path of an lvalue-ish expression as a tuple, or None.
    ('this','x_') / (('v',id),'field') ...; dereference and address-of are transparent."""
    e = strip_soft(e)
    if e is None:
        return None
    k = e["k"]
    if k == "This":
        return ("this",)
    if k == "Ref":
        if e.get("dk") in ("var", "parm"):
            return (("v", e["id"]),)
        if e.get("dk") == "global":
            return (("g", e["q"]),)
        return None
    if k == "Mem":
        b = path(e["b"])
        if b is None:
            return None
        return b + (e["n"],)
    if k == "Un" and e["op"] in ("*", "&"):
        return path(e["e"])
    if k == "Call" and not e.get("a") and e.get("o") is not None and e.get("op") is None:
        # trivial getters are resolved by callers that know them
        return None
    return None


def show(e, depth=0):
    """readable rendering of an expression for reports"""
    if e is None:
        return ""
    if depth > 12:
        return "..."
    k = e["k"]
    s = lambda x: show(x, depth + 1)
    if k == "Ref":
        return e["n"]
    if k == "This":
        return "this"
    if k == "Mem":
        if e["b"]["k"] == "This":
            return e["n"]
        return s(e["b"]) + ("->" if e.get("ar") else ".") + e["n"]
    if k == "Call":
        a = ", ".join(s(x) for x in e.get("a", ()))
        n = (e.get("fq") or (s(e["ce"]) if e.get("ce") else "?")).split("::")[-1]
        if e.get("o") is not None and e["o"]["k"] != "This":
            return "%s%s%s(%s)" % (s(e["o"]), "->" if e.get("ar") else ".", n, a)
        if e.get("op"):
            return "%s(%s)" % (n, a)
        return "%s(%s)" % (n, a)
    if k in ("Int", "Bool", "Flt"):
        return str(e["v"])
    if k == "Null":
        return "nullptr"
    if k == "Str":
        return '"%s"' % e["v"]
    if k == "Un":
        return (s(e["e"]) + e["op"][1:]) if e["op"].startswith("p") else e["op"] + s(e["e"])
    if k == "Bin":
        return "%s%s%s" % (s(e["x"]), e["op"], s(e["y"]))
    if k == "Cond":
        return "%s?%s:%s" % (s(e["c"]), s(e["x"]), s(e["y"]))
    if k == "Cast":
        return s(e["e"])
    if k == "Idx":
        return "%s[%s]" % (s(e["b"]), s(e["i"]))
    if k == "New":
        return "new " + e["t"]
    if k == "Delete":
        return "delete " + s(e["e"])
    if k == "Assert":
        return "assert(%s)" % s(e.get("e"))
    if k in ("Ctor", "InitList"):
        return "%s{%s}" % (e.get("q", ""), ", ".join(s(x) for x in e["a"]))
    return k


class CFG:
    """nodes: dict(kind, e, l); succ: list of (node, label).
    kinds: entry, exit, abort, expr, decl, branch, return, switch, nop"""

    def __init__(self, func, asserts="abort"):
        # asserts: 'abort' (failing assert ends the process) or 'off' (NDEBUG: not evaluated)
        self.f = func
        self.asserts = asserts
        self.assert_nodes = set()
        self.kind, self.e, self.l, self.succ = [], [], [], []
        self.entry = self.new("entry", None, func["l"])
        self.exit = self.new("exit", None, func.get("el", 0))
        self.abort = self.new("abort", None, 0)
        self.brk, self.cont = [], []
        self.labels, self.gotos = {}, []
        cur = [(self.entry, None)]
        for i in func.get("inits", ()):
            if i.get("e") is not None:
                cur = self.simple("init", i, i["e"].get("l", func["l"]), cur)
        if func.get("body"):
            cur = self.stmt(func["body"], cur)
        for p, lab in cur:
            self.succ[p].append((self.exit, lab))
        for src, name in self.gotos:
            if name in self.labels:
                self.succ[src].append((self.labels[name], None))
        self.pred = [[] for _ in self.succ]
        for n, ss in enumerate(self.succ):
            for t, lab in ss:
                self.pred[t].append((n, lab))

    def new(self, kind, e, l):
        self.kind.append(kind)
        self.e.append(e)
        self.l.append(l)
        self.succ.append([])
        return len(self.kind) - 1

    def link(self, cur, n):
        for p, lab in cur:
            self.succ[p].append((n, lab))

    def simple(self, kind, e, l, cur):
        n = self.new(kind, e, l)
        self.link(cur, n)
        if isinstance(e, dict) and any(c.get("nr") for c in (calls(e, self.asserts != "off") if e["k"] != "Init" else ())):
            self.succ[n].append((self.abort, None))
            return []
        return [(n, None)]

    def cond(self, e, cur):
        """returns (true_exits, false_exits)"""
        s = e
        while s["k"] == "Cast" and s.get("ck") in ("IntegralToBoolean", "NoOp", "PointerToBoolean"):
            if s.get("ck") == "PointerToBoolean":
                break
            s = s["e"]
        if s["k"] == "Bin" and s["op"] == "&&":
            t1, f1 = self.cond(s["x"], cur)
            t2, f2 = self.cond(s["y"], t1)
            return t2, f1 + f2
        if s["k"] == "Bin" and s["op"] == "||":
            t1, f1 = self.cond(s["x"], cur)
            t2, f2 = self.cond(s["y"], f1)
            return t1 + t2, f2
        if s["k"] == "Un" and s["op"] == "!":
            t, f = self.cond(s["e"], cur)
            return f, t
        n = self.new("branch", e, e.get("l", 0))
        self.link(cur, n)
        v = const_int(e)
        if v is not None:
            return ([(n, True)], []) if v else ([], [(n, False)])
        return [(n, True)], [(n, False)]

    def stmt(self, s, cur):
        if s is None:
            return cur
        k = s["k"]
        l = s.get("l", 0)
        if k == "Block":
            for x in s["b"]:
                cur = self.stmt(x, cur)
            return cur
        if k == "Nop":
            return cur
        if k == "If":
            if s.get("i"):
                cur = self.stmt(s["i"], cur)
            if s.get("cv"):
                cur = self.simple("decl", s["cv"], l, cur)
            t, f = self.cond(s["c"], cur)
            t = self.stmt(s["t"], t)
            if s.get("e"):
                f = self.stmt(s["e"], f)
            return t + f
        if k in ("While", "For", "Do", "RangeFor"):
            if k == "For" and s.get("i"):
                cur = self.stmt(s["i"], cur)
            if k == "RangeFor":
                cur = self.simple("expr", s["r"], l, cur)
            head = self.new("loop", s, l)
            self.link(cur, head)
            self.brk.append([])
            self.cont.append([])
            cur = [(head, None)]
            if k == "Do":
                body = self.stmt(s["b"], cur)
                body += self.cont[-1]
                t, f = self.cond(s["c"], body) if s.get("c") else (body, [])
                self.link(t, head)
                out = f
            elif k == "RangeFor":
                n = self.new("range", s, l)
                self.link(cur, n)
                d = self.simple("rangevar", s["v"], l, [(n, True)])
                body = self.stmt(s["b"], d) + self.cont[-1]
                self.link(body, head)
                out = [(n, False)]
            else:
                if s.get("cv"):
                    cur = self.simple("decl", s["cv"], l, cur)
                t, f = self.cond(s["c"], cur) if s.get("c") else (cur, [])
                body = self.stmt(s["b"], t) + self.cont[-1]
                if k == "For" and s.get("n"):
                    body = self.stmt(s["n"], body)
                self.link(body, head)
                out = f
            out = out + self.brk.pop()
            self.cont.pop()
            return out
        if k == "Switch":
            n = self.new("switch", s["c"], l)
            self.link(cur, n)
            self.brk.append([])
            self.swn = getattr(self, "swn", [])
            self.swn.append([n, [], False])
            cur = self.stmt(s["b"], [])
            sw = self.swn.pop()
            out = cur + self.brk.pop()
            if not sw[2]:
                out.append((n, ("default", tuple(sw[1]))))
            else:
                # patch default label with the set of explicit cases
                self.succ[n] = [(t, ("default", tuple(sw[1])) if lab == ("default",) else lab) for t, lab in self.succ[n]]
                for p in range(len(out)):
                    if out[p] == (n, ("default",)):
                        out[p] = (n, ("default", tuple(sw[1])))
            return out
        if k == "Case":
            sw = self.swn[-1]
            v = s.get("iv")
            sw[1].append(v)
            m = self.new("nop", None, l)
            self.link(cur, m)
            self.succ[sw[0]].append((m, ("case", v)))
            return self.stmt(s["b"], [(m, None)])
        if k == "Default":
            sw = self.swn[-1]
            sw[2] = True
            m = self.new("nop", None, l)
            self.link(cur, m)
            self.succ[sw[0]].append((m, ("default",)))
            return self.stmt(s["b"], [(m, None)])
        if k == "Return":
            n = self.new("return", s.get("e"), l)
            self.link(cur, n)
            self.succ[n].append((self.exit, None))
            return []
        if k == "Break":
            self.brk[-1] += cur
            return []
        if k == "Continue":
            self.cont[-1] += cur
            return []
        if k == "Decl":
            for d in s["d"]:
                cur = self.simple("decl", d, d.get("l", l), cur)
            return cur
        if k == "Assert":
            if self.asserts == "off" or s.get("e") is None:
                return cur
            n0 = len(self.kind)
            t, f = self.cond(s["e"], cur)
            self.assert_nodes.update(range(n0, len(self.kind)))
            n = self.new("assertfail", s, l)
            self.link(f, n)
            self.succ[n].append((self.abort, None))
            return t
        if k == "Try":
            out = self.stmt(s["b"], cur)
            for h in s["h"]:
                out = out + self.stmt(h, cur)
            return out
        if k == "Label":
            m = self.new("nop", None, l)
            self.link(cur, m)
            self.labels[s["n"]] = m
            return self.stmt(s["b"], [(m, None)])
        if k == "Goto":
            m = self.new("nop", None, l)
            self.link(cur, m)
            self.gotos.append((m, s["n"]))
            return []
        if k == "Bin" and s["op"] == ",":
            return self.stmt(s["y"], self.stmt(s["x"], cur))
        if k == "Cond":
            t, f = self.cond(s["c"], cur)
            return self.stmt(s["x"], t) + self.stmt(s["y"], f)
        if k == "Throw":
            n = self.new("expr", s, l)
            self.link(cur, n)
            self.succ[n].append((self.abort, None))
            return []
        return self.simple("expr", s, l, cur)

    def reachable(self):
        seen, st = {self.entry}, [self.entry]
        while st:
            x = st.pop()
            for t, _ in self.succ[x]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return seen

    def dominators(self):
        """immediate-dominator style sets (small functions): node -> set of dominators"""
        reach = self.reachable()
        order = self.rpo()
        idx = {n: i for i, n in enumerate(order)}
        idom = {self.entry: self.entry}
        changed = True

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = idom[a]
                while idx[b] > idx[a]:
                    b = idom[b]
            return a
        while changed:
            changed = False
            for n in order:
                if n == self.entry:
                    continue
                new = None
                for p, _ in self.pred[n]:
                    if p in idom and p in idx:
                        new = p if new is None else inter(p, new)
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    changed = True
        return idom

    def rpo(self):
        seen, post = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for t, _ in it:
                if t not in seen:
                    seen.add(t)
                    st.append((t, iter(self.succ[t])))
                    break
            else:
                post.append(n)
                st.pop()
        return post[::-1]


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]


class CallGraph:
    def __init__(self, model, asserts=True):
        self.m = model
        self.out = {}   # id -> list of (call node, [target ids])
        self.rin = {}   # id -> list of (caller id, call node)
        for fid, f in model.funcs.items():
            l = []
            for n in func_nodes(f, asserts):
                if n["k"] == "Call":
                    ts = model.targets(n)
                    l.append((n, ts))
                    for t in ts:
                        self.rin.setdefault(t, []).append((fid, n))
                elif n["k"] == "Ctor":
                    l.append((n, [n["f"]]))
                    self.rin.setdefault(n["f"], []).append((fid, n))
            self.out[fid] = l

    def reach(self, ids):
        seen, st = set(ids), list(ids)
        while st:
            x = st.pop()
            for _, ts in self.out.get(x, ()):
                for t in ts:
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
        return seen
