"""The option registry, extracted from the source by constant propagation over register_options()."""
from core import walk, strip

REG = {"register_num_option": "num", "register_int_option": "int", "register_str_option": "str"}


class Unknown(Exception):
    pass


class Opt:
    def __init__(self, name, typ, dflt, lo, hi, rng, loc):
        self.name, self.type, self.dflt, self.lo, self.hi, self.rng, self.loc = name, typ, dflt, lo, hi, rng, loc


class Registrar:
    """constant evaluator for the bodies of register_options and of the functions it delegates to"""
    def __init__(self, m):
        self.m, self.opts, self.unknown, self.depth = m, [], [], 0

    def ev(self, e, env):
        if e is None:
            raise Unknown("missing")
        e = strip(e)
        k = e.get("k")
        if k in ("Int", "Flt", "Str", "Bool", "Char"):
            v = e.get("v")
            if k == "Flt":
                return float(v)
            return v
        if k == "Cast":
            v = self.ev(e["e"], env)
            if e.get("t") in ("int", "long", "unsigned int", "unsigned long", "bool") and isinstance(v, float):
                return int(v)
            return v
        if k == "Ref":
            if e.get("id") in env:
                return env[e["id"]]
            if "v" in e:
                return e["v"]
            raise Unknown("variable %s" % e.get("n"))
        if k == "Un":
            v = self.ev(e["e"], env)
            if e["op"] == "-":
                return -v
            if e["op"] == "+":
                return v
            raise Unknown("operator " + e["op"])
        if k == "Bin":
            if e["op"] == "=":
                v = self.ev(e["y"], env)
                c, i = self.place(e["x"], env)
                c[i] = v
                return v
            x, y = self.ev(e["x"], env), self.ev(e["y"], env)
            if isinstance(x, str) or isinstance(y, str):
                raise Unknown("operator")
            if e["op"] == "+":
                return x + y
            if e["op"] == "-":
                return x - y
            if e["op"] == "*":
                return x * y
            if e["op"] == "/" and y:
                return x / y if isinstance(x, float) or isinstance(y, float) else int(x / y)
            raise Unknown("operator " + e["op"])
        if k == "Cond":
            raise Unknown("conditional")
        if k == "InitList":
            return [self.ev(a, env) for a in e["a"]]
        if k == "Ctor":
            t, a = e.get("t", ""), [x for x in e["a"] if "allocator" not in (strip(x).get("t") or "")]
            if "vector" in t:
                if not a:
                    return []
                v = self.ev(a[0], env)
                if isinstance(v, int):
                    return [self.ev(a[1], env) if len(a) > 1 else ""] * v
                if isinstance(v, list):
                    return list(v)
                raise Unknown("vector")
            if not a:
                return "" if "basic_string" in t else [] if "initializer_list" in t else self.bad(t)
            if len(a) == 1:
                return self.ev(a[0], env)
            raise Unknown("construction of " + t)
        if k == "Call":
            return self.call(e, env)
        raise Unknown("expression " + str(k))

    def bad(self, w):
        raise Unknown(w)

    def place(self, e, env):
        """(container, key) of an assignable place"""
        e = strip(e)
        if e.get("k") == "Ref":
            return env, e.get("id")
        if e.get("k") == "Call" and e.get("op") == "[]" or (e.get("fq") or "").endswith("::at"):
            a = ([e["o"]] if e.get("o") else []) + e["a"]
            c, i = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(c, list) and isinstance(i, int) and 0 <= i < len(c):
                return c, i
        raise Unknown("assignment target")

    def call(self, e, env):
        fq = e.get("fq") or ""
        n = fq.split("::")[-1]
        a = ([e["o"]] if e.get("o") and "register" not in n else []) + e["a"]
        if n in REG:
            self.register(e, env)
            return None
        if e.get("op") == "=":
            c, i = self.place(a[0], env)
            v = self.ev(a[1], env)
            c[i] = list(v) if isinstance(v, list) else v
            return c[i]
        if e.get("op") == "[]" or n == "at":
            c, i = self.place(e, env)
            return c[i]
        if n in ("push_back", "emplace_back") and len(a) == 2:
            self.ev(a[0], env).append(self.ev(a[1], env))
            return None
        if n == "front":
            return self.ev(a[0], env)[0]
        if n == "back":
            return self.ev(a[0], env)[-1]
        if n == "size":
            return len(self.ev(a[0], env))
        if n in ("resize", "clear", "reserve"):
            v = self.ev(a[0], env)
            if n == "clear":
                del v[:]
            if n == "resize":
                w = self.ev(a[1], env)
                v[:] = (v + [""] * w)[:w]
            return None
        if "numeric_limits" in fq:
            big = {"max": {"d": 1.7976931348623157e308, "i": 2147483647}, "min": {"d": 2.2250738585072014e-308, "i": -2147483648},
                   "lowest": {"d": -1.7976931348623157e308, "i": -2147483648}, "epsilon": {"d": 2.220446049250313e-16, "i": 0}}
            if n in big and ("double" in fq or "int" in fq):
                return big[n]["d" if "double" in fq else "i"]
        f = self.m.funcs.get(e.get("f"))
        if f is not None and f.get("body") and self.depth < 6 and (f["file"].endswith("hiopOptions.cpp") or f["file"].endswith("hiopOptions.hpp")):
            return self.follow(f, a if not e.get("o") or strip(e["o"]).get("k") == "This" and "register" in n else a[1:] if len(a) == len(f["p"]) + 1 else a, env)
        raise Unknown("call of " + (n or "?"))

    class Ret(Exception):
        pass

    def follow(self, f, args, env):
        if len(args) != len(f["p"]):
            raise Unknown("call of " + f["n"])
        new = {p["id"]: self.ev(a, env) for p, a in zip(f["p"], args)}
        self.depth += 1
        try:
            self.stmt(f["body"], new)
        except Registrar.Ret as r:
            return r.args[0]
        finally:
            self.depth -= 1

    def register(self, e, env):
        t = REG[e["fq"].split("::")[-1]]
        a = e["a"]
        try:
            v = []
            for x in a[:4]:
                try:
                    v.append(self.ev(x, env))
                except Unknown:
                    if not v:
                        raise
                    v.append(None)
        except Unknown as u:
            self.unknown.append((e["l"], "option with a name that is not a constant: %s" % u))
            return
        name = v[0]
        if t == "str":
            rng = v[2] if len(a) == 4 else []
            self.opts.append(Opt(name, t, v[1], None, None, list(rng) if rng is not None else None, e["l"]))
        else:
            self.opts.append(Opt(name, t, v[1], v[2], v[3], None, e["l"]))

    def stmt(self, s, env):
        if s is None:
            return
        k = s.get("k")
        if k == "Block":
            for x in s["b"]:
                self.stmt(x, env)
        elif k == "Decl":
            for d in s["d"]:
                if d.get("k") == "Var":
                    try:
                        if d.get("init") is not None:
                            env[d["id"]] = self.ev(d["init"], env)
                    except Unknown:
                        env.pop(d["id"], None)
                        if any((c.get("fq") or "").split("::")[-1] in REG for c in walk(d["init"])):
                            self.unknown.append((s["l"], "registration inside an initialiser"))
        elif k == "Return":
            raise Registrar.Ret(self.ev(s["e"], env) if s.get("e") else None)
        elif k in ("RangeFor", "ForRange"):
            try:
                seq = self.ev(s["r"], env)
                for v in list(seq):
                    env[s["v"]["id"]] = v
                    self.stmt(s["b"], env)
            except (Unknown, KeyError, TypeError):
                self.skip(s)
        elif k in ("Null", None):
            pass
        elif k in ("If", "For", "While", "Do", "Switch", "Try"):
            self.skip(s)
        else:
            try:
                self.ev(s, env)
            except Unknown as u:
                self.skip(s, u)

    def skip(self, s, why="control flow"):
        for c in walk(s):
            n = (c.get("fq") or "").split("::")[-1]
            f = self.m.funcs.get(c.get("f")) if c.get("k") == "Call" else None
            if n in REG or f is not None and f["file"].endswith("hiopOptions.cpp") and "register" in f["n"]:
                self.unknown.append((c.get("l"), "registration under %s" % why))
                return


def registry(m, cls):
    """(options by name, list of all, unknown, function record)"""
    fs = [f for f in m.funcs.values() if f["n"] == "register_options" and (f.get("cls") or "").split("::")[-1] == cls and f.get("body")]
    if len(fs) != 1:
        return None
    r = Registrar(m)
    try:
        r.stmt(fs[0]["body"], {})
    except Registrar.Ret:
        pass
    return {o.name: o for o in r.opts}, r.opts, r.unknown, fs[0]
