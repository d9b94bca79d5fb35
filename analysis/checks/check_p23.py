"""P23: formatted output is well formed."""
import re
from core import const_int, func_nodes, show, strip
from framework import loc

LEVEL = "other"
TECHNIQUE = "Type check of every printf-style call site: the literal format is parsed and every conversion is matched with the (promoted) static type of its argument."

FMT = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn%])")
SIZE32 = {"int", "unsigned int", "bool", "char", "signed char", "unsigned char", "short", "unsigned short"}
SIZE64 = {"long", "unsigned long", "long long", "unsigned long long"}
FLT = {"double", "float"}


def fmt_args(fmt):
    out, pos = [], 0
    while True:
        i = fmt.find("%", pos)
        if i < 0:
            return out, None
        m = FMT.match(fmt, i)
        if not m:
            return out, "invalid conversion at '%s'" % fmt[i:i + 6]
        if m.group(5) != "%":
            if m.group(2) == "*":
                out.append(("d", ""))
            if m.group(3) == "*":
                out.append(("d", ""))
            out.append((m.group(5), m.group(4) or ""))
        pos = m.end()


def literals(e):
    e2 = e
    while e2 is not None and e2["k"] == "Cast":
        e2 = e2["e"]
    if e2 is None:
        return None
    if e2["k"] == "Str":
        return [e2["v"]]
    if e2["k"] == "Cond":
        a, b = literals(e2["x"]), literals(e2["y"])
        return a + b if a and b else None
    return None


def compatible(conv, ln, t, enums):
    t = t.replace("const ", "").strip()
    if t in enums:
        t = "int"
    if conv in "diouxXc":
        if ln in ("l", "ll", "z", "j", "t"):
            return t in SIZE64
        return t in SIZE32
    if conv in "eEfFgGaA":
        return t == "long double" if ln == "L" else t in FLT
    if conv == "s":
        return bool(re.match(r"^(char|unsigned char|signed char) ?(const)? ?(\*|\[\d*\])$", t))
    if conv in "pn":
        return t.endswith("*") or t.endswith("]") or t == "std::nullptr_t"
    return True


VFMT = {"vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2}


def wrappers(m):
    """variadic functions that hand one of their named parameters to a v*printf as the format: id -> index of the format"""
    res = {}
    for f in m.funcs.values():
        if not f["id"].endswith("z") and not f.get("va"):
            continue
        ids = {p["id"]: k for k, p in enumerate(f["p"])}
        for c in func_nodes(f):
            if c["k"] == "Call" and c.get("fq") in VFMT:
                a = strip(c["a"][VFMT[c["fq"]]])
                if a["k"] == "Ref" and a.get("id") in ids:
                    res[f["id"]] = ids[a["id"]]
    return res


def local_literals(f, e):
    """literals a local const char* variable can hold, or None"""
    e = strip(e)
    if e["k"] != "Ref" or e.get("dk") != "var":
        return None
    out = []
    for x in func_nodes(f):
        if x["k"] == "Var" and x["id"] == e["id"]:
            if "[" in x["t"]:
                return None
            init = x.get("init")
            if init is not None:
                l = literals(init)
                if l is None:
                    return None
                out += l
        if x["k"] == "Bin" and x["op"] == "=" and strip(x["x"])["k"] == "Ref" and strip(x["x"]).get("id") == e["id"]:
            l = literals(x["y"])
            if l is None:
                return None
            out += l
        if x["k"] == "Un" and x["op"] == "&" and strip(x["e"])["k"] == "Ref" and strip(x["e"]).get("id") == e["id"]:
            return None
    return out or None


def run(ctx):
    ctx.rule("format", "number, order and (promoted) type of the variadic arguments match the conversions of the literal format string")
    ctx.rule("data-as-format", "a text that is assembled at run time (buffer, string, parameter) is never itself used as a format string")
    ctx.rule("bounds", "the size passed to snprintf/vsnprintf does not exceed the array that receives the text")
    m = ctx.model()
    enums = {e["q"] for e in m.enums}
    wr = wrappers(m)
    ctx.floor("printf-style wrapper functions", len(wr), 3)
    n = 0
    for f in m.funcs.values():
        for c in func_nodes(f):
            if c["k"] != "Call":
                continue
            fq = c.get("fq") or ""
            if fq in ("snprintf", "vsnprintf"):
                ext = re.search(r"char ?\[(\d+)\]", strip(c["a"][0]).get("t") or "")
                size = const_int(c["a"][1])
                if ext and size is not None:
                    if size > int(ext.group(1)):
                        ctx.bad("bounds", f["q"], "%s: %s" % (f["q"], show(c["a"][0])), "%d bytes may be written to an array of %s" % (size, ext.group(1)), loc(f, c))
                    else:
                        ctx.ok("bounds", f["q"], show(c)[:60])
            if fq in ("printf", "fprintf", "sprintf", "snprintf"):
                k = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2}[fq]
            elif c.get("f") in wr:
                k = wr[c["f"]]
            else:
                continue
            a = c.get("a", [])
            if k >= len(a):
                continue
            n += 1
            ctx.saw(f)
            ls = literals(a[k]) or local_literals(f, a[k])
            rest = a[k + 1:]
            if ls is None:
                e = strip(a[k])
                if not rest and (e["k"] in ("Mem", "Idx") or e["k"] == "Ref" and e.get("dk") in ("var", "parm") or e["k"] == "Call" and (e.get("fq") or "").split("::")[-1] in ("c_str", "data")):
                    ctx.bad("data-as-format", f["q"], "%s <- %s" % (f["q"], show(e)), "the text %s is passed as the format: a '%%' in it reads arguments that were never passed" % show(e), loc(f, c))
                else:
                    ctx.undecided("format", f["q"], "format is not a literal: " + show(c)[:100])
                continue
            good = True
            for s in ls:
                conv, err = fmt_args(s)
                why = err
                if why is None and len(conv) != len(rest):
                    why = "format has %d conversions but %d arguments are passed" % (len(conv), len(rest))
                if why is None:
                    for i, ((cv, ln), x) in enumerate(zip(conv, rest)):
                        t = x.get("t") or ""
                        if not t:
                            continue
                        if not compatible(cv, ln, t, enums):
                            why = "argument %d (%s) has type '%s' but the conversion is %%%s%s" % (i + 1, show(x), t, ln, cv)
                            break
                if why:
                    good = False
                    ctx.bad("format", f["q"], "%s: %s" % (f["q"], s.strip()[:80]), why + " in " + repr(s), loc(f, c))
            if good:
                ctx.ok("format", f["q"], ls[0][:60])
    ctx.floor("formatted output call sites", n, 250)
