"""P04: options are registered, typed, legal, and have the effect the documentation gives them."""
import optspec
from algcheck import check
from core import walk, strip, show
from framework import loc, parallel
from options import registry

LEVEL = "other"
TECHNIQUE = ("Constant propagation over register_options() yields the table of options (name, type, default, legal values); every access and every comparison in the program is type-checked "
             "against that table; gated value numbering of the setters, of the consistency rules and of the functions that copy options into parameters, normal forms compared with the documentation.")

TYPES = {"GetNumeric": "num", "GetInteger": "int", "GetString": "str", "SetNumericValue": "num", "SetIntegerValue": "int", "SetStringValue": "str", "is_user_defined": None, "set_val": "?"}
NAME = {"num": "numeric", "int": "integer", "str": "string"}
# registered but not read by the code that this build compiles (CUDA, Ginkgo, ReSolve and AXOM parts) or only by the option machinery
IDLE = optspec.IDLE


def literal(e):
    e = strip(e)
    while e.get("k") == "Ctor" and "basic_string" in (e.get("t") or "") and e["a"]:
        e = strip(e["a"][0])
    if e.get("k") == "Call" and (e.get("fq") or "").endswith("::c_str"):
        return literal(e["o"])
    return e["v"] if e.get("k") == "Str" else None


def assigned(body, vid):
    n = 0
    for x in walk(body):
        if x.get("k") == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            n += strip(x["x"]).get("id") == vid
        elif x.get("k") == "Call" and x.get("op") in ("=", "+=") and x["a"]:
            n += strip(x["a"][0]).get("id") == vid and strip(x["a"][0]).get("k") == "Ref"
    return n


def name_of(body, a):
    """the literal an argument denotes, directly or through a local that is initialised once"""
    v = literal(a)
    if v is not None:
        return v
    e = strip(a)
    if e.get("k") == "Call" and (e.get("fq") or "").endswith("::c_str"):
        e = strip(e["o"])
    if e.get("k") == "Ref" and e.get("dk") == "var":
        d = [x for x in walk(body) if x.get("k") == "Var" and x.get("id") == e.get("id") and x.get("init") is not None]
        if len(d) == 1 and not assigned(body, e["id"]):
            return literal(d[0]["init"])
    return None


def source(body, e, depth=0):
    """the GetString call whose value the expression is, possibly lower-cased or held in a local"""
    e = strip(e)
    if e.get("k") == "Ctor" and e["a"] and "basic_string" in (e.get("t") or ""):
        return source(body, e["a"][0], depth)
    if e.get("k") == "Call":
        n = (e.get("fq") or "").split("::")[-1]
        if n == "GetString":
            return e
        if n == "tolower" and len(e["a"]) == 1:
            return source(body, e["a"][0], depth)
    if e.get("k") == "Ref" and e.get("dk") == "var" and depth < 2:
        d = [x for x in walk(body) if x.get("k") == "Var" and x.get("id") == e.get("id") and x.get("init") is not None]
        if len(d) == 1 and not assigned(body, e["id"]):
            return source(body, d[0]["init"], depth + 1)
    return None


def run(ctx):
    m = ctx.model()
    ctx.rule("registry", "Every option is registered once, with a default among its legal values, bounds in order, and legal string values that the (lower-casing) setter can install")
    ctx.rule("access", "Every read or write of an option by name names a registered option and uses its type")
    ctx.rule("legal", "Every comparison of a string option with a constant and every value installed internally is a legal value of that option")
    ctx.rule("read", "Every option is consulted by the program")
    ctx.rule("effect", "Setting an option, making the options consistent and copying them into the parameters of the algorithms have exactly the documented effect")
    tab, n = {}, 0
    for key, cls in (("nlp", "hiopOptionsNLP"), ("pridec", "hiopOptionsPriDec")):
        r = registry(m, cls)
        if r is None:
            ctx.floor("register_options of " + cls, 0, 1)
        byname, opts, unknown, f = r
        ctx.saw(f)
        for l, why in unknown:
            ctx.undecided("registry", "%s:%s" % (loc(f).split(":")[0], l), why)
        tab[key] = (byname, not unknown)
        seen = set()
        for o in opts:
            n += 1
            w, at = "%s: option '%s'" % (cls, o.name), "%s:%s" % (loc(f).split(":")[0], o.loc)
            errs = []
            if o.name in seen:
                errs.append("is registered twice")
            seen.add(o.name)
            if o.type == "str":
                if o.rng:
                    errs += ["legal value '%s' contains upper-case letters: the setter lower-cases values, it can never be installed" % v for v in o.rng if v != v.lower()]
                    if o.dflt is not None and o.dflt not in o.rng:
                        errs.append("default '%s' is not a legal value (%s)" % (o.dflt, ", ".join(o.rng)))
                    if len(set(o.rng)) != len(o.rng):
                        errs.append("legal value listed twice (or left empty)")
                    if "" in o.rng:
                        errs.append("legal value left empty")
            else:
                if None not in (o.lo, o.hi) and not o.lo <= o.hi:
                    errs.append("bounds [%g, %g] are empty" % (o.lo, o.hi))
                elif None not in (o.lo, o.hi, o.dflt) and not o.lo <= o.dflt <= o.hi:
                    errs.append("default %g is outside the legal range [%g, %g]" % (o.dflt, o.lo, o.hi))
            for x in errs:
                ctx.bad("registry", w, "%s %s: %s" % (cls, o.name, x.split(" '")[0].split(" [")[0]), "%s %s" % (w, x), at)
            if not errs:
                ctx.ok("registry", w, "%s, default %s, legal %s" % (NAME[o.type], o.dflt, o.rng if o.type == "str" else [o.lo, o.hi]))
    ctx.floor("registered options", n, 60)

    mentioned = set()
    nacc = ncmp = 0
    for f in m.funcs.values():
        if not f.get("body") or "/Drivers/" in f["file"]:
            continue
        for x in walk(f["body"]):
            if x.get("k") == "Str" and not f["file"].endswith("hiopOptions.cpp"):
                mentioned.add(x["v"])
            if x.get("k") != "Call":
                continue
            fq = x.get("fq") or ""
            nm = fq.split("::")[-1]
            if nm in TYPES and "hiopOptions" in fq and x["a"]:
                opt = name_of(f["body"], x["a"][0])
                if opt is None:
                    continue
                nacc += 1
                ctx.saw(f)
                tabs = tables(f, x, tab)
                t = TYPES[nm]
                if t == "?":
                    pt = " ".join(x.get("pt") or [])
                    t = "num" if "double" in pt else "int" if "int" in pt else "str"
                w = "%s: %s(\"%s\")" % (f["q"], nm, opt)
                hit = [tt[opt] for tt, _ in tabs if opt in tt]
                if not hit:
                    if all(c for _, c in tabs):
                        ctx.bad("access", w, "%s %s" % (f["q"], opt), "%s: no option of this name is registered" % w, loc(f, x))
                    else:
                        ctx.undecided("access", w, "the table of options is not fully known")
                    continue
                if t is not None and not any(o.type == t for o in hit):
                    ctx.bad("access", w, "%s %s type" % (f["q"], opt), "%s: the option is registered as %s" % (w, NAME[hit[0].type]), loc(f, x))
                    continue
                ctx.ok("access", w)
                if nm in ("set_val", "SetStringValue") and t == "str" and len(x["a"]) > 1:
                    v = literal(x["a"][1])
                    ncmp += judge(ctx, f, x, opt, v, hit, w, v is not None and v.lower() or v)
                elif nm in ("set_val", "SetNumericValue", "SetIntegerValue") and t in ("num", "int") and len(x["a"]) > 1:
                    c = strip(x["a"][1])
                    neg = c.get("k") == "Un" and c.get("op") == "-"
                    c = strip(c["e"]) if neg else c
                    if c.get("k") in ("Int", "Flt"):
                        v = float(c["v"]) * (-1 if neg else 1)
                        ncmp += 1
                        if not any(None in (o.lo, o.hi) or o.lo <= v <= o.hi for o in hit):
                            ctx.bad("legal", w, "%s %s value" % (f["q"], opt), "%s installs %g, outside [%g, %g]" % (w, v, hit[0].lo, hit[0].hi), loc(f, x))
                        else:
                            ctx.ok("legal", w)
            if fq.startswith("std::") and (x.get("op") in ("==", "!=") and len(x["a"]) == 2 or nm == "compare" and x.get("o")):
                ab = x["a"] if nm != "compare" else [x["o"]] + x["a"]
                for a, b in ((ab[0], ab[1]), (ab[1], ab[0])):
                    v, g = literal(b), source(f["body"], a)
                    if v is None or g is None:
                        continue
                    opt = name_of(f["body"], g["a"][0])
                    if opt is None:
                        continue
                    hit = [tt[opt] for tt, _ in tables(f, g, tab) if opt in tt]
                    if hit:
                        ncmp += judge(ctx, f, x, opt, v, hit, "%s: '%s' compared with \"%s\"" % (f["q"], opt, v), v)
    ctx.floor("accesses to options", nacc, 80)
    ctx.floor("comparisons and installed values", ncmp, 40)
    for key in tab:
        for o in tab[key][0].values():
            w = "option '%s'" % o.name
            if o.name in mentioned:
                ctx.ok("read", w)
            elif o.name in IDLE:
                ctx.ok("read", w, "not consulted in this build configuration")
            else:
                ctx.bad("read", w, "%s %s" % (key, o.name), "option '%s' (%s) is registered and never consulted: setting it has no effect" % (o.name, key), "src/Utils/hiopOptions.cpp:%s" % o.loc)
    fromfile(ctx, m)
    k = sum(parallel(ctx, optspec.P04 + [optspec.frspec(m)], lambda sp: check(ctx, m, sp, "effect")))
    ctx.floor("functions that set or apply options", k, optspec.FLOOR)


def fromfile(ctx, m):
    """what is read from an options file is installed as coming from the file, through the setter of each type"""
    root = [f for f in m.funcs.values() if f.get("body") and f["q"].endswith("hiopOptions::load_from_file")]
    seen, todo, used = set(), list(root), set()
    unclear = False
    while todo:
        f = todo.pop()
        if f["id"] in seen:
            continue
        seen.add(f["id"])
        ctx.saw(f)
        for x in walk(f["body"]):
            if x.get("k") == "Lambda":
                unclear = True
            if x.get("k") != "Call":
                continue
            nm = (x.get("fq") or "").split("::")[-1]
            if nm in ("SetNumericValue", "SetIntegerValue", "SetStringValue") and "hiopOptions" in x["fq"]:
                used.add(nm)
                a = strip(x["a"][2]) if len(x["a"]) > 2 else {}
                w = "%s: %s from the options file" % (f["q"], nm)
                if a.get("k") == "Bool":
                    if a["v"]:
                        ctx.ok("effect", w)
                    else:
                        ctx.bad("effect", w, "%s %s file" % (f["q"], nm), "%s: the value is installed as if set at run time, so it does not override settings from the code" % w, loc(f, x))
                elif a:
                    ctx.undecided("effect", w, "flag is not a constant")
            else:
                for g in m.funcs.values():
                    if g["id"] == x.get("f") and g.get("body") and "hiopOptions" in g["q"]:
                        todo.append(g)
    if root:
        for nm in ("SetNumericValue", "SetIntegerValue", "SetStringValue"):
            w = "options file: values of options are installed with %s" % nm
            if nm in used:
                ctx.ok("effect", w)
            elif unclear or not used:
                ctx.undecided("effect", w, "not seen")
            else:
                ctx.bad("effect", w, "load_from_file " + nm, "%s: never called, options of that type in the file are lost" % w, loc(root[0]))


def judge(ctx, f, x, opt, v, hit, w, cmpv):
    if v is None:
        return 0
    if any(o.type == "str" and (not o.rng or cmpv in o.rng) for o in hit):
        ctx.ok("legal", w)
    elif any(o.type == "str" and o.rng is None for o in hit):
        ctx.undecided("legal", w, "legal values unknown")
    elif all(o.name in optspec.BUILD and cmpv in optspec.BUILD[o.name] for o in hit):
        ctx.ok("legal", w, "legal in other build configurations")
    else:
        ctx.bad("legal", w, "%s %s %s" % (f["q"], opt, v), "%s: not a legal value (%s)" % (w, ", ".join(hit[0].rng or [])), loc(f, x))
    return 1


def tables(f, call, tab):
    cls = (f.get("cls") or "").split("::")[-1]
    o = strip(call.get("o") or {"k": "This"})
    if o.get("k") == "This":
        return [tab["nlp"]] if cls == "hiopOptionsNLP" else [tab["pridec"]] if cls == "hiopOptionsPriDec" else list(tab.values())
    fld = o.get("n") if o.get("k") == "Mem" else None
    if fld == "options":
        return [tab["nlp"]]
    if fld == "options_" and cls == "hiopAlgPrimalDecomposition":
        return [tab["pridec"]]
    return list(tab.values())
