"""P03: assertions and self-checks are free of side effects."""
from collections import Counter
from core import walk, func_nodes, show, strip_soft
from effects import Effects, is_assign, is_incdec
from framework import loc

LEVEL = "other"
TECHNIQUE = ("Effect analysis (greatest-fixpoint purity over the call graph) of every asserted expression, plus a structural comparison of the type-checked "
             "program under the build configurations asserts on/off and deep checks on/off: the effects of each function must coincide.")


def run(ctx):
    m = ctx.model()
    ctx.rule("assert-pure", "an asserted expression performs no assignment, update, allocation, or call that writes non-local state")
    ctx.rule("deepcheck-neutral", "code compiled only with HIOP_DEEPCHECKS has no effect (write, impure call, return, deletion) on what the rest of the program sees")
    ctx.rule("ndebug-neutral", "code compiled only without NDEBUG has no effect (write, impure call, return, deletion) on what the rest of the program sees")
    ef = Effects(m)
    n = 0
    for f in m.funcs.values():
        for x in func_nodes(f):
            if x["k"] == "Assert" and x.get("e"):
                n += 1
                ctx.saw(f)
                w = ef.expr_effects(x["e"], f)
                if w:
                    ctx.bad("assert-pure", f["q"], "%s: %s" % (f["q"], show(x)), "the assertion has a side effect that disappears with NDEBUG: " + "; ".join(w), loc(f, x))
                else:
                    ctx.ok("assert-pure", f["q"], show(x)[:100])
    ctx.floor("assertions", n, 700)

    for rule, kw in (("deepcheck-neutral", {"deepchecks": False}), ("ndebug-neutral", {"ndebug": True})):
        m2 = ctx.model(**kw)
        ef2 = Effects(m2)
        ref1, ref2 = fields_read(m), fields_read(m2)
        only1, only2 = ref1 - ref2, ref2 - ref1      # storage that exists only for one configuration's checks
        diffs = 0
        for fid, f in m.funcs.items():
            g = m2.funcs.get(fid)
            if g is None:
                continue        # reached only from checking code: judged through its callers
            diffs += 1
            a, b = effects_of(f, m, ef), effects_of(g, m2, ef2)
            la, lb = local_names(f), local_names(g)
            ex = [(t, n, f, m, ef, only1, set(la) - set(lb)) for t, n in minus(a, b)] + [(t, n, g, m2, ef2, only2, set(lb) - set(la)) for t, n in minus(b, a)]
            if ex:
                ctx.saw(f)
            bad = False
            for t, n, ff, mm, ee, K, KL in ex:
                v = judge(n, ff, mm, ee, K, KL)
                if v == "bad":
                    bad = True
                    ctx.bad(rule, f["q"], "%s: %s" % (f["q"], t), "effect present in only one build configuration: %s" % t, loc(f, n))
                elif v == "unknown":
                    bad = True
                    ctx.undecided(rule, f["q"], t)
            if not bad:
                ctx.ok(rule, f["q"], "%d effects, %d only in checking code and confined to it" % (len(a), len(ex)))
        ctx.floor("functions compared (%s)" % rule, diffs, 1000)


SEED_FN = "generate_seed"      # the seed of the randomized regularization is documented to differ between builds


def fields_read(m):
    res = set()
    for f in m.funcs.values():
        wr = set()
        for n in func_nodes(f, asserts=False):
            if n["k"] == "Bin" and n["op"] == "=" and n["x"]["k"] == "Mem":
                wr.add(id(n["x"]))
            elif n["k"] == "Delete":
                wr.add(id(strip_soft(n["e"])))
        for n in func_nodes(f, asserts=False):
            if n["k"] == "Mem" and id(n) not in wr:
                res.add(n.get("q") or n["n"])
    return res


def local_names(f):
    d = {}
    for n in func_nodes(f, asserts=False):
        if n["k"] == "Var":
            d[n["n"]] = n
    return d


def effects_of(f, m, ef):
    if f["q"].split("::")[-1] == SEED_FN:
        return []
    out = []
    for n in func_nodes(f, asserts=False):
        k = n["k"]
        if is_assign(n) or is_incdec(n):
            out.append(("write " + show(n), n))
        elif k == "Call":
            if ef.call_effect(n) and not is_log(n):
                out.append(("call " + show(n), n))
        elif k == "Delete":
            out.append((show(n), n))
        elif k == "Return":
            out.append(("return " + show(n.get("e")), n))
    return out


def minus(a, b):
    cb = Counter(t for t, _ in b)
    res = []
    for t, n in a:
        if cb[t] > 0:
            cb[t] -= 1
        else:
            res.append((t, n))
    return res


def confined(e, f, K, KL, depth=0):
    """does the lvalue/object expression denote checking-only storage?"""
    r = strip_soft(e)
    while r is not None and r["k"] in ("Un", "Idx", "Cast") or r is not None and r["k"] == "Mem" and (r.get("q") or r["n"]) not in K:
        r = strip_soft(r["e"] if r["k"] in ("Un", "Cast") else r["b"])
        if r is None:
            return False
    if r is None:
        return False
    if r["k"] == "Mem":
        return True
    if r["k"] == "Ref" and r.get("dk") == "var":
        v = next((n for n in func_nodes(f) if n["k"] == "Var" and n["id"] == r["id"]), None)
        if r["n"] in KL:
            # a checking-only alias of real storage is not confined
            if v is not None and v.get("init") is not None and depth < 4:
                i = v["init"]
                while i["k"] == "Cast":
                    i = i["e"]
                if (v["t"].endswith(("&", "*"))) and i["k"] in ("Ref", "Mem", "Un"):
                    return confined(i, f, K, KL, depth + 1)
            return True
        # a plain local scalar whose every other use is in checking code or logging
        return v is not None and not v["t"].endswith(("&", "*")) and "LOCAL"
    return False


def judge(n, f, m, ef, K, KL):
    k = n["k"]
    if is_assign(n) or is_incdec(n):
        c = confined(n["x"] if is_assign(n) else n["e"], f, K, KL)
        if c is True:
            return "ok"
        if c == "LOCAL":
            r = strip_soft(n["x"] if is_assign(n) else n["e"])
            # only read by logging, asserts or itself?
            for x in func_nodes(f, asserts=False):
                if x["k"] in ("Return", "If", "While", "For", "Do") and k != "For":
                    e = x.get("e") or x.get("c")
                    if e is not None and x["k"] != "For" and any(y["k"] == "Ref" and y.get("id") == r.get("id") for y in walk(e, False)):
                        if x["k"] == "If" and r["n"] not in KL:
                            return "unknown"
                        return "bad" if r["n"] not in KL else "ok"
            return "unknown" if r["k"] != "Ref" else "ok"
        return "bad"
    if k == "Delete":
        return "ok" if confined(n["e"], f, K, KL) is True else "bad"
    if k == "Return":
        return "bad"
    if k == "Call":
        fq = n.get("fq") or ""
        base = fq.split("::")[-1]
        if base.startswith(("error", "solveError")) or base in ("new_copy", "alloc_clone", "write"):
            return "ok"
        if "runStats" in show(n.get("o")) if n.get("o") is not None else False:
            return "ok"
        if n.get("cst") is not True and n.get("o") is not None:
            tg = [t for t in m.targets(n) if t in m.funcs]
            if confined(n["o"], f, K, KL) is not True and (not tg or any(ef.writes_this(t) for t in tg)):
                return "bad"
        for a, t in zip(n.get("a", ()), n.get("pt", ())):
            if (t.endswith("&") and not t.startswith("const ")) or (t.endswith("*") and not t.startswith("const ")):
                if confined(a, f, K, KL) is False and const_arg(a) is None:
                    return "bad"
        return "ok"
    return "unknown"


def const_arg(a):
    from core import const_int
    return const_int(a)


def is_log(n):
    fq = n.get("fq") or ""
    return fq.startswith("hiop::hiopLogger::") or fq in ("printf", "fprintf", "fflush")
