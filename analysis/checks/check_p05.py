"""P05: ranks of a distributed run stay together: collectives are reached by all, messages match."""
import hashlib
import re

from core import walk, strip, show, const_int
from framework import loc
from spmd import Spmd, COLL, key

LEVEL = "other"
TECHNIQUE = ("Rank-dependence analysis: interprocedural taint with implicit flows from the rank and the local parts of distributed data; no collective operation (of MPI, or a function that performs one, or an "
             "evaluation by the user's problem) under, or after a conditional exit under, a tainted condition. Typed lint of every MPI call (datatype, extent, aliasing, lifetime of buffers, matching of messages by tag).")

# call -> ((buffer, count, datatype) positions...)
BUFS = {"MPI_Allreduce": ((0, 2, 3), (1, 2, 3)), "MPI_Reduce": ((0, 2, 3), (1, 2, 3)), "MPI_Bcast": ((0, 1, 2),), "MPI_Allgather": ((0, 1, 2), (3, None, 5)), "MPI_Gather": ((0, 1, 2), (3, None, 5)),
        "MPI_Send": ((0, 1, 2),), "MPI_Recv": ((0, 1, 2),), "MPI_Isend": ((0, 1, 2),), "MPI_Irecv": ((0, 1, 2),)}
DT = {"double": ("double",), "int": ("int",), "float": ("float",), "long_long_int": ("long long",), "long_long": ("long long",), "long": ("long",), "unsigned": ("unsigned int",), "char": ("char",), "cxx_bool": ("bool",),
      "unsigned_long": ("unsigned long",), "short": ("short",), "byte": None, "c_bool": ("bool",), "uint64_t": ("unsigned long",), "int64_t": ("long",), "int32_t": ("int",)}
SEND, RECV = ("MPI_Send", "MPI_Isend"), ("MPI_Recv", "MPI_Irecv")


def datatype(e):
    for x in walk(e):
        m = re.match(r"ompi_mpi_(\w+)$", x.get("n") or "") if x.get("k") == "Ref" else None
        if m:
            return m.group(1)
    return None


def element(e):
    """(element type, extent or None) of the storage a buffer argument designates"""
    e = strip(e)
    t = e.get("t") or ""
    if e.get("k") == "Un" and e["op"] == "&":
        x = strip(e["e"])
        t = x.get("t") or ""
        if x.get("k") == "Idx":
            return norm(t), None
        m = re.match(r"(.*?)\s*\[([^\]]*)\]$", t)
        return (norm(m.group(1)), None) if m else (norm(t), 1)
    m = re.match(r"(.*?)\s*\[([^\]]*)\]$", t)
    if m:
        return norm(m.group(1)), int(m.group(2)) if m.group(2).isdigit() else None
    if t.replace("const", "").strip().endswith("*"):
        return norm(t.replace("const", "").strip()[:-1]), None
    return None, None


def norm(t):
    return re.sub(r"\bconst\b|&", "", t).strip()


def automatic(f, e):
    """the local variable whose storage the expression designates"""
    e = strip(e)
    if e.get("k") == "Un" and e["op"] == "&":
        e = strip(e["e"])
        while e.get("k") == "Idx" or e.get("k") == "Mem" and not e.get("ar"):
            e = strip(e["b"])
    elif not re.search(r"\[[^\]]*\]$", e.get("t") or ""):
        return None
    if e.get("k") != "Ref" or e.get("dk") not in ("var", "parm"):
        return None
    if e.get("dk") == "parm":
        t = [p["t"] for p in f["p"] if p.get("id") == e["id"]]
        return e["n"] if t and not t[0].rstrip().endswith(("&", "*")) else None
    for x in walk(f["body"]):
        if x.get("k") == "Var" and x.get("id") == e["id"]:
            return None if x["t"].rstrip().endswith("&") or x.get("static") else e["n"]
    return None


def value(f, e, depth=0):
    """number that identifies a count: equal expressions over members, parameters and once-initialised locals have equal numbers"""
    e = strip(e)
    c = const_int(e)
    if c is not None:
        return c
    k = e.get("k")
    if k == "Bin" and e["op"] in ("+", "-", "*"):
        x, y = value(f, e["x"], depth), value(f, e["y"], depth)
        return None if x is None or y is None else {"+": x + y, "-": x - y, "*": x * y}[e["op"]]
    if k == "Mem" and e["b"].get("k") == "This":
        return int.from_bytes(hashlib.sha1(e["q"].encode()).digest()[:6], "big")
    if k == "Ref" and e.get("dk") == "var" and depth < 4:
        d = [x for x in walk(f["body"]) if x.get("k") == "Var" and x.get("id") == e["id"] and x.get("init") is not None]
        if len(d) == 1 and not any(x.get("k") == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and strip(x["x"]).get("id") == e["id"] or
                                   x.get("k") == "Un" and x["op"] in ("++", "--", "p++", "p--", "&") and strip(x["e"]).get("id") == e["id"] for x in walk(f["body"])):
            return value(f, d[0]["init"], depth + 1)
    return None


def differ(a, b):
    """message kinds that definitely do not match any of the others"""
    return sorted({x for x in a if not any(all(p is None or q is None or p == q for p, q in zip(x, y)) for y in b)}, key=str)


def run(ctx):
    m = ctx.model()
    ctx.rule("collective", "No collective operation is executed, or skipped, under a condition that may differ between ranks; counts and roots are the same on all ranks")
    ctx.rule("buffer", "The buffers of every MPI call have the datatype and at least the extent the call says, do not coincide, and outlive the call")
    ctx.rule("result", "The result of every reduction or gathering is used")
    ctx.rule("message", "Messages sent and received by the same code agree in tag, datatype and count")
    S = Spmd(m)
    n = 0
    for f in S.funcs.values():
        if "/Drivers/" in f["file"]:
            continue
        bad, good = S.judge(f)
        if bad or good:
            ctx.saw(f)
        for e, fq in good:
            n += 1
            ctx.ok("collective", "%s: %s" % (f["q"], fq))
        seen = set()
        for e, fq, (c, how) in bad:
            if how in ("count", "root"):
                msg = "%s: the %s of %s, '%s', may differ between ranks" % (f["q"], how, fq, show(c))
            else:
                msg = "%s: %s is not reached by all ranks together: %s '%s', which may differ between ranks" % (
                    f["q"], fq, {"cond": "it is executed under", "loop": "it is repeated depending on", "exit": "the function returned before depending on", "skip": "the loop was left or continued depending on"}[how], show(c))
            k = "%s %s" % (f["q"], fq)
            if k not in seen:
                seen.add(k)
                ctx.bad("collective", "%s: %s" % (f["q"], fq), k, msg, loc(f, e))
    ctx.floor("collective operations and calls that perform them", n, 150)
    n = 0
    reqs = {}
    for f in S.funcs.values():
        if "/Drivers/" in f["file"]:
            continue
        for x in walk(f["body"]):
            fq = x.get("fq") or "" if x.get("k") == "Call" else ""
            if fq not in BUFS:
                continue
            n += 1
            ctx.saw(f)
            w = "%s: %s" % (f["q"], fq)
            a = x["a"]
            errs, und = [], []
            for b, c, d in BUFS[fq]:
                dt, (ty, ext) = datatype(a[d]), element(a[b])
                if strip(a[b]).get("k") in ("Int", "Null") or "in_place" in show(a[b]).lower():
                    continue
                if dt is None or dt not in DT or DT[dt] is None or ty is None or ty == "void":
                    und.append("datatype of '%s'" % show(a[b]))
                elif ty not in DT[dt] and not (ty.startswith("hiop") or "std::" in ty):
                    errs.append("'%s' has elements of type %s and is passed as MPI %s" % (show(a[b]), ty, dt))
                cnt = const_int(a[c]) if c is not None else None
                if isinstance(cnt, int) and ext is not None and cnt > ext:
                    errs.append("%d elements of '%s', which has %d" % (cnt, show(a[b]), ext))
            if len(BUFS[fq]) == 2:
                s, r = a[BUFS[fq][0][0]], a[BUFS[fq][1][0]]
                if key(s) is not None and show(strip(s)) == show(strip(r)):
                    errs.append("send and receive buffer are the same, '%s'" % show(s))
            if fq in ("MPI_Isend", "MPI_Irecv"):
                v = automatic(f, a[0])
                waits = any(y.get("k") == "Call" and (y.get("fq") or "").startswith(("MPI_Wait", "MPI_Test")) for y in walk(f["body"]))
                if v and not waits:
                    errs.append("the local variable '%s' is the buffer of an operation that completes after the function returned" % v)
                reqs.setdefault(f.get("cls") or f["q"], []).append((f, x, fq, datatype(a[2]), value(f, a[1]), a[4], a[3]))
            for t in errs:
                ctx.bad("buffer", w, "%s %s" % (w, t.split("'")[1] if "'" in t else t), "%s: %s" % (w, t), loc(f, x))
            for t in und:
                ctx.undecided("buffer", w, t)
            if not errs and not und:
                ctx.ok("buffer", w)
            if fq in ("MPI_Allreduce", "MPI_Allgather", "MPI_Recv") and not errs:
                r = strip(a[BUFS[fq][-1][0]])
                while r.get("k") in ("Un", "Idx", "Bin"):
                    r = strip(r.get("e") or r.get("b") or r.get("x"))
                if r.get("k") == "Ref" and r.get("dk") == "var":
                    uses = sum(1 for y in walk(f["body"]) if y.get("k") == "Ref" and y.get("id") == r["id"] and y.get("dk") == "var") - sum(1 for y in walk(x) if y.get("k") == "Ref" and y.get("id") == r["id"] and y.get("dk") == "var")
                    writes = sum(1 for y in walk(f["body"]) if y.get("k") == "Bin" and y["op"] == "=" and strip(y["x"]).get("id") == r["id"] and strip(y["x"]).get("k") == "Ref")
                    if uses - writes <= 0:
                        ctx.bad("result", w, w + " " + r["n"], "%s: the result '%s' is never used: every rank goes on with its own part" % (w, r["n"]), loc(f, x))
                    else:
                        ctx.ok("result", w)
    ctx.floor("MPI calls with buffers", n, 35)
    messages(ctx, m, S, reqs)


def messages(ctx, m, S, reqs):
    posts = {}
    for cls, l in reqs.items():
        snd = {(d, c) for _, _, q, d, c, _, _ in l if q in SEND}
        rcv = {(d, c) for _, _, q, d, c, _, _ in l if q in RECV}
        w = "%s: messages" % cls
        d1, d2 = differ(snd, rcv), differ(rcv, snd)
        if not d1 + d2:
            ctx.ok("message", w, "%d kinds" % len(snd))
        elif snd and rcv:
            f, x = l[0][0], l[0][1]
            for d in d1 + d2:
                ctx.bad("message", w, "%s %s" % (cls, d[0]), "%s: MPI %s messages of this class are %s with that count and type" % (cls, d[0], "sent and never received" if d in d1 else "received and never sent"), loc(f, x))
        for f, x, q, d, c, tag, peer in l:
            t = strip(tag)
            i = [k for k, p in enumerate(f["p"]) if p.get("id") == t.get("id")] if t.get("k") == "Ref" else []
            if i:
                posts[f["id"]] = (i[0], q in SEND, d, c)
    for f in S.funcs.values():
        if "/Drivers/" in f["file"] or f["id"] in posts:
            continue
        snd, rcv, unknown, at = set(), set(), False, None
        for x in walk(f["body"]):
            if x.get("k") != "Call":
                continue
            fq = x.get("fq") or ""
            if fq in SEND + RECV:
                v = (const_int(x["a"][4]), datatype(x["a"][2]), value(f, x["a"][1]))
                unknown |= v[0] is None
                (snd if fq in SEND else rcv).add(v)
                at = at or x
            elif x.get("f") in posts:
                i, s, d, c = posts[x["f"]]
                v = (const_int(x["a"][i]), d, c)
                unknown |= v[0] is None
                (snd if s else rcv).add(v)
                at = at or x
        if at is None:
            continue
        w = "%s: messages by tag" % f["q"]
        if unknown or not snd or not rcv:
            ctx.undecided("message", w, "a tag is not constant" if unknown else "only one side of the exchange is here")
        elif not differ(snd, rcv) + differ(rcv, snd):
            ctx.ok("message", w, "%d kinds" % len(snd))
        else:
            d1 = differ(snd, rcv)
            for v in d1 + differ(rcv, snd):
                ctx.bad("message", w, "%s tag %s %s" % (f["q"], v[0], v[1]), "%s: MPI %s messages with tag %s are %s with that count and type" % (
                    f["q"], v[1], v[0], "sent and never received" if v in d1 else "received and never sent"), loc(f, at))
