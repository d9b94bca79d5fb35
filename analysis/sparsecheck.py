"""Obligations of the sparse and mixed matrices against sparsespec.OPS."""
from core import *
from framework import loc
import term as T
from term import *
from vn import *
import sparsespec
from sparsespec import KS, SP, SY, MDS, SMDS
from veccheck import frame

SD = {"hiop::hiopMatrixDense": "hiop::hiopMatrixDenseRowMajor", "hiop::hiopVector": "hiop::hiopVectorPar", "hiop::hiopVectorInt": "hiop::hiopVectorIntSeq",
      "hiop::hiopMatrixSparse": SP}


def kind(t):
    t = t.strip()
    b = t.replace("const ", "").replace("&", "").replace("*", "").strip()
    if b.endswith("const"):
        b = b[:-5].strip()
    c = "const" in t.split("*")[0].split("&")[0]
    for w, l in (("hiopVectorInt", "I"), ("hiopVector", "V"), ("hiopMatrixDense", "D"), ("MDS", "X"), ("hiopMatrixS", "E"), ("hiopMatrix", "M")):
        if w in b:
            return l.lower() if c else l
    if t.rstrip().endswith("*"):
        l = "Q" if "int" in b or "index" in b or "size" in b else "P"
        return l.lower() if c else l
    return "s"


def signature(f):
    return "".join(kind(p["t"]) for p in f["p"])


def matches(o, f):
    s = signature(f)
    return o["name"] == f["n"] and len(s) == len(o["kinds"]) and all(a == b or a in "Mm" and b.lower() in "edx" or a == "M" and b == "e" for a, b in zip(s, o["kinds"]))


def find(o, m):
    return [m.funcs[me["id"]] for me in m.classes[o["cls"]]["methods"] if m.funcs.get(me["id"], {}).get("body") and matches(o, m.funcs[me["id"]])]


def onerank(p):
    """mixed and sparse matrices are not distributed: the reduction over the ranks of their dense part is over one rank"""
    def f(a):
        kd, ar = T.INFO[a]
        return T.mapatoms(ar[1], f, lambda d: True) if kd == "allreduce" else None
    return T.mapatoms(p, f, lambda d: True)


def check_op(ctx, m, o, f, rule):
    ctx.saw(f)
    cls, kinds = o["cls"], o["kinds"]
    where, key = f["q"], "%s(%s)" % (f["n"], kinds)
    this = ("this",)
    T.LAY.clear()
    dyn = {this: cls}
    for i, c in enumerate(kinds):
        b = ("a%d" % i,)
        if c in "eE":
            dyn[b] = SP
        elif c in "dD":
            dyn[b] = "hiop::hiopMatrixDenseRowMajor"
        elif c in "xX":
            dyn[b] = cls
    for b, c in list(dyn.items()):
        if c in (MDS, SMDS):
            dyn[b + ("mSp",)] = SP if c == MDS else SY
            dyn[b + ("mDe",)] = "hiop::hiopMatrixDenseRowMajor"
    vn = VN(m, dyncls=dyn, statdyn=SD)
    E = vn.eqmap

    def res(l):
        n = 0
        while l in E and n < 20:
            p = E[l]
            a = p.single()
            if a is None or T.INFO[a][0] != "in":
                return p
            l = T.INFO[a][1][0]
            n += 1
        return T.inp(l, "int")
    k = KS(kinds, res)
    sparse = [b for b, c in dyn.items() if c in (SP, SY)]
    densem = [b for b, c in dyn.items() if c == "hiop::hiopMatrixDenseRowMajor"]
    if o.get("square"):
        E[this + ("ncols_",)] = res(this + ("nrows_",))
    for b, c in dyn.items():
        if c in (MDS, SMDS):
            E[b + ("mDe", "m_local_")] = res(b + ("mSp", "nrows_")) if c == MDS else res(b + ("mDe", "n_local_"))
            if c == SMDS:
                E[b + ("mSp", "ncols_")] = res(b + ("mSp", "nrows_"))
    for i in o.get("same") or ():
        for n in ("nrows_", "ncols_", "nnz_"):
            E[("a%d" % i, n)] = res(this + (n,))
        for n in ("m_local_", "n_local_"):
            E[("a%d" % i, "mDe", n)] = res(this + ("mDe", n))
        for n in ("nrows_", "ncols_", "nnz_"):
            E[("a%d" % i, "mSp", n)] = res(this + ("mSp", n))
    if o.get("eqx"):
        E[("a3", "mSp", "ncols_")], E[("a3", "mDe", "n_local_")] = res(this + ("mSp", "ncols_")), res(this + ("mDe", "n_local_"))
    dim = lambda d: d(k) if callable(d) else res(this + ({"m": "nrows_", "n": "ncols_"}[d],)) if isinstance(d, str) and d in "mn" else k.len(d) if isinstance(d, int) else res(d)
    E.update(o.get("eqm") or {})
    for i, d in (o.get("dims") or {}).items():
        E[("a%d" % i, "m_local_")], E[("a%d" % i, "n_local_")] = dim(d[0]), dim(d[1])
    for i, d in (o.get("dimsD") or {}).items():
        E[("a%d" % i, "m_local_")], E[("a%d" % i, "n_local_")] = dim(d[0]), dim(d[1])
    if "sqD" in o:
        E[("a%d" % o["sqD"], "m_local_")] = res(("a%d" % o["sqD"], "n_local_"))
    for i, c in enumerate(kinds):
        if c == "e" and f["n"] in ("timesMatTrans", "addMDinvNtransToSymDeMatUTri"):
            E[("a%d" % i, "ncols_")] = res(this + ("ncols_",))
    for i, d in (o.get("lens") or {}).items():
        if kinds[i] in "vV":
            E[("a%d" % i, "n_local_")] = dim(d)
    for i, c in enumerate(kinds):
        b = ("a%d" % i,)
        if c in "vV":
            E[b + ("n_",)] = res(b + ("n_local_",))
            E[b + ("glob_il_",)] = ZERO
            E[b + ("glob_iu_",)] = res(b + ("n_local_",))
        if c in "pPqQ":
            vn.nonnull.add(b)
    for b in densem:
        E[b + ("n_global_",)] = res(b + ("n_local_",))
        E[b + ("glob_jl_",)] = ZERO
        E[b + ("glob_ju_",)] = res(b + ("n_local_",))
        E[b + ("myrank_",)] = ZERO
        T.LAY[b + ("M_",)] = res(b + ("n_local_",))
        vn.nonnull.add(b + ("M_",))
    for b in sparse:
        vn.nonnull |= {b + ("row_starts_",), b + ("values_",), b + ("iRow_",), b + ("jCol_",)}
    for b in sparse:
        at = {b + (n,): "int" for n in ("iRow_", "jCol_")}
        vn.arrtypes0 = dict(getattr(vn, "arrtypes0", ()), **{}) | at
    vn.arrtypes0 = dict(getattr(vn, "arrtypes0", ())) | {("a%d" % i,): "int" for i, c in enumerate(kinds) if c in "qQ"}
    for b in dyn:
        vn.nonnull |= {b, b + ("mSp",), b + ("mDe",)}
    args = {}
    for i, (c, p) in enumerate(zip(kinds, f["p"])):
        b = ("a%d" % i,)
        if c == "s":
            v = vn.in_atom(b, p["t"])
            args[i] = ("ref", ("cell", b, vn.bare(p["t"]))) if p["t"].strip().endswith("&") else v
    try:
        st, ret = vn.run(f, args=args)
    except (Give, TooBig) as g:
        ctx.undecided(rule, where, "not summarised: %s" % g)
        return
    # places in the arrays of a matrix are not negative and within the matrix
    assume = [a for a in vn.assumes] + (o["pre"](k) if o.get("pre") else [])
    if cls in (MDS, SMDS):
        for b in sparse:
            t = k.fresh()
            assume.append(ONE - T.binder("any", (k.nnz(b), ONE - lt0(k.C(b, t) - k.n(b), True) * lt0(k.R(b, t) - k.m(b), True)), t))
    T.DOM.clear()
    if "sqD" in o:
        # blocks at an offset within a larger matrix, with columns in common
        T.DOM.update({("a%d" % o["sqD"], "n_local_"): [3, 4, 4, 5], ("a0",): [0, 1, 1, 2]})
        for b in sparse:
            T.DOM.update({b + ("nrows_",): [1, 2, 2, 3], b + ("ncols_",): [1, 1, 2], b + ("jCol_",): [0, 0, 0, 1]})
    obl = []
    for i, g in (o.get("dest") or {}).items():
        b = ("a%d" % i,)
        nm = "content of " + f["p"][i]["n"]
        if kinds[i] == "D":
            obl.append((nm, b + ("M_",), g(k), (k.dm(i), k.dn(i))))
        elif kinds[i] in "V":
            obl.append((nm, b + ("data_",), g(k), ((o.get("ext") or {}).get(i, lambda k: k.len(i))(k),)))
        else:
            obl.append((nm, b, g(k), (o["ext"][i](k),)))
    for n, g in (o.get("arrs") or {}).items():
        w, d = g(k)
        b = this + (n if isinstance(n, tuple) else (n,))
        obl.append(("content of " + b[-1], b, w, None if d is None else d if isinstance(d, tuple) else (d,)))
    if o.get("ret"):
        obl.append(("return value", None, o["ret"](k), None))
    written = set()
    for what, b, want, d in obl:
        if b is None:
            if not isinstance(ret, Poly):
                ctx.undecided(rule, where, what + ": not a number")
                continue
            got = onerank(ret)
            v, why = same(got, want, assume, samples=1500)
        else:
            written.add(b)
            nd = len(d) if d else 1
            got = onerank(vn.content(b, st, nd))
            g = ONE
            for q, n in enumerate(d or ()):
                g = g * lt0(ix(q) - n, True)
            v, why = same(got, want, assume, dims=nd, guard=g, samples=3000)
        if v is True:
            ctx.ok(rule, where, what + ": " + why)
        elif v is None:
            ctx.undecided(rule, where, what + ": " + why + "; ".join(vn.trace[:1]))
        else:
            ctx.bad(rule, where, "%s: %s" % (key, what), "%s of %s is %s, specified %s; %s" % (what, key, T.show(got)[:300], T.show(want)[:300], why), loc(f))
    for l in o.get("cells") or ():
        st.cells.pop(l, None)
    frame(ctx, m, vn, st, f, written | {b + ("buff_mxnlocal_",) for b in densem}, key, rule, assume)
    T.LAY.clear()
