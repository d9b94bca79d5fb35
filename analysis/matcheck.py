"""Obligations of the dense row-major matrix against matspec.OPS."""
from core import *
from framework import loc
import term as T
from term import *
from vn import *
import matspec
from veccheck import frame

SD = {"hiop::hiopMatrixDense": "hiop::hiopMatrixDenseRowMajor", "hiop::hiopMatrix": "hiop::hiopMatrixDenseRowMajor",
      "hiop::hiopVector": "hiop::hiopVectorPar", "hiop::hiopVectorInt": "hiop::hiopVectorIntSeq"}


def kind(t):
    t = t.strip()
    b = t.replace("const ", "").replace("&", "").replace("*", "").strip()
    if b.endswith("const"):
        b = b[:-5].strip()
    c = "const" in t.split("*")[0].split("&")[0]
    if "hiopVectorInt" in b:
        return "I"
    if "hiopVector" in b:
        return "v" if c else "V"
    if "hiopMatrix" in b:
        return "d" if c else "D"
    if t.rstrip().endswith("*"):
        if "int" in b:
            return "q"
        return "p" if c else "P"
    return "s"


def find_spec(f):
    return matspec.OPS.get((f["n"], "".join(kind(p["t"]) for p in f["p"])))


def dims(b):
    return (b + ("m_local_",), b + ("n_local_",))


def check_matrix(ctx, m, f, cls, rule, only=None):
    sig = "".join(kind(p["t"]) for p in f["p"])
    o = matspec.OPS.get((f["n"], sig))
    if o is None:
        return False
    ctx.saw(f)
    for case, ceq in (o.get("cases") or [("", {})]):
        check_case(ctx, m, f, cls, rule, sig, o, case, ceq)
    return True


def check_case(ctx, m, f, cls, rule, sig, o, case, ceq):
    where = f["q"] + ((" (%s)" % case) if case else "")
    key = "%s(%s)" % (f["n"], sig)
    this = ("this",)
    T.LAY.clear()
    vn = VN(m, dyncls={this: cls}, statdyn=SD)
    E = vn.eqmap
    INT = lambda l: T.inp(l, "int")
    mats = [this] + [("a%d" % i,) for i, c in enumerate(sig) if c in "dD"]
    vecs = [("a%d" % i,) for i, c in enumerate(sig) if c in "vV"]

    def res(l):
        while l in E:
            p = E[l]
            a = p.single()
            if a is None or T.INFO[a][0] != "in":
                return p
            l = T.INFO[a][1][0]
        return INT(l)
    base = lambda s: this if s == "this" or s == "" else ("a%s" % s,)

    def sym(s):
        h, d = s.rsplit(".", 1) if "." in s else ("", s)
        return base(h) + ({"m": "m_local_", "n": "n_local_", "l": "n_local_"}[d],)
    k = matspec.KM(sig, None)
    k.res = res
    k.M = lambda b: res(base(str(b)) + ("m_local_",))
    k.N = lambda b: res(base(str(b)) + ("n_local_",))
    k.L = lambda b: res(base(str(b)) + ("n_local_",))
    if o.get("square"):
        E[("this", "m_local_")] = INT(("this", "n_local_"))
    for s in (o.get("eq") or "").split():
        l, r = s.split("=")
        l, r = sym(l), sym(r)
        if res(l) != res(r):
            rl = res(l)
            if rl.single() is not None:
                E[T.INFO[rl.single()][1][0]] = res(r)
    for l, g in ceq.items():
        E[l] = g(k)
    for l, p in (o["eqm"](k) if o.get("eqm") else {}).items():
        E[l] = p
    # results of local operations, and every matrix of an operation documented as local, are not distributed
    for b in mats:
        if o.get("local") or b != this and sig[int(b[0][1:])] == "D":
            E[b + ("n_global_",)] = res(b + ("n_local_",))
            E[b + ("glob_jl_",)] = ZERO
            E[b + ("glob_ju_",)] = res(b + ("n_local_",))
    for b in mats[1:]:
        for g in ("n_global_", "glob_jl_", "glob_ju_"):
            if b + (g,) not in E and res(b + ("n_local_",)) == res(("this", "n_local_")):
                E[b + (g,)] = E.get(("this", g), INT(("this", g)))
    for b in vecs:
        E[b + ("n_",)] = res(b + ("n_local_",))
        E[b + ("glob_il_",)] = ZERO
        E[b + ("glob_iu_",)] = res(b + ("n_local_",))
    for b in mats:
        T.LAY[b + ("M_",)] = res(b + ("n_local_",))
    for b in mats:
        vn.nonnull.add(b + ("M_",))
    args, conc = {}, []
    for i, (c, p) in enumerate(zip(sig, f["p"])):
        b = ("a%d" % i,)
        if c == "s":
            v = vn.in_atom(b, p["t"])
            args[i] = ("ref", ("cell", b, vn.bare(p["t"]))) if p["t"].strip().endswith("&") else v
            conc.append(v)
        else:
            conc.append(Ptr(b))
            if c in "pPq":
                vn.nonnull.add(b)
    k.args = conc
    k.length = lambda p: None
    try:
        st, ret = vn.run(f, args=args)
    except (Give, TooBig) as g:
        ctx.undecided(rule, where, "not summarised: %s" % g)
        return
    assume = list(vn.assumes) + (o["pre"](k) if o.get("pre") else [])
    obl = []
    if o.get("this"):
        obl.append(("content of the matrix", this + ("M_",), o["this"](k), (k.M("this") + (ONE if o.get("grow") else ZERO), k.N("this"))))
    for i, g in (o.get("dest") or {}).items():
        b = ("a%d" % i,)
        nm = f["p"][i]["n"]
        if sig[i] == "D":
            obl.append(("content of " + nm, b + ("M_",), g(k), (k.M(i), k.N(i))))
        elif sig[i] == "V":
            obl.append(("content of " + nm, b + ("data_",), g(k), (k.L(i),)))
        else:
            obl.append(("content of " + nm, b, g(k), (o["ext"][i](k),)))
    if o.get("ret"):
        obl.append(("return value", None, o["ret"](k), None))
    written = set()
    for what, b, want, d in obl:
        if b is None:
            if not isinstance(ret, Poly):
                ctx.undecided(rule, where, what + ": not a number")
                continue
            v, why = same(ret, want, assume)
            got = ret
        else:
            written.add(b)
            nd = len(d)
            got = vn.content(b, st, nd)
            g = ONE
            for q, n in enumerate(d):
                g = g * lt0(ix(q) - n, True)
            v, why = same(got, want, assume, dims=nd, guard=g)
            if v is False and nd == 2:
                # updates given by linear addresses: collect the change of every alias of the entry
                n = d[1]
                kk = k.fresh()
                al = subst(got, {ix(0): kk, ix(1): ix(1) + (ix(0) - kk) * n})
                ini = vn.elem_init(b, [ix(0), ix(1)], "double", St())
                ini2 = subst(ini, {ix(0): kk, ix(1): ix(1) + (ix(0) - kk) * n})
                try:
                    tot = ini + mksum(d[0], (al - ini2) * (ONE - lt0(ix(0) - kk, True)), kk)
                    v, why = same(tot, want, assume, dims=nd, guard=g)
                except TooBig:
                    pass
            if v is True:
                init = vn.elem_init(b, [ix(q) for q in range(nd)], "double", St())
                gi = ONE if nd == 1 else lt0(ix(1) - d[1], True)
                # an array without rows may still have reserved storage for one
                v2, why2 = same(got, init, assume + ([lt0(-d[0], True)] if nd == 2 else []), dims=nd, guard=gi - g, extent=6)
                if v2 is False:
                    v, why = False, "an element outside the array is written: " + why2
        if v is True:
            ctx.ok(rule, where, what + ": " + why)
        elif v is None:
            ctx.undecided(rule, where, what + ": " + why)
        else:
            ctx.bad(rule, where, "%s: %s" % (key, what), "%s of %s is %s, specified %s; %s" % (what, key, T.show(got)[:300], T.show(want)[:300], why), loc(f))
    cells = o.get("cells") or {}
    for l, g in cells.items():
        got = st.cells.get(l)
        v, why = same(got, g(k), assume) if isinstance(got, Poly) else (None if got is not None else False, "not assigned")
        if v is True:
            ctx.ok(rule, where, "%s: %s" % (showloc(l), why))
        elif v is None:
            ctx.undecided(rule, where, "%s: %s" % (showloc(l), why))
        else:
            ctx.bad(rule, where, "%s: %s" % (key, showloc(l)), "%s: %s" % (showloc(l), why), loc(f))
        st.cells.pop(l, None)
    frame(ctx, m, vn, st, f, written | {b + ("buff_mxnlocal_",) for b in mats}, key, rule, assume)
    T.LAY.clear()
