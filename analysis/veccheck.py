"""Obligations of the host vector implementation against vecspec.OPS."""
import re
from core import *
from framework import loc
import term as T
from term import *
from vn import *
import vecspec

HOST = {"hiop::hiopVector": "hiop::hiopVectorPar", "hiop::hiopVectorInt": "hiop::hiopVectorIntSeq"}
DATA = {"hiop::hiopVectorPar": "data_", "hiop::hiopVectorIntSeq": "buf_"}


def kind(t):
    t = t.strip()
    b = t.replace("const ", "").replace("&", "").replace("*", "").strip()
    if b.endswith("const"):
        b = b[:-5].strip()
    c = "const" in t.split("*")[0].split("&")[0]
    if "hiopVectorInt" in b:
        return "I"
    if "hiopVector" in b:
        return "v" if c else "V"
    if t.rstrip().endswith("*"):
        return "p" if c else "P"
    return "s"


def signature(f):
    return "".join(kind(p["t"]) for p in f["p"])


def find_spec(name, sig):
    for (n, s), o in vecspec.OPS.items():
        if n == name and s.replace("m", "v") == sig:
            return s, o
    return None, None


def check_kernel(ctx, m, f, cls, rule):
    """returns True if a specification exists for f"""
    sig = signature(f)
    s, o = find_spec(f["n"], sig)
    if o is None:
        return False
    ctx.saw(f)
    data = DATA[cls]
    nloc = lambda b: T.inp(b + ("n_local_",), "int")
    this = ("this",)
    n0 = nloc(this)
    masks = {("a%d" % i, data) for i, c in enumerate(s) if c == "m"}
    vn = VN(m, dyncls={this: cls}, statdyn=HOST, masks=masks)
    st0 = St()
    # vectors of one operation have the same partitioning unless the operation relates different sizes
    different = any(c in "IV" for c in s) or o.get("pre") or f["n"].startswith(("copyFromStarting", "startingAt", "copyToStarting", "copyTo", "copy_from_w")) and f["n"] != "copy_from_w_pattern"
    for i, c in enumerate(s):
        b = ("a%d" % i,)
        if c in "vVm":
            if not different:
                vn.eqmap[b + ("n_local_",)] = n0
            # host vectors that are not distributed
            vn.eqmap[b + ("n_",)] = vn.eqmap.get(b + ("n_local_",), nloc(b))
            vn.eqmap[b + ("glob_il_",)] = ZERO
            vn.eqmap[b + ("glob_iu_",)] = vn.eqmap.get(b + ("n_local_",), nloc(b))
    if o.get("whole"):
        vn.eqmap[this + ("n_",)] = n0
        vn.eqmap[this + ("glob_il_",)] = ZERO
        vn.eqmap[this + ("glob_iu_",)] = n0
    args, conc = {}, []
    for i, (c, p) in enumerate(zip(s, f["p"])):
        b = ("a%d" % i,)
        if c == "s":
            v = vn.in_atom(b, p["t"])
            args[i] = ("ref", ("cell", b, vn.bare(p["t"]))) if p["t"].strip().endswith("&") else v
            conc.append(v)
        else:
            conc.append(Ptr(b))
    if f["n"] == "copy_from_starting_at":
        # undistributed use: all of the vector is copied
        vn.eqmap[("a2",)] = n0
        args[2] = n0

    def rd(p, e):
        b = p.base
        c = "v" if b == this else s[int(b[0][1:])]
        if c in "pP":
            return T.el(b, (e,), "real")
        if c == "I":
            return T.el(b + ("buf_",), (e,), "int")
        return T.el(b + (data,), (e,), "real", mask=b + (data,) in masks)

    def length(p):
        b = p.base
        c = "v" if b == this else s[int(b[0][1:])]
        if c == "I":
            return T.inp(b + ("sz_",), "int")
        return vn.eqmap.get(b + ("n_local_",), nloc(b))
    k = vecspec.K(Ptr(this), conc, rd, length, None)
    where = f["q"]
    key = "%s(%s)" % (f["n"], s)
    try:
        st, ret = vn.run(f, args=args)
    except (Give, TooBig) as g:
        ctx.undecided(rule, where, "not summarised: %s" % g)
        return True
    assume = [a for a in vn.assumes]
    if f["n"] == "copy_from_two_vec_w_pattern":
        pass
    obl = []
    when = ONE
    if o.get("full"):
        r = o["full"](k)
        when = r["when"]
        obl.append(("content of the receiver", this + (data,), r["new"], n0))
        obl.append(("return value", None, r["ret"], None))
    if o.get("this"):
        obl.append(("content of the receiver", this + (data,), o["this"](k), n0))
    for i, g in (o.get("dest") or {}).items():
        b = ("a%d" % i,)
        if s[i] == "P":
            obl.append(("content of %s" % f["p"][i]["n"], b, g(k), None))
        else:
            obl.append(("content of %s" % f["p"][i]["n"], b + (data,), g(k), length(Ptr(b))))
    if o.get("ret"):
        obl.append(("return value", None, o["ret"](k), None))
    if o.get("pre"):
        assume.append(o["pre"](k))
    written = set()
    for what, base, want, n in obl:
        if base is None:
            got = ret
            if not isinstance(got, Poly):
                ctx.undecided(rule, where, what + ": not a number")
                continue
            v, why = same(got, want, assume)
        else:
            written.add(base)
            got = vn.content(base, st)
            g = lt0(ix(0) - n, True) if n is not None else None
            if base[:1] == this and when != ONE:
                g = g * when
            v, why = same(got, want, assume, dims=1, guard=g)
            if n is not None and v is True and "I" not in s:
                init = vn.elem_init(base, [ix(0)], "double", St())
                v2, why2 = same(got, init, assume, dims=1, guard=ONE - g, extent=6)
                if v2 is False:
                    v, why = False, "an element outside the array is written"
        if v is True:
            ctx.ok(rule, where, what + ": " + why)
        elif v is None:
            ctx.undecided(rule, where, what + ": " + why)
        else:
            ctx.bad(rule, where, "%s: %s" % (key, what), "%s of %s is %s, specified %s; %s" % (what, key, T.show(got)[:300], T.show(want)[:300], why), loc(f))
    frame(ctx, m, vn, st, f, written, key, rule, assume)
    return True


def frame(ctx, m, vn, st, f, written, key, rule, assume=()):
    """nothing else changes"""
    where = f["q"]
    bad = und = False
    for b, v in st.arr.items():
        if b in written or b[0] in ("new", "loc", "tmp", "&"):
            continue
        d = vn.dimsof(v)
        init = vn.elem_init(b, [ix(q) for q in range(d)], vn.arrtypes.get(b, "double"), St())
        g = None
        for ln in (vn.lens.get(b) or ())[:1]:
            g = lt0(ix(0) - ln, True)
        r, why = same(v, init, assume, dims=d, guard=g)
        if r is False:
            bad = True
            ctx.bad(rule + "-frame", where, "%s: modifies %s" % (key, showloc(b)), "%s also changes %s: %s" % (key, showloc(b), T.show(v)[:200]), loc(f))
        elif r is None:
            und = True
    for b, v in st.cells.items():
        if b[0] in ("L", "LSC", "new", "loc", "tmp", "&", "G", "ret") or b in written:
            continue
        t = vn.celltypes.get(b)
        init = vn.cell_init(b, t, St()) if t else None
        if v == init:
            continue
        if isinstance(v, Poly) and isinstance(init, Poly):
            r, why = same(v, init, assume)
            if r is True:
                continue
            if r is None:
                und = True
                continue
        if isinstance(v, (Ptr, Phi)) or not isinstance(v, Poly):
            und = True
            continue
        bad = True
        ctx.bad(rule + "-frame", where, "%s: modifies %s" % (key, showloc(b)), "%s also changes %s" % (key, showloc(b)), loc(f))
    hv = [b for b, tag in st.havoc if b[0] not in ("new", "loc", "tmp", "ret", "&", "G") and b not in written]
    if hv:
        und = True
    if und:
        ctx.undecided(rule + "-frame", where, "effects not completely described")
    elif not bad:
        ctx.ok(rule + "-frame", where, "only %s" % (", ".join(showloc(b) for b in sorted(written)) or "the return value"))
