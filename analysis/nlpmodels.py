"""Models of the user interface and of the chain of problem transformations, for the algebra engine: a call of a user callback records what it was
passed (cells ARG, arrays ARGA) and fills its outputs with unknowns (U); the chain scales with unknown factors S_obj, S_c, S_d, S_cd and maps x."""
import re
import term as T
import core
from term import *
from vn import Ptr, Phi, phis

CHAIN = "hiop::hiopNlpTransformations::"


def onobj(fn):
    """a model of a call whose first argument is a vector or a matrix, distributed over conditional pointers"""
    def h(A, vn, e, st):
        o = A.obj(vn, e["a"][0], st)
        if not isinstance(o, (Ptr, Phi)):
            return NotImplemented
        for p in phis(o):
            if isinstance(p, Ptr) and p.base[0] in ("hv", "hvp"):
                return NotImplemented
        return A.split(vn, [o], st, lambda v, s: fn(A, vn, v[0], s))
    return h


def rec(st, vn, key, v, t="double"):
    st.cells[key] = v
    vn.celltypes[key] = t


def counted(st, vn, fn):
    c = ("CALLS", fn)
    n = st.cells.get(c, ZERO)
    n = n if isinstance(n, Poly) else T.opq("calls")
    rec(st, vn, c, n + 1, "int")


def inv_x(A, vn, e, st):
    v = [A.arg(vn, x, st) for x in e["a"]]
    o = A.obj(vn, e["a"][0], st)
    if not isinstance(o, Ptr):
        return NotImplemented
    rec(st, vn, ("TX", "of"), o, "ptr")
    if len(v) > 1 and isinstance(v[1], Poly):
        rec(st, vn, ("TX", "new"), v[1], "bool")
    vn.nonnull.add(("USER", "x"))
    return Ptr(("USER", "x"))


def to_x(A, vn, e, st):
    """x of the user to x of the solver"""
    o = [A.obj(vn, x, st) for x in e["a"]]
    if len(o) != 2 or not all(isinstance(x, Ptr) for x in o):
        return NotImplemented
    vn.setcontent(o[1].base + ("data_",), T.fn("reduce", vn.content(o[0].base + ("data_",), st)), st)
    return P(0)


def scaled(name, inv, mat=False):
    @onobj
    def h(A, vn, o, st):
        s = A.rd(vn, st, ("S", name), ix(0))
        f = ONE / s if inv else s
        b = o.base + (("M",) if mat else ("data_",))
        c = vn.content(b, st, 2) if mat else vn.content(b, st)
        vn.setcontent(b, c * f, st, *((2,) if mat else ()))
        return o
    return h


def objscale(inv):
    def h(A, vn, e, st):
        v = vn.num(A.arg(vn, e["a"][0], st))
        s = T.inp(("S", "obj"), "pos")
        return v / s if inv else v * s
    return h


@onobj
def same_ptr(A, vn, o, st):
    """applies to a full-space object of the user: a no-op, or the user's copy"""
    return o


@onobj
def inv_grad(A, vn, o, st):
    rec(st, vn, ("TG", "of"), o, "ptr")
    vn.nonnull.add(("USER", "grad"))
    return Ptr(("USER", "grad"))


def to_grad(A, vn, e, st):
    o = A.obj(vn, e["a"][0], st)
    of = st.cells.get(("TG", "of"))
    if not isinstance(o, Ptr) or not isinstance(of, Ptr):
        return NotImplemented
    c = vn.content(o.base + ("data_",), st)
    vn.setcontent(of.base + ("data_",), T.inp(("S", "obj"), "pos") * T.fn("reduce", c), st)
    return of


def inv_jac(name):
    @onobj
    def h(A, vn, o, st):
        rec(st, vn, ("TJ" + name, "of"), o, "ptr")
        vn.nonnull.add(("USER", "J" + name))
        return Ptr(("USER", "J" + name))
    return h


def to_jac(name):
    def h(A, vn, e, st):
        o = A.obj(vn, e["a"][0], st)
        of = st.cells.get(("TJ" + name, "of"))
        if not isinstance(o, Ptr):
            return NotImplemented
        s = A.rd(vn, st, ("S", name), ix(0))
        c = vn.content(o.base + ("M",), st, 2)
        if o.base == ("USER", "J" + name):
            if not isinstance(of, Ptr):
                return NotImplemented
            vn.setcontent(of.base + ("M",), s * T.fn("reducecols", c), st, 2)
            return of
        vn.setcontent(o.base + ("M",), s * c, st, 2)
        return o
    return h


def callback(A, vn, e, st):
    """a function of the user's interface"""
    fn = (e.get("fq") or "").split("::")[-1]
    f = A.m.funcs.get(e["f"])
    pts = [p["t"] for p in f["p"]] if f else e.get("pt") or []
    vals = []
    for t, a in zip(pts, e["a"]):
        vals.append(A.obj(vn, a, st) if "&" in t and "const" not in t else A.arg(vn, a, st))
    n = len(pts)
    tag = "%s%d" % (fn, n)
    counted(st, vn, tag)
    return A.split(vn, vals, st, lambda vals, s: passed(A, vn, e, s, pts, vals, tag))


def passed(A, vn, e, st, pts, vals, tag):
    for i, (t, v, a) in enumerate(zip(pts, vals, e["a"])):
        if t.rstrip().endswith("&") and "const" not in t:
            lv = vn.lval(a, st)
            if lv is None:
                return NotImplemented
            vn.store(lv, T.inp(("U", tag, str(i)), vn.bare(t)), st)
        elif "*" in t:
            if isinstance(v, Poly) or core.strip(a).get("k") == "Null":
                rec(st, vn, ("ARG", tag, str(i)), v if isinstance(v, Poly) else ZERO, "int")
                continue
            if not isinstance(v, Ptr):
                st.hav(("ARGA", tag, str(i)), "pointer of unknown target") if hasattr(st, "hav") else None
                continue
            rec(st, vn, ("ARGP", tag, str(i)), Ptr(v.base), "ptr")
            nd = 2 if v.base and v.base[-1] == "M" else 1
            if "const" in t.split("*")[0]:
                st.arr[("ARGA", tag, str(i), "data_")] = vn.content(v.base, st)
            elif nd == 2:
                vn.setcontent(v.base, vn.read(("U", tag, str(i), "M"), [ix(0), ix(1)], "double", st), st, 2)
            elif v.base[-1] not in ("irow", "jcol", "sp_irow", "sp_jcol"):
                vn.setcontent(v.base, vn.read(("U", tag, str(i), "data_"), [ix(0)], "double", st), st)
        elif isinstance(v, Poly):
            rec(st, vn, ("ARG", tag, str(i)), v, "bool" if t == "bool" else "real")
    return T.inp(("U", tag, "ok"), "bool")


def models(m):
    d = {CHAIN + "apply_inv_to_x": inv_x, CHAIN + "apply_to_x": to_x,
         CHAIN + "apply_to_obj": objscale(False), CHAIN + "apply_inv_to_obj": objscale(True),
         CHAIN + "apply_inv_to_grad_obj": inv_grad, CHAIN + "apply_to_grad_obj": to_grad,
         "hiop::hiopNlpTransformation::apply_inv_to_jacob_cons": same_ptr, "hiop::hiopNlpTransformation::apply_to_jacob_cons": same_ptr,
         CHAIN + "apply_inv_to_jacob_cons": same_ptr, CHAIN + "apply_to_jacob_cons": same_ptr,
         CHAIN + "n_pre": lambda A, vn, e, st: T.inp(("n_pre",), "int"), CHAIN + "n_pre_local": lambda A, vn, e, st: T.inp(("n_pre_local",), "int"),
         CHAIN + "n_post": lambda A, vn, e, st: T.inp(("n_post",), "int"), CHAIN + "n_post_local": lambda A, vn, e, st: T.inp(("n_post_local",), "int")}
    for n, s in (("eq", "c"), ("ineq", "d")):
        d[CHAIN + "apply_to_cons_" + n] = scaled(s, False)
        d[CHAIN + "apply_inv_to_cons_" + n] = scaled(s, True)
        d[CHAIN + "apply_to_jacob_" + n] = to_jac(s)
        d[CHAIN + "apply_inv_to_jacob_" + n] = inv_jac(s)
    d[CHAIN + "apply_to_cons"] = scaled("cd", False)
    d[CHAIN + "apply_inv_to_cons"] = scaled("cd", True)
    for c, cl in m.classes.items():
        if c.startswith("hiop::hiopInterface"):
            for me in cl["methods"]:
                d[c + "::" + me["n"]] = callback
    return d
