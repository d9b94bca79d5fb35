"""P13: the dense matrix kernels implement their documented algebra."""
import matspec
from matcheck import *
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering: every operation of the dense row-major matrix is summarised (helpers inlined, loops and BLAS calls in closed form, row/column normal form of linear addresses) "
             "and the normal form of every destination entry is compared with the reference algebra; everything else must be unchanged.")


def run(ctx):
    m = ctx.model()
    ctx.rule("matrix", "Each operation leaves in its destination exactly the specified function of its inputs, for every entry (distributed products include the sum over ranks, beta*y contributed once)")
    ctx.rule("matrix-frame", "Nothing but the specified destination is modified")
    cls = "hiop::hiopMatrixDenseRowMajor"
    n, done = 0, set()
    fs = [m.funcs[me["id"]] for me in m.classes[cls]["methods"] if m.funcs.get(me["id"], {}).get("body")]
    for f, checked in zip(fs, parallel(ctx, fs, lambda f: check_matrix(ctx, m, f, cls, "matrix"))):
        if checked:
            n += 1
            done.add((f["n"], "".join(kind(p["t"]) for p in f["p"])))
    for k in matspec.OPS:
        if k not in done:
            ctx.undecided("matrix", cls, "no implementation found for %s(%s)" % k)
    ctx.floor("hiopMatrixDenseRowMajor operations with a reference algebra", n, 20)
