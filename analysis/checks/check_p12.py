"""P12: the host vector kernels implement their documented elementwise/reduction semantics."""
from veccheck import *
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering: every host vector operation is read once, helper functions are inlined, branches are merged with masks and counted loops are "
             "summarised into closed forms (elementwise update over a universal index, sum, maximum, scatter). The normal form of every destination and of the return value is "
             "compared with the reference semantics of the operation; anything else the operation writes is a violation of its frame.")


def run(ctx):
    m = ctx.model()
    ctx.rule("kernel", "Each operation leaves in its destination exactly the specified function of its inputs, for every index, and returns the specified value (reductions include the reduction over the MPI ranks)")
    ctx.rule("kernel-frame", "Nothing but the specified destination is modified")
    cls = "hiop::hiopVectorPar"
    n = 0
    done = set()
    fs = [m.funcs[me["id"]] for me in m.classes[cls]["methods"] if m.funcs.get(me["id"], {}).get("body")]
    for f, checked in zip(fs, parallel(ctx, fs, lambda f: check_kernel(ctx, m, f, cls, "kernel"))):
        if checked:
            n += 1
            done.add((f["n"], find_spec(f["n"], signature(f))[0]))
    for k in vecspec.OPS:
        if k not in done:
            ctx.undecided("kernel", cls, "no implementation found for %s(%s)" % k)
    ctx.floor("hiopVectorPar operations with a reference semantics", n, 30)
