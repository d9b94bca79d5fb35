"""P16: the sparse and mixed dense-sparse matrix kernels implement their documented algebra."""
import sparsespec
from sparsecheck import *
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering: every operation of the triplet and of the mixed dense-sparse matrices is summarised (helpers inlined, loops over the nonzeros in closed form as "
             "scatter sums, scatter maxima and packed copies, merges of two sorted rows as a join) and compared with the reference algebra; everything else must be unchanged.")


def run(ctx):
    m = ctx.model()
    ctx.rule("sparse", "Each operation leaves in its destination exactly the specified function of the nonzeros and of its other inputs, for every entry")
    ctx.rule("sparse-frame", "Nothing but the specified destination is modified")
    jobs = []
    for o in sparsespec.OPS:
        fs = find(o, m)
        if not fs:
            ctx.undecided("sparse", o["cls"], "no implementation found for %s(%s)" % (o["name"], o["kinds"]))
        jobs += [(o, f) for f in fs]
    parallel(ctx, jobs, lambda j: check_op(ctx, m, j[0], j[1], "sparse"))
    ctx.floor("sparse and mixed matrix operations with a reference algebra", len(jobs), 20)
