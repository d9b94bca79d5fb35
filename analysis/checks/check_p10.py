"""P10: iterate, residual and barrier computations implement the primal-dual formulas."""
import algspec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering over abstract vectors: every listed function is summarised (helpers inlined, vector operations by their specification, matrix-vector products as uninterpreted sums) "
             "and the normal form of every vector, scalar and pointer it sets is compared with the formula of the primal-dual interior-point method; everything else must be unchanged.")


def run(ctx):
    m = ctx.model()
    ctx.rule("algebra", "Each function leaves in its outputs exactly the documented primal-dual formula, component by component, for every bound pattern")
    ctx.rule("algebra-frame", "Nothing but the specified outputs is modified")
    n = sum(parallel(ctx, algspec.P10, lambda sp: check(ctx, m, sp, "algebra", masks=sp.get("masks"))))
    ctx.floor("iterate, residual and barrier functions with a reference formula", n, 15)
