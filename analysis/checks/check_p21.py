"""P21: the starting point and the least-squares multipliers are the documented ones."""
import dualspec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the starting procedure (every combination of what the user provides) and of the least-squares multiplier updates, dense and sparse; "
             "normal forms compared with the formulas of the documentation.")


def run(ctx):
    m = ctx.model()
    ctx.rule("start", "The starting procedure and the multiplier updates compute exactly the documented iterate from the user's point, the options and the evaluations")
    n = sum(parallel(ctx, dualspec.P21, lambda sp: check(ctx, m, sp, "start")))
    ctx.floor("functions of the starting procedure and multiplier updates", n, 6)
