"""P17: the feasibility restoration problem is the documented one."""
import frspec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the three restoration problem classes (functions, derivatives, bounds, starting point, stopping test) with the evaluations of the base problem as unknowns; "
             "normal forms compared with the formulas of the restoration problem.")


def run(ctx):
    m = ctx.model()
    ctx.rule("restoration", "Each function of the restoration problem computes exactly the documented formula from the evaluations of the base problem")
    n = sum(parallel(ctx, frspec.P17, lambda sp: check(ctx, m, sp, "restoration")))
    ctx.floor("functions of the restoration problems", n, 36)
