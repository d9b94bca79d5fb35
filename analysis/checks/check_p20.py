"""P20: the quasi-Newton Hessian is the documented limited-memory BFGS matrix."""
import bfgsspec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the limited-memory quasi-Newton class (update of the secant pairs, compact representation, solves, recursive product) "
             "with symbolic sizes; normal forms compared with the formulas of the compact BFGS representation.")


def run(ctx):
    m = ctx.model()
    ctx.rule("secant", "Each function of the quasi-Newton Hessian computes exactly the documented formula from the iterates, gradients and Jacobians it is given")
    n = sum(parallel(ctx, bfgsspec.P20, lambda sp: check(ctx, m, sp, "secant")))
    ctx.floor("results of functions of the quasi-Newton Hessian", n, 15)
