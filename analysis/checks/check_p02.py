"""P02: dense factorizations and solves report what happened and leave the documented result."""
import solvespec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering of the dense linear solvers with LAPACK as unknown functions of the matrix, right-hand side and sizes they are passed; "
             "reported verdicts, inertia, arguments and refined solutions compared with reference formulas.")


def run(ctx):
    m = ctx.model()
    ctx.rule("solve", "Factorizations and solves hand the right matrix, triangle, sizes and right-hand side to LAPACK, return its solution and report failures and inertia truthfully")
    n = sum(parallel(ctx, solvespec.P02, lambda sp: check(ctx, m, sp, "solve", samples=1200)))
    ctx.floor("dense factorizations and solves", n, 6)
