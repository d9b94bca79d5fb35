"""P07: the solver works on the user's problem: scaled, with bounds relaxed and fixed variables relaxed or removed, and back."""
import transspec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering with models of the user's callbacks (what each receives and what it returns are unknowns): every transformation, evaluation and result function is summarised and compared with its formula "
             "in terms of the user's problem: scaling factors, maps between the full and the reduced variables, order of the constraints, arguments of each callback; chains of 0 to 3 transformations are unrolled.")


def run(ctx):
    m = ctx.model()
    ctx.rule("transform", "Each transformation, evaluation and result function passes to the user and returns to the solver exactly the specified values of the transformed problem")
    ctx.rule("transform-frame", "Nothing but the specified outputs is modified")
    n = sum(parallel(ctx, transspec.P07, lambda sp: check(ctx, m, sp, "transform", masks=sp.get("masks"))))
    ctx.floor("transformation, evaluation and result functions with a reference formula", n, 100)
