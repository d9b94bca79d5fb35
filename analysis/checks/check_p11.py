"""P11: the KKT linear systems solve the Newton system of the full space."""
import kktspec
from algcheck import check
from framework import parallel

LEVEL = "other"
TECHNIQUE = ("Gated value numbering over abstract vectors: every listed function is summarised (helpers inlined, vector operations by their specification, matrix-vector products as uninterpreted sums) "
             "and the normal form of every vector, scalar and pointer it sets is compared with the formula derived from the full-space Newton system; the factorisation and the solve with the reduced matrix are uninterpreted; everything else must be unchanged.")


def run(ctx):
    m = ctx.model()
    ctx.rule("algebra", "Each function leaves in its outputs exactly the matrix, right-hand side or direction defined by the full-space Newton system")
    ctx.rule("algebra-frame", "Nothing but the specified outputs is modified")
    n = sum(parallel(ctx, kktspec.P11, lambda sp: check(ctx, m, sp, "algebra", masks=sp.get("masks"))))
    ctx.floor("functions of the KKT linear systems with a reference formula", n, 20)
