"""Accept moves, reject stays: search-driven solvers against the written-out loop."""

from .common import *
from .solves import *

BOUNDS = "solves of 1..3 (thorough 4) steps, y two-dimensional pytree, residual two-dimensional pytree"
ASSUMPTIONS = ["real arithmetic; finite user function values"]


def cases(tier):
    K = 3 if tier == "quick" else 4
    out = [
        SearchLoop("gradient-opaque", "grad", opaque_grad, steps=K),
        SearchLoop("gradient-opaque-failures", "grad", opaque_grad, steps=K, fails=True),
        SearchLoop("gauss-newton-opaque", "gn", opaque_gn, steps=K),
        SearchLoop("gauss-newton-opaque-failures", "gn", opaque_gn, steps=K, fails=True),
        SearchLoop("bfgs-opaque", "qn", opaque_bfgs(True), steps=K),
        SearchLoop("bfgs-direct-opaque", "qn", opaque_bfgs(False), steps=K),
    ]
    return out
