"""Success means the documented convergence test held."""

from .common import *
from .solves import *

BOUNDS = "solves of 1..3 (thorough 4) steps, y two-dimensional pytree, residual two-dimensional pytree, all built-in norms"
ASSUMPTIONS = ["real arithmetic; finite user function values", "for Optax: tolerances and objective values below 1e9 (the first step compares with the largest float)"]


def cases(tier):
    K = 3 if tier == "quick" else 4
    g = ("stop",)
    out = []
    for nm in NORMS:
        kw = dict(steps=K, groups=g, norm_name=nm)
        out += [
            SearchLoop(f"gradient-{nm}", "grad", opaque_grad, **kw),
            SearchLoop(f"gauss-newton-{nm}", "gn", opaque_gn, **kw),
            SearchLoop(f"quasi-newton-{nm}", "qn", opaque_bfgs(True), **kw),
            FixedPoint(f"fixed-point-{nm}", **kw),
            Optax(f"optax-{nm}", **kw),
            Newton(f"newton-{nm}", **kw),
            Newton(f"chord-{nm}", newton=False, **kw),
        ]
    return out
