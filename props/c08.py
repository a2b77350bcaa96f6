"""Fixed-point iteration follows the damped map."""

from .common import *
from .solves import *

BOUNDS = "solves of 1..3 (thorough 5) steps, y two-dimensional pytree, all built-in norms"
ASSUMPTIONS = ["real arithmetic; finite user function values"]


def cases(tier):
    K = 3 if tier == "quick" else 5
    return [FixedPoint(f"fixed-point-{nm}", steps=K, norm_name=nm) for nm in NORMS]
