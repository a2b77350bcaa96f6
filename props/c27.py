"""The Optax wrapper applies exactly the optimiser's updates."""

from .common import *
from .solves import *

BOUNDS = "solves of 1..3 (thorough 4) steps, y two-dimensional pytree, all built-in norms"
ASSUMPTIONS = ["real arithmetic; finite user function values", "tolerances and objective values below 1e9 (the first step compares with the largest float)"]


def cases(tier):
    K = 3 if tier == "quick" else 4
    return [Optax(f"optax-{nm}", steps=K, norm_name=nm) for nm in NORMS]
