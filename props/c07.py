"""Newton and chord steps, bounds, linear-solve failures and termination modes."""

from .common import *
from .solves import *

BOUNDS = "solves of 1..3 (thorough 4) steps, y and residual two-dimensional pytrees, arbitrary linear solver"
ASSUMPTIONS = ["real arithmetic; finite user function values"]


def cases(tier):
    K = 3 if tier == "quick" else 4
    out = []
    for newton in (True, False):
        nm = "newton" if newton else "chord"
        for b in ((), ("lower",), ("upper",), ("lower", "upper")):
            out.append(Newton(nm + "-" + "".join(b), newton=newton, bounds=b, steps=K))
        out.append(Newton(nm + "-failures", newton=newton, fails=True, steps=K))
        out.append(Newton(nm + "-rate", newton=newton, cauchy=False, steps=K))
        out.append(Newton(nm + "-rate-bounds", newton=newton, cauchy=False, bounds=("lower", "upper"), steps=K))
        out.append(Newton(nm + "-rate-failures", newton=newton, cauchy=False, fails=True, steps=K))
    return out
