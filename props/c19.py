"""Auxiliary output."""

from .relate import *
from .c05 import Solve  # noqa: F401

BOUNDS = "limits of 1..3 (thorough 4) steps, arbitrary searches, descents, linear solvers and optimisers, y a two-leaf pytree"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives", "for Optax: tolerances and objective values below 1e9"]


class Without(Same):
    """asking for auxiliary output changes nothing else"""

    kind = "grad"
    compare_aux = False
    fails = False

    def pairs(self, env, k, y0, rtol, atol):
        if self.kind == "newton":
            solve, solver, out = optx.root_find, optx.Newton(rtol, atol, self.norm, linear_solver=OpaqueLin(env)), self.r_struct
        elif self.kind == "fixed":
            solve, solver, out = optx.fixed_point, optx.FixedPointIteration(rtol, atol, self.norm), self.y_struct
        else:
            solve, solver, out = solver_of(self.kind, self, env, rtol, atol)
        kw = dict(max_steps=k, throw=False)
        f, g = UserFn(env, "f", out), UserFn(env, "f", out, aux=self.aux_struct)
        return [("without", solve(f, solver, y0, **kw), solve(g, solver, y0, has_aux=True, **kw))]


class Scalar(Case):
    """bracketing solvers: the auxiliary output is the one of the iterate before"""

    inputs = dict(lower=Inp(), upper=Inp(), y0=Inp(), rtol=Inp(sign="0+"), atol=Inp(sign="0+"))
    unroll = 6
    name = "bisection"
    steps = 3

    def run(self, env, lower, upper, y0, rtol, atol):
        fn = UserFn(env, "f", sds(), aux=sds(1))
        o = dict(v0=y0)
        for k in range(1, self.steps + 1):
            sol = optx.root_find(fn, optx.Bisection(rtol, atol), y0, None, dict(lower=lower, upper=upper), has_aux=True, max_steps=k, throw=False)
            o[f"v{k}"], o[f"n{k}"], o[f"a{k}"] = sol.value, sol.stats["num_steps"], sol.aux
        for k in range(self.steps):
            o[f"want{k + 1}"] = fn(o[f"v{k}"], None)[1]
        return o

    def assume(self, D, i):
        return [D.lt(sc(i.lower), sc(i.upper))]

    def claims(self, D, i, o):
        return [
            (f"aux-{k}", D.or_(o.raised, D.implies(D.ieq(sc(o[f"n{k}"]), k), D.all_eq(o[f"a{k}"], o[f"want{k}"]))))
            for k in range(1, self.steps + 1)
        ]


def cases(tier):
    K = 3 if tier == "quick" else 4
    kw = dict(steps=K, groups=("aux",))
    out = [
        SearchLoop("gradient", "grad", opaque_grad, **kw),
        SearchLoop("gauss-newton", "gn", opaque_gn, **kw),
        SearchLoop("quasi-newton", "qn", opaque_bfgs(True), **kw),
        SearchLoop("quasi-newton-direct", "qn", opaque_bfgs(False), **kw),
        SearchLoop("dfp", "qn", opaque_bfgs(True, DFPWith), **kw),
        SearchLoop("lbfgs", "qn", opaque_bfgs(True, LBFGSWith), **dict(kw, steps=2)),
        FixedPoint("fixed-point", **kw),
        Optax("optax", **kw),
        Newton("newton", **kw),
        Newton("chord", newton=False, **kw),
        Scalar(),
    ]
    out += [Without(f"without-{k}", kind=k, steps=2) for k in FAMILIES + ("newton", "fixed")]
    return out
