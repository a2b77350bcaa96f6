"""Packing of unknowns and outputs."""

from .relate import *

BOUNDS = "limits of 1..2 (thorough 3) steps, three unknowns packed as a nested pytree or one vector, residuals packed or one vector, max and two norms; built-in solvers with an arbitrary linear solver, quasi-Newton loops with arbitrary searches and descents"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives"]

NEST = {"u": (sds(1), sds()), "w": sds(1, 1)}
FLAT = sds(3)
RNEST = [sds(), {"r": sds(1)}]
RFLAT = sds(2)
SQNEST = (sds(2), {"r": sds()})
SQFLAT = sds(3)


class Packed(Same):
    kind = "newton"
    y_struct = NEST
    fails = False

    def solver(self, env, rtol, atol, ys):
        n, k = self.norm, self.kind
        lin = OpaqueLin(env)
        if k == "newton":
            return optx.root_find, optx.Newton(rtol, atol, n, linear_solver=lin), "sq"
        if k == "chord":
            return optx.root_find, optx.Chord(rtol, atol, n, linear_solver=lin), "sq"
        if k == "fixed":
            return optx.fixed_point, optx.FixedPointIteration(rtol, atol, n), "y"
        if k == "gauss-newton":
            return optx.least_squares, optx.GaussNewton(rtol, atol, n, linear_solver=lin), "r"
        if k == "lm":
            return optx.least_squares, optx.LevenbergMarquardt(rtol, atol, n, linear_solver=lin), "r"
        if k == "dogleg":
            return optx.least_squares, optx.Dogleg(rtol, atol, n, linear_solver=lin), "r"
        if k == "gradient":
            return optx.minimise, optx.GradientDescent(0.1, rtol, atol, n), "1"
        if k == "ncg":
            return optx.minimise, optx.NonlinearCG(rtol, atol, n), "1"
        self2 = type("S", (), dict(fails=False, y_struct=ys, norm=staticmethod(n), r_struct=None))
        return (*solver_of(k, self2, env, rtol, atol)[:2], "1")

    def pairs(self, env, k, y0, rtol, atol):
        sols = []
        for nest in (True, False):
            ys = NEST if nest else FLAT
            solve, solver, o = self.solver(env, rtol, atol, ys)
            out = {"y": ys, "r": RNEST if nest else RFLAT, "sq": SQNEST if nest else SQFLAT, "1": sds()}[o]
            fn = UserFn(env, "f", out, aux=self.aux_struct)
            sols.append(solve(fn, solver, y0 if nest else flat_vec(y0), has_aux=True, max_steps=k, throw=False))
        return [("packed", *sols)]


def cases(tier):
    K = 2 if tier == "quick" else 3
    out = []
    for nm in ("max", "two"):
        for k in ("newton", "chord", "fixed", "gauss-newton", "lm", "gradient", "ncg", "bfgs-inv", "bfgs", "dfp-inv"):
            out.append(Packed(f"{k}-{nm}", kind=k, steps=K, norm_name=nm))
    out.append(Packed("lbfgs", kind="lbfgs-inv", steps=3))
    return out
