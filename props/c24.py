"""Batched solves."""

from .relate import *

BOUNDS = "two lanes, limits of 1..2 (thorough 3) steps, arbitrary solvers, searches, descents and linear solvers, y a two-leaf pytree"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives"]


class Lanes(Same):
    kind = "grad"
    fails = False

    def __init__(self, name, **kw):
        super().__init__(name, **kw)
        self.inputs["z0"] = Inp((2,))
        self.inputs["args"] = Inp((2,))

    def solver(self, env, rtol, atol):
        if self.kind == "newton":
            return optx.root_find, optx.Newton(rtol, atol, self.norm, linear_solver=OpaqueLin(env)), self.r_struct
        if self.kind == "fixed":
            return optx.fixed_point, optx.FixedPointIteration(rtol, atol, self.norm), self.y_struct
        if self.kind in ENTRY:
            solve, cls = ENTRY[self.kind]
            st = {"minimise": sds(), "fixed_point": self.y_struct}.get(self.kind, self.r_struct)
            return solve, cls(env, rtol, atol, self.norm), st
        return solver_of(self.kind, self, env, rtol, atol)

    def run(self, env, y0, rtol, atol, z0, args):
        o = {}
        self.labels = []
        solve, solver, out = self.solver(env, rtol, atol)
        fn = UserFn(env, "f", out, aux=self.aux_struct, use_args=True)
        starts = [y0, z0]
        for k in range(1, self.steps + 1):

            def one(y, a):
                sol = solve(fn, solver, unflat(y, self.y_struct), a, has_aux=True, max_steps=k, throw=False)
                r = {}
                self.out(r, "", sol)
                return r

            both = jax.vmap(one)(jnp.stack(starts), args)
            for lane in range(2):
                lab = f"lane{lane}-{k}"
                self.labels.append(lab)
                for q, v in both.items():
                    o[f"{lab}/a/{q}"] = v[lane]
                for q, v in one(starts[lane], args[lane]).items():
                    o[f"{lab}/b/{q}"] = v
        return o

    def witness(self, D, i, o):
        if self.kind in ("grad", "bfgs", "bfgs-inv", "dfp-inv"):  # never done after one step
            return []
        g = lambda lane, q: sc(o[f"lane{lane}-{self.steps}/b/{q}"])
        return [("one-stops-first", D.and_(D.ieq(g(0, "n"), 1), D.ieq(g(1, "n"), 2)))]


def cases(tier):
    K = 2 if tier == "quick" else 3
    kinds = tuple(ENTRY) + ("grad", "gn", "bfgs", "bfgs-inv", "dfp-inv", "newton", "fixed")
    return [Lanes(f"lanes-{k}", kind=k, steps=3 if k in ENTRY else K, fails=k in ENTRY) for k in kinds]
