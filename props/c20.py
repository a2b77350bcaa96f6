"""Implicit differentiation."""

from .relate import *

BOUNDS = "two unknowns (two-leaf pytree), two parameters, arbitrary solver with one step, all four problem kinds (and the conversions), forward and reverse mode"
ASSUMPTIONS = [
    "the linear solver meets its contract (A x = b)",
    "real arithmetic; finite derivatives up to second order",
]


class Implicit(Same):
    """tangents t of the solution satisfy (dF/dy) t + (dF/dp) dp = 0 whatever the tangents of y0 are"""

    entry = "root_find"
    solver_kind = None
    steps = 1
    reverse = False
    fails = False
    r_struct = (sds(1), sds())

    def __init__(self, name, **kw):
        super().__init__(name, **kw)
        n = 2
        self.inputs.update(p=Inp((n,)), dp=Inp((n,)), dy=Inp((n,)), c=Inp((n,)))
        self.specs["adj"] = dict(axioms=contract)

    def run(self, env, y0, rtol, atol, p, dp, dy, c):
        solve, cls = ENTRY[self.entry]
        cls = {"min": OpaqueMin, "lsq": OpaqueLsq, "root": OpaqueRoot}.get(self.solver_kind, cls)
        st = {"minimise": sds(), "fixed_point": self.y_struct}.get(self.entry, self.r_struct)
        fn = UserFn(env, "f", st, use_args=True)
        lin = OpaqueLin(env, key="adj")
        solver = cls(env, rtol, atol, self.norm)
        ys = self.y_struct

        def value(p, y0):
            sol = solve(fn, solver, unflat(y0, ys), {"p": p}, max_steps=1, throw=False, adjoint=optx.ImplicitAdjoint(linear_solver=lin))
            return flat_vec(sol.value)

        def cond(v, p):
            f = lambda v: flat_vec(fn(unflat(v, ys), {"p": p}))
            if self.entry == "fixed_point":
                return f(v) - v
            if self.entry == "minimise":
                return jax.grad(lambda v: f(v)[0])(v)
            if self.entry == "least_squares" or (self.entry == "root_find" and self.solver_kind == "min"):
                return jax.grad(lambda v: jnp.sum(f(v) ** 2) / 2)(v)
            return f(v)

        o = {}
        v = value(p, y0)
        if self.reverse:
            v1, pull = jax.vjp(value, p, y0)
            o["cp"], o["cy"] = pull(c)
        else:
            v1, o["t"] = jax.jvp(value, (p, y0), (dp, dy))
        o["v"], o["v1"] = v, v1
        o["A"] = jnp.stack([jax.jvp(lambda v: cond(v, p), (v,), (e,))[1] for e in jnp.eye(2)], 1)
        if self.reverse:
            o["B"] = jnp.stack([jax.jvp(lambda q: cond(v, q), (p,), (e,))[1] for e in jnp.eye(2)], 1)
            o["w"], o["x"] = lin.raw(o["A"].T, c)[0], lin.raw(o["A"].T, -c)[0]
        else:
            o["b"] = jax.jvp(lambda q: cond(v, q), (p,), (dp,))[1]
        return o

    def assume_post(self, D, i, o, ctx):
        A = o.A
        return [D.not_(D.eq(A[0, 0] * A[1, 1], A[0, 1] * A[1, 0]))]

    def claims(self, D, i, o):
        out = [("value", D.all_eq(o.v, o.v1))]
        zero = X0
        if self.reverse:
            # A^T w = c and A^T x = -c, so the cotangent of p is -B^T w = B^T x
            for q in range(2):
                out.append((f"cotangent-{q}", D.or_(D.eq(o.cp[q], dot(o.B[:, q], o.x)), D.eq(o.cp[q], zero - dot(o.B[:, q], o.w)))))
                out.append((f"cotangent-y0-{q}", D.eq(o.cy[q], zero)))
            return out
        for q in range(2):
            out.append((f"tangent-{q}", D.eq(dot(o.A[q], o.t) + o.b[q], zero)))
        return out

    def witness(self, D, i, o):
        return []


def cases(tier):
    out = []
    for e in ENTRY:
        for rev in (False, True):
            out.append(Implicit(f"{e}-{'reverse' if rev else 'forward'}", entry=e, reverse=rev))
    out += [
        Implicit("fixed_point-by-root-finder", entry="fixed_point", solver_kind="root"),
        Implicit("fixed_point-by-least-squares", entry="fixed_point", solver_kind="lsq"),
        Implicit("least_squares-by-minimiser", entry="least_squares", solver_kind="min"),
        Implicit("root_find-by-least-squares", entry="root_find", solver_kind="lsq"),
    ]
    return out
