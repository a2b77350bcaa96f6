"""Success and non-finite values."""

from .relate import *
from . import c09, c10

BOUNDS = "limits of 1..3 (thorough 4) steps, user functions whose values and derivatives may be NaN or infinite at any evaluation, y a two-leaf pytree; searches: three consecutive calls"
ASSUMPTIONS = ["real arithmetic with NaN and infinities (overflow of finite numbers excluded)"]


class Success(Same):
    """success => every element of the value is finite"""

    kind = "grad"
    fails = False

    def __init__(self, name, **kw):
        super().__init__(name, **kw)
        bad = dict(nonfinite=True)
        self.specs = {**self.specs, "f": bad, "move": bad, "descend": bad, "post": {}, "lsolve": bad}
        self.inputs["y0"] = Inp((2,), nonfinite=True)

    def solver(self, env, rtol, atol):
        if self.kind in ("newton", "chord"):
            cls = optx.Newton if self.kind == "newton" else optx.Chord
            return optx.root_find, cls(rtol, atol, self.norm, linear_solver=OpaqueLin(env)), self.r_struct
        if self.kind == "fixed":
            return optx.fixed_point, optx.FixedPointIteration(rtol, atol, self.norm), self.y_struct
        if self.kind == "gradient-descent":
            return optx.minimise, optx.GradientDescent(0.1, rtol, atol, self.norm), sds()
        return solver_of(self.kind, self, env, rtol, atol)

    def run(self, env, y0, rtol, atol):
        solve, solver, out = self.solver(env, rtol, atol)
        fn = UserFn(env, "f", out)
        o = {}
        for k in range(1, self.steps + 1):
            sol = solve(fn, solver, unflat(y0, self.y_struct), max_steps=k, throw=False)
            o[f"v{k}"], o[f"ok{k}"] = flat_vec(sol.value), sol.result == R.successful
        return o

    def claims(self, D, i, o):
        return [(f"finite-{k}", D.implies(sc(o[f"ok{k}"]), D.and_(*[D.fin(x) for x in o[f"v{k}"]]))) for k in range(1, self.steps + 1)]

    def witness(self, D, i, o):
        return [("success", sc(o[f"ok{self.steps}"]))]


class _Never:
    """a NaN or +infinite trial value is never accepted after the first step"""

    def claims(self, D, i, o):
        out = []
        for k in range(1, self.steps):
            fe, acc = sc(i[f"fe{k}"]), sc(o[f"acc{k}"])
            bad = bor(fe.nan, fe.pi)
            out.append((f"never-accepted-{k}", D.implies(bad, D.not_(acc))))
        return out

    def witness(self, D, i, o):
        return [("accepted", sc(o.acc2))]


class Armijo(_Never, c09.Armijo):
    pass


class TR(_Never, c10.TR):
    def claims(self, D, i, o):
        out = []
        for (lab, c), k in zip(super().claims(D, i, o), range(1, self.steps)):
            d = i[f"e{k}"] - i[f"y{k}"]
            p = (self.info.quad if self.cls == "ClassicalTrustRegion" else self.info.grad_dot)(i, f"i{k}_", d)
            out.append((lab, D.implies(D.lt(p, 0), c)))
        return out


def cases(tier):
    K = 3 if tier == "quick" else 4
    out = [Success(f"success-{k}", kind=k, steps=2 if k == "lbfgs-inv" else K) for k in FAMILIES + ("newton", "chord", "fixed", "gradient-descent")]
    out.append(Armijo("backtracking", InfoMaker("grad", PY)))
    out.append(Armijo("backtracking-residual", InfoMaker("resjac", V2, PR)))
    out.append(TR("trust-classical", InfoMaker("hess", V2), cls="ClassicalTrustRegion"))
    out.append(TR("trust-linear", InfoMaker("grad", PY), cls="LinearTrustRegion"))
    return out
