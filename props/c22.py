"""Derivative modes and function information."""

from .relate import *

BOUNDS = "limits of 1..2 (thorough 3) steps with arbitrary searches and descents, y a two-leaf pytree; function information in two and three dimensions"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives"]


class Modes(Same):
    kind = "grad"
    fails = False

    def pairs(self, env, k, y0, rtol, atol):
        solve, solver, out = solver_of(self.kind, self, env, rtol, atol)
        fn = UserFn(env, "f", out, aux=self.aux_struct)
        key = "jac" if self.kind == "gn" else "autodiff_mode"
        run = lambda opts: solve(fn, solver, y0, None, opts, has_aux=True, max_steps=k, throw=False)
        fwd, bwd = run({key: "fwd"}), run({key: "bwd"})
        return [("modes", fwd, bwd), ("default", run(None), bwd)]


class Info(Case):
    """every kind of function information against its definition"""

    def __init__(self, name, kind, struct, r_struct=None, **kw):
        super().__init__(**kw)
        self.name = name
        self.info = InfoMaker(kind, struct, r_struct)
        self.inputs = dict(self.info.inputs("i_"), v=Inp((self.info.n,)))

    def run(self, env, v, **a):
        fi = self.info.make(a, "i_")
        o = dict(m=fi.as_min(), d=fi.compute_grad_dot(unflat(v, self.info.struct)))
        if self.info.kind == "resjac":
            o["g"] = flat_vec(fi.compute_grad())
            o["rm"] = optx.FunctionInfo.Residual(unflat(a["i_r"], self.info.r_struct)).as_min()
        else:
            o["rm"] = optx.FunctionInfo.Eval(a["i_f"]).as_min()
        return o

    def claims(self, D, i, o):
        f = self.info.f(i, "i_")
        out = [("objective", D.eq(sc(o.m), f)), ("objective-only", D.eq(sc(o.rm), f))]
        out.append(("directional", D.eq(sc(o.d), self.info.grad_dot(i, "i_", i.v))))
        if self.info.kind == "resjac":
            out += [(f"gradient-{p}", D.eq(o.g[p], dot(i.i_J[:, p], i.i_r))) for p in range(self.info.n)]
        return out


def cases(tier):
    K = 2 if tier == "quick" else 3
    out = [Modes(f"modes-{k}", kind=k, steps=K) for k in FAMILIES]
    for k in InfoMaker.KINDS:
        out.append(Info(f"info-{k}", k, PY, PR if k == "resjac" else None))
        out.append(Info(f"info-{k}-array", k, V2, sds(3) if k == "resjac" else None))
    return out
