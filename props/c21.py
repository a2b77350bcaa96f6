"""Problem conversions."""

from .relate import *

BOUNDS = "arbitrary solver of each kind, limits of 1..3 (thorough 4) steps, y a two-leaf pytree; Newton, BFGS-type and Gauss-Newton-type loops with arbitrary searches and descents"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives"]


def half_sq(fn):
    def g(y, args):
        r, aux = fn(y, args)
        return sum(jnp.sum(l**2) for l in jtu.tree_leaves(r)) / 2, aux

    return g


def shifted(fn):
    def g(y, args):
        f, aux = fn(y, args)
        return tree_sub(f, y), aux

    return g


class Convert(Same):
    """an arbitrary solver behind the other entry point"""

    extra_inputs = dict(p=Inp())

    def pairs(self, env, k, y0, rtol, atol, p):
        kw = dict(args=p, has_aux=True, max_steps=k, throw=False)
        res = UserFn(env, "f", self.r_struct, aux=self.aux_struct, use_args=True)
        fix = UserFn(env, "h", self.y_struct, aux=self.aux_struct, use_args=True)
        m, l, r = (c(env, rtol, atol, self.norm) for c in (OpaqueMin, OpaqueLsq, OpaqueRoot))
        return [
            ("residual-minimiser", optx.least_squares(res, m, y0, **kw), optx.minimise(half_sq(res), m, y0, **kw)),
            ("fixed-root", optx.fixed_point(fix, r, y0, **kw), optx.root_find(shifted(fix), r, y0, **kw)),
            ("fixed-lsq", optx.fixed_point(fix, l, y0, **kw), optx.root_find(shifted(fix), l, y0, **kw)),
            ("fixed-min", optx.fixed_point(fix, m, y0, **kw), optx.root_find(shifted(fix), m, y0, **kw)),
        ]


class Builtin(Same):
    """the same for the library's own loops, whose derivatives go through the conversion; options
    are handed on"""

    fails = False

    def pairs(self, env, k, y0, rtol, atol):
        kw = dict(has_aux=True, max_steps=k, throw=False)
        res = UserFn(env, "f", self.r_struct, aux=self.aux_struct)
        fix = UserFn(env, "h", self.y_struct, aux=self.aux_struct)
        _, bfgs, _ = solver_of("bfgs-inv", self, env, rtol, atol)
        lin = OpaqueLin(env)
        lo = unflat(-jnp.ones(size_of(self.y_struct)), self.y_struct)
        newton = optx.Newton(rtol, atol, self.norm, linear_solver=lin)
        nk = dict(kw, options=dict(lower=lo))
        return [
            ("bfgs", optx.least_squares(res, bfgs, y0, **kw), optx.minimise(half_sq(res), bfgs, y0, **kw)),
            ("newton", optx.fixed_point(fix, newton, y0, **nk), optx.root_find(shifted(fix), newton, y0, **nk)),
        ]


class Integers(Same):
    """integer starting points"""

    fails = False
    extra_inputs = dict(z=Inp((2,), dtype="i", lo=-4, hi=4))

    def pairs(self, env, k, y0, rtol, atol, z):
        kw = dict(has_aux=True, max_steps=k, throw=False)
        zi = {"a": z[0], "b": z[1:]}
        zf = jtu.tree_map(lambda x: x.astype(jnp.float64), zi)
        f = UserFn(env, "f", sds(), aux=self.aux_struct)
        res = UserFn(env, "r", self.r_struct, aux=self.aux_struct)
        fix = UserFn(env, "h", self.y_struct, aux=self.aux_struct)
        out = []
        for lab, solve, fn, cls in (
            ("minimise", optx.minimise, f, OpaqueMin),
            ("least_squares", optx.least_squares, res, OpaqueLsq),
            ("root_find", optx.root_find, res, OpaqueRoot),
            ("fixed_point", optx.fixed_point, fix, OpaqueFix),
            ("root-min", optx.root_find, res, OpaqueMin),
            ("root-lsq", optx.root_find, res, OpaqueLsq),
        ):
            s = cls(env, rtol, atol, self.norm)
            out.append((lab, solve(fn, s, zi, **kw), solve(fn, s, zf, **kw)))
        return out


def cases(tier):
    K = 3 if tier == "quick" else 4
    return [Convert("convert", steps=K), Convert("convert-two", steps=2, norm_name="two"), Builtin("builtin", steps=2), Integers("integers", steps=1)]
