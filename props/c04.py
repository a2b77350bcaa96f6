"""Root finding through minimisers and least-squares solvers."""

from .relate import *

BOUNDS = "arbitrary minimiser/least-squares solver, limits of 1..3 (thorough 4) steps, y and the output two-leaf pytrees, max/two/rms norm; Gauss-Newton-type and BFGS-type loops with arbitrary searches and descents"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives"]


class _Seen(eqx.Module):
    k: jax.Array
    term: jax.Array
    res: object
    f: object


class _Spy:
    """an arbitrary solver that also reports the objective it last saw"""

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        s = super().init(fn, y, args, options, f_struct, aux_struct, tags)
        return _Seen(s.k, s.term, s.res, _zeros(f_struct))

    def step(self, fn, y, args, options, state, tags):
        f, aux = fn(y, args)
        k = state.k + 1
        vec = flat_vec(k.astype(jnp.float64), y, f)
        t, r = self._flags(vec)
        return unflat(self.env.call("move", vec, size_of(y)), y), _Seen(k, t, r, f), aux

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {"f": state.f, "stop": state.term}


class SpyMin(_Spy, OpaqueMin):
    pass


class SpyLsq(_Spy, OpaqueLsq):
    pass


def _zeros(struct):
    return jtu.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), struct)


class AuxFn(UserFn):
    """its auxiliary output also says where it was evaluated"""

    def __call__(self, y, args):
        o, a = super().__call__(y, args)
        return o, dict(q=a, y=y)


class Root(Case):
    y_struct = YS
    r_struct = (sds(), sds(1))

    def __init__(self, name, cls, norm_name, steps, **kw):
        super().__init__(**kw)
        self.name, self.cls, self.norm_name, self.steps = name, cls, norm_name, steps
        self.inputs = dict(y0=Inp((2,)), rtol=Inp(sign="0+"), atol=Inp(sign="+"))
        self.unroll = steps + 2
        self.specs = {"code": CODE_SPEC, "scode": CODE_SPEC, "dcode": CODE_SPEC}

    def run(self, env, y0, rtol, atol):
        norm = NORMS[self.norm_name]
        fn = AuxFn(env, "f", self.r_struct, aux=sds(1))
        o = {}
        self.spy = not isinstance(self.cls, str)
        for k in range(1, self.steps + 1):
            if self.spy:
                solver = self.cls(env, rtol, atol, norm)
            else:
                self.fails = False
                self.norm = norm
                _, solver, _ = solver_of(self.cls, self, env, rtol, atol)
            y = unflat(y0, self.y_struct)
            sol = optx.root_find(fn, solver, y, has_aux=True, max_steps=k, throw=False)
            p = f"k{k}_"
            o[p + "ok"], o[p + "n"] = sol.result == R.successful, sol.stats["num_steps"]
            at = sol.aux["y"]
            f, a = fn(at, None)
            o[p + "q"], o[p + "want"] = sol.aux["q"], a["q"]
            o[p + "norm"] = norm(f)
            o[p + "f"] = flat_vec(f)
            if self.spy:
                o[p + "obj"] = flat_vec(sol.stats["f"])
                o[p + "stop"] = sol.stats["stop"]
        return o

    def claims(self, D, i, o):
        out = []
        for k in range(1, self.steps + 1):
            g = lambda q: sc(o[f"k{k}_{q}"])
            ran = D.ile(1, g("n"))
            out.append((f"near-root-{k}", D.implies(g("ok"), D.and_(ran, D.lt(g("norm"), sc(i.atol))))))
            out.append((f"aux-{k}", D.implies(ran, D.all_eq(g("q"), g("want")))))
            if self.spy:
                out.append((f"only-when-the-solver-stops-{k}", D.implies(g("ok"), g("stop"))))
                zero = lambda v: D.and_(*[D.eq(x, X0) for x in v.flat])
                out.append((f"objective-{k}", D.implies(ran, D.iff(zero(g("obj")), zero(g("f"))))))
        return out

    def witness(self, D, i, o):
        k = self.steps
        return [("success", sc(o[f"k{k}_ok"]))]


def cases(tier):
    K = 3 if tier == "quick" else 4
    out = []
    for nm in NORMS:
        out += [Root(f"minimiser-{nm}", SpyMin, nm, K if nm == "max" else 2), Root(f"least-squares-{nm}", SpyLsq, nm, K)]
    out += [Root("gauss-newton", "gn", "max", 2), Root("bfgs", "bfgs-inv", "max", 2)]
    return out
