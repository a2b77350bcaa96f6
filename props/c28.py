"""Verbosity, throw and adjoint choice."""

from .relate import *

BOUNDS = "limits of 1..2 (thorough 3) steps with arbitrary searches and descents, y a two-leaf pytree; two direct steps for the reported values"
ASSUMPTIONS = ["real arithmetic; finite user function values and derivatives", "for Optax: tolerances and objective values below 1e9"]


def shout(**kw):
    jax.debug.print(" ".join("{}" for _ in kw), *[v for _, v in kw.values()])


class Loud(Same):
    kind = "gn"
    fails = False

    def make(self, env, rtol, atol, verbose):
        if self.kind == "optax":
            import optax

            op = OpaqueOptim(env, self.y_struct)
            return optx.minimise, optx.OptaxMinimiser(optax.GradientTransformationExtraArgs(op.init, op.update), rtol, atol, self.norm, verbose=verbose), sds()
        if self.kind == "real-bfgs":
            return optx.minimise, optx.BFGS(rtol, atol, self.norm, verbose=verbose), sds()
        if self.kind == "real-lbfgs":
            return optx.minimise, optx.LBFGS(rtol, atol, self.norm, history_length=2, verbose=verbose), sds()
        if self.kind == "real-dfp":
            return optx.minimise, optx.DFP(rtol, atol, self.norm, verbose=verbose), sds()
        if self.kind == "real-gn":
            return optx.least_squares, optx.GaussNewton(rtol, atol, self.norm, linear_solver=OpaqueLin(env), verbose=verbose), self.r_struct
        if self.kind == "real-lm":
            return optx.least_squares, optx.LevenbergMarquardt(rtol, atol, self.norm, linear_solver=OpaqueLin(env), verbose=verbose), self.r_struct
        return solver_of(self.kind, self, env, rtol, atol, verbose=verbose)

    def pairs(self, env, k, y0, rtol, atol):
        def run(v):
            solve, solver, out = self.make(env, rtol, atol, v)
            fn = UserFn(env, "f", out, aux=self.aux_struct)
            return solve(fn, solver, y0, has_aux=True, max_steps=k, throw=False)

        quiet = run(False if self.kind.startswith("real") or self.kind == "optax" else QUIET)
        out = [("callback", run(shout), quiet)]
        if self.kind.startswith("real") or self.kind == "optax":
            out.append(("printing", run(True), quiet))
        return out


class Throw(Same):
    """throw on a solve that succeeds; the adjoints that can be chosen"""

    entry = "minimise"

    def pairs(self, env, k, y0, rtol, atol):
        solve, cls = ENTRY[self.entry]
        st = {"minimise": sds(), "fixed_point": self.y_struct}.get(self.entry, self.r_struct)
        fn = UserFn(env, "f", st, aux=self.aux_struct)
        solver = cls(env, rtol, atol, self.norm)
        run = lambda **kw: solve(fn, solver, y0, has_aux=True, max_steps=k, **kw)
        a = run(throw=False)
        return [("throw", run(throw=True), a)] if self.throwing else [
            ("implicit", run(throw=False, adjoint=optx.ImplicitAdjoint(linear_solver=lx.LU())), a),
            ("checkpoint", run(throw=False, adjoint=optx.RecursiveCheckpointAdjoint()), a),
        ]

    throwing = True

    def claims(self, D, i, o):
        out = super().claims(D, i, o)
        if not self.throwing:
            return out
        k = self.steps
        every = D.and_(*[sc(o[f"throw-{j}/b/res0"]) for j in range(1, k + 1)])
        return [(lab, D.or_(o.raised, c)) for lab, c in out] + [("raises-only-on-failure", D.implies(every, D.not_(o.raised)))]


class Reported(Case):
    """what a verbose callback is told, against the step it is told about"""

    y_struct = YS
    r_struct = (sds(1), sds())
    fails = False
    norm = staticmethod(optx.max_norm)

    def __init__(self, name, kind, **kw):
        super().__init__(**kw)
        self.name, self.kind = name, kind
        self.inputs = dict(y0=Inp((2,)), rtol=Inp(sign="0+"), atol=Inp(sign="+"))

    def run(self, env, y0, rtol, atol):
        seen = []
        if self.kind == "optax":
            solve, solver, out = Loud("x", kind="optax").make(env, rtol, atol, lambda **kw: seen.append(kw))
        else:
            solve, solver, out = solver_of(self.kind, self, env, rtol, atol, verbose=lambda **kw: seen.append(kw))
        raw = UserFn(env, "f", out)
        fn = lambda y, args: (raw(y, args), None)
        y = unflat(y0, self.y_struct)
        tags = frozenset()
        state = solver.init(fn, y, None, {}, out, None, tags)
        loss = lambda p: raw(p, None) if self.kind != "gn" else sum(jnp.sum(l**2) for l in jtu.tree_leaves(raw(p, None))) / 2
        o = {}
        self.keys = []
        for k in range(2):
            del seen[:]
            before = y
            y, state, _ = solver.step(fn, y, None, {}, state, tags)
            (kw,) = seen
            at = kw["y"][1]

            def put(lab, got, want):
                self.keys.append(f"{lab}-{k}")
                o[f"g_{lab}-{k}"], o[f"w_{lab}-{k}"] = flat_vec(got), flat_vec(want)

            put("loss", kw["loss_this_step"][1], loss(at))
            if self.kind == "optax":
                put("y", at, before)
                put("number", kw["num_steps"][1], jnp.array(k))
                continue
            if k == 0:
                put("y", at, before)
            else:  # an accepted point is the reported one
                same = lambda p, q: jnp.all(flat_vec(p) == flat_vec(q))
                put("moved-to", (same(y, at) | same(y, before)).astype(jnp.float64), jnp.array(1.0))
            put("accepted", kw["y_last_accepted_step"][1], y)
            if k:
                put("loss-accepted", kw["loss_last_accepted_step"][1], loss(before))
        return o

    def claims(self, D, i, o):
        return [(k, D.all_eq(o[f"g_{k}"], o[f"w_{k}"])) for k in self.keys]


def cases(tier):
    K = 2 if tier == "quick" else 3
    out = [Loud(f"verbose-{k}", kind=k, steps=K) for k in ("gn", "bfgs", "bfgs-inv", "dfp-inv", "lbfgs-inv", "real-bfgs", "real-dfp", "real-gn", "real-lm")]
    out.append(Loud("verbose-optax", kind="optax", steps=K, assume=Optax.assume.__get__(object()), specs={"f": dict(axioms=bounded)}))
    out += [Reported(f"reported-{k}", k) for k in ("gn", "bfgs", "bfgs-inv", "lbfgs-inv", "optax")]
    for e in ENTRY:
        out += [Throw(f"throw-{e}", entry=e, steps=K), Throw(f"adjoint-{e}", entry=e, steps=K, throwing=False)]
    return out
