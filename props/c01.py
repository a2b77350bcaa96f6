"""The solve loop, for an arbitrary solver."""

from .common import *
from .opaque import *

BOUNDS = "arbitrary solver, max_steps 0..3 (thorough 0..5) and unlimited with at most 4 steps; y a two-leaf pytree"
ASSUMPTIONS = ["step/terminate answers are arbitrary functions of their arguments and the step count; result codes success/divergence/singular"]

YS = {"a": sds(), "b": sds(1)}


def fin_tree(y):
    r = jnp.array(True)
    for l in jtu.tree_leaves(y):
        r = r & jnp.all(jnp.isfinite(l))
    return r


class Loop(Case):
    specs = {"move": dict(nonfinite=True), "code": CODE_SPEC}
    inputs = dict(y0=Inp((2,), nonfinite=True))

    def __init__(self, name, entry, max_steps, adjoint, **kw):
        super().__init__(**kw)
        self.name, self.entry, self.max_steps, self.adjoint = name, entry, max_steps, adjoint
        if max_steps is None:
            self.unroll, self.unwind = 4, "assume"
            self.bound = 4
        else:
            self.unroll, self.bound = max_steps + 2, max_steps
        self.expect_raise = True

    def problem(self, env):
        solve, cls = ENTRY[self.entry]
        out = {"root_find": sds(2), "minimise": sds(), "least_squares": (sds(), sds(2)), "fixed_point": YS}[self.entry]
        fn = UserFn(env, "f", out, aux={"q": sds(1)})
        return solve, cls(env), fn

    def run(self, env, y0):
        solve, solver, fn = self.problem(env)
        y0 = unflat(y0, YS)
        adj = optx.ImplicitAdjoint() if self.adjoint == "implicit" else optx.RecursiveCheckpointAdjoint()
        sol = solve(fn, solver, y0, None, has_aux=True, max_steps=self.max_steps, adjoint=adj, throw=self.throw)
        o = {"value": flat_vec(sol.value), "n": sol.stats["num_steps"], "aux": flat_vec(sol.aux), "final": sol.stats["final"]}
        for j in range(3):
            o[f"code{j}"] = is_code(sol.result, j)
        o["nonfin"] = sol.result == R.nonfinite
        o["maxed"] = sol.result == R.nonlinear_max_steps_reached
        # reference: the documented loop, spelled out
        y, k = y0, jnp.array(0)
        aux = jnp.zeros(1)
        st = solver.init(lambda *a: fn(*a), y0, None, {}, None, None, frozenset())
        bad = ~fin_tree(y0)
        stop, res = st.term, st.res
        live = ~stop & ~bad & (res == R.successful)
        for _ in range(self.bound):
            ny, nst, na = solver.step(fn, y, None, {}, st, frozenset())
            sel = lambda a, b: jtu.tree_map(lambda p, q: jnp.where(live, p, q), a, b)
            bad = jnp.where(live, ~fin_tree(ny), bad)
            y, k, aux = sel(ny, y), jnp.where(live, k + 1, k), jnp.where(live, flat_vec(na), aux)
            stop, res = jnp.where(live, nst.term, stop), R.where(live, nst.res, res)
            st = _sel_state(live, nst, st)
            live = live & ~stop & ~bad & (res == R.successful)
        o["live"] = live
        o["r_value"] = flat_vec(solver.postprocess(fn, y, None, None, {}, st, frozenset(), None)[0])
        o["r_n"], o["r_aux"], o["r_bad"], o["r_stop"] = k, aux, bad, stop
        o["r_fin"] = fin_tree(y)
        for j in range(3):
            o[f"r_code{j}"] = is_code(res, j)
        return o

    throw = False

    def claims(self, D, i, o):
        if o.raised is True:
            return []
        out = []
        g = lambda k: sc(o[k])
        bad = g("r_bad")
        if self.max_steps is not None:
            out.append(("at-most-max-steps", D.ile(g("n"), self.max_steps)))
        out.append(("num-steps", D.ieq(g("n"), g("r_n"))))
        out.append(("final-state", D.ieq(g("final"), g("r_n"))))
        out.append(("value", D.all_eq(o.value, o.r_value)))
        out.append(("aux", D.all_eq(o.aux, o.r_aux)))
        ok = D.and_(D.not_(bad), g("r_stop"), g("r_code0"))
        out.append(("success-iff", D.iff(g("code0"), ok)))
        out.append(("nonfinite-iff", D.iff(g("nonfin"), bad)))
        out.append(("max-steps-iff", D.iff(g("maxed"), D.and_(D.not_(bad), D.not_(g("r_stop")), g("r_code0")))))
        for j in (1, 2):
            out.append((f"failure-code-{j}", D.iff(g(f"code{j}"), D.and_(D.not_(bad), g(f"r_code{j}")))))
        if not self.throw:
            out.append(("nothing-raised", D.not_(o.raised)))
        return out

    def witness(self, D, i, o):
        w = [("success", sc(o.code0)), ("nonfinite", sc(o.nonfin)), ("failure", sc(o.code1))]
        if self.max_steps is not None:
            w.append(("maxed", sc(o.maxed)))
        if self.bound >= 2:
            w.append(("two-steps-success", D.and_(sc(o.code0), D.ieq(sc(o.n), 2))))
        return w


def _sel_state(c, a, b):
    return type(a)(jnp.where(c, a.k, b.k), jnp.where(c, a.term, b.term), R.where(c, a.res, b.res))


class Throw(Loop):
    """throw=True raises exactly when the throw=False result is not success"""

    def run(self, env, y0):
        solve, solver, fn = self.problem(env)
        y0 = unflat(y0, YS)
        o = {}
        adj = optx.ImplicitAdjoint() if self.adjoint == "implicit" else optx.RecursiveCheckpointAdjoint()
        quiet = None
        for t in (False, True):
            try:
                sol = solve(fn, solver, y0, None, has_aux=True, max_steps=self.max_steps, adjoint=adj, throw=t)
                jax.block_until_ready(sol.value) if not env.symbolic else None
            except Exception:
                if env.symbolic or not t:
                    raise
                sol = quiet  # replay: raised
                o["was_raised"] = jnp.array(True)
            quiet = sol
            o[f"v{int(t)}"], o[f"n{int(t)}"], o[f"a{int(t)}"] = flat_vec(sol.value), sol.stats["num_steps"], flat_vec(sol.aux)
            o[f"ok{int(t)}"] = sol.result == R.successful
        return o

    jit_replay = False

    def claims(self, D, i, o):
        raised = o.raised if D.symbolic else "was_raised" in o
        return [
            ("raises-iff-unsuccessful", D.iff(raised, D.not_(sc(o.ok0)))),
            ("same-when-not-raised", D.implies(D.not_(raised), D.and_(D.all_eq(o.v0, o.v1), D.ieq(sc(o.n0), sc(o.n1)), D.all_eq(o.a0, o.a1), sc(o.ok1)))),
        ]

    def witness(self, D, i, o):
        return [("raises", o.raised), ("does-not", D.not_(o.raised))]


def cases(tier):
    out = []
    ks = range(0, 4) if tier == "quick" else range(0, 6)
    for e in ENTRY:
        for k in ks:
            out.append(Loop(f"{e}-{k}", e, k, "implicit"))
        out.append(Loop(f"{e}-unlimited", e, None, "implicit"))
        out.append(Loop(f"{e}-2-checkpointed", e, 2, "recursive"))
        out.append(Throw(f"{e}-throw", e, 2, "implicit"))
        out.append(Throw(f"{e}-throw-checkpointed", e, 1, "recursive"))
    return out
