"""Reference models of the solve loops and the registry of built-in solvers."""

from .common import *
from .opaque import *

YS = {"a": sds(), "b": sds(1)}
NORMS = {"max": optx.max_norm, "two": optx.two_norm, "rms": optx.rms_norm}


def tree_sub(a, b):
    return jtu.tree_map(lambda p, q: p - q, a, b)


def tree_sel(c, a, b):
    return jtu.tree_map(lambda p, q: jnp.where(c, p, q), a, b)


def allfin(y):
    r = jnp.array(True)
    for l in jtu.tree_leaves(y):
        r = r & jnp.all(jnp.isfinite(l))
    return r


def small(norm, diff, ref, rtol, atol):
    """the documented test: norm(|diff| / (atol + rtol*|ref|)) < 1"""
    return norm(jtu.tree_map(lambda d, r: jnp.abs(d) / (atol + rtol * jnp.abs(r)), diff, ref)) < 1


def cauchy(norm, y_diff, y, f_diff, f, rtol, atol):
    return small(norm, y_diff, y, rtol, atol) & small(norm, f_diff, f, rtol, atol)


class GradSolver(optx.AbstractGradientDescent):
    rtol: float
    atol: float
    norm: object = eqx.field(static=True)
    descent: optx.AbstractDescent
    search: optx.AbstractSearch


class GNSolver(optx.AbstractGaussNewton):
    rtol: float
    atol: float
    norm: object = eqx.field(static=True)
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: object = eqx.field(static=True, default=lambda **kw: None)


class BFGSWith(optx.AbstractBFGS):
    rtol: float
    atol: float
    norm: object = eqx.field(static=True)
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    use_inverse: bool = True
    verbose: object = eqx.field(static=True, default=lambda **kw: None)


class DFPWith(optx.AbstractDFP):
    rtol: float
    atol: float
    norm: object = eqx.field(static=True)
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    use_inverse: bool = True
    verbose: object = eqx.field(static=True, default=lambda **kw: None)


class LBFGSWith(optx.AbstractLBFGS):
    rtol: float
    atol: float
    norm: object = eqx.field(static=True)
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    use_inverse: bool = True
    history_length: int = 2
    verbose: object = eqx.field(static=True, default=lambda **kw: None)


def _zeros(struct):
    return jtu.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), struct)


class Track:
    """the solve loop around a reference step: freezes everything once the solve is over"""

    def __init__(self, y0, aux_struct):
        self.y, self.aux, self.k = y0, _zeros(aux_struct), jnp.array(0)
        self.bad, self.stop, self.res = ~allfin(y0), jnp.array(False), R.successful
        self.live = ~self.bad
        self.out = []

    def push(self, y, aux, stop, res=R.successful, **extra):
        live = self.live
        self.y, self.aux = tree_sel(live, y, self.y), tree_sel(live, aux, self.aux)
        self.bad = jnp.where(live, ~allfin(y), self.bad)
        self.stop, self.res = jnp.where(live, stop, self.stop), R.where(live, res, self.res)
        self.k = jnp.where(live, self.k + 1, self.k)
        rec = dict(value=self.y, stop=self.stop, bad=self.bad, n=self.k, aux=self.aux, live=live, **extra)
        for j in range(3):
            rec[f"code{j}"] = is_code(self.res, j)
        self.out.append(rec)
        self.live = live & ~self.stop & ~self.bad & (self.res == R.successful)


class RefCase(Case):
    """a solver run for 1..k steps through the public entry point against a reference loop.
    Subclasses: problem(env, **inputs) -> (solve, fn, solver, y0, options) and
    reference(env, fn, solver, y0, options, track, **inputs)."""

    steps = 3
    groups = ("moves", "stop", "aux")
    norm_name = "max"
    y_struct = YS
    aux_struct = {"q": sds(1)}
    fails = False
    extra_inputs = {}

    def __init__(self, name, **kw):
        super().__init__(**kw)
        self.name = name
        self.inputs = dict(y0=Inp((size_of(self.y_struct),)), rtol=Inp(sign="0+"), atol=Inp(sign="+"))
        self.inputs.update(self.extra_inputs)
        self.unroll = self.steps + 2

    @property
    def norm(self):
        return NORMS[self.norm_name]

    def run(self, env, **a):
        solve, fn, solver, y0, options = self.problem(env, **a)
        o = {}
        for k in range(1, self.steps + 1):
            sol = solve(fn, solver, y0, None, options, has_aux=True, max_steps=k, throw=False)
            p = f"s{k}_"
            o[p + "value"], o[p + "aux"], o[p + "n"] = flat_vec(sol.value), flat_vec(sol.aux), sol.stats["num_steps"]
            for j in range(3):
                o[p + f"code{j}"] = is_code(sol.result, j)
        track = Track(y0, self.aux_struct)
        rest = {k: v for k, v in a.items() if k != "y0"}
        self.reference(env, fn, solver, y0, options, track, **rest)
        for k, r in enumerate(track.out, 1):
            for q, v in r.items():
                o[f"r{k}_{q}"] = flat_vec(v) if q in ("value", "aux") else v
        return o

    def claims(self, D, i, o):
        out = []
        for k in range(1, self.steps + 1):
            g = lambda q: sc(o[f"s{k}_{q}"])
            r = lambda q: sc(o[f"r{k}_{q}"])
            good = D.not_(r("bad"))
            if "moves" in self.groups:
                out.append((f"value-{k}", D.all_eq(g("value"), r("value"))))
                out.append((f"steps-{k}", D.ieq(g("n"), r("n"))))
                for j in (1, 2) if self.fails else ():
                    out.append((f"failure-{j}-{k}", D.iff(g(f"code{j}"), D.and_(good, r(f"code{j}")))))
            if "stop" in self.groups:
                out.append((f"success-iff-{k}", D.iff(g("code0"), D.and_(good, r("stop"), r("code0")))))
            if "aux" in self.groups:
                out.append((f"aux-{k}", D.all_eq(g("aux"), r("aux"))))
        return out

    def witness(self, D, i, o):
        K = self.steps
        w = [("last-step-live", sc(o[f"r{K}_live"]))]
        if K >= 3 and "r3_acc" in o and self.rejects:
            w.append(("reject-then-accept", D.and_(sc(o[f"r{K}_live"]), D.not_(sc(o.r2_acc)), sc(o.r3_acc))))
        if "stop" in self.groups:
            w.append(("success", sc(o[f"s{K}_code0"])))
        return w

    rejects = True


def ref_loop(kind, fn, y0, search, descent, rtol, atol, norm, steps, track, r_struct=None, solver=None):
    """The documented accept/reject loop written out.  Records every step in `track`."""
    st = jax.eval_shape(lambda: y0)
    FI = optx.FunctionInfo
    f_of = lambda y: fn(y, None)[0]
    aux_of = lambda y: fn(y, None)[1]
    hstate = None
    if kind == "gn":
        n, m = size_of(st), size_of(r_struct)
        mk = lambda f, J: FI.ResidualJac(f, lx.FunctionLinearOperator(_Jac(J, r_struct), st))
        raw = (_zeros(r_struct), jnp.zeros((m, n)))
    elif kind == "grad":
        mk = lambda f, g: FI.EvalGrad(f, g)
        raw = (jnp.array(0.0), _zeros(st))
    else:
        mk = None
        info, hstate = solver.init_hessian(y0, jnp.array(0.0), _zeros(st))
        raw = info
    if mk is not None:
        info = mk(*raw)
    struct = eqx.filter_eval_shape(lambda: info)
    sstate, dstate = search.init(y0, struct), descent.init(y0, struct)
    y, trial, aux = y0, y0, track.aux
    for it in range(steps):
        first = jnp.array(it == 0)
        f_e = f_of(trial)
        if kind == "gn":
            J_e = jac_matrix(f_of, trial, st)
            ev = mk(f_e, J_e)
            new_raw = (f_e, J_e)
            new_info = ev
        else:
            g_e = jax.grad(f_of)(trial)
            ev = FI.Eval(f_e)
            if kind == "grad":
                new_raw = (f_e, g_e)
                new_info = mk(f_e, g_e)
        size, acc, sres, sstate_n = search.step(first, y, trial, info, ev, sstate)
        if kind == "qn":
            new_info, new_h = solver.update_hessian(y, trial, info, FI.EvalGrad(f_e, g_e), hstate)
        q = descent.query(trial, new_info, dstate)
        f_old = info.residual if kind == "gn" else info.f
        conv = cauchy(norm, tree_sub(trial, y), trial, jtu.tree_map(lambda a, b: a - b, f_e, f_old), f_e, rtol, atol)
        if it == 0 and kind != "gn":
            conv = jnp.array(False)
        new_aux = aux_of(trial)
        prev = new_aux if it == 0 else aux
        ny = tree_sel(acc, trial, y)
        nd = eqx_sel(acc, q, dstate)
        ninfo = eqx_sel(acc, new_info, info)
        naux = tree_sel(acc, new_aux, aux)
        if kind == "qn":
            hstate_n = eqx_sel(acc, new_h, hstate)
        d, dres = descent.step(size, nd)
        ntrial = jtu.tree_map(lambda a, b: a + b, ny, d)
        nres = R.where(sres == R.successful, dres, sres)
        nstop = acc & conv
        track.push(ny, prev, nstop, nres, acc=acc, conv=conv)
        y, trial, info, aux, dstate, sstate = ny, ntrial, ninfo, naux, nd, sstate_n
        if kind == "qn":
            hstate = hstate_n


class _Jac(eqx.Module):
    J: jax.Array
    r_struct: object = eqx.field(static=True)

    def __call__(self, v):
        return unflat(self.J @ flat_vec(v), self.r_struct)


def jac_matrix(f, y, st):
    n = size_of(st)
    cols = [flat_vec(jax.jvp(f, (y,), (unflat(jnp.zeros(n).at[j].set(1.0), st),))[1]) for j in range(n)]
    return jnp.stack(cols, 1)


def eqx_sel(c, a, b):
    """where over modules that may carry static parts (operators)"""
    da, sa = eqx.partition(a, eqx.is_array)
    db, _ = eqx.partition(b, eqx.is_array)
    return eqx.combine(jtu.tree_map(lambda p, q: jnp.where(c, p, q), da, db), sa)


class SearchLoop(RefCase):
    """a search/descent solver run for 1..k steps against the reference loop"""

    groups = ("moves",)
    r_struct = (sds(), sds(1))
    options = None
    specs = {"scode": CODE_SPEC, "dcode": CODE_SPEC}

    def __init__(self, name, kind, make, **kw):
        super().__init__(name, **kw)
        self.kind, self.make = kind, make

    def problem(self, env, y0, rtol, atol, **ex):
        out = self.r_struct if self.kind == "gn" else sds()
        fn = UserFn(env, "f", out, aux=self.aux_struct)
        solver = self.make(self, env, rtol, atol, self.norm, **ex)
        solve = optx.least_squares if self.kind == "gn" else optx.minimise
        return solve, fn, solver, unflat(y0, self.y_struct), self.options

    def reference(self, env, fn, solver, y0, options, track, rtol, atol, **a):
        ref_loop(self.kind, fn, y0, solver.search, solver.descent, rtol, atol, self.norm, self.steps, track, self.r_struct, solver)


def opaque_grad(case, env, rtol, atol, norm):
    return GradSolver(rtol, atol, norm, OpaqueDescentFor(env, case.fails, case.y_struct), OpaqueSearch(env, case.fails))


def opaque_gn(case, env, rtol, atol, norm):
    return GNSolver(rtol, atol, norm, OpaqueDescentFor(env, case.fails, case.y_struct), OpaqueSearch(env, case.fails))


def opaque_bfgs(inverse, cls=BFGSWith):
    def f(case, env, rtol, atol, norm):
        return cls(rtol, atol, norm, OpaqueDescentFor(env, case.fails, case.y_struct), OpaqueSearch(env, case.fails), inverse)

    return f


class FixedPoint(RefCase):
    """damped fixed-point iteration; `via` names the entry point it is called through"""

    extra_inputs = dict(damp=Inp())

    def problem(self, env, y0, rtol, atol, damp):
        fn = UserFn(env, "f", self.y_struct, aux=self.aux_struct)
        return optx.fixed_point, fn, optx.FixedPointIteration(rtol, atol, self.norm, damp), unflat(y0, self.y_struct), None

    def reference(self, env, fn, solver, y0, options, track, rtol, atol, damp):
        y = y0
        for _ in range(self.steps):
            f, aux = fn(y, None)
            new = jtu.tree_map(lambda p, q: (1 - damp) * p + damp * q, f, y)
            track.push(new, aux, small(self.norm, tree_sub(new, y), new, rtol, atol))
            y = new


class OpaqueOptim:
    """an arbitrary optax optimiser: updates and next state are opaque functions of everything
    it is handed, including what the objective it is handed answers at a shifted point"""

    def __init__(self, env, struct):
        self.env, self.struct = env, struct

    def vec(self, grads, state, params, value, grad, value_fn):
        shifted = jtu.tree_map(lambda p: p + 1, params)
        return flat_vec(grads, state, params, value, grad, value_fn(shifted))

    def init(self, params):
        return self.env.call("opt_init", flat_vec(params), 1)

    def update(self, grads, state, params=None, *, value, grad, value_fn, **kw):
        v = self.vec(grads, state, params, value, grad, value_fn)
        return unflat(self.env.call("opt_upd", v, size_of(self.struct)), self.struct), self.env.call("opt_state", v, 1)


def bounded(ctx, app):
    return [z3.And(x.v <= 10**9, x.v >= -(10**9)) for x in app.outs if isinstance(x, X) and app.order == 0]


class Optax(RefCase):
    specs = {"f": dict(axioms=bounded)}

    def assume(self, D, i):
        return [D.le(sc(i.rtol), 10**9), D.le(sc(i.atol), 10**9)]

    def problem(self, env, y0, rtol, atol):
        import optax

        fn = UserFn(env, "f", sds(), aux=self.aux_struct)
        op = OpaqueOptim(env, self.y_struct)
        optim = optax.GradientTransformationExtraArgs(op.init, op.update)
        self.op = op
        return optx.minimise, fn, optx.OptaxMinimiser(optim, rtol, atol, self.norm), unflat(y0, self.y_struct), None

    def reference(self, env, fn, solver, y0, options, track, rtol, atol):
        op = self.op
        y, st, prev = y0, op.init(y0), None
        for _ in range(self.steps):
            f, aux = fn(y, None)
            g = jax.grad(lambda q: fn(q, None)[0])(y)
            upd, st = op.update(g, st, y, value=f, grad=g, value_fn=lambda q: fn(q, None)[0])
            new = jtu.tree_map(lambda p, q: p + q, y, upd)
            conv = jnp.array(False) if prev is None else cauchy(self.norm, upd, y, f - prev, f, rtol, atol)
            track.push(new, aux, conv)
            y, prev = new, f


class Newton(RefCase):
    """Newton/chord with an arbitrary linear solver; bounds: subset of {"lower", "upper"}"""

    newton = True
    cauchy = True
    bounds = ()
    fails = False
    r_struct = (sds(1), sds())
    specs = LIN_SPEC

    def __init__(self, name, **kw):
        super().__init__(name, **kw)
        n = size_of(self.y_struct)
        for b in self.bounds:
            self.inputs[b] = Inp((n,))
        if not self.cauchy:
            self.inputs["kappa"] = Inp(sign="+")

    def assume(self, D, i):
        if len(self.bounds) < 2:
            return []
        return [D.le(a, b) for a, b in zip(i.lower.flat, i.upper.flat)]

    def problem(self, env, y0, rtol, atol, kappa=1e-2, **bd):
        fn = UserFn(env, "f", self.r_struct, aux=self.aux_struct)
        lin = OpaqueLin(env, self.fails)
        cls = optx.Newton if self.newton else optx.Chord
        solver = cls(rtol, atol, self.norm, kappa, lin, self.cauchy)
        opts = {k: unflat(v, self.y_struct) for k, v in bd.items()}
        return optx.root_find, fn, solver, unflat(y0, self.y_struct), opts or None

    def reference(self, env, fn, solver, y0, options, track, rtol, atol, kappa=1e-2, **bd):
        st = self.y_struct
        f_of = lambda y: fn(y, None)[0]
        lin = OpaqueLin(env, self.fails)
        J = jac_matrix(f_of, y0, st)
        y, prev = y0, None
        for it in range(self.steps):
            f, aux = fn(y, None)
            if self.newton:
                J = jac_matrix(f_of, y, st)
            d, c = lin.raw(J, flat_vec(f))
            v = flat_vec(y) - d
            if "lower" in bd:
                v = jnp.maximum(v, bd["lower"])
            if "upper" in bd:
                v = jnp.minimum(v, bd["upper"])
            new = unflat(v, st)
            step = unflat(flat_vec(y) - v, st) if bd else unflat(d, st)
            lres = R.where(c == 0, R.successful, R.where(c == 1, R.singular, R.max_steps_reached))
            if self.cauchy:
                zero = jtu.tree_map(jnp.zeros_like, f)
                stop = cauchy(self.norm, step, y, f, zero, rtol, atol)
                res = lres
            else:
                size = self.norm(jtu.tree_map(lambda p, q: p / (atol + rtol * jnp.abs(q)), step, new))
                stop, res = jnp.array(False), lres
                if it >= 1:
                    rate = size / prev
                    est = size * rate / (1 - rate)
                    tiny = size < 1e-13
                    div = ~jnp.isfinite(rate) | (rate > 2)
                    good = (est > 0) & (est < kappa)
                    stop = tiny | div | good
                    res = R.where(c == 0, R.where(div & ~tiny, R.nonlinear_divergence, R.successful), lres)
                prev = size
            track.push(new, aux, stop, res)
            y = new


def decrease_cases(tier):
    return []
