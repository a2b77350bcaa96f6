"""Arbitrary (opaque) implementations of the library's public interfaces.

Each answer is an uninterpreted function of everything the library hands over, so a claim
proved with them holds for every implementation of the interface, and any wrong argument
shows up as a different answer."""

from .common import *

R = optx.RESULTS
CODES = (R.successful, R.nonlinear_divergence, R.singular)


def code(i):
    """0..2 -> result"""
    return R.where(i == 0, CODES[0], R.where(i == 1, CODES[1], CODES[2]))


def is_code(r, i):
    return r == CODES[i]


CODE_SPEC = dict(range=(0, 2))


def ints(env, name, vec, lo=0):
    return env.call(name, vec, 1, "i")[0]


class _SolverState(eqx.Module):
    k: jax.Array
    term: jax.Array
    res: optx.RESULTS


class _OpaqueSolver(eqx.Module):
    """arbitrary solver: its moves, stop flags, result codes and post-processing are opaque;
    it also evaluates the user function at its current point"""

    env: object = eqx.field(static=True)
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = eqx.field(static=True, default=optx.max_norm)

    def _flags(self, vec):
        return self.env.call("stop", vec, 1, "b")[0], code(ints(self.env, "code", vec))

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        vec = flat_vec(jnp.array(0.0), y)
        t, r = self._flags(vec)
        return _SolverState(jnp.array(0), t, r)

    def step(self, fn, y, args, options, state, tags):
        f, aux = fn(y, args)
        k = state.k + 1
        vec = flat_vec(k.astype(jnp.float64), y, f)
        new = unflat(self.env.call("move", vec, size_of(y)), y)
        t, r = self._flags(vec)
        return new, _SolverState(k, t, r), aux

    def terminate(self, fn, y, args, options, state, tags):
        return state.term, state.res

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return unflat(self.env.call("post", flat_vec(y), size_of(y)), y), aux, {"final": state.k}


class OpaqueRoot(_OpaqueSolver, optx.AbstractRootFinder):
    pass


class OpaqueMin(_OpaqueSolver, optx.AbstractMinimiser):
    pass


class OpaqueLsq(_OpaqueSolver, optx.AbstractLeastSquaresSolver):
    pass


class OpaqueFix(_OpaqueSolver, optx.AbstractFixedPointSolver):
    pass


ENTRY = {
    "root_find": (optx.root_find, OpaqueRoot),
    "minimise": (optx.minimise, OpaqueMin),
    "least_squares": (optx.least_squares, OpaqueLsq),
    "fixed_point": (optx.fixed_point, OpaqueFix),
}


# ------------------------------------------------------------------ searches and descents


class _Cnt(eqx.Module):
    k: jax.Array


def info_vec(info, struct):
    """everything a piece of function information says, as a vector"""
    FI = optx.FunctionInfo
    if isinstance(info, FI.ResidualJac):
        return flat_vec(info.residual, op_matrix(info.jac, struct))
    if isinstance(info, FI.Residual):
        return flat_vec(info.residual)
    parts = [info.f]
    if hasattr(info, "grad"):
        parts.append(info.grad)
    if isinstance(info, FI.EvalGradHessian):
        parts.append(op_matrix(info.hessian, struct))
    if isinstance(info, FI.EvalGradHessianInv):
        parts.append(op_matrix(info.hessian_inv, struct))
    return flat_vec(*parts)


def op_matrix(op, struct):
    n = size_of(struct)
    cols = [flat_vec(op.mv(unflat(jnp.zeros(n).at[j].set(1.0), struct))) for j in range(n)]
    return jnp.stack(cols, 1)


class OpaqueSearch(optx.AbstractSearch):
    """accept/step size/result are opaque functions of all arguments and the call count; the
    first step is accepted as the interface demands, and its dummy arguments are ignored"""

    env: object = eqx.field(static=True)
    fails: bool = eqx.field(static=True, default=False)

    def init(self, y, f_info_struct):
        return _Cnt(jnp.array(0))

    def step(self, first_step, y, y_eval, f_info, f_eval_info, state):
        st = jax.eval_shape(lambda: y)
        ev = f_eval_info
        if isinstance(ev, optx.FunctionInfo.ResidualJac):
            ev = optx.FunctionInfo.Residual(ev.residual)
        cur = flat_vec(y, info_vec(f_info, st))
        cur = jnp.where(first_step, jnp.zeros_like(cur), cur)
        vec = jnp.concatenate([flat_vec(state.k.astype(jnp.float64), first_step.astype(jnp.float64), y_eval, info_vec(ev, st)), cur])
        acc = self.env.call("accept", vec, 1, "b")[0] | first_step
        size = self.env.call("size", vec, 1)[0]
        res = code(ints(self.env, "scode", vec)) if self.fails else R.successful
        return size, acc, res, _Cnt(state.k + 1)


class _DescentState(eqx.Module):
    v: jax.Array


class OpaqueDescent(optx.AbstractDescent):
    env: object = eqx.field(static=True)
    fails: bool = eqx.field(static=True, default=False)

    def init(self, y, f_info_struct):
        return _DescentState(jnp.zeros(1))

    def query(self, y, f_info, state):
        st = jax.eval_shape(lambda: y)
        return _DescentState(self.env.call("query", flat_vec(y, info_vec(f_info, st), state.v), 1))

    def step(self, step_size, state):
        raise NotImplementedError


class OpaqueDescentFor(OpaqueDescent):
    """opaque descent on the space `struct`"""

    struct: object = eqx.field(static=True, default=None)

    def step(self, step_size, state):
        vec = flat_vec(step_size, state.v)
        d = unflat(self.env.call("descend", vec, size_of(self.struct)), self.struct)
        return d, (code(ints(self.env, "dcode", vec)) if self.fails else R.successful)


# ------------------------------------------------------------------ linear solves


def _pack(struct):
    leaves, treedef = jtu.tree_flatten(struct)
    return tuple((l.shape, str(l.dtype)) for l in leaves), treedef


def _unpack(p):
    return jtu.tree_unflatten(p[1], [jax.ShapeDtypeStruct(s, d) for s, d in p[0]])


class _LinState(eqx.Module):
    A: jax.Array
    ins: object = eqx.field(static=True)
    outs: object = eqx.field(static=True)


LCODES = (lx.RESULTS.successful, lx.RESULTS.singular, lx.RESULTS.max_steps_reached)


def lcode(i):
    return lx.RESULTS.where(i == 0, LCODES[0], lx.RESULTS.where(i == 1, LCODES[1], LCODES[2]))


class OpaqueLin(lx.AbstractLinearSolver):
    """an arbitrary linear solver: answer and result code are opaque functions of the matrix and
    the right-hand side.  `contract_axiom` below adds what a correct one guarantees."""

    env: object = eqx.field(static=True)
    fails: bool = eqx.field(static=True, default=False)
    key: str = eqx.field(static=True, default="lsolve")
    code: object = None  # given result code instead of an opaque one

    def init(self, operator, options):
        return _LinState(operator.as_matrix(), _pack(operator.in_structure()), _pack(operator.out_structure()))

    def raw(self, A, b):
        vec = flat_vec(A, b)
        x = self.env.call(self.key, vec, A.shape[1])
        if self.code is not None:
            return x, self.code
        c = ints(self.env, self.key + "_code", vec) if self.fails else jnp.array(0)
        return x, c

    def compute(self, state, vector, options):
        x, c = self.raw(state.A, flat_vec(vector))
        return unflat(x, _unpack(state.ins)), lcode(c), {}

    def transpose(self, state, options):
        return _LinState(state.A.T, state.outs, state.ins), {}

    def conj(self, state, options):
        return state, {}

    def assume_full_rank(self):
        return True


def contract(ctx, app):
    """what a correct linear solver guarantees: A x = b, or the normal equations"""
    if app.order:
        return []
    n = len(app.outs)
    m = len(app.args) // (n + 1)
    A = np.array(app.args[: m * n], dtype=object).reshape(m, n)
    b, x = app.args[m * n :], app.outs
    res = [dot(A[p], x) - b[p] for p in range(m)]
    out = [dot(A[:, q], res) for q in range(n)]
    if m == n:
        out += res
    return [b2z(xeq(e, X0)) for e in out]


LIN_SPEC = {"lsolve_code": CODE_SPEC}
