"""Shared pieces of the harnesses: only public API of optimistix is used."""

import itertools

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import numpy as np
import optimistix as optx

from symjax.harness import Case, Inp, UserFn, flat_vec, sds, size_of, unflat
from symjax.terms import *


def sol_out(sol, pre=""):
    r = sol.result
    return {
        pre + "value": sol.value,
        pre + "ok": r == optx.RESULTS.successful,
        pre + "maxed": r == optx.RESULTS.nonlinear_max_steps_reached,
        pre + "nonfin": r == optx.RESULTS.nonfinite,
        pre + "n": sol.stats["num_steps"],
        pre + "aux": sol.aux,
    }


def sc(a):
    """scalar out of a 0-d object array"""
    return a[()] if isinstance(a, np.ndarray) and a.ndim == 0 else a


def dot(a, b):
    r = X0
    for x, y in zip(np.asarray(a, dtype=object).flat, np.asarray(b, dtype=object).flat):
        r = r + x * y
    return r


def matvec(A, v):
    A = np.asarray(A, dtype=object)
    return np.array([dot(A[i], v) for i in range(A.shape[0])] + [None], dtype=object)[:-1]


def vec(*xs):
    o = np.empty(len(xs), object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


def op_of(A, struct, tags=()):
    """linear operator on the pytree space `struct` with matrix A"""
    if isinstance(struct, jax.ShapeDtypeStruct) and len(struct.shape) == 1:
        return lx.MatrixLinearOperator(A, tags)
    return lx.FunctionLinearOperator(lambda v: unflat(A @ flat_vec(v), struct), struct, tags)


def jac_op(A, y_struct, r_struct):
    if isinstance(y_struct, jax.ShapeDtypeStruct) and isinstance(r_struct, jax.ShapeDtypeStruct) and len(y_struct.shape) == 1 and len(r_struct.shape) == 1:
        return lx.MatrixLinearOperator(A)
    return lx.FunctionLinearOperator(lambda v: unflat(A @ flat_vec(v), r_struct), y_struct)


def symm(A):
    """symmetric matrix with the lower triangle of A"""
    L = jnp.tril(A)
    return L + jnp.tril(A, -1).T


PY = {"a": sds(), "b": sds(2)}  # a three-dimensional pytree space
V2 = sds(2)
PR = (sds(), sds(1))  # a two-dimensional residual space


class InfoMaker:
    """builds every kind of function information from flat inputs"""

    KINDS = ("grad", "hess", "hessinv", "resjac")

    def __init__(self, kind, struct, r_struct=None):
        self.kind, self.struct, self.r_struct = kind, struct, r_struct
        self.n = size_of(struct)
        self.m = size_of(r_struct) if r_struct is not None else None

    def inputs(self, pre):
        n = self.n
        d = {pre + "g": Inp((n,)), pre + "f": Inp()}
        if self.kind == "hess":
            d[pre + "H"] = Inp((n, n))
        if self.kind == "hessinv":
            d[pre + "H"] = Inp((n, n))
        if self.kind == "resjac":
            d = {pre + "r": Inp((self.m,)), pre + "J": Inp((self.m, n))}
        return d

    def make(self, a, pre):
        FI = optx.FunctionInfo
        if self.kind == "resjac":
            return FI.ResidualJac(unflat(a[pre + "r"], self.r_struct), jac_op(a[pre + "J"], self.struct, self.r_struct))
        g = unflat(a[pre + "g"], self.struct)
        if self.kind == "grad":
            return FI.EvalGrad(a[pre + "f"], g)
        H = symm(a[pre + "H"])
        H = op_of(H, self.struct, lx.symmetric_tag)
        return FI.EvalGradHessian(a[pre + "f"], g, H) if self.kind == "hess" else FI.EvalGradHessianInv(a[pre + "f"], g, H)

    # reference quantities
    def f(self, i, pre):
        return dot(i[pre + "r"], i[pre + "r"]) / 2 if self.kind == "resjac" else sc(i[pre + "f"])

    def H(self, i, pre):
        A = i[pre + "H"]
        n = self.n
        return np.array([[A[max(p, q), min(p, q)] for q in range(n)] for p in range(n)], dtype=object)

    def grad_dot(self, i, pre, d):
        if self.kind == "resjac":
            return dot(i[pre + "r"], matvec(i[pre + "J"], d))
        return dot(i[pre + "g"], d)

    def quad(self, i, pre, d):
        if self.kind == "resjac":
            Jd = matvec(i[pre + "J"], d)
            return dot(i[pre + "r"], Jd) + dot(Jd, Jd) / 2
        return dot(i[pre + "g"], d) + dot(d, matvec(self.H(i, pre), d)) / 2


class SearchCase(Case):
    """a search stepped three times on arbitrary function information"""

    steps = 3

    def __init__(self, name, info, eval_kind="eval", **kw):
        super().__init__(**kw)
        self.name, self.info, self.eval_kind = name, info, eval_kind
        n = info.n
        self.inputs = dict(self.params())
        for k in range(self.steps):
            self.inputs.update(info.inputs(f"i{k}_"))
            self.inputs[f"y{k}"] = Inp((n,))
            self.inputs[f"e{k}"] = Inp((n,))
            if eval_kind == "eval":
                self.inputs[f"fe{k}"] = Inp(nonfinite=True)
            else:
                self.inputs[f"re{k}"] = Inp((info.m,))

    def run(self, env, **a):
        st = self.info.struct
        search = self.search(a)
        fstruct = eqx.filter_eval_shape(lambda: self.info.make(a, "i0_"))
        state = search.init(unflat(a["y0"], st), fstruct)
        o = {}
        for k in range(self.steps):
            fi = self.info.make(a, f"i{k}_")
            if self.eval_kind == "eval":
                fe = optx.FunctionInfo.Eval(a[f"fe{k}"])
            else:
                fe = optx.FunctionInfo.Residual(unflat(a[f"re{k}"], self.info.r_struct))
            size, acc, res, state = search.step(
                jnp.array(k == 0), unflat(a[f"y{k}"], st), unflat(a[f"e{k}"], st), fi, fe, state
            )
            o[f"size{k}"], o[f"acc{k}"] = size, acc
            o[f"ok{k}"] = res == optx.RESULTS.successful
        return o

    def fe(self, i, k):
        if self.eval_kind == "eval":
            return sc(i[f"fe{k}"])
        return dot(i[f"re{k}"], i[f"re{k}"]) / 2
