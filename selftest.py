"""Translator validation: run the interpreter on concrete inputs (rounding to double after
every operation) through the public API and compare with the real JAX execution."""

import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

import equinox as eqx
import jax

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import lineax as lx
import optimistix as optx
from symjax.interp import Ctx, eval_jaxpr, lift, lower


def both(f, *args, unroll=12):
    flat, td = jtu.tree_flatten(args)
    flat = [jnp.asarray(a) for a in flat]

    def g(*fl):
        return jtu.tree_leaves(f(*jtu.tree_unflatten(td, fl)))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        real = jax.jit(g)(*flat)
        closed = jax.make_jaxpr(g)(*flat)
    ctx = Ctx(unroll=unroll)
    ctx.round = True
    outs = eval_jaxpr(ctx, closed.jaxpr, [lift(c) for c in closed.consts], [lift(a) for a in flat])
    assert not ctx.unwind, "unwound"
    worst = 0.0
    for r, o in zip(real, outs):
        o = lower(o, r.dtype)
        r = np.asarray(r)
        if r.dtype.kind == "f":
            both_nan = np.isnan(r) & np.isnan(o)
            same = both_nan | (r == o)
            d = np.where(same, 0.0, np.abs(r - o) / (1e-8 + np.abs(r)))
            assert np.all(np.isfinite(d)), (r, o)
            worst = max(worst, float(d.max()) if d.size else 0.0)
        else:
            assert np.all(r == o), (r, o)
    return worst, ctx.neqns


def outs_of(sol):
    return dict(value=sol.value, res=sol.result == optx.RESULTS.successful, n=sol.stats["num_steps"], aux=sol.aux)


def rosen(y, args):
    a, b = y
    return jnp.stack([10 * (b - a**2), args - a]), a * b


def rosen_min(y, args):
    r, aux = rosen(y, args)
    return jnp.sum(r**2), aux


def root2(y, args):
    a, b = y
    return (a**2 + b - args, a - b**3), a + b


def fp(y, args):
    a, b = y
    return (0.5 * a + 0.1 * b**2 + args, 0.3 * b - 0.2 * a), a


def run(kind, solver, fn, y0, args, steps, **kw):
    api = {"min": optx.minimise, "ls": optx.least_squares, "root": optx.root_find, "fp": optx.fixed_point}[kind]

    def f(y0, args):
        return outs_of(api(fn, solver, y0, args, has_aux=True, max_steps=steps, throw=False, **kw))

    return both(f, y0, args)


def main():
    y0 = (jnp.array(0.7), jnp.array(-0.4))
    a = jnp.array(1.0)
    tol = dict(rtol=1e-3, atol=1e-3)
    todo = []
    for nm in "BFGS DFP LBFGS GradientDescent NonlinearCG NelderMead".split():
        s = getattr(optx, nm)(**tol) if nm != "GradientDescent" else optx.GradientDescent(0.01, **tol)
        todo.append(("min", nm, s, rosen_min))
    for m in (optx.polak_ribiere, optx.fletcher_reeves, optx.hestenes_stiefel, optx.dai_yuan):
        todo.append(("min", "NCG-" + m.__name__, optx.NonlinearCG(**tol, method=m), rosen_min))
    todo.append(("min", "BestSoFar", optx.BestSoFarMinimiser(optx.BFGS(**tol)), rosen_min))
    for nm in "LevenbergMarquardt Dogleg GaussNewton IndirectLevenbergMarquardt".split():
        todo.append(("ls", nm, getattr(optx, nm)(**tol), rosen))
    todo.append(("root", "Newton", optx.Newton(**tol), root2))
    todo.append(("root", "Chord", optx.Chord(**tol), root2))
    todo.append(("root", "LM", optx.LevenbergMarquardt(**tol), root2))
    todo.append(("root", "BFGS", optx.BFGS(**tol), root2))
    todo.append(("fp", "FixedPointIteration", optx.FixedPointIteration(**tol), fp))
    todo.append(("fp", "Newton", optx.Newton(**tol), fp))
    bad = 0
    for kind, nm, s, fn in todo:
        t = time.time()
        try:
            w, n = run(kind, s, fn, y0, a, 4)
            ok = w < 1e-6
            print(f"{'ok ' if ok else 'BAD'} {kind} {nm}: max relative difference {w:.2e}, {n} operations, {time.time()-t:.1f}s", flush=True)
        except Exception as e:
            ok = False
            print(f"BAD {kind} {nm}: {type(e).__name__} {str(e)[:300]}", flush=True)
            if "-v" in sys.argv:
                import traceback; traceback.print_exc()
        bad += not ok
    for nm, kind, s, fn, opts in [
        ("Bisection", "root", optx.Bisection(**tol), lambda y, a: (y**3 - a, y * 2), dict(lower=0.1, upper=2.0)),
        ("GoldenSearch", "min", optx.GoldenSearch(**tol), lambda y, a: ((y - a) ** 2 + y, y * 2), dict(lower=0.1, upper=2.0)),
    ]:
        try:
            w, n = run(kind, s, fn, jnp.array(0.7), a, 5, options=opts)
            ok = w < 1e-6
            print(f"{'ok ' if ok else 'BAD'} {nm}: {w:.2e}, {n}")
        except Exception as e:
            ok = False
            print(f"BAD {nm}: {type(e).__name__} {str(e)[:300]}")
            if "-v" in sys.argv:
                import traceback; traceback.print_exc()
        bad += not ok
    print("selftest", "FAILED" if bad else "passed")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
