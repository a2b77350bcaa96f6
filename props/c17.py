"""Nelder-Mead: the initial simplex, the moves, the returned vertex and the stopping test."""

from .common import *
from .solves import *
from .solves import _zeros

BOUNDS = "one and two unknowns (pytrees of scalars), initial simplex up to three unknowns; solves of 1..3 steps (thorough 4); arbitrary objective"
ASSUMPTIONS = ["real arithmetic; finite objective values", "the objective takes different values at the vertices of a simplex (no ties)"]


class Simplex(RefCase):
    """the documented moves, written with one vertex per row"""

    extra_inputs = dict(rdelta=Inp(), adelta=Inp())
    groups = ("moves", "stop")
    smt = True

    def problem(self, env, y0, rtol, atol, rdelta, adelta):
        fn = UserFn(env, "f", sds(), aux=self.aux_struct)
        solver = optx.NelderMead(rtol, atol, self.norm, rdelta, adelta)
        return optx.minimise, fn, solver, unflat(y0, self.y_struct), None

    def start(self, y0, rdelta, adelta):
        n = y0.shape[0]
        rows = [y0] + [y0.at[j].add(adelta + rdelta * y0[j]) for j in range(n)]
        return jnp.stack(rows)

    def reference(self, env, fn, solver, y0, options, track, rtol, atol, rdelta, adelta):
        st = self.y_struct
        f_of = lambda v: fn(unflat(v, st), None)[0]
        V = self.start(flat_vec(y0), rdelta, adelta)
        n = V.shape[1]
        F = jnp.stack([f_of(v) for v in V])
        self.values = [F]
        for it in range(self.steps):
            if it:
                worst, best = V[w], V[i]
                d = sum((v - worst) / n for v in V)
                refl = worst + 2 * d
                fr = f_of(refl)
                contract = jnp.where(fr > fw, worst + 0.5 * d, worst + 1.5 * d)
                new = jnp.where(fr > second, contract, jnp.where(fr < fb, worst + 3 * d, refl))
                f_new = f_of(new)
                shrink = f_new > fw
                best = jnp.where(f_new < fb, new, best)
                V1, F1 = V.at[w].set(new), F.at[w].set(f_new)
                V2 = best + 0.5 * (V - best)
                F2 = jnp.stack([f_of(v) for v in V2])
                V, F = jnp.where(shrink, V2, V1), jnp.where(shrink, F2, F1)
                self.values.append(F)
            (fb,), (i,) = jax.lax.top_k(-F, 1)
            fb = -fb
            (fw, second), (w, _) = jax.lax.top_k(F, 2)
            y = V[i]
            dx = jnp.abs(V - y) / (atol + rtol * jnp.abs(y))
            df = jnp.abs(F - F[i]) / (atol + rtol * jnp.abs(F[i]))
            stop = (self.norm(dx) < 1) & (self.norm(df) < 1)
            track.push(unflat(y, st), _zeros(self.aux_struct), stop)

    def run(self, env, **a):
        o = super().run(env, **a)
        o["fs"] = self.values
        return o

    keep_going = False  # only solves that have not stopped before the last step

    def assume_post(self, D, i, o, ctx):
        going = [D.not_(sc(o[f"r{k}_stop"])) for k in range(1, self.steps)] if self.keep_going else []
        return going + [D.not_(D.eq(F[p], F[q])) for F in o.fs for p in range(len(F)) for q in range(p)]

    rejects = False


S1 = sds()
S2 = {"a": sds(), "b": sds()}
S3 = (sds(), sds(), sds())


def cases(tier):
    K = 3 if tier == "quick" else 4
    one = dict(steps=1, groups=("moves",))
    out = [Simplex("line", y_struct=S1, steps=K)]
    out.append(Simplex("plane", y_struct=S2, steps=K, groups=("moves",), keep_going=True))
    out.append(Simplex("plane-stop", y_struct=S2, steps=2 if tier == "quick" else 3, groups=("stop",), keep_going=True))
    out.append(Simplex("start-scalars-3", y_struct=S3, **one))
    for s, nm in ((sds(1), "array-1"), (sds(2), "array-2"), (sds(3), "array-3"), ({"a": sds(2), "b": sds()}, "mixed-3")):
        out.append(Simplex("start-" + nm, y_struct=s, **one))
    return out
