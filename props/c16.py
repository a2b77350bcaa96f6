"""Nonlinear conjugate gradients: textbook coefficients and directions."""

from .common import *
from .solves import YS

BOUNDS = "three successive queries on arbitrary gradients, two unknowns in a two-leaf pytree (thorough: three unknowns), arbitrary step size"
ASSUMPTIONS = ["real arithmetic", "a denominator counts as vanishing below the machine epsilon"]
EPS = 2.0**-52
METHODS = {
    "pr": optx.polak_ribiere,
    "fr": optx.fletcher_reeves,
    "hs": optx.hestenes_stiefel,
    "dy": optx.dai_yuan,
}


def beta(m, g, gp, d):
    """the textbook coefficients, d the previous direction"""
    num = {"pr": g @ (g - gp), "fr": g @ g, "hs": g @ (g - gp), "dy": g @ g}[m]
    den = {"pr": gp @ gp, "fr": gp @ gp, "hs": d @ (g - gp), "dy": d @ (g - gp)}[m]
    big = jnp.abs(den) > EPS
    b = jnp.where(big, num / jnp.where(big, den, 1), 0.0)
    return jnp.maximum(b, 0.0) if m == "pr" else b


class Directions(Case):
    queries = 3

    def __init__(self, name, method, kind, struct=YS, **kw):
        super().__init__(**kw)
        self.name, self.method = name, method
        self.info = InfoMaker(kind, struct, (sds(1), sds(1)))
        self.inputs = dict(y=Inp((self.info.n,)), s=Inp(sign="0+"))
        for k in range(self.queries):
            self.inputs.update(self.info.inputs(f"i{k}_"))

    def run(self, env, **a):
        st = self.info.struct
        y = unflat(a["y"], st)
        desc = optx.NonlinearCGDescent(METHODS[self.method])
        state = desc.init(y, eqx.filter_eval_shape(lambda: self.info.make(a, "i0_")))
        gp = d = jnp.zeros(self.info.n)
        o = {}
        for k in range(self.queries):
            state = desc.query(y, self.info.make(a, f"i{k}_"), state)
            step, res = desc.step(a["s"], state)
            one, _ = desc.step(jnp.array(1.0), state)
            g = a[f"i{k}_J"].T @ a[f"i{k}_r"] if self.info.kind == "resjac" else a[f"i{k}_g"]
            cand = -g + beta(self.method, g, gp, d) * d
            kept = g @ cand < 0
            o[f"step{k}"], o[f"one{k}"], o[f"ok{k}"] = flat_vec(step), flat_vec(one), res == optx.RESULTS.successful
            o[f"g{k}"], o[f"kept{k}"] = g, kept
            d = jnp.where(kept, cand, -g)
            o[f"want{k}"], gp = d, g
        return o

    def claims(self, D, i, o):
        out = []
        s = sc(i.s)
        for k in range(self.queries):
            want, one, g = o[f"want{k}"], o[f"one{k}"], o[f"g{k}"]
            out.append((f"direction-{k}", D.all_eq(one, want)))
            out.append((f"scaled-{k}", D.all_eq(o[f"step{k}"], vec(*[s * w for w in want]))))
            out.append((f"ok-{k}", sc(o[f"ok{k}"])))
            nz = D.or_(*[D.not_(D.eq(x, X0)) for x in g])
            out.append((f"descent-{k}", D.implies(nz, D.lt(dot(g, one), X0))))
        return out

    def witness(self, D, i, o):
        g, w = o[f"g{self.queries - 1}"], o[f"want{self.queries - 1}"]
        return [("not-steepest", D.or_(*[D.not_(D.eq(w[p], -g[p])) for p in range(len(g))]))]


class Agree(Case):
    """after an exact line search on a quadratic the four coefficients coincide"""

    name = "coefficients-agree"
    inputs = dict(g=Inp((2,)), gp=Inp((2,)), d=Inp((2,)))

    def run(self, env, g, gp, d):
        t = lambda v: unflat(v, YS)
        return {m: f(t(g), t(gp), t(d)) for m, f in METHODS.items()}

    def assume(self, D, i):
        return [D.eq(dot(i.g, i.gp), X0), D.eq(dot(i.g, i.d), X0), D.eq(dot(i.gp, i.d), -dot(i.gp, i.gp)), D.lt(xc(EPS), dot(i.gp, i.gp))]

    def claims(self, D, i, o):
        want = dot(i.g, i.g) / dot(i.gp, i.gp)
        return [(f"beta-{m}", D.eq(sc(o[m]), want)) for m in METHODS]


class Conjugate(Case):
    """Hestenes-Stiefel directions are conjugate to the gradient change"""

    name = "hs-conjugate"
    inputs = dict(g=Inp((2,)), gp=Inp((2,)), d=Inp((2,)))

    def run(self, env, g, gp, d):
        t = lambda v: unflat(v, YS)
        return dict(b=optx.hestenes_stiefel(t(g), t(gp), t(d)))

    def claims(self, D, i, o):
        diff = [a - b for a, b in zip(i.g, i.gp)]
        den = dot(i.d, diff)
        big = D.or_(D.lt(xc(EPS), den), D.lt(den, xc(-EPS)))
        new = [-a + sc(o.b) * b for a, b in zip(i.g, i.d)]
        return [("conjugate", D.implies(big, D.eq(dot(new, diff), X0)))]


def cases(tier):
    out = [Agree(), Conjugate()]
    for m in METHODS:
        out.append(Directions(f"{m}-grad", m, "grad"))
        out.append(Directions(f"{m}-resjac", m, "resjac", queries=2))
        if tier != "quick":
            out += [Directions(f"{m}-{k}", m, k, queries=2) for k in ("hess", "hessinv")]
            out.append(Directions(f"{m}-grad-3d", m, "grad", struct=PY))
    return out
