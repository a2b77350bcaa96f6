"""The dogleg step against the dogleg path."""

from .c12 import *
from .c12 import Descent, _One

BOUNDS = "two unknowns, arbitrary gradient/Hessian or residual/Jacobian, arbitrary Newton point, arbitrary step size in [0, 4]"
ASSUMPTIONS = [
    "positive curvature along the gradient (above machine epsilon), Cauchy point not farther out than the Newton point (both hold for positive definite models)",
    "real arithmetic",
]
EPS = 2.0**-52


class Asked(optx.AbstractRootFinder):
    """a root finder that stops after one evaluation; its answer reveals what it was asked"""

    base: jax.Array
    code: jax.Array
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = eqx.field(static=True, default=optx.max_norm)

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return _One(jnp.array(False))

    def step(self, fn, y, args, options, state, tags):
        f, aux = fn(y, args)
        return self.base + f + 3 * options["lower"] + 5 * options["upper"], _One(jnp.array(True)), aux

    def terminate(self, fn, y, args, options, state, tags):
        return state.done, R.where(state.done & (self.code == 1), R.singular, R.successful)

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {}


class Dogleg(Descent):
    radius = "two"
    unroll = 3

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.specs = {}
        if self.radius != "two":
            self.inputs.update(base=Inp(), rcode=Inp(dtype="i", lo=0, hi=1))

    def descent(self, env, a):
        lin = OpaqueLin(env, code=a.get("code"))
        if self.radius == "two":
            return optx.DoglegDescent(lin)
        return optx.DoglegDescent(lin, Asked(a["base"], a["rcode"]), NORMS[self.radius])

    def run(self, env, **a):
        o = super().run(env, **a)
        lin = OpaqueLin(env)
        norm = lambda x: NORMS[self.radius](unflat(x, self.info.struct))
        if self.info.kind == "resjac":
            J, r = a["i_J"], a["i_r"]
            g = J.T @ r
            q = jnp.sum((J @ g) ** 2)
            newton = -lin.raw(J, r)[0]
        else:
            H, g = symm(a["i_H"]), a["i_g"]
            q = g @ (H @ g)
            newton = -lin.raw(H, g)[0]
        o["q"] = q
        cauchy = jnp.where(q > EPS, -(jnp.sum(g * g) / jnp.where(q > EPS, q, 1)) * g, 0.0)
        o["newton"], o["cauchy"] = newton, cauchy
        o["nn"], o["cn"] = norm(newton), norm(cauchy)
        delta = o["nn"] * a["s"]
        o["delta"] = delta
        if self.radius != "two":
            t = a["base"] + norm(cauchy + 0.5 * (newton - cauchy)) - delta + 3 + 10
            o["asked"] = cauchy + (t - 1) * (newton - cauchy)
        else:
            # Euclidean case: the point where the second leg leaves the region
            u = newton - cauchy
            A, B, C = jnp.sum(u * u), jnp.sum(cauchy * u), jnp.sum(cauchy * cauchy) - delta**2
            o["A"], o["B"], o["C"] = A, B, C
        return o

    def assume(self, D, i):
        return [D.le(sc(i.s), 4)]

    def assume_post(self, D, i, o, ctx):
        return [D.lt(xc(EPS), sc(o.q)), D.le(sc(o.cn), sc(o.nn)), D.lt(xc(EPS), sc(o.cn))]

    def claims(self, D, i, o):
        d, s = list(o.d), sc(i.s)
        c, n = list(o.cauchy), list(o.newton)
        cn, nn, delta = sc(o.cn), sc(o.nn), sc(o.delta)
        # (finiteness and the radius of the second leg in the Euclidean norm: see Line)
        out = [(f"finite-{p}", D.fin(d[p])) for p in range(2)] if self.radius != "two" else []
        full = D.le(xc(1.0), s)
        leg1 = D.and_(D.not_(full), D.lt(delta, cn))
        leg2 = D.and_(D.not_(full), D.le(cn, delta))
        for p in range(2):
            out.append((f"full-{p}", D.implies(full, D.eq(d[p], n[p]))))
            out.append((f"first-leg-{p}", D.implies(leg1, D.eq(d[p] * cn, delta * c[p]))))
        if self.radius == "two":
            u = [n[p] - c[p] for p in range(2)]
            w = [d[p] - c[p] for p in range(2)]
            out.append(("second-leg-line", D.implies(leg2, D.eq(w[0] * u[1], w[1] * u[0]))))
            return out + self.codes(D, i, o)
        out.append(("second-leg", D.implies(leg2, D.all_eq(o.d, o.asked))))
        ok = D.and_(D.ieq(sc(i.code), 0), D.or_(D.not_(leg2), D.ieq(sc(i.rcode), 0)))
        out.append(("code-0", D.iff(sc(o.code0), ok)))
        out.append(("code-2", D.iff(sc(o.code2), D.ieq(sc(i.code), 2))))
        return out

    def witness(self, D, i, o):
        return [("second-leg", D.and_(D.lt(sc(i.s), 1), D.le(sc(o.cn), sc(o.delta))))]


class Line(Case):
    """both legs in one dimension with the default radius: arbitrary Cauchy and Newton points"""

    unroll = 3
    name = "line"

    def __init__(self, name, opposite, kind="hess"):
        super().__init__(name=name)
        self.opposite, self.kind = opposite, kind
        self.inputs = dict(c=Inp(sign="+"), n=Inp(sign="+"), kappa=Inp(sign="+"), s=Inp(sign="+"), y=Inp(), flip=Inp(dtype="b"))

    def run(self, env, c, n, kappa, s, y, flip):
        sg = jnp.where(flip, -1.0, 1.0)
        c = sg * c
        n = sg * (-n if self.opposite else n)
        st = sds()
        H = lx.FunctionLinearOperator(lambda v: kappa * v, st, lx.symmetric_tag)
        info = optx.FunctionInfo.EvalGradHessian(jnp.array(0.0), -kappa * c, H)
        if self.kind == "resjac":
            info = optx.FunctionInfo.ResidualJac(-kappa * c, lx.FunctionLinearOperator(lambda v: kappa * v, st))
        d = optx.DoglegDescent(Given(-n))
        state = d.query(y, info, d.init(y, eqx.filter_eval_shape(lambda: info)))
        step, res = d.step(s, state)
        return dict(d=step, c=c, n=n, ok=res == R.successful)

    def assume(self, D, i):
        k, c, s, n = sc(i.kappa), sc(i.c), sc(i.s), sc(i.n)
        q = k * k * k * c * c
        if self.kind == "resjac":
            q = q * k * k * k
        return [D.lt(xc(EPS), q), D.le(c, n), D.lt(xc(EPS), c), D.le(s, 4)]

    def claims(self, D, i, o):
        d, c, n, s = sc(o.d), sc(o.c), sc(o.n), sc(i.s)
        delta = s * sc(i.n)
        full = D.le(xc(1.0), s)
        leg1 = D.and_(D.not_(full), D.lt(delta, sc(i.c)))
        leg2 = D.and_(D.not_(full), D.le(sc(i.c), delta))
        sg = D.ite(sc(i.flip), xc(-1.0), xc(1.0))
        out = [("finite", D.fin(d)), ("code", sc(o.ok))]
        out.append(("full", D.implies(full, D.eq(d, n))))
        out.append(("first-leg", D.implies(leg1, D.eq(d, sg * delta))))
        out.append(("second-leg", D.implies(leg2, D.eq(d, sg * (X0 - delta if self.opposite else delta)))))
        return out

    def witness(self, D, i, o):
        return [("second-leg", D.and_(D.lt(sc(i.s), 1), D.lt(sc(i.c), sc(i.s) * sc(i.n))))]


class Given(lx.AbstractLinearSolver):
    """a linear solver with a given answer"""

    x: jax.Array

    def init(self, operator, options):
        return ()

    def compute(self, state, vector, options):
        return self.x, lx.RESULTS.successful, {}

    def transpose(self, state, options):
        return (), {}

    def conj(self, state, options):
        return (), {}

    def assume_full_rank(self):
        return True


def cases(tier):
    out = [Line("line", False), Line("line-opposite", True), Line("line-residual", False, "resjac")]
    for kind in ("hess", "resjac"):
        if kind == "hess":
            out.append(Dogleg(f"dogleg-max-{kind}", kind, radius="max"))
        out.append(Dogleg(f"dogleg-{kind}", kind, r_struct=(sds(1), sds())))
    return out
