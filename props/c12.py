"""Descents: the linear systems they solve, normalisation, failures."""

from .common import *
from .opaque import *
from .solves import NORMS, YS

BOUNDS = "two unknowns in a two-leaf pytree (thorough: also a three-dimensional one), 2-3 residuals, arbitrary derivative information and step sizes"
ASSUMPTIONS = [
    "the linear solver meets its contract: A x = b for square systems, the normal equations otherwise",
    "real arithmetic; step sizes above machine epsilon for the damped descents",
]


class Descent(Case):
    """init/query/step of a descent on arbitrary function information, twice in a row: the
    second query must not remember anything of the first one"""

    norm_name = None
    coded = True

    def __init__(self, name, kind, struct=YS, r_struct=(sds(), sds(2)), **kw):
        super().__init__(**kw)
        self.name = name
        self.info = InfoMaker(kind, struct, r_struct)
        self.inputs = dict(self.info.inputs("p_"))
        self.inputs.update(self.info.inputs("i_"))
        self.inputs.update(y=Inp((self.info.n,)), s=Inp(sign="+"), s0=Inp(sign="+"))
        if self.coded:
            self.inputs["code"] = Inp(dtype="i", lo=0, hi=2)
        self.specs = {"lsolve": dict(axioms=contract)}

    @property
    def norm(self):
        return None if self.norm_name is None else NORMS[self.norm_name]

    def run(self, env, **a):
        st = self.info.struct
        d = self.descent(env, a)
        y = unflat(a["y"], st)
        fstruct = eqx.filter_eval_shape(lambda: self.info.make(a, "i_"))
        state = d.init(y, fstruct)
        state = d.query(y, self.info.make(a, "p_"), state)
        d.step(a["s0"], state)
        info = self.info.make(a, "i_")
        state = d.query(y, info, state)
        step, res = d.step(a["s"], state)
        o = {"d": flat_vec(step)}
        if self.norm is not None:
            o["size"] = self.norm(step)
            if self.gradient:
                g = a["i_g"] if self.info.kind != "resjac" else a["i_J"].T @ a["i_r"]
                o["gnorm"] = self.norm(unflat(g, st))
        for j, r in enumerate((R.successful, R.singular, R.max_steps_reached)):
            o[f"code{j}"] = res == r
        return o

    gradient = False

    def grad(self, i):
        if self.info.kind == "resjac":
            J = i.i_J
            return [dot(J[:, p], i.i_r) for p in range(self.info.n)]
        return list(i.i_g)

    def apply(self, i, d):
        """Hessian (or its Gauss-Newton approximation) times d"""
        n = self.info.n
        if self.info.kind == "resjac":
            Jd = matvec(i.i_J, d)
            return [dot(i.i_J[:, p], Jd) for p in range(n)]
        return list(matvec(self.info.H(i, "i_"), d))

    def codes(self, D, i, o):
        c = sc(i.code) if self.coded else 0
        return [(f"code-{j}", D.iff(sc(o[f"code{j}"]), D.ieq(c, j))) for j in range(3)]


class Newton(Descent):
    def descent(self, env, a):
        return optx.NewtonDescent(self.norm, OpaqueLin(env, code=a.get("code")))

    def claims(self, D, i, o):
        d, s = list(o.d), sc(i.s)
        g = self.grad(i)
        out = []
        if self.norm is None:
            if self.info.kind == "hessinv":
                want = matvec(self.info.H(i, "i_"), g)
                out += [(f"step-{p}", D.eq(d[p], -(s * want[p]))) for p in range(len(d))]
            else:
                got = self.apply(i, d)
                out += [(f"system-{p}", D.eq(got[p], -(s * g[p]))) for p in range(len(d))]
        else:
            nz = D.or_(*[D.not_(D.eq(x, X0)) for x in g])
            if self.info.kind == "hessinv":
                v = matvec(self.info.H(i, "i_"), g)
                nz = D.or_(*[D.not_(D.eq(x, X0)) for x in v])
                for p in range(len(d)):
                    for q in range(p):
                        out.append((f"direction-{p}-{q}", D.implies(nz, D.eq(d[p] * v[q], d[q] * v[p]))))
                    out.append((f"sense-{p}", D.implies(nz, D.le(d[p] * v[p], X0))))
            else:
                got = self.apply(i, d)
                for p in range(len(d)):
                    for q in range(p):
                        out.append((f"direction-{p}-{q}", D.implies(nz, D.eq(got[p] * g[q], got[q] * g[p]))))
                    out.append((f"sense-{p}", D.implies(nz, D.le(got[p] * g[p], X0))))
            out.append(("length", D.implies(nz, D.eq(sc(o.size), s))))
        return out + self.codes(D, i, o)


class NewtonInv(Newton):
    coded = False


class Damped(Descent):
    def descent(self, env, a):
        return optx.DampedNewtonDescent(OpaqueLin(env, code=a.get("code")))

    def assume(self, D, i):
        return [D.lt(xc(2.0**-52), sc(i.s)), D.lt(xc(2.0**-52), sc(i.s0))]

    def claims(self, D, i, o):
        d, s = list(o.d), sc(i.s)
        g, got = self.grad(i), self.apply(i, d)
        out = [(f"system-{p}", D.eq(s * got[p] + d[p], -(s * g[p]))) for p in range(len(d))]
        return out + self.codes(D, i, o)


class Steepest(Descent):
    coded = False
    gradient = True

    def descent(self, env, a):
        return optx.SteepestDescent(self.norm)

    def claims(self, D, i, o):
        d, s, g = list(o.d), sc(i.s), self.grad(i)
        if self.norm is None:
            out = [(f"step-{p}", D.eq(d[p], -(s * g[p]))) for p in range(len(d))]
        else:
            nz = D.or_(*[D.not_(D.eq(x, X0)) for x in g])
            out = [(f"step-{p}", D.implies(nz, D.eq(d[p] * sc(o.gnorm), -(s * g[p])))) for p in range(len(d))]
            out.append(("length", D.implies(nz, D.eq(sc(o.size), s))))
        return out + self.codes(D, i, o)


class _One(eqx.Module):
    done: jax.Array


class OneShot(optx.AbstractRootFinder):
    """a root finder that stops after one evaluation, answering base + value"""

    base: jax.Array
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = eqx.field(static=True, default=optx.max_norm)

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return _One(jnp.array(False))

    def step(self, fn, y, args, options, state, tags):
        f, aux = fn(y, args)
        return self.base + f, _One(jnp.array(True)), aux

    def terminate(self, fn, y, args, options, state, tags):
        return state.done, R.successful

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {}


class Indirect(Descent):
    """the radius-matching damped descent: with an arbitrary answer of its root finder"""

    unroll = 3

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.inputs.update(lam0=Inp(sign="+"), base=Inp())
        self.specs = {}

    def descent(self, env, a):
        return optx.IndirectDampedNewtonDescent(a["lam0"], OpaqueLin(env, code=a.get("code")), OneShot(a["base"]), NORMS[self.radius])

    radius = "two"

    def run(self, env, **a):
        o = super().run(env, **a)
        # what the root finder must have been asked to zero, evaluated at lam0
        n = self.info.n
        lin = OpaqueLin(env)
        norm = lambda x: NORMS[self.radius](unflat(x, self.info.struct))

        def damped(lam):
            size = 1 / lam
            usual = size > jnp.finfo(size.dtype).eps
            lam = jnp.where(usual, 1 / jnp.where(usual, size, 1), jnp.finfo(size.dtype).max)
            if self.info.kind == "resjac":
                M = jnp.concatenate([a["i_J"], jnp.sqrt(lam) * jnp.eye(n)], 0)
                return lin.raw(M, jnp.concatenate([a["i_r"], jnp.zeros(n)]))[0]
            return lin.raw(symm(a["i_H"]) + lam * jnp.eye(n), a["i_g"])[0]

        newton, _ = lin.raw(a["i_J"], a["i_r"]) if self.info.kind == "resjac" else lin.raw(symm(a["i_H"]), a["i_g"])
        o["lam"] = a["base"] + norm(damped(a["lam0"])) - norm(newton) * a["s"]
        o["newton"], o["damped"] = -newton, -damped(o["lam"])
        return o

    def assume(self, D, i):
        return [D.le(sc(i.lam0), 10**12)]

    def claims(self, D, i, o):
        lam = sc(o.lam)
        small = D.and_(D.lt(sc(i.s), 1), D.ieq(sc(i.code), 0))
        ok = D.and_(D.lt(xc(1e-9), lam), D.lt(lam, 10**12))
        out = [
            ("newton", D.implies(D.not_(small), D.all_eq(o.d, o.newton))),
            ("damped", D.implies(D.and_(small, ok), D.all_eq(o.d, o.damped))),
        ]
        return out + self.codes(D, i, o)

    def witness(self, D, i, o):
        return [("damped", D.and_(D.lt(sc(i.s), 1), D.lt(xc(1e-3), sc(o.lam))))]


def cases(tier):
    out = []
    sq = (sds(1), sds())
    for kind in ("hess", "resjac"):
        out.append(Newton(f"newton-{kind}", kind))
        out.append(Damped(f"damped-{kind}", kind))
        out.append(Indirect(f"indirect-{kind}", kind))
        out.append(Indirect(f"indirect-max-{kind}", kind, radius="max"))
    out.append(Newton("newton-resjac-square", "resjac", r_struct=sq))
    out.append(Damped("damped-resjac-square", "resjac", r_struct=sq))
    out.append(NewtonInv("newton-hessinv", "hessinv"))
    for nm in NORMS:
        out.append(Newton(f"newton-hess-{nm}", "hess", norm_name=nm))
        out.append(NewtonInv(f"newton-hessinv-{nm}", "hessinv", norm_name=nm))
        out.append(Steepest(f"steepest-grad-{nm}", "grad", norm_name=nm))
        out.append(Steepest(f"steepest-resjac-{nm}", "resjac", norm_name=nm))
    for kind in InfoMaker.KINDS:
        out.append(Steepest(f"steepest-{kind}", kind))
    return out
