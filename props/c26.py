"""The SciPy-style interface."""

from .common import *
from .opaque import *
from .solves import *

BOUNDS = "limits of 1..3 (thorough 4) iterations and no limit, two unknowns, two extra function arguments, arbitrary tolerance; default, Euclidean and root-mean-square norm"
ASSUMPTIONS = [
    "real arithmetic; finite user function values and derivatives",
    "positive tolerance",
    "no limit: solves that end within the unrolling bound",
]


class Fun:
    """fun(x, *args)"""

    def __init__(self, env):
        self.env = env

    def __call__(self, x, a, b):
        return self.env.call("f", flat_vec(x, a, b), 1)[0]


class Compat(Case):
    """every field against the minimiser run on the same problem and against the user function"""

    norm_name = None
    tol_given = True
    limits = (1, 2, 3)
    n = 2

    def __init__(self, name, **kw):
        super().__init__(**kw)
        self.name = name
        self.inputs = dict(x0=Inp((self.n,)), tol=Inp(sign="+"), p=Inp((1,)), q=Inp())
        self.unroll = 5
        if None in self.limits:
            self.unwind = "assume"
            self.unroll = 3

    def run(self, env, x0, tol, p, q):
        fun = Fun(env)
        st = sds(self.n)
        o = {}
        for k in self.limits:
            opts = {}
            if k is not None:
                opts["maxiter"] = k
            if self.norm_name:
                opts["norm"] = NORMS[self.norm_name]
            kw = dict(tol=tol) if self.tol_given else {}
            res = optx.compat.minimize(fun, x0, (p, q), method="BFGS", options=opts or None, **kw)
            t = tol if self.tol_given else 1e-5
            norm = NORMS[self.norm_name] if self.norm_name else optx.max_norm
            sol = optx.minimise(lambda y, a: fun(y, *a), optx.BFGS(t, t, norm), x0, (p, q), max_steps=k, throw=False)
            c = f"k{k}_"
            o[c + "x"], o[c + "ok"], o[c + "status"] = res.x, jnp.asarray(res.success), jnp.asarray(res.status)
            o[c + "fun"], o[c + "jac"], o[c + "H"] = res.fun, res.jac, res.hess_inv
            o[c + "nfev"], o[c + "njev"], o[c + "nit"] = res.nfev, res.njev, res.nit
            o[c + "value"], o[c + "n"] = sol.value, sol.stats["num_steps"]
            for j, code in enumerate((R.successful, R.nonlinear_max_steps_reached)):
                o[c + f"code{j}"] = sol.result == code
            o[c + "f"] = fun(res.x, p, q)
            o[c + "g"] = jax.grad(lambda x: fun(x, p, q))(res.x)
        try:
            optx.compat.minimize(fun, x0, (p, q), method="bfgs", options=dict(gtol=1e-3))
            o["rejected"] = jnp.array(False)
        except ValueError:
            o["rejected"] = jnp.array(True)
        return o

    def claims(self, D, i, o):
        out = [("unknown-option-rejected", sc(o.rejected))]
        for k in self.limits:
            g = lambda q: sc(o[f"k{k}_{q}"])
            ok, maxed = g("code0"), g("code1")
            out.append((f"x-{k}", D.all_eq(g("x"), g("value"))))
            out.append((f"success-{k}", D.iff(g("ok"), ok)))
            out.append((f"status-0-{k}", D.iff(D.ieq(g("status"), 0), ok)))
            out.append((f"status-1-{k}", D.iff(D.ieq(g("status"), 1), maxed)))
            out.append((f"status-3-{k}", D.iff(D.ieq(g("status"), 3), D.not_(D.or_(ok, maxed)))))
            out.append((f"nfev-{k}", D.ieq(g("nfev"), g("n"))))
            out.append((f"njev-nit-{k}", D.and_(D.ieq(g("njev"), g("nit")), D.ile(g("nit"), g("n")), D.ile(1, g("nit")))))
            out.append((f"fun-{k}", D.eq(g("fun"), g("f"))))
            out.append((f"jac-{k}", D.all_eq(g("jac"), g("g"))))
            for a in range(self.n):
                for b in range(a):
                    out.append((f"symmetric-{k}-{a}-{b}", D.eq(g("H")[a, b], g("H")[b, a])))
        return out

    def witness(self, D, i, o):
        k = self.limits[-1]
        w = [("success", sc(o[f"k{k}_ok"]))]
        if k is not None:
            w.append(("limit", D.ieq(sc(o[f"k{k}_status"]), 1)))
        return w


def cases(tier):
    L = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    return [
        Compat("default-norm", limits=L),
        Compat("default-tol", limits=L[1:3], tol_given=False),
        Compat("euclidean", limits=L[1:3], norm_name="two"),
        Compat("rms", limits=L[1:3], norm_name="rms"),
        Compat("no-limit", limits=(None,)),
    ]
