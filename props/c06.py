"""Golden-section search against the textbook recursion."""

from .common import *
from .solves import Track, cauchy, is_code, tree_sel

BOUNDS = "solves of 1..5 (thorough 9) steps on arbitrary functions; unimodal functions for the minimiser-retention claims"
ASSUMPTIONS = ["real arithmetic (no rounding); finite function values", "the golden ratio is the code's own constant, checked to 1e-9"]

RHO = (3 - 5**0.5) / 2


class YAux:
    """the user function, whose auxiliary output is the point it was evaluated at"""

    def __init__(self, env):
        self.f = UserFn(env, "f", sds())

    def __call__(self, y, args):
        return self.f(y, args), y


class Golden(Case):
    unimodal = False

    def __init__(self, name, steps, **kw):
        super().__init__(**kw)
        self.name, self.steps = name, steps
        self.unroll = steps + 2
        self.inputs = dict(lower=Inp(), upper=Inp(), y0=Inp(), rtol=Inp(sign="0+"), atol=Inp(sign="+"))
        if self.unimodal:
            self.inputs["best"] = Inp()
            self.specs = {"f": dict(axioms=self.shape)}

    def shape(self, ctx, app):
        """strictly decreasing before `best`, strictly increasing after it"""
        best = z3.Real("best")
        out = []
        for b in ctx.apps:
            if b.name != "f" or b.order != 0 or b is app:
                continue
            for p, q in ((app, b), (b, app)):
                x, y, fx, fy = p.args[0].v, q.args[0].v, p.outs[0].v, q.outs[0].v
                x, y = r2z(x), r2z(y)
                out.append(z3.Implies(z3.And(x < y, y <= best), fx > fy))
                out.append(z3.Implies(z3.And(best <= x, x < y), fx < fy))
        return out

    def assume(self, D, i):
        h = [D.lt(sc(i.lower), sc(i.upper))]
        if self.unimodal:
            h += [D.le(sc(i.lower), sc(i.best)), D.le(sc(i.best), sc(i.upper))]
        return h

    def run(self, env, lower, upper, y0, rtol, atol, best=None):
        fn = YAux(env)
        o = {}
        for k in range(1, self.steps + 1):
            sol = optx.minimise(fn, optx.GoldenSearch(rtol, atol), y0, None, dict(lower=lower, upper=upper), has_aux=True, max_steps=k, throw=False)
            o[f"s{k}_value"], o[f"s{k}_at"], o[f"s{k}_n"] = sol.value, sol.aux, sol.stats["num_steps"]
            o[f"s{k}_ok"] = sol.result == optx.RESULTS.successful
            o[f"s{k}_maxed"] = sol.result == optx.RESULTS.nonlinear_max_steps_reached
        # textbook recursion, from the interior point implied by the first evaluation
        l, u = lower, upper
        x = o["s1_at"]
        m = l + u - x
        o["m0"] = m
        fm = fn(m, None)[0]
        live = jnp.array(True)
        for k in range(1, self.steps + 1):
            fx = fn(x, None)[0]
            o[f"r{k}_live"], o[f"r{k}_at"] = live, x
            stop = (jnp.abs(m - x) < atol + rtol * jnp.abs(m)) & (jnp.abs(fm - fx) < atol + rtol * jnp.abs(fm))
            left = x < m
            better = fx < fm
            nl = jnp.where(better, jnp.where(left, l, m), jnp.where(left, x, l))
            nu = jnp.where(better, jnp.where(left, m, u), jnp.where(left, u, x))
            nm, nfm = jnp.where(better, x, m), jnp.where(better, fx, fm)
            o[f"r{k}_w"] = u - l
            l, u, m, fm = nl, nu, nm, nfm
            x = l + (u - m)
            o.update({f"r{k}_stop": stop, f"r{k}_x": x, f"r{k}_l": l, f"r{k}_u": u, f"r{k}_m": m, f"r{k}_fm": fm, f"r{k}_fx": fx})
            live = live & ~stop
        return o

    def claims(self, D, i, o):
        lo, up = sc(i.lower), sc(i.upper)
        w = up - lo
        out = []
        off = sc(o.m0) - lo
        eps = w * xc(1e-9)
        out.append(("golden-start", D.and_(D.le(w * xc(RHO) - eps, off), D.le(off, w * xc(RHO) + eps))))
        for k in range(1, self.steps + 1):
            g = lambda q: sc(o[f"s{k}_{q}"])
            r = lambda q: sc(o[f"r{k}_{q}"])
            if self.unimodal:
                b = sc(i.best)
                out.append((f"minimiser-retained-{k}", D.implies(r("live"), D.and_(D.le(r("l"), b), D.le(b, r("u"))))))
                out.append((f"value-{k}", D.implies(r("live"), D.eq(g("value"), r("x")))))
                continue
            out.append((f"evaluates-{k}", D.implies(r("live"), D.eq(g("at"), r("at")))))
            out.append((f"evaluates-inside-{k}", D.implies(r("live"), D.and_(D.le(lo, g("at")), D.le(g("at"), up)))))
            out.append((f"next-{k}", D.implies(r("live"), D.eq(g("value"), r("x")))))
            out.append((f"value-inside-{k}", D.and_(D.le(lo, g("value")), D.le(g("value"), up))))
            out.append((f"success-iff-{k}", D.implies(r("live"), D.iff(g("ok"), r("stop")))))
            out.append((f"steps-{k}", D.implies(r("live"), D.ieq(g("n"), k))))
            out.append((f"else-max-steps-{k}", D.or_(g("ok"), g("maxed"))))
            nw = r("u") - r("l")
            ph = xc(1 - RHO)
            # start-up: the first interval is split at the golden ratio, then it shrinks by it
            e = r("w") * xc(1e-6)
            out.append((f"shrinks-{k}", D.implies(r("live"), D.and_(D.le(nw, r("w") * ph + e), D.le(r("w") * ph - e, nw)))))
        return out

    def witness(self, D, i, o):
        K = self.steps
        return [("live", sc(o[f"r{K}_live"])), ("success", sc(o[f"s{K}_ok"])) if not self.unimodal else ("live2", sc(o[f"r{K}_live"]))]


class Unimodal(Golden):
    unimodal = True


def cases(tier):
    K = 5 if tier == "quick" else 9
    return [Golden("search", K), Unimodal("unimodal", K)]
