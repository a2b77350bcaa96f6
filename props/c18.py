"""Best-so-far wrappers around an arbitrary solver."""

from .common import *
from .opaque import *
from .solves import YS, allfin, tree_sel

BOUNDS = "arbitrary wrapped solver, max_steps 1..3 (thorough 5), y a two-leaf pytree, objective values possibly NaN/infinite"
ASSUMPTIONS = [
    "the wrapped solver returns, with each step, the auxiliary output of the point the step started from (C19)",
    "real arithmetic",
]

WRAP = {
    "minimise": optx.BestSoFarMinimiser,
    "least_squares": optx.BestSoFarLeastSquares,
    "root_find": optx.BestSoFarRootFinder,
    "fixed_point": optx.BestSoFarFixedPoint,
}


class Best(Case):
    inputs = dict(y0=Inp((2,)))

    def __init__(self, name, entry, steps, nonfinite, **kw):
        super().__init__(**kw)
        self.name, self.entry, self.steps = name, entry, steps
        self.unroll = steps + 2
        self.specs = {"code": CODE_SPEC, "move": dict(nonfinite=True)}
        if nonfinite:
            self.specs["f"] = dict(nonfinite=True)

    def loss(self, y, f):
        sq = lambda t: sum(jnp.sum(l**2) for l in jtu.tree_leaves(t))
        if self.entry == "minimise":
            return f
        if self.entry == "fixed_point":
            return sq(jtu.tree_map(lambda a, b: a - b, f, y))
        return sq(f)

    def run(self, env, y0):
        solve, cls = ENTRY[self.entry]
        out = {"root_find": (sds(1),), "minimise": sds(), "least_squares": (sds(), sds(1)), "fixed_point": YS}[self.entry]
        fn = UserFn(env, "f", out, aux={"q": sds(1)})
        y0 = unflat(y0, YS)
        inner = cls(env)
        o = {}
        for pre, solver, ms in [("b_", WRAP[self.entry](inner), self.steps)] + [(f"i{k}_", inner, k) for k in range(1, self.steps + 1)]:
            sol = solve(fn, solver, y0, None, has_aux=True, max_steps=ms, throw=False)
            o.update({pre + "value": flat_vec(sol.value), pre + "aux": flat_vec(sol.aux), pre + "n": sol.stats["num_steps"]})
            for j in range(3):
                o[pre + f"code{j}"] = is_code(sol.result, j)
            o[pre + "nonfin"] = sol.result == R.nonfinite
            o[pre + "maxed"] = sol.result == R.nonlinear_max_steps_reached
        # the points the steps of the wrapped solver start from
        y = y0
        st = inner.init(fn, y0, None, {}, None, None, frozenset())
        live = ~st.term & (st.res == R.successful)
        f, aux = fn(y, None)
        for k in range(self.steps):
            f, aux = fn(y, None)
            o[f"y{k}"], o[f"loss{k}"], o[f"aux{k}"], o[f"live{k}"] = flat_vec(y), self.loss(y, f), flat_vec(aux), live
            ny, nst, _ = inner.step(fn, y, None, {}, st, frozenset())
            live = live & allfin(ny) & ~nst.term & (nst.res == R.successful)
            y, st = ny, nst
        return o

    def claims(self, D, i, o):
        K = self.steps
        last = f"i{K}_"
        out = [("same-steps", D.ieq(sc(o.b_n), sc(o[last + "n"])))]
        for q in ("code0", "code1", "code2", "nonfin", "maxed"):
            out.append((f"same-{q}", D.iff(sc(o["b_" + q]), sc(o[last + q]))))
        val, aux = o.b_value, o.b_aux
        # a loss that is NaN or +inf is never best
        usable = [D.and_(sc(o[f"live{k}"]), D.lt(sc(o[f"loss{k}"]), PINF)) for k in range(K)]
        some = D.or_(*usable)
        hit = []
        for k in range(K):
            best = D.and_(usable[k], *[D.implies(usable[j], D.le(sc(o[f"loss{k}"]), sc(o[f"loss{j}"]))) for j in range(K) if j != k])
            hit.append(D.and_(best, D.all_eq(val, o[f"y{k}"]), D.all_eq(aux, o[f"aux{k}"])))
        out.append(("best-of-visited", D.implies(some, D.or_(*hit))))
        out.append(("start-if-none", D.implies(D.not_(some), D.all_eq(val, i.y0))))
        return out

    def witness(self, D, i, o):
        K = self.steps
        w = [("all-live", sc(o[f"live{K - 1}"]))]
        if K >= 3:
            w.append(("middle-is-best", D.and_(sc(o[f"live{K - 1}"]), D.lt(sc(o.loss1), sc(o.loss0)), D.lt(sc(o.loss1), sc(o.loss2)))))
        return w


def cases(tier):
    out = []
    for e in WRAP:
        for k in (1, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            out.append(Best(f"{e}-{k}", e, k, e == "minimise"))
    out.append(Best("least_squares-nonfinite", "least_squares", 2, True))
    return out
