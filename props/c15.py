"""The L-BFGS operators against the dense BFGS recursion over the stored pairs."""

from .opaque import *
from .c14 import EPS, P2, hess
from .solves import LBFGSWith

BOUNDS = "two unknowns (pytree), history lengths 1-2 (3 for the inverse; with two pairs the direct operator is compared for one unknown, and for two unknowns, thorough tier only, applied to the newest step), up to one update more than the history, every skip pattern, arbitrary vectors"
ASSUMPTIONS = ["real arithmetic", "s B s > 0 for the matrices of the dense recursion (a theorem for accepted pairs)"]


class History(Case):
    unroll = 3
    split = 100
    curv = ()

    def __init__(self, name, inverse, m, pattern, struct=P2):
        super().__init__(name=name)
        self.inverse, self.m, self.pattern, self.struct = inverse, m, pattern, struct
        self.n = n = size_of(struct)
        self.k = len(pattern)
        self.inputs = dict(y=Inp((n,)), g=Inp((n,)), v=Inp((n,)), f=Inp())
        for j in range(self.k):
            self.inputs[f"s{j}"] = Inp((n,))
            self.inputs[f"d{j}"] = Inp((n,))

    def run(self, env, y, g, v, f, **a):
        st = self.struct
        u = lambda x: unflat(x, st)
        FI = optx.FunctionInfo
        solver = LBFGSWith(1e-3, 1e-3, optx.max_norm, OpaqueDescentFor(None, False, st), OpaqueSearch(None), self.inverse, self.m)
        info, state = solver.init_hessian(u(y), f, u(g))
        first = flat_vec(hess(info).mv(u(v)))
        for j in range(self.k):
            s, d = a[f"s{j}"], a[f"d{j}"]
            info, state = solver.update_hessian(u(y), u(y + s), info, FI.EvalGrad(f, u(g + d)), state)
            y, g = y + s, g + d
        got = flat_vec(hess(info).mv(u(v)))
        pairs = [(a[f"s{j}"], a[f"d{j}"]) for j in range(self.k) if self.pattern[j]][-self.m :]
        o = dict(got=got, first=first, f=info.f, grad=flat_vec(info.grad), end=g)
        o["ref"] = self.apply_inverse(pairs, v) if self.inverse else self.apply_direct(pairs, v)
        o["curv"] = [] if self.inverse else self.curv
        return o

    def assume_post(self, D, i, o, ctx):
        # s B s > 0 for the positive definite B of the recursion (curvature is positive)
        return [D.lt(X0, sc(c)) for c in o.curv]

    def apply_inverse(self, pairs, v):
        """H v with H = (I - s d^T/sd) H' (I - d s^T/sd) + s s^T/sd"""
        if not pairs:
            return v
        s, d = pairs[-1]
        gamma = (s @ d) / (d @ d)

        def H(k, v):
            if k == 0:
                return gamma * v
            s, d = pairs[k - 1]
            rho = 1 / (s @ d)
            alpha = rho * (s @ v)
            r = H(k - 1, v - alpha * d)
            return r + s * (alpha - rho * (d @ r))

        return H(len(pairs), v)

    def apply_direct(self, pairs, v):
        """B v with B = B' - B's (B's)^T/(s B's) + d d^T/sd"""
        if not pairs:
            return v
        s, d = pairs[-1]
        gamma = (d @ d) / (s @ d)
        self.curv = []

        def B(k, v):
            if k == 0:
                return gamma * v
            s, d = pairs[k - 1]
            Bs = B(k - 1, s)
            self.curv.append(Bs @ s)
            return B(k - 1, v) - Bs * (Bs @ v) / (Bs @ s) + d * (d @ v) / (s @ d)

        return B(len(pairs), v)

    def assume(self, D, i):
        out = []
        for j in range(self.k):
            sd = dot(i[f"s{j}"], i[f"d{j}"])
            out.append(D.lt(xc(EPS), sd) if self.pattern[j] else D.le(sd, X0))
        return out

    def claims(self, D, i, o):
        out = [("value", D.eq(sc(o.f), sc(i.f))), ("grad", D.all_eq(o.grad, o.end))]
        for p in range(self.n):
            out.append((f"start-{p}", D.eq(o.first[p], i.v[p])))
            out.append((f"apply-{p}", D.eq(o.got[p], o.ref[p])))
        return out


class Secant(History):
    """the newest accepted pair is mapped exactly: B s = d"""

    def run(self, env, y, g, f, **a):
        j = max(j for j in range(self.k) if self.pattern[j])
        self.newest = j
        return super().run(env, y, g, f=f, **{**a, "v": a[f"s{j}"]})

    def apply_direct(self, pairs, v):
        super().apply_direct(pairs, v)
        return pairs[-1][1]

    def claims(self, D, i, o):
        s = i[f"s{self.newest}"]
        out = []
        for p in range(self.n):
            out.append((f"start-{p}", D.eq(o.first[p], s[p])))
            out.append((f"secant-{p}", D.eq(o.got[p], o.ref[p])))
        return out


def cases(tier):
    out = []
    for inv in (True, False):
        for m in (1, 2, 3) if inv else (1, 2):
            for k in range(1, m + 2) if m < 3 or tier == "thorough" else (m, m + 1):
                for pattern in itertools.product((True, False), repeat=k):
                    if k < m + 1 and not pattern[-1]:
                        continue
                    nm = f"{'inverse' if inv else 'direct'}-{m}-" + "".join("+" if x else "-" for x in pattern)
                    if inv or min(m, sum(pattern)) < 2:
                        out.append(History(nm, inv, m, pattern))
                    else:
                        out.append(History(nm + "-scalar", inv, m, pattern, sds(1)))
                        if k == m and tier == "thorough":
                            out.append(Secant(nm + "-secant", inv, m, pattern))
    return out
