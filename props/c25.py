"""Box utilities."""

from .common import *
from .opaque import *
from .solves import YS

from optimistix._misc import feasible_step_length, tree_clip
from optimistix._solver.cauchy_point import cauchy_point

BOUNDS = "pytrees with two unknowns (the utilities are elementwise), infinite bounds included; Cauchy point: one unknown, arbitrary positive curvature"
ASSUMPTIONS = ["real arithmetic", "lower bound below upper bound"]


class Box(Case):
    def box(self, D, i):
        h = []
        for l, u in zip(i.lower.flat, i.upper.flat):
            h += [bnot(l.nan), bnot(u.nan), bnot(l.pi), bnot(u.ni)]
            h.append(D.lt(l, u))
        return h


class Step(Box):
    name = "step"
    offset = False

    def __init__(self, name, **kw):
        super().__init__(**kw)
        self.name = name
        self.inputs = dict(y=Inp((2,)), d=Inp((2,)), lower=Inp((2,), nonfinite=True), upper=Inp((2,), nonfinite=True))
        if self.offset:
            self.inputs["off"] = Inp(sign="0+")

    def run(self, env, y, d, lower, upper, off=None):
        t = lambda v: unflat(v, YS)
        kw = {} if off is None else dict(offset=off)
        return dict(a=flat_vec(feasible_step_length(t(y), t(d), t(lower), t(upper), **kw)))

    def assume(self, D, i):
        return self.box(D, i) + ([D.lt(sc(i.off), 1)] if self.offset else [])

    def claims(self, D, i, o):
        out = []
        one = X1
        zero = X0
        keep = one - sc(i.off) if self.offset else one
        for p in range(2):
            a, y, d, l, u = o.a[p], i.y[p], i.d[p], i.lower[p], i.upper[p]
            inside = D.and_(D.le(l, y), D.le(y, u))
            out.append((f"range-{p}", D.and_(D.le(zero, a), D.le(a, one))))
            new = y + a * d
            out.append((f"inside-{p}", D.implies(inside, D.and_(D.le(l, new), D.le(new, u)))))
            # never further out than it was
            out.append((f"not-worse-{p}", D.and_(D.implies(D.lt(u, y), D.le(new, y)), D.implies(D.lt(y, l), D.le(y, new)))))
            # the largest such fraction: anything short of a full step uses up the whole distance
            up = D.and_(D.lt(zero, d), D.eq(a * d, keep * (u - y)))
            down = D.and_(D.lt(d, zero), D.eq(a * d, keep * (l - y)))
            out.append((f"largest-{p}", D.implies(D.and_(inside, D.lt(a, one)), D.or_(up, down))))
            out.append((f"within-offset-{p}", D.implies(D.and_(inside, D.lt(zero, d), D.fin(u)), D.le(a * d, keep * (u - y)))))
            out.append((f"within-offset-low-{p}", D.implies(D.and_(inside, D.lt(d, zero), D.fin(l)), D.le(keep * (l - y), a * d))))
        return out


class Clip(Box):
    name = "clip"
    inputs = dict(y=Inp((2,)), lower=Inp((2,), nonfinite=True), upper=Inp((2,), nonfinite=True))

    def run(self, env, y, lower, upper):
        t = lambda v: unflat(v, YS)
        return dict(c=flat_vec(tree_clip(t(y), t(lower), t(upper))))

    def assume(self, D, i):
        return self.box(D, i)

    def claims(self, D, i, o):
        out = []
        for p in range(2):
            y, l, u, c = i.y[p], i.lower[p], i.upper[p], o.c[p]
            out.append((f"inside-{p}", D.and_(D.le(l, c), D.le(c, u))))
            out.append((f"nearest-{p}", D.and_(D.or_(D.le(c, y), D.eq(c, l)), D.or_(D.le(y, c), D.eq(c, u)))))
        return out


class Cauchy(Box):
    def __init__(self, name, n, **kw):
        super().__init__(**kw)
        self.name, self.n = name, n
        self.inputs = dict(y=Inp((n,)), g=Inp((n,)), lower=Inp((n,)), upper=Inp((n,)), H=Inp((n, n)))
        self.unroll = n + 1

    def run(self, env, y, g, lower, upper, H):
        A = symm(H)
        c = cauchy_point(y, lower, upper, g, lx.MatrixLinearOperator(A, lx.positive_semidefinite_tag))
        return dict(c=c)

    def assume(self, D, i):
        h = self.box(D, i)
        for p in range(self.n):
            h += [D.le(i.lower[p], i.y[p]), D.le(i.y[p], i.upper[p])]
        H = i.H
        z = X0
        h.append(D.lt(z, H[0, 0]))
        if self.n == 2:
            h.append(D.lt(z, H[0, 0] * H[1, 1] - H[1, 0] * H[1, 0]))
        return h

    def claims(self, D, i, o):
        out = []
        z = X0
        for p in range(self.n):
            out.append((f"inside-{p}", D.and_(D.le(i.lower[p], o.c[p]), D.le(o.c[p], i.upper[p]))))
            # it lies on the path of the projected gradient: never against the gradient
            g, d = i.g[p], o.c[p] - i.y[p]
            out.append((f"downhill-{p}", D.and_(D.implies(D.le(z, g), D.le(d, z)), D.implies(D.le(g, z), D.le(z, d)))))
        return out


def cases(tier):
    return [Step("step"), Step("step-offset", offset=True), Clip(), Cauchy("cauchy", 1)]
