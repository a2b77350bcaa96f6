"""Trust-region searches."""

from .common import *
from . import solves

BOUNDS = "search: 3 consecutive calls, 2-3 dimensional spaces (arrays and pytrees); solves: see cases"
ASSUMPTIONS = ["real arithmetic; trial objective values may be NaN or infinite", "predicted change negative (as documented)"]


class TR(SearchCase):
    def params(self):
        return dict(hc=Inp(), lc=Inp(), hk=Inp(sign="0+"), lk=Inp(sign="0+"))

    def search(self, a):
        return getattr(optx, self.cls)(
            high_cutoff=a["hc"], low_cutoff=a["lc"], high_constant=a["hk"], low_constant=a["lk"]
        )

    def assume(self, D, i):
        return [D.le(sc(i.lc), sc(i.hc))]

    def claims(self, D, i, o):
        out = [("not-raised", D.not_(o.raised))]
        cur = X1
        hc, lc, hk, lk = [sc(i[k]) for k in ("hc", "lc", "hk", "lk")]
        for k in range(self.steps):
            d = i[f"e{k}"] - i[f"y{k}"]
            p = (self.info.quad if self.cls == "ClassicalTrustRegion" else self.info.grad_dot)(i, f"i{k}_", d)
            f, fe = self.info.f(i, f"i{k}_"), self.fe(i, k)
            acc, size = sc(o[f"acc{k}"]), sc(o[f"size{k}"])
            out.append((f"result-{k}", sc(o[f"ok{k}"])))
            if k == 0:
                out.append(("first-accepted", acc))
                out.append(("first-size", D.eq(size, 1)))
            else:
                dec = D.lt(p, 0)
                spec = D.le(fe - f, lc * p)
                good = D.and_(spec, D.lt(fe - f, hc * p))
                out.append((f"accept-iff-{k}", D.implies(dec, D.iff(acc, spec))))
                out.append((f"grow-{k}", D.implies(D.and_(dec, good), D.eq(size, hk * cur))))
                out.append((f"keep-{k}", D.implies(D.and_(dec, spec, D.not_(good)), D.eq(size, cur))))
                out.append((f"shrink-{k}", D.implies(D.and_(dec, D.not_(spec)), D.eq(size, lk * cur))))
            if not D.symbolic and acc is None:
                break
            cur = size
        return out

    def witness(self, D, i, o):
        return [
            ("grow", D.and_(sc(o.acc1), D.lt(1, sc(o.size1)))),
            ("reject-twice", D.and_(D.not_(sc(o.acc1)), D.not_(sc(o.acc2)))),
        ]


class Illegal(Case):
    expect_raise = True
    jit_replay = False
    inputs = dict(hc=Inp(), lc=Inp(), hk=Inp(), lk=Inp())

    def run(self, env, hc, lc, hk, lk):
        s = getattr(optx, self.cls)(high_cutoff=hc, low_cutoff=lc, high_constant=hk, low_constant=lk)
        return dict(a=s.high_cutoff, b=s.low_cutoff, c=s.high_constant, d=s.low_constant)

    def claims(self, D, i, o):
        legal = D.and_(D.le(sc(i.lc), sc(i.hc)), D.le(0, sc(i.hk)), D.le(0, sc(i.lk)))
        return [("raises-iff-illegal", D.iff(o.raised, D.not_(legal)))]


def cases(tier):
    out = []
    P2 = {"a": sds(), "b": sds(1)}
    for cls in ("ClassicalTrustRegion", "LinearTrustRegion"):
        s = cls[:6].lower()
        out.append(Illegal(name=f"{s}-illegal", cls=cls))
        out.append(TR(f"{s}-hessian", InfoMaker("hess", V2), cls=cls))
        out.append(TR(f"{s}-hessian-pytree", InfoMaker("hess", P2), cls=cls))
        out.append(TR(f"{s}-residual", InfoMaker("resjac", V2, V2), "residual", cls=cls))
        out.append(TR(f"{s}-residual-pytree", InfoMaker("resjac", P2, PR), "residual", cls=cls))
        if tier != "quick":
            out.append(TR(f"{s}-hessian-3", InfoMaker("hess", PY), cls=cls))
            out.append(TR(f"{s}-residual-tall", InfoMaker("resjac", V2, sds(3)), "residual", cls=cls))
    out.append(TR("linear-grad-pytree", InfoMaker("grad", PY), cls="LinearTrustRegion"))
    out.append(TR("linear-hessian-inv", InfoMaker("hessinv", V2), cls="LinearTrustRegion"))
    return out
