"""Backtracking Armijo line search."""

from .common import *
from . import solves

BOUNDS = "search: 3 consecutive calls, 3-dimensional pytrees / 2-dimensional residuals; solves: see cases"
ASSUMPTIONS = ["real arithmetic; trial objective values may be NaN or infinite"]


class Armijo(SearchCase):
    def params(self):
        return dict(dec=Inp(sign="+"), slope=Inp(sign="+"), init=Inp(sign="+"))

    def search(self, a):
        return optx.BacktrackingArmijo(decrease_factor=a["dec"], slope=a["slope"], step_init=a["init"])

    def assume(self, D, i):
        return [D.lt(sc(i.dec), 1), D.lt(sc(i.slope), 1)]

    def claims(self, D, i, o):
        out = [("not-raised", D.not_(o.raised))]
        cur = sc(i.init)
        for k in range(self.steps):
            d = i[f"e{k}"] - i[f"y{k}"]
            p = self.info.grad_dot(i, f"i{k}_", d)
            f, fe = self.info.f(i, f"i{k}_"), self.fe(i, k)
            spec = D.and_(D.le(fe - f, sc(i.slope) * p), D.le(p, 0))
            acc = sc(o[f"acc{k}"])
            out.append((f"first-accepted" if k == 0 else f"accept-iff-armijo-{k}", D.iff(acc, True if k == 0 else spec)))
            size = sc(o[f"size{k}"])
            out.append((f"size-reset-on-accept-{k}", D.implies(acc, D.eq(size, sc(i.init)))))
            out.append((f"size-shrunk-on-reject-{k}", D.implies(D.not_(acc), D.eq(size, sc(i.dec) * cur))))
            out.append((f"result-{k}", sc(o[f"ok{k}"])))
            if not D.symbolic and acc is None:
                break
            cur = size
        return out

    def witness(self, D, i, o):
        return [
            ("accept", sc(o.acc1)),
            ("reject-twice", D.and_(D.not_(sc(o.acc1)), D.not_(sc(o.acc2)))),
        ]


class Illegal(Case):
    name = "illegal-parameters"
    expect_raise = True
    jit_replay = False
    inputs = dict(dec=Inp(), slope=Inp(), init=Inp())

    def run(self, env, dec, slope, init):
        s = optx.BacktrackingArmijo(decrease_factor=dec, slope=slope, step_init=init)
        return dict(a=s.decrease_factor, b=s.slope, c=s.step_init)

    def claims(self, D, i, o):
        dec, slope, init = sc(i.dec), sc(i.slope), sc(i.init)
        legal = D.and_(D.lt(0, dec), D.lt(dec, 1), D.lt(0, slope), D.lt(slope, 1), D.lt(0, init))
        return [("raises-iff-illegal", D.iff(o.raised, D.not_(legal)))]


def cases(tier):
    out = [Illegal()]
    out.append(Armijo("search-grad-pytree", InfoMaker("grad", PY)))
    out.append(Armijo("search-hessian", InfoMaker("hess", V2)))
    out.append(Armijo("search-hessian-inv", InfoMaker("hessinv", V2)))
    out.append(Armijo("search-residual", InfoMaker("resjac", V2, V2), "residual"))
    out.append(Armijo("search-residual-pytree", InfoMaker("resjac", {"a": sds(), "b": sds(1)}, PR), "residual"))
    out += solves.decrease_cases(tier)
    return out
