"""Two ways of asking for the same thing must give the same solution."""

from .common import *
from .opaque import *
from .solves import *

OUTCOMES = (R.successful, R.nonlinear_max_steps_reached, R.nonfinite, R.nonlinear_divergence, R.singular)
QUIET = lambda **kw: None


class Same(Case):
    """pairs(env, k, **inputs) -> [(label, solution, solution)] for limits of k = 1..steps"""

    steps = 3
    y_struct = YS
    r_struct = (sds(1), sds())
    aux_struct = {"q": sds(1)}
    fails = True
    norm_name = "max"
    compare_aux = True
    extra_inputs = {}

    def __init__(self, name, **kw):
        super().__init__(**kw)
        self.name = name
        self.inputs = dict(y0=Inp((size_of(self.y_struct),)), rtol=Inp(sign="0+"), atol=Inp(sign="+"), **self.extra_inputs)
        self.unroll = self.steps + 2
        self.specs = {"code": CODE_SPEC, "scode": CODE_SPEC, "dcode": CODE_SPEC, "lsolve_code": CODE_SPEC, **type(self).specs}

    @property
    def norm(self):
        return NORMS[self.norm_name]

    def out(self, o, p, sol):
        o[p + "value"], o[p + "n"] = flat_vec(sol.value), sol.stats["num_steps"]
        if self.compare_aux:
            o[p + "aux"] = flat_vec(sol.aux)
        for j, r in enumerate(OUTCOMES):
            o[p + f"res{j}"] = sol.result == r

    def run(self, env, y0, **a):
        o = {}
        self.labels = []
        for k in range(1, self.steps + 1):
            for lab, s, t in self.pairs(env, k, unflat(y0, self.y_struct), **a):
                lab = f"{lab}-{k}"
                self.labels.append(lab)
                self.out(o, lab + "/a/", s)
                self.out(o, lab + "/b/", t)
        return o

    def claims(self, D, i, o):
        out = []
        for lab in self.labels:
            g = lambda w, q: sc(o[f"{lab}/{w}/{q}"])
            out.append((f"value-{lab}", D.all_eq(g("a", "value"), g("b", "value"))))
            out.append((f"steps-{lab}", D.ieq(g("a", "n"), g("b", "n"))))
            if self.compare_aux:
                out.append((f"aux-{lab}", D.all_eq(g("a", "aux"), g("b", "aux"))))
            out.append((f"result-{lab}", D.and_(*[D.iff(g("a", f"res{j}"), g("b", f"res{j}")) for j in range(len(OUTCOMES))])))
        return out

    def witness(self, D, i, o):
        lab = self.labels[-1]
        return [("success", sc(o[f"{lab}/a/res0"])), ("limit", sc(o[f"{lab}/a/res1"]))]


def solver_of(kind, case, env, rtol, atol, **kw):
    """(entry, solver, output structure) for the search/descent families"""
    d, s = OpaqueDescentFor(env, case.fails, case.y_struct), OpaqueSearch(env, case.fails)
    if kind == "grad":
        return optx.minimise, GradSolver(rtol, atol, case.norm, d, s), sds()
    if kind == "gn":
        return optx.least_squares, GNSolver(rtol, atol, case.norm, d, s, **kw), case.r_struct
    cls = {"bfgs": BFGSWith, "dfp": DFPWith, "lbfgs": LBFGSWith}[kind.split("-")[0]]
    return optx.minimise, cls(rtol, atol, case.norm, d, s, kind.endswith("-inv"), **kw), sds()


FAMILIES = ("grad", "gn", "bfgs", "bfgs-inv", "dfp-inv", "lbfgs-inv")
