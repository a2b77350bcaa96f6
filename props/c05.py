"""Bisection."""

from .common import *

BOUNDS = "solves of 1..3 (thorough 5) steps; one-step memorylessness from an arbitrary bracket; interval expansion up to 3 doublings"
ASSUMPTIONS = [
    "real arithmetic (no rounding); finite function values and interval ends",
]


class Solve(Case):
    """max_steps = 0..k solves from the same start, observed through their returned values"""

    unroll = 8

    def __init__(self, name, flip, steps, **kw):
        super().__init__(**kw)
        self.name, self.flip, self.steps = name, flip, steps
        self.inputs = dict(lower=Inp(), upper=Inp(), y0=Inp(), rtol=Inp(sign="0+"), atol=Inp(sign="0+"))

    def run(self, env, lower, upper, y0, rtol, atol):
        fn = UserFn(env, "f", sds())
        o = {}
        for k in range(1, self.steps + 1):
            solver = optx.Bisection(rtol=rtol, atol=atol, flip=self.flip)
            sol = optx.root_find(
                fn, solver, y0, None, dict(lower=lower, upper=upper), max_steps=k, throw=False
            )
            o.update(sol_out(sol, f"s{k}_"))
            o[f"f{k}"] = fn(sol.value, None)
        o["fl"], o["fu"], o["f0"] = fn(lower, None), fn(upper, None), fn(y0, None)
        return o

    def assume(self, D, i):
        return [D.lt(sc(i.lower), sc(i.upper))]

    def bracketing(self, D, o):
        fl, fu = sc(o.fl), sc(o.fu)
        inc = D.and_(D.lt(fl, 0), D.lt(0, fu))
        dec = D.and_(D.lt(0, fl), D.lt(fu, 0))
        if self.flip is True:
            inc = False
        if self.flip is False:
            dec = False
        return inc, dec

    def claims(self, D, i, o):
        out = []
        if o.raised is True:
            return out
        inc, dec = self.bracketing(D, o)
        pre = D.or_(inc, dec)
        if self.flip == "detect":
            out.append(("bracketed-not-raised", D.implies(pre, D.not_(o.raised))))
        lo, up = sc(i.lower), sc(i.upper)
        y, fy = sc(i.y0), sc(o.f0)
        rtol, atol = sc(i.rtol), sc(i.atol)
        live = pre  # still running and no exact zero so far
        for k in range(1, self.steps + 1):
            y1 = sc(o[f"s{k}_value"])
            neg, pos = D.lt(fy, 0), D.lt(0, fy)
            is_lo = D.or_(D.and_(inc, neg), D.and_(dec, pos))
            nz = D.or_(neg, pos)
            zero = D.not_(nz)
            mlo, mup = (y + up) / 2, (lo + y) / 2
            out.append((f"next-is-midpoint-{k}", D.implies(D.and_(live, is_lo), D.eq(y1, mlo))))
            out.append(
                (f"next-is-midpoint-{k}'", D.implies(D.and_(live, nz, D.not_(is_lo)), D.eq(y1, mup)))
            )
            out.append((f"zero-{k}", D.implies(D.and_(live, zero), D.or_(D.eq(y1, mlo), D.eq(y1, mup)))))
            if not D.symbolic and is_lo is None:
                return out
            lo, up = D.ite(is_lo, y, lo), D.ite(is_lo, up, y)
            small = D.and_(
                D.lt(abs(up - lo), atol + rtol * abs(y)),
                D.lt(abs(fy), atol),
            )
            live1 = D.and_(live, nz)
            ok = sc(o[f"s{k}_ok"])
            out.append((f"success-iff-tol-{k}", D.implies(live1, D.iff(ok, small))))
            out.append((f"steps-{k}", D.implies(live1, D.ieq(sc(o[f"s{k}_n"]), k))))
            out.append((f"else-max-steps-{k}", D.implies(live1, D.or_(ok, sc(o[f"s{k}_maxed"])))))
            live = D.and_(live1, D.not_(ok))
            y, fy = y1, sc(o[f"f{k}"])
        return out

    def witness(self, D, i, o):
        inc, dec = self.bracketing(D, o)
        w = []
        for nm, c in (("increasing", inc), ("decreasing", dec)):
            if c is not False:
                w.append((nm + "-success", D.and_(c, sc(o[f"s{self.steps}_ok"]), D.not_(sc(o[f"s{max(self.steps-1,1)}_ok"])) if self.steps > 1 else True)))
        return w


class Raises(Case):
    """same strict signs at both ends: must raise"""

    name = "raises"
    unroll = 4
    expect_raise = True
    inputs = dict(lower=Inp(), upper=Inp(), y0=Inp())
    jit_replay = False

    def run(self, env, lower, upper, y0):
        fn = UserFn(env, "f", sds())
        sol = optx.root_find(
            fn, optx.Bisection(rtol=1e-3, atol=1e-3), y0, None, dict(lower=lower, upper=upper), max_steps=1, throw=False
        )
        return dict(value=sol.value, fl=fn(lower, None), fu=fn(upper, None))

    def claims(self, D, i, o):
        if o.raised is True:
            return []
        fl, fu = sc(o.fl), sc(o.fu)
        same = D.or_(D.and_(D.lt(fl, 0), D.lt(fu, 0)), D.and_(D.lt(0, fl), D.lt(0, fu)))
        return [("raises-if-same-sign", D.implies(same, o.raised))]


class Expand(Case):
    """monotone function, expansion enabled: the first two iterates are consistent with a bracket"""

    unroll = 5
    unwind = "assume"
    inputs = dict(lower=Inp(), upper=Inp(), y0=Inp(), atol=Inp(sign="+"))

    def __init__(self, name, increasing, n=3, **kw):
        super().__init__(**kw)
        self.name, self.inc, self.unroll = name, increasing, n

    def run(self, env, lower, upper, y0, atol):
        fn = UserFn(env, "f", sds())
        solver = optx.Bisection(rtol=0.0, atol=atol, expand_if_necessary=True)
        kw = dict(throw=False)
        opts = dict(lower=lower, upper=upper)
        s1 = optx.root_find(fn, solver, y0, None, opts, max_steps=1, **kw)
        s2 = optx.root_find(fn, solver, y0, None, opts, max_steps=2, **kw)
        return dict(
            v1=s1.value, v2=s2.value, fl=fn(lower, None), fu=fn(upper, None), f0=fn(y0, None), f1=fn(s1.value, None),
            ok1=s1.result == optx.RESULTS.successful,
        )

    def assume(self, D, i):
        return [D.lt(sc(i.lower), sc(i.upper)), D.le(sc(i.lower), sc(i.y0)), D.le(sc(i.y0), sc(i.upper))]

    def assume_post(self, D, i, o, ctx):
        """strict monotonicity between any two applications"""
        out = []
        apps = [a for a in ctx.apps if a.name == "f"]
        for p, q in itertools.combinations(apps, 2):
            x, y, fx, fy = p.args[0], q.args[0], p.outs[0], q.outs[0]
            if not self.inc:
                fx, fy = -fx, -fy
            out.append(D.iff(D.lt(x, y), D.lt(fx, fy)))
            out.append(D.iff(D.lt(y, x), D.lt(fy, fx)))
        return out

    def claims(self, D, i, o):
        """Let w be the width.  The first iterate must be the midpoint of the start and the end of
        an expanded interval that has the other sign."""
        lo, up, y0 = sc(i.lower), sc(i.upper), sc(i.y0)
        s = 1 if self.inc else -1
        fl, fu, f0, f1 = [s * sc(o[k]) for k in ("fl", "fu", "f0", "f1")]
        v1, v2 = sc(o.v1), sc(o.v2)
        out = [("not-raised", D.not_(o.raised))]
        # the other bracket end after one step is 2*v1 - y0
        e = 2 * v1 - y0
        nz = D.or_(D.lt(fl, 0), D.lt(0, fl))
        nz = D.and_(nz, D.or_(D.lt(fu, 0), D.lt(0, fu)), D.not_(D.eq(f0, 0)), D.not_(D.eq(f1, 0)))
        out.append(("moves-towards-root", D.implies(nz, D.and_(D.implies(D.lt(f0, 0), D.lt(y0, e)), D.implies(D.lt(0, f0), D.lt(e, y0))))))
        # already bracketed: interval untouched
        br = D.and_(D.lt(fl, 0), D.lt(0, fu), nz)
        out.append(
            ("no-needless-expansion", D.implies(br, D.and_(D.implies(D.lt(f0, 0), D.eq(e, up)), D.implies(D.lt(0, f0), D.eq(e, lo)))))
        )
        # second iterate: midpoint of v1 and the other end of the sign-changing half
        run2 = D.and_(nz, D.not_(sc(o.ok1)))
        up_case = D.lt(f0, 0)  # bracket [y0, e]
        out.append(("second-midpoint-a", D.implies(D.and_(run2, up_case, D.lt(f1, 0)), D.eq(v2, (v1 + e) / 2))))
        out.append(("second-midpoint-b", D.implies(D.and_(run2, up_case, D.lt(0, f1)), D.eq(v2, (v1 + y0) / 2))))
        out.append(("second-midpoint-c", D.implies(D.and_(run2, D.not_(up_case), D.lt(0, f1)), D.eq(v2, (v1 + e) / 2))))
        out.append(("second-midpoint-d", D.implies(D.and_(run2, D.not_(up_case), D.lt(f1, 0)), D.eq(v2, (v1 + y0) / 2))))
        return out


class ExpandEnd(Expand):
    """the expanded end really has the other sign (value there is queried by the harness)"""

    def run(self, env, lower, upper, y0, atol):
        fn = UserFn(env, "f", sds())
        solver = optx.Bisection(rtol=0.0, atol=atol, expand_if_necessary=True)
        s1 = optx.root_find(fn, solver, y0, None, dict(lower=lower, upper=upper), max_steps=1, throw=False)
        e = 2 * s1.value - y0
        return dict(v1=s1.value, fl=fn(lower, None), fu=fn(upper, None), f0=fn(y0, None), fe=fn(e, None))

    def claims(self, D, i, o):
        s = 1 if self.inc else -1
        fl, fu, f0, fe = [s * sc(o[k]) for k in ("fl", "fu", "f0", "fe")]
        nz = D.and_(*[D.not_(D.eq(q, 0)) for q in (fl, fu, f0)])
        return [
            ("expanded-end-changes-sign", D.implies(nz, D.or_(D.and_(D.lt(f0, 0), D.le(0, fe)), D.and_(D.lt(0, f0), D.le(fe, 0)))))
        ]

    def witness(self, D, i, o):
        s = 1 if self.inc else -1
        fl, fu = s * sc(o.fl), s * sc(o.fu)
        return [("needs-up", D.lt(fu, 0)), ("needs-down", D.lt(0, fl))]


class ExpandTerminates(Expand):
    """if the sign changes within twice the width beyond an end, few expansions suffice"""

    unwind = "prove"
    may_hang = True

    def run(self, env, lower, upper, y0, atol):
        fn = UserFn(env, "f", sds())
        solver = optx.Bisection(rtol=0.0, atol=atol, expand_if_necessary=True)
        s1 = optx.root_find(fn, solver, y0, None, dict(lower=lower, upper=upper), max_steps=1, throw=False)
        w = upper - lower
        return dict(v1=s1.value, a=fn(lower - 2 * w, None), b=fn(upper + 2 * w, None))

    def assume_post(self, D, i, o, ctx):
        s = 1 if self.inc else -1
        a, b = s * sc(o.a), s * sc(o.b)
        return super().assume_post(D, i, o, ctx) + [D.lt(a, 0), D.lt(0, b)]

    def claims(self, D, i, o):
        return []


def cases(tier):
    k = 3 if tier == "quick" else 5
    out = [
        Solve("detect", "detect", k),
        Solve("flip-true", True, k - 1),
        Solve("flip-false", False, k - 1),
        Raises(),
    ]
    for inc in (True, False):
        nm = "increasing" if inc else "decreasing"
        out.append(Expand("expand-" + nm, inc, 3 if tier == "quick" else 4))
        out.append(ExpandTerminates("expand-terminates-" + nm, inc, 4))
        out.append(ExpandEnd("expand-end-" + nm, inc, 3 if tier == "quick" else 4))
    return out
