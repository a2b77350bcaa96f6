"""Cases, claims, replay, evidence."""

import itertools
import json
import math
import os
import sys
import time
import traceback
import warnings
from fractions import Fraction as F

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from .terms import *
from . import terms as T
from .interp import (
    Ctx, Event, Unsupported, emap, eval_jaxpr, gsame, kind, lift, opaque_p, is_conc, lower,
)
from . import solve
from .split import Prover
from .solve import STATS, Job, evaluate, evalx, full_check, lin_unsat, relevant

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- environments


class Inp:
    def __init__(self, shape=(), sign="?", dtype="f", nonfinite=False, lo=None, hi=None):
        self.shape, self.sign, self.dtype, self.nonfinite = tuple(shape), sign, dtype, nonfinite
        self.lo, self.hi = lo, hi

    @property
    def struct(self):
        return jax.ShapeDtypeStruct(self.shape, {"f": jnp.float64, "i": jnp.int64, "b": jnp.bool_}[self.dtype])


class SymEnv:
    """opaque functions become the opaque primitive"""

    symbolic = True

    def call(self, name, vec, m, dtype="f"):
        return opaque_p.bind(vec, name=name, order=0, m=m, dtype=dtype)


class ConcEnv:
    """opaque functions become nearest-point tables taken from the solver's model"""

    symbolic = False

    def __init__(self, tables):
        self.tables = tables

    def call(self, name, vec, m, dtype="f"):
        n = vec.shape[-1]
        tab = self.tables.get((name, dtype, n))
        if tab is None:
            z = {"f": jnp.float64, "b": bool, "i": jnp.int64}[dtype]
            return jnp.zeros((m,), z)
        # plain numpy here: the closures below outlive the trace they are made in
        table, vals = np.asarray(tab["P"]), [np.asarray(v) for v in tab["V"]]

        def look(y):
            P = jnp.asarray(table)
            y = jax.lax.stop_gradient(y)
            fin = jnp.isfinite(y)
            d = jnp.where(fin[None], jnp.abs(P - jnp.where(fin, y, 0.0)[None]), 0.0)
            # non-finite arguments: match the same kind of value
            mis = ~fin[None] & ~((P == y[None]) | (jnp.isnan(P) & jnp.isnan(y)[None]))
            d = jnp.where(jnp.isfinite(d), d, 1e300) + jnp.where(mis, 1e250, 0.0)
            return jnp.argmin(jnp.max(d, axis=-1) if n else jnp.zeros(P.shape[0]))

        if dtype != "f":
            return jnp.asarray(vals[0])[look(vec)]

        def level(order):
            if order >= len(vals):
                return lambda y: jnp.zeros((m,) + (n,) * order)

            @jax.custom_jvp
            def f(y):
                return jnp.asarray(vals[order])[look(y)]

            @f.defjvp
            def f_jvp(primals, tangents):
                (y,), (t,) = primals, tangents
                return f(y), jnp.tensordot(level(order + 1)(y), t, axes=1)

            return f

        return level(0)(vec)


def flat_vec(*trees):
    leaves = [jnp.ravel(jnp.asarray(l)) for t in trees for l in jtu.tree_leaves(t) if eqx.is_array_like(l)]
    leaves = [l.astype(jnp.float64) for l in leaves]
    return jnp.concatenate(leaves) if leaves else jnp.zeros((0,))


def unflat(vec, struct):
    leaves, treedef = jtu.tree_flatten(struct)
    out, o = [], 0
    for l in leaves:
        k = int(np.prod(l.shape))
        out.append(vec[o : o + k].reshape(l.shape))
        o += k
    return jtu.tree_unflatten(treedef, out)


def size_of(struct):
    return sum(int(np.prod(l.shape)) for l in jtu.tree_leaves(struct))


def sds(*shape):
    return jax.ShapeDtypeStruct(shape, jnp.float64)


class UserFn:
    """fn(y, args) -> out  or (out, aux): an arbitrary user function"""

    def __init__(self, env, name, out, aux=None, use_args=False):
        self.env, self.name, self.out, self.aux, self.use_args = env, name, out, aux, use_args

    def __call__(self, y, args):
        vec = flat_vec(y, args) if self.use_args else flat_vec(y)
        o = unflat(self.env.call(self.name, vec, size_of(self.out)), self.out)
        if self.aux is None:
            return o
        a = unflat(self.env.call(self.name + "_aux", vec, size_of(self.aux)), self.aux)
        return o, a


# ---------------------------------------------------------------- claim domains


class Sym:
    """exact logic over terms"""

    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx

    and_ = staticmethod(lambda *a: band(*a))
    or_ = staticmethod(lambda *a: bor(*a))
    not_ = staticmethod(bnot)
    implies = staticmethod(bimplies)
    iff = staticmethod(biff)

    def lt(self, a, b):
        return xlt(tox(a), tox(b))

    def le(self, a, b):
        return xle(tox(a), tox(b))

    def eq(self, a, b):
        """elementwise identity of scalars (NaN same as NaN)"""
        if isinstance(a, X) or isinstance(b, X):
            return xsame(tox(a), tox(b))
        return gsame(a, b)

    def ieq(self, a, b):
        return ieq(a, b)

    def ile(self, a, b):
        return bnot(ilt(b, a))

    def fin(self, a):
        return isfinite(a)

    def ite(self, c, a, b):
        return xite(c, tox(a), tox(b))

    def sqrt(self, a):
        return self.ctx.sqrt(tox(a))

    def max(self, *a):
        r = tox(a[0])
        for x in a[1:]:
            r = xmax(r, tox(x))
        return r

    def all_eq(self, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        assert a.shape == b.shape, (a.shape, b.shape)
        return self.and_(*[self.eq(x, y) for x, y in zip(a.flat, b.flat)])


class Conc(Sym):
    """three-valued logic over concrete floats: None = too close to call"""

    symbolic = False

    def __init__(self, tol=1e-6):
        self.tol = tol

    @staticmethod
    def and_(*a):
        if any(x is False for x in a):
            return False
        return None if any(x is None for x in a) else True

    @staticmethod
    def or_(*a):
        if any(x is True for x in a):
            return True
        return None if any(x is None for x in a) else False

    @staticmethod
    def not_(a):
        return None if a is None else not a

    @staticmethod
    def implies(a, b):
        return Conc.or_(Conc.not_(a), b)

    @staticmethod
    def iff(a, b):
        return None if a is None or b is None else a == b

    def _close(self, a, b):
        s = 1 + abs(a) + abs(b)
        return abs(a - b) <= self.tol * s

    def lt(self, a, b):
        a, b = tox(a), tox(b)
        if a.fin and b.fin:
            if a.v == b.v:
                return False
            if self._close(a.v, b.v):
                return None
            return bool(a.v < b.v)
        return xlt(a, b)

    def le(self, a, b):
        a, b = tox(a), tox(b)
        if a.fin and b.fin:
            if a.v == b.v:
                return True
            if self._close(a.v, b.v):
                return None
            return bool(a.v < b.v)
        return xle(a, b)

    def eq(self, a, b):
        if isinstance(a, X) or isinstance(b, X):
            a, b = tox(a), tox(b)
            if a.fin and b.fin:
                if a.v == b.v:
                    return True
                return None if self._close(a.v, b.v) else False
            return xsame(a, b)
        return bool(a == b)

    def ite(self, c, a, b):
        if c is None:
            raise Borderline()
        return tox(a) if c else tox(b)

    def sqrt(self, a):
        a = tox(a)
        if not a.fin or a.v < 0:
            return NAN if (a.nan or a.ni or not a.pi) else a
        return X(F(math.sqrt(a.v)))


class Borderline(Exception):
    pass


# ---------------------------------------------------------------- cases


class Case:
    """One harness.  Subclasses/instances provide:
    inputs: dict name -> Inp;  run(env, **arrays) -> dict of arrays;
    assume(D, i) -> list;  claims(D, i, o) -> list[(label, formula)]"""

    name = "case"
    unroll = 4
    unwind = "prove"  # or "assume"
    specs = {}
    timeout = 60
    smt = False  # go to the solvers before trying case splits
    split = 15  # seconds for the case-splitting prover
    tier = "quick"
    witness = None  # optional (D, i, o) -> list[(label, formula)] that must be satisfiable
    expect_raise = False
    may_hang = False  # replay in a time-limited subprocess

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def assume(self, D, i):
        return []


class Outs(dict):
    raised = False

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def _flatten_out(o):
    leaves, treedef = jtu.tree_flatten(o)
    return leaves, treedef


def source_functions(jaxpr, acc, seen=None):
    """functions of the repository whose operations appear in the traced program"""
    from jax._src import source_info_util

    seen = set() if seen is None else seen
    todo = [jaxpr]
    while todo:
        j = todo.pop()
        if id(j) in seen:
            continue
        seen.add(id(j))
        for e in j.eqns:
            tb = e.source_info.traceback
            if tb is not None:
                for fr in tb.frames:
                    if fr.file_name.startswith(REPO + "/optimistix"):
                        acc.add(f"{fr.file_name[len(REPO) + 1:]}:{fr.function_name}")
            for v in e.params.values():
                for x in v if isinstance(v, (tuple, list)) else [v]:
                    if hasattr(x, "jaxpr"):
                        todo.append(x.jaxpr)
                    elif hasattr(x, "eqns"):
                        todo.append(x)
    return acc


class Encoded:
    """a case traced and symbolically executed"""

    def __init__(self, case, functions):
        self.case = case
        env = SymEnv()
        names = list(case.inputs)
        treedef_box = {}

        def f(*arrs):
            o = case.run(env, **dict(zip(names, arrs)))
            leaves, treedef = _flatten_out(o)
            treedef_box["t"] = treedef
            return leaves

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            closed = jax.make_jaxpr(f)(*[case.inputs[n].struct for n in names])
        source_functions(closed.jaxpr, functions)
        ctx = Ctx(unroll=case.unroll, specs=case.specs)
        self.ctx = ctx
        self.sym_inputs = {}
        hyps = []
        args = []
        for n in names:
            inp = case.inputs[n]
            a = np.empty(inp.shape, object)
            for ix in np.ndindex(*inp.shape):
                nm = n + "".join(f"_{j}" for j in ix)
                if inp.dtype == "f":
                    v = real(nm, inp.sign)
                    if inp.sign == "+":
                        hyps.append(v > 0)
                    elif inp.sign == "0+":
                        hyps.append(v >= 0)
                    elif inp.sign == "-":
                        hyps.append(v < 0)
                    if inp.nonfinite:
                        k = z3.Int(nm + "_kind")
                        hyps.append(z3.And(k >= 0, k <= 3))
                        a[ix] = X(v, k == 1, k == 2, k == 3)
                    else:
                        a[ix] = X(v)
                elif inp.dtype == "b":
                    a[ix] = z3.Bool(nm)
                else:
                    v = z3.Int(nm)
                    if inp.lo is not None:
                        hyps.append(v >= inp.lo)
                    if inp.hi is not None:
                        hyps.append(v <= inp.hi)
                    a[ix] = v
            self.sym_inputs[n] = a
            args.append(a)
        outs = eval_jaxpr(ctx, closed.jaxpr, [lift(c) for c in closed.consts], args)
        o = jtu.tree_unflatten(treedef_box["t"], outs)
        self.outs = Outs(o) if isinstance(o, dict) else Outs(out=o)
        self.outs.raised = bor(*[e.path for e in ctx.events if e.kind in ("pure_callback", "io_callback")])
        self.outs.events = ctx.events
        self.outs.ctx = ctx
        D = Sym(ctx)
        self.D = D
        i = Outs(self.sym_inputs)
        claims = list(case.claims(D, i, self.outs))
        if case.unwind == "prove":
            for u in ctx.unwind:
                claims.append(("loop-bound", bnot(u)))
        else:
            hyps += [b2z(bnot(u)) for u in ctx.unwind]
        for a in case.assume(D, i):
            hyps.append(b2z(a))
        if getattr(case, "assume_post", None):
            for a in case.assume_post(D, i, self.outs, ctx):
                hyps.append(b2z(a))
        self.wit = list(case.witness(D, i, self.outs)) if case.witness else []
        self.hyps = hyps + list(ctx.axioms)
        self.claims = claims
        self.ncells = ctx.neqns

    def tables(self, asg):
        cache = {}
        tabs = {}
        for a in self.ctx.apps:
            args = tuple(evalx(x, asg, cache) if isinstance(x, X) else float(evaluate(x, asg, cache)) for x in a.args)
            t = tabs.setdefault((a.name, a.dtype, len(args)), {"pts": {}, "n": len(args), "m": None})
            d = t["pts"].setdefault(tuple("nan" if math.isnan(q) else q for q in args), {})
            if a.dtype == "f":
                d[a.order] = [evalx(x, asg, cache) for x in a.outs]
            else:
                d[0] = [evaluate(x, asg, cache) for x in a.outs]
        out = {}
        for (name, dt, _), t in tabs.items():
            pts = [[math.nan if q == "nan" else q for q in k] for k in t["pts"]]
            n = t["n"]
            maxo = max(o for d in t["pts"].values() for o in d)
            m = None
            for d in t["pts"].values():
                for o, v in d.items():
                    m = len(v) // (n**o) if n or o == 0 else m
            V = []
            for o in range(maxo + 1):
                rows = []
                for d in t["pts"].values():
                    v = d.get(o, [0] * (m * n**o))
                    rows.append(np.array(v, dtype=float if dt == "f" else (bool if dt == "b" else np.int64)).reshape((m,) + (n,) * o))
                V.append(np.stack(rows))
            out[(name, dt, n)] = {"P": np.array(pts, float).reshape(len(pts), n), "V": V}
        return out

    def concrete_inputs(self, asg):
        cache = {}
        r = {}
        for n, a in self.sym_inputs.items():
            inp = self.case.inputs[n]
            arr = np.empty(inp.shape, dtype={"f": np.float64, "b": bool, "i": np.int64}[inp.dtype])
            for ix in np.ndindex(*inp.shape):
                arr[ix] = evalx(a[ix], asg, cache) if inp.dtype == "f" else evaluate(a[ix], asg, cache)
            r[n] = arr
        return r


def run_concrete(case, inputs, tables):
    """run the real code; returns Outs of constant X arrays"""
    env = ConcEnv(tables)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = lambda **k: case.run(env, **k)
            if getattr(case, "jit_replay", True):
                f = jax.jit(f)
            o = f(**{k: jnp.asarray(v) for k, v in inputs.items()})
            jax.block_until_ready(o)
    except Exception as e:
        if "EquinoxRuntimeError" in type(e).__name__ or "EquinoxTracetimeError" in type(e).__name__ or "XlaRuntimeError" in type(e).__name__ or "JaxRuntimeError" in type(e).__name__:
            r = Outs()
            r.raised = True
            r.events = []
            return r
        raise
    leaves, treedef = jtu.tree_flatten(o)
    o = jtu.tree_unflatten(treedef, [lift(np.asarray(l)) for l in leaves])
    o = Outs(o) if isinstance(o, dict) else Outs(out=o)
    o.raised = False
    o.events = []
    return o


def concrete_verdicts(case, inputs, tables, tol=1e-6):
    D = Conc(tol)
    i = Outs({k: lift(np.asarray(v)) for k, v in inputs.items()})
    for a in case.assume(D, i):
        if a is False:
            return {"__assume__": None}
    o = run_concrete(case, inputs, tables)
    res = {}
    if o.raised and not case.expect_raise:
        return {"__raised__": True}
    try:
        for lab, c in case.claims(D, i, o):
            if isinstance(c, z3.ExprRef):
                c = None
            res[lab] = c if lab not in res else Conc.and_(res[lab], c)
    except Borderline:
        res["__borderline__"] = None
    return res


# ---------------------------------------------------------------- running a check


class Violation:
    def __init__(self, case, label, inputs, tables, path):
        self.case, self.label, self.inputs, self.tables, self.path = case, label, inputs, tables, path


def _dump_replay(path, prop, case, lab, inputs, tables):
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "case": case,
                "claim": lab,
                "inputs": {k: np.asarray(v).tolist() for k, v in inputs.items()},
                "tables": _tab_json(tables),
            },
            f,
            indent=1,
        )


def _tab_json(tables):
    return [
        {"name": k[0], "dtype": k[1], "n": k[2], "P": v["P"].tolist(), "V": [x.tolist() for x in v["V"]]} for k, v in tables.items()
    ]


def _tab_unjson(lst):
    return {
        (d["name"], d["dtype"], d["n"]): {
            "P": np.array(d["P"], float).reshape(len(d["P"]), d["n"]),
            "V": [np.array(v, dtype=float if d["dtype"] == "f" else (bool if d["dtype"] == "b" else np.int64)) for v in d["V"]],
        }
        for d in lst
    }


class Runner:
    def __init__(self, prop, tier, seed, known=(), budget=780, verbose=False):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = budget
        self.functions = set()
        self.violations = []
        self.inconclusive = []
        self.errors = []
        self.known_hits = []
        self.known = list(known)
        self.nclaims = self.discharged = 0
        self.cases_run = []
        self.verbose = verbose
        self.witnessed = 0
        self.wit_unknown = []
        self.prims = {}
        self.nonrepro = []
        self.hard = []

    def log(self, *a):
        if self.verbose:
            print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run_case(self, case):
        if self.violations and not self.verbose:
            return
        t = time.time()
        try:
            enc = Encoded(case, self.functions)
        except Exception as e:
            if self.verbose:
                traceback.print_exc()
            self.errors.append(f"{case.name}: {type(e).__name__}: {str(e)[:400]}")
            return
        for k, v in enc.ctx.prims.items():
            self.prims[k] = self.prims.get(k, 0) + v
        dt = time.time() - t
        self.log(f"case {case.name}: encoded in {dt:.1f}s; {len(enc.claims)} claims, {len(enc.hyps)} hyps, {len(enc.ctx.apps)} apps")
        self.cases_run.append({"case": case.name, "claims": len(enc.claims), "eqns": enc.ncells, "apps": len(enc.ctx.apps)})
        self._decide_case(enc)
        # vacuity: the hypotheses, and each witness, must be satisfiable
        for lab, w in [("hypotheses", True)] + enc.wit:
            self._witness(enc, lab, w)

    def _witness(self, enc, lab, w):
        if w is False:
            self.errors.append(f"{enc.case.name}: witness {lab} is trivially false")
            return
        fs = enc.hyps + enc.ctx.congruence() + [b2z(w)]
        r, m = full_check(fs, 3000)
        if r == "unknown":
            r, m = Job(fs, min(10, max(2, self.left())), self.seed).wait()
        self.log(f"   witness {lab}: {r}")
        if r in ("sat", "sat?"):
            self.witnessed += 1
        elif r == "unsat":
            self.errors.append(f"{enc.case.name}: witness {lab} unreachable (vacuous)")
        else:
            self.wit_unknown.append(f"{enc.case.name}:{lab}")

    def _decide_case(self, enc):
        todo = []
        for lab, c in enc.claims:
            self.nclaims += 1
            if c is True:
                self.discharged += 1
                STATS.note("simplification", 0.0)
                continue
            todo.append((lab, c))
        if not todo:
            return
        # all at once, linear abstraction
        neg = b2z(bnot(band(*[c for _, c in todo])))
        if lin_unsat(enc.hyps, neg, 6000):
            self.discharged += len(todo)
            self.log(f"   all {len(todo)} claims: linear abstraction")
            return
        cong = None
        hard, searched = [], 0
        for lab, c in todo:
            neg = b2z(bnot(c))
            hy = relevant(enc.hyps, neg)
            if lin_unsat(hy, neg, 3000):
                self.discharged += 1
                self.log(f"   {lab}: linear abstraction")
                continue
            if cong is None:
                cong = enc.ctx.congruence()
            hyc = relevant(enc.hyps + cong, neg)
            if len(hyc) > len(hy) and lin_unsat(hyc, neg, 3000):
                self.discharged += 1
                self.log(f"   {lab}: linear abstraction + congruence")
                continue
            if lin_unsat(hyc, neg, 3000, lemmas=True):
                self.discharged += 1
                self.log(f"   {lab}: linear abstraction + lemmas")
                continue
            pr = None if enc.case.smt else Prover(enc.ctx, hyc, 4, leaf_ms=0)
            if pr is not None and pr.prove(c):
                self.discharged += 1
                self.log(f"   {lab}: case split ({pr.leaves} leaves)")
                continue
            if lin_unsat(hyc, neg, 3000, lemmas=True, poly=True):
                self.discharged += 1
                self.log(f"   {lab}: linear abstraction of polynomial normal form")
                continue
            r, m = full_check(hy + [neg], 1000, self.seed)
            if r == "unsat":
                self.discharged += 1
                self.log(f"   {lab}: z3")
                continue
            if cong and r == "sat":
                r, m = full_check(hyc + [neg], 1000, self.seed)
                if r == "unsat":
                    self.discharged += 1
                    self.log(f"   {lab}: z3 + congruence")
                    continue
            if r == "unknown":
                r, m = Job(hyc + [neg], 40 if enc.case.smt else 5, self.seed).wait()
                if r == "unsat":
                    self.discharged += 1
                    self.log(f"   {lab}: short portfolio")
                    continue
            if r == "sat":
                self._counterexample(enc, lab, c, enc.hyps + cong + [neg], m)
                if self.violations and not self.verbose:
                    return
                continue
            if searched < 2:
                searched += 1
                m = self._partly_concrete(enc, enc.hyps + cong + [neg], 3)
                if m is not None:
                    n = len(self.nonrepro)
                    self._counterexample(enc, lab, c, enc.hyps + cong + [neg], m, first_only=True)
                    if self.violations and not self.verbose:
                        return
                    if len(self.nonrepro) == n:
                        continue
                    self.nonrepro.pop()
            pr = Prover(enc.ctx, hyc, enc.case.split)
            if pr.prove(c):
                self.discharged += 1
                self.log(f"   {lab}: case split ({pr.leaves} leaves)")
                continue
            if self.verbose and os.environ.get("STUCK") and pr.stuck:
                for x in pr.stuck:
                    print("     stuck:", str(x)[:3000], file=sys.stderr)
            hard.append((lab, c, neg, hyc))
        for lab, c, neg, hyc in hard:
            t = time.time()
            m = self._partly_concrete(enc, enc.hyps + cong + [neg], 15)
            if m is not None:
                n = len(self.nonrepro)
                self._counterexample(enc, lab, c, enc.hyps + cong + [neg], m, first_only=True)
                if self.violations and not self.verbose:
                    return
                if len(self.nonrepro) == n:
                    continue
                self.nonrepro.pop()
            job = Job(hyc + [neg], min(enc.case.timeout, max(5, self.left())), self.seed)
            r, m = job.wait()
            self.log(f"   {lab}: portfolio {r} in {time.time() - t:.1f}s")
            if r == "unsat":
                self.discharged += 1
            elif r == "sat":
                self._counterexample(enc, lab, c, enc.hyps + cong + [neg], m)
                if self.violations and not self.verbose:
                    return
            else:
                self.inconclusive.append(f"{enc.case.name}:{lab}")

    # ---- counterexamples
    def _base(self, enc):
        """the real unknowns: inputs and outputs of opaque functions"""
        base = {}
        for n, a in enc.sym_inputs.items():
            for e in a.flat:
                if isinstance(e, X) and isinstance(e.v, z3.ExprRef):
                    base[e.v.decl().name()] = e.v
        for a in enc.ctx.apps:
            for e in a.outs:
                if isinstance(e, X) and isinstance(e.v, z3.ExprRef):
                    base[e.v.decl().name()] = e.v
        return list(base.values())

    def _partly_concrete(self, enc, fs, seconds):
        """look for a model with most unknowns fixed to small dyadic values"""
        import random

        rng = random.Random(self.seed)
        base = self._base(enc)
        end = time.time() + seconds
        for k in itertools.count():
            if time.time() > end or not base:
                return None
            share = (1.0, 0.8, 0.6, 0.4)[k % 4]
            fix = [v == z3.RealVal(rng.randint(-8, 8)) / 4 for v in base if rng.random() < share]
            r, m = full_check(fs + fix, 600, self.seed)
            if r == "sat":
                return m

    def _models(self, enc, fs, first):
        """a sequence of models, nicer ones first"""
        base = self._base(enc)
        box = [z3.And(v <= 16, v >= -16) for v in base]
        r, m = full_check(fs + box, 3000, self.seed)
        if r == "sat":
            yield m
        dy = []
        for k, v in enumerate(base):
            iv = z3.Int(f"dyadic!{k}")
            dy.append(z3.And(v == z3.ToReal(iv) / 4, iv <= 64, iv >= -64))
        r, m = Job(fs + dy, min(20, max(5, self.left())), self.seed, confs=["default", "lia2"]).wait()
        if r == "sat" and m is not None:
            yield m
        if first is not None:
            yield first
        for sd in (1, 2, 3):
            r, m = full_check(fs, 5000, self.seed + sd)
            if r == "sat":
                yield m
        r, m = Job(fs + box, min(30, max(5, self.left())), self.seed + 7).wait()
        if r == "sat" and m is not None:
            yield m

    def _counterexample(self, enc, lab, c, fs, m, first_only=False):
        case = enc.case
        tried = 0
        last = None
        for asg in [m] if first_only else self._models(enc, fs, m):
            tried += 1
            try:
                inputs = enc.concrete_inputs(asg)
                tables = enc.tables(asg)
                if case.may_hang:
                    verd = self._verdicts_limited(case, inputs, tables)
                else:
                    verd = concrete_verdicts(case, inputs, tables)
            except Exception as e:
                if self.verbose:
                    traceback.print_exc()
                last = f"{type(e).__name__}: {e}"
                continue
            bad = [k for k, v in verd.items() if v is False]
            if verd.get("__raised__"):
                bad.append("raises")
            last = {k: v for k, v in verd.items()}
            if bad:
                use = lab if lab in bad else bad[0]
                self._report(enc, use, inputs, tables)
                return
            if tried >= 6:
                break
        self.log(f"   {lab}: SAT but not reproduced ({tried} models): {last}")
        self.nonrepro.append(f"{case.name}:{lab}")

    def _verdicts_limited(self, case, inputs, tables, limit=60):
        """replay in a subprocess with a time limit: used where the violation is non-termination"""
        import subprocess
        import tempfile

        with tempfile.TemporaryDirectory(prefix="vr") as d:
            p = os.path.join(d, "r.json")
            _dump_replay(p, self.prop, case.name, "loop-bound", inputs, tables)
            cmd = [sys.executable, os.path.join(VERIF, "check.py"), self.prop, "--replay", p]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
            except subprocess.TimeoutExpired:
                return {"loop-bound": False}
            for line in r.stdout.splitlines():
                if line.startswith("VERDICTS "):
                    return json.loads(line[9:])
            raise RuntimeError("replay failed: " + (r.stderr or r.stdout)[-300:])

    def _report(self, enc, lab, inputs, tables):
        case = enc.case
        for k in self.known:
            if k.get("case") == case.name and k.get("claim") == lab:
                self.known_hits.append(k)
                self.log(f"   known finding: {k}")
                return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        _dump_replay(path, self.prop, case.name, lab, inputs, tables)
        self.violations.append(Violation(case.name, lab, inputs, tables, path))
        self.log(f"   VIOLATION {case.name}:{lab} -> {path}")
