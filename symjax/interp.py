"""Symbolic execution of jaxprs over SMT terms."""

import itertools
import math
from fractions import Fraction as F

import jax
import jax.numpy as jnp
import numpy as np
from jax.extend import core as jex_core

from .terms import *
from .terms import _same
from . import terms as T


class Unsupported(Exception):
    pass


Literal = jex_core.Literal


def kind(dtype):
    dtype = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
    if dtype.kind == "f" or dtype.name in ("bfloat16", "float16"):
        return "f"
    if dtype.kind in "iu":
        return "i"
    if dtype.kind == "b":
        return "b"
    if dtype.name == "float0":
        return "z"
    raise Unsupported(f"dtype {dtype}")


def lift(x, dtype=None):
    """concrete array -> object array of terms"""
    x = np.asarray(x)
    k = kind(dtype or x.dtype)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        e = x[i]
        out[i] = xc(e) if k == "f" else bool(e) if k in ("b", "z") else int(e)
    return out


def is_conc(arr):
    for e in arr.flat:
        if isinstance(e, X):
            if not e.const:
                return False
        elif isinstance(e, z3.ExprRef):
            return False
    return True


def lower(arr, dtype):
    """concrete object array -> numpy array"""
    out = np.empty(arr.shape, dtype=np.dtype(dtype))
    for i in np.ndindex(*arr.shape):
        e = arr[i]
        out[i] = e.tofloat() if isinstance(e, X) else e
    return out


def emap(f, *arrs):
    arrs = np.broadcast_arrays(*arrs) if len({a.shape for a in arrs}) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    if len(arrs) == 1:
        (a,) = arrs
        for i in np.ndindex(*out.shape):
            out[i] = f(a[i])
    else:
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in arrs])
    return out


def ite_of(e):
    if isinstance(e, X):
        return xite
    return None


def gite(c, a, b):
    """ite on scalars of any kind"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, X) or isinstance(b, X):
        return xite(c, a, b)
    za = a.sort() if isinstance(a, z3.ExprRef) else None
    zb = b.sort() if isinstance(b, z3.ExprRef) else None
    if isinstance(a, bool) or isinstance(b, bool) or za == z3.BoolSort() or zb == z3.BoolSort():
        return bite(c, a, b)
    return iite(c, a, b)


def gsame(a, b):
    if isinstance(a, X):
        return xsame(a, b)
    za = a.sort() if isinstance(a, z3.ExprRef) else None
    zb = b.sort() if isinstance(b, z3.ExprRef) else None
    if isinstance(a, bool) or isinstance(b, bool) or za == z3.BoolSort() or zb == z3.BoolSort():
        return biff(a, b)
    return ieq(a, b)


def aite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return emap(lambda p, q: gite(c, p, q), a, b)


class App:
    """one application of an opaque function"""

    __slots__ = ("name", "order", "dtype", "args", "outs", "path", "idx")

    def __init__(self, name, order, dtype, args, outs, path, idx):
        self.name, self.order, self.dtype = name, order, dtype
        self.args, self.outs, self.path, self.idx = args, outs, path, idx


class Event:
    __slots__ = ("kind", "path", "params", "args")

    def __init__(self, kind, path, params, args):
        self.kind, self.path, self.params, self.args = kind, path, params, args


class Ctx:
    def __init__(self, unroll=4, specs=None, tag=""):
        self.path = True
        self.axioms = []
        self.apps = []
        self._appkey = {}
        self.unwind = []  # path conditions under which a loop wants to go on past the bound
        self.events = []
        self.unroll = unroll
        self.specs = specs or {}
        self.n = 0
        self.tag = tag
        self._sqrt = {}
        self._un = {}
        self.prims = {}
        self.neqns = 0
        self.round = False  # concrete validation runs: round to double after each operation

    def fresh(self, base, sort="R", sign="?"):
        self.n += 1
        name = f"{base}!{self.tag}{self.n}"
        if sort == "R":
            return real(name, sign)
        if sort == "B":
            return z3.Bool(name)
        return z3.Int(name)

    # ------------------------------------------------------------ scalar functions
    def sqrt(self, a):
        if a.const:
            if a.nan or a.ni:
                return NAN
            if a.pi:
                return a
            v = frac(a.v)
            if v < 0:
                return NAN
            rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if rn * rn == v.numerator and rd * rd == v.denominator:
                return X(F(rn, rd))
            return X(F(math.sqrt(v)))
        if a.fin and z3.is_app_of(a.v, z3.Z3_OP_ITE):
            c, p, q = a.v.children()
            pv, qv = T._cval(p), T._cval(q)
            if pv is not None or qv is not None:
                return xite(c, self.sqrt(X(p if pv is None else pv)), self.sqrt(X(q if qv is None else qv)))
        # perfect squares come out
        k0, p0 = T._content(a.v)
        fs = T._factors(p0)
        out = F(1)
        if k0 > 0:
            rn, rd = math.isqrt(k0.numerator), math.isqrt(k0.denominator)
            if rn * rn == k0.numerator and rd * rd == k0.denominator:
                if all(e % 2 == 0 for _, e in fs.values()) and a.fin:
                    r = T.unmono({i: (f, e // 2) for i, (f, e) in fs.items()})
                    return X(rmul(F(rn, rd), rabs(r)))
                if k0 != 1:
                    out = F(rn, rd)
                    a = X(p0, a.nan, a.pi, a.ni)
        k = a.key()
        if k not in self._sqrt:
            sg = sgn(a.v)
            s = self.fresh("sqrt", sign="+" if sg == "+" else "0+")
            ok = rle(F(0), a.v)
            self.axioms.append(b2z(s >= 0))
            self.axioms.append(b2z(bimplies(ok, s * s == r2z(a.v))))
            self._sqrt[k] = (s, a)
            T._sqrt_of[s.get_id()] = a.v
            T._keep.append(s)
        s, _ = self._sqrt[k]
        s = rmul(out, s)
        if a.fin:
            return X(s, nan=rlt(a.v, F(0)))
        nan = bor(a.nan, a.ni, band(isfinite(a), rlt(a.v, F(0))))
        return X(s, nan, a.pi, False)

    def unary_uf(self, name, a):
        """uninterpreted scalar function (exp, log, ...): functional, finite, else NaN"""
        if a.const:
            f = getattr(np, {"log1p": "log1p", "expm1": "expm1"}.get(name, name))
            with np.errstate(all="ignore"):
                return xc(f(a.tofloat()))
        outs = self.opaque("!" + name, 0, "f", [a], 1)
        r = outs[0]
        if a.fin:
            return r
        return X(r.v, bnot(isfinite(a)), False, False)

    # ------------------------------------------------------------ opaque functions
    def opaque(self, name, order, dtype, args, m):
        spec = self.specs.get(name, {})
        key = (name, order, dtype, m, tuple(a.key() if isinstance(a, X) else self._k(a) for a in args))
        if key in self._appkey:
            app = self._appkey[key]
            app.path = bor(app.path, self.path)
            return app.outs
        n = len(args)
        idx = len(self.apps)
        outs = []
        if dtype == "f":
            nonfin = spec.get("nonfinite", False)
            if nonfin is True or (isinstance(nonfin, (set, tuple, list)) and order in nonfin):
                nonfin = True
            else:
                nonfin = False
            sign = spec.get("sign", "?") if order == 0 else "?"
            cache = {}
            for o in range(m):
                for ix in itertools.product(range(n), repeat=order):
                    ck = (o, tuple(sorted(ix)))
                    if ck not in cache:
                        zero = spec.get("zero_cols", ())
                        if any(j in zero for j in ix):
                            cache[ck] = X0
                        else:
                            nm = f"{name}.{'J' * order}{idx}_{o}" + "".join(f"_{j}" for j in ck[1])
                            v = self.fresh(nm, sign=sign)
                            if nonfin:
                                fl = self.fresh(nm + "k", "I")
                                self.axioms.append(z3.And(fl >= 0, fl <= 3))
                                cache[ck] = X(v, fl == 1, fl == 2, fl == 3)
                            else:
                                cache[ck] = X(v)
                            if sign in ("+", "0+"):
                                self.axioms.append(v > 0 if sign == "+" else v >= 0)
                    outs.append(cache[ck])
        elif dtype == "b":
            outs = [self.fresh(f"{name}.b{idx}_{o}", "B") for o in range(m)]
        else:
            outs = []
            for o in range(m):
                v = self.fresh(f"{name}.i{idx}_{o}", "I")
                lo, hi = spec.get("range", (0, 3))
                self.axioms.append(z3.And(v >= lo, v <= hi))
                outs.append(v)
        app = App(name, order, dtype, list(args), outs, self.path, idx)
        self.apps.append(app)
        self._appkey[key] = app
        if "axioms" in spec:
            for ax in spec["axioms"](self, app):
                self.axioms.append(b2z(ax))
        return outs

    @staticmethod
    def _k(a):
        return ("z", a.get_id()) if isinstance(a, z3.ExprRef) else ("c", a)

    def congruence(self):
        """functional-consistency axioms between applications of the same opaque function"""
        out = []
        groups = {}
        for a in self.apps:
            groups.setdefault((a.name, a.order, a.dtype, len(a.args), len(a.outs)), []).append(a)
        for (name, *_), g in groups.items():
            if self.specs.get(name, {}).get("nondet"):
                continue
            for p, q in itertools.combinations(g, 2):
                same = band(*[gsame(x, y) for x, y in zip(p.args, q.args)])
                if same is False:
                    continue
                eq = band(*[gsame(x, y) for x, y in zip(p.outs, q.outs)])
                ax = bimplies(same, eq)
                if ax is not True:
                    out.append(b2z(ax))
        return out


# ---------------------------------------------------------------- the opaque primitive

opaque_p = jex_core.Primitive("opaque_fn")


def _opaque_abs(x, *, name, order, m, dtype):
    n = x.shape[-1]
    dt = {"f": x.dtype, "b": np.dtype(bool), "i": np.dtype("int64")}[dtype]
    return jax.core.ShapedArray(x.shape[:-1] + (m,) + (n,) * order, dt)


opaque_p.def_abstract_eval(_opaque_abs)


def _opaque_jvp(primals, tangents, *, name, order, m, dtype):
    (x,), (t,) = primals, tangents
    out = opaque_p.bind(x, name=name, order=order, m=m, dtype=dtype)
    from jax.interpreters import ad

    if dtype != "f":
        return out, ad.Zero(jax.core.get_aval(out).to_tangent_aval())
    if isinstance(t, ad.Zero):
        return out, ad.Zero(jax.core.get_aval(out).to_tangent_aval())
    jac = opaque_p.bind(x, name=name, order=order + 1, m=m, dtype=dtype)
    # x: (..., n); jac: (..., m, n*order, n)
    nb = x.ndim - 1
    dn = (((jac.ndim - 1,), (nb,)), (tuple(range(nb)), tuple(range(nb))))
    return out, jax.lax.dot_general(jac, t, dn)


def _opaque_batch(args, dims, *, name, order, m, dtype):
    (x,), (d,) = args, dims
    x = jnp.moveaxis(x, d, 0)
    return opaque_p.bind(x, name=name, order=order, m=m, dtype=dtype), 0


from jax.interpreters import ad as _ad, batching as _batching

_ad.primitive_jvps[opaque_p] = _opaque_jvp
_batching.primitive_batchers[opaque_p] = _opaque_batch

# marker primitive: identity carrying a name (used to observe intermediate values)
observe_p = jex_core.Primitive("observe")
observe_p.multiple_results = True
observe_p.def_abstract_eval(lambda *xs, name: list(xs))


# ---------------------------------------------------------------- primitive rules

RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def _k_of(eqn, i=0):
    return kind(eqn.invars[i].aval.dtype)


def _elementwise(name, **fs):
    def f(ctx, eqn, *args):
        k = _k_of(eqn)
        if k not in fs:
            raise Unsupported(f"{name} on {k}")
        return emap(fs[k], *args)

    RULES[name] = f


_elementwise("add", f=xadd, i=iadd, b=bor)
_elementwise("add_any", f=xadd, i=iadd)
_elementwise("sub", f=xsub, i=isub)
_elementwise("mul", f=xmul, i=imul, b=band)
_elementwise("neg", f=xneg, i=ineg)
_elementwise("max", f=xmax, i=lambda a, b: iite(ilt(a, b), b, a), b=bor)
_elementwise("min", f=xmin, i=lambda a, b: iite(ilt(b, a), b, a), b=band)
_elementwise("abs", f=xabs, i=lambda a: iite(ilt(a, 0), ineg(a), a))
_elementwise("sign", f=xsign, i=lambda a: iite(ilt(a, 0), -1, iite(ilt(0, a), 1, 0)))
_elementwise("lt", f=xlt, i=ilt, b=lambda a, b: band(bnot(a), b))
_elementwise("gt", f=lambda a, b: xlt(b, a), i=lambda a, b: ilt(b, a), b=lambda a, b: band(a, bnot(b)))
_elementwise("le", f=xle, i=lambda a, b: bnot(ilt(b, a)), b=lambda a, b: bor(bnot(a), b))
_elementwise("ge", f=lambda a, b: xle(b, a), i=lambda a, b: bnot(ilt(a, b)), b=lambda a, b: bor(a, bnot(b)))
_elementwise("eq", f=xeq, i=ieq, b=biff)
_elementwise("ne", f=lambda a, b: bnot(xeq(a, b)), i=lambda a, b: bnot(ieq(a, b)), b=bxor)


def _conly(f, what):
    def g(*a):
        if not all(isc(x) for x in a):
            raise Unsupported(f"bitwise {what} on symbolic ints")
        return f(*[int(x) for x in a])

    return g


_elementwise("and", b=band, i=_conly(lambda a, b: a & b, "and"))
_elementwise("or", b=bor, i=_conly(lambda a, b: a | b, "or"))
_elementwise("xor", b=bxor, i=_conly(lambda a, b: a ^ b, "xor"))
_elementwise("not", b=bnot, i=_conly(lambda a: ~a, "not"))
_elementwise("rem", i=irem)
_elementwise("square", f=lambda a: xmul(a, a), i=lambda a: imul(a, a))


@rule("div")
def _div(ctx, eqn, a, b):
    if _k_of(eqn) == "i":
        return emap(idiv, a, b)
    return emap(xdiv, a, b)


@rule("is_finite")
def _is_finite(ctx, eqn, a):
    return emap(isfinite, a)


@rule("sqrt")
def _sqrt(ctx, eqn, a):
    return emap(ctx.sqrt, a)


@rule("rsqrt")
def _rsqrt(ctx, eqn, a):
    return emap(lambda x: xdiv(X1, ctx.sqrt(x)), a)


@rule("integer_pow")
def _integer_pow(ctx, eqn, a):
    y = eqn.params["y"]

    def f(x):
        r = X1 if isinstance(x, X) else 1
        mul = xmul if isinstance(x, X) else imul
        for _ in range(abs(y)):
            r = x if (r is X1 or (isinstance(r, int) and r == 1)) else mul(r, x)
        if y < 0:
            r = xdiv(X1, r)
        return r

    return emap(f, a)


@rule("pow")
def _pow(ctx, eqn, a, b):
    def f(x, y):
        yv = y.v if isinstance(y, X) else y
        if not isc(yv):
            raise Unsupported("pow with symbolic exponent")
        yv = frac(yv)
        if yv.denominator == 1 and abs(yv) <= 8:
            n = int(yv)
            r = X1
            for _ in range(abs(n)):
                r = x if r is X1 else xmul(r, x)
            return r if n >= 0 else xdiv(X1, r)
        if yv == F(1, 2):
            return ctx.sqrt(x)
        if yv == F(-1, 2):
            return xdiv(X1, ctx.sqrt(x))
        if x.const:
            return xc(x.tofloat() ** float(yv))
        raise Unsupported(f"pow {yv}")

    return emap(f, a, b)


for _n in ("exp", "log", "sin", "cos", "tan", "tanh", "exp2", "log1p", "expm1", "sinh", "cosh"):

    def _mk(nm):
        def f(ctx, eqn, a):
            return emap(lambda x: ctx.unary_uf(nm, x), a)

        return f

    RULES[_n] = _mk(_n)


@rule("floor", "ceil", "round")
def _floor(ctx, eqn, a):
    nm = eqn.primitive.name

    def f(x):
        if x.const:
            if not x.fin:
                return x
            v = frac(x.v)
            return X(F(math.floor(v) if nm == "floor" else math.ceil(v) if nm == "ceil" else round(v)))
        if nm == "floor":
            v = z3.ToReal(z3.ToInt(r2z(x.v)))
        elif nm == "ceil":
            v = -z3.ToReal(z3.ToInt(-r2z(x.v)))
        else:
            raise Unsupported("round")
        return X(v, x.nan, x.pi, x.ni)

    return emap(f, a)


@rule("clamp")
def _clamp(ctx, eqn, lo, x, hi):
    if _k_of(eqn) == "f":
        return emap(lambda l, v, h: xmin(xmax(l, v), h), lo, x, hi)
    f = lambda l, v, h: iite(ilt(iite(ilt(v, l), l, v), h), iite(ilt(v, l), l, v), h)
    return emap(f, lo, x, hi)


@rule("select_n")
def _select_n(ctx, eqn, which, *cases):
    if len(cases) == 1:
        return cases[0]
    if kind(eqn.invars[0].aval.dtype) == "b":
        return emap(lambda c, a, b: gite(c, b, a), which, *cases)

    def f(w, *cs):
        r = cs[-1]
        for i in range(len(cs) - 2, -1, -1):
            r = gite(bnot(ilt(i, w)), cs[i], r)
        return r

    return emap(f, which, *cases)


@rule("convert_element_type")
def _convert(ctx, eqn, a):
    k0, k1 = _k_of(eqn), kind(eqn.params["new_dtype"])
    if k0 == k1 or k0 == "z":
        return a
    if k1 == "f":
        if k0 == "i":
            return emap(lambda x: X(i2r(x)), a)
        return emap(lambda x: xite(x, X1, X0), a)
    if k1 == "i":
        if k0 == "b":
            return emap(lambda x: iite(x, 1, 0), a)

        def f(x):
            if x.const:
                return int(x.tofloat())
            v = r2z(x.v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

        return emap(f, a)
    if k0 == "i":
        return emap(lambda x: bnot(ieq(x, 0)), a)
    return emap(lambda x: bnot(xeq(x, X0)), a)


def _identity(ctx, eqn, *a):
    return a[0] if not eqn.primitive.multiple_results else list(a)


for _n in (
    "copy", "copy_p", "stop_gradient", "nonbatchable", "nondifferentiable_backward", "nontraceable",
    "reduce_precision", "optimization_barrier", "real", "sharding_constraint", "noinline_inner",
    "nondifferentiable", "device_put", "name", "pvary", "mutable_array", "freeze", "copy_to_host",
    "annotate", "core_call_identity", "nondifferentiable_jvp",
):
    RULES[_n] = _identity


@rule("select_if_vmap")
def _select_if_vmap(ctx, eqn, pred, x, y):
    return x


@rule("unvmap_any")
def _unvmap_any(ctx, eqn, a):
    out = np.empty((), object)
    out[()] = bor(*list(a.flat))
    return out


@rule("unvmap_all")
def _unvmap_all(ctx, eqn, a):
    out = np.empty((), object)
    out[()] = band(*list(a.flat))
    return out


@rule("unvmap_max")
def _unvmap_max(ctx, eqn, a):
    xs = list(a.flat)
    r = xs[0]
    for x in xs[1:]:
        r = iite(ilt(r, x), x, r)
    out = np.empty((), object)
    out[()] = r
    return out


# ---- structural primitives, via their action on arrays of element ids


def _ids(args):
    off, ids, pool = 0, [], []
    for a in args:
        ids.append(np.arange(off, off + a.size, dtype=np.int64).reshape(a.shape))
        pool.extend(a.flat)
        off += a.size
    return ids, pool


def _bind(prim, *args, **params):
    with jax.ensure_compile_time_eval():
        out = prim.bind(*[jnp.asarray(a) for a in args], **params)
        return [np.asarray(o) for o in out] if prim.multiple_results else np.asarray(out)


def _from_ids(o, pool, bad=None):
    out = np.empty(o.shape, object)
    for i in np.ndindex(*o.shape):
        j = int(o[i])
        out[i] = pool[j] if 0 <= j < len(pool) else bad
    return out


def _structural(ctx, eqn, *args):
    ids, pool = _ids(args)
    o = _bind(eqn.primitive, *ids, **eqn.params)
    if eqn.primitive.multiple_results:
        return [_from_ids(x, pool) for x in o]
    return _from_ids(o, pool)


for _n in (
    "broadcast_in_dim", "reshape", "transpose", "squeeze", "expand_dims", "slice", "rev",
    "concatenate", "pad", "split", "unstack", "stack",
):
    RULES[_n] = _structural


def _split_ints(idx_elems, ranges, f):
    """evaluate f(concrete ints) by case split over symbolic index elements.
    idx_elems: list of scalars; ranges: list of (lo, hi) inclusive representatives."""
    sym = [i for i, e in enumerate(idx_elems) if not isc(e)]
    if not sym:
        return f([int(e) for e in idx_elems])
    tot = 1
    for i in sym:
        tot *= ranges[i][1] - ranges[i][0] + 1
    if tot > 20000:
        raise Unsupported("too many symbolic index cases")
    result = None
    for combo in itertools.product(*[range(ranges[i][0], ranges[i][1] + 1) for i in sym]):
        vals = [int(e) if isc(e) else 0 for e in idx_elems]
        conds = []
        for i, v in zip(sym, combo):
            vals[i] = v
            e = idx_elems[i]
            lo, hi = ranges[i]
            conds.append(bnot(ilt(v, e)) if v == lo else bnot(ilt(e, v)) if v == hi else ieq(e, v))
        c = band(*conds)
        if c is False:
            continue
        r = f(vals)
        result = r if result is None else aite(c, r, result)
    return result


@rule("dynamic_slice")
def _dynamic_slice(ctx, eqn, x, *idx):
    sizes = eqn.params["slice_sizes"]

    def f(vals):
        sl = []
        for v, s, d in zip(vals, sizes, x.shape):
            v = max(0, min(v, d - s))
            sl.append(slice(v, v + s))
        return x[tuple(sl)]

    ranges = [(0, max(0, d - s)) for d, s in zip(x.shape, sizes)]
    return _split_ints([i[()] for i in idx], ranges, f)


@rule("dynamic_update_slice")
def _dynamic_update_slice(ctx, eqn, x, u, *idx):
    def f(vals):
        sl = []
        for v, s, d in zip(vals, u.shape, x.shape):
            v = max(0, min(v, d - s))
            sl.append(slice(v, v + s))
        o = x.copy()
        o[tuple(sl)] = u
        return o

    ranges = [(0, max(0, d - s)) for d, s in zip(x.shape, u.shape)]
    return _split_ints([i[()] for i in idx], ranges, f)


def _bad_of(k):
    return NAN if k == "f" else False if k == "b" else -(2**63)


@rule("gather")
def _gather(ctx, eqn, x, idx):
    ids, pool = _ids([x])
    bad = _bad_of(_k_of(eqn))
    p = dict(eqn.params)
    p["fill_value"] = -1
    idx_dt = eqn.invars[1].aval.dtype

    def f(vals):
        iv = np.array(vals, dtype=idx_dt).reshape(idx.shape)
        o = _bind(eqn.primitive, ids[0], iv, **p)
        return _from_ids(o, pool, bad)

    # the last axis of idx enumerates operand dims through start_index_map
    m = eqn.params["dimension_numbers"].start_index_map
    ranges = []
    for i in np.ndindex(*idx.shape):
        d = x.shape[m[i[-1]]]
        ranges.append((-1, d))
    return _split_ints(list(idx.flat), ranges, f)


@rule("scatter", "scatter-add", "scatter-mul", "scatter_add", "scatter_mul")
def _scatter(ctx, eqn, x, idx, u):
    name = eqn.primitive.name
    k = _k_of(eqn)
    m = eqn.params["dimension_numbers"].scatter_dims_to_operand_dims
    idx_dt = eqn.invars[1].aval.dtype
    p = dict(eqn.params)
    p["update_jaxpr"] = None
    p["update_consts"] = ()
    comb = None
    if name in ("scatter-add", "scatter_add"):
        comb = {"f": xadd, "i": iadd, "b": bor}[k]
    elif name in ("scatter-mul", "scatter_mul"):
        comb = {"f": xmul, "i": imul, "b": band}[k]

    def f(vals):
        iv = np.array(vals, dtype=idx_dt).reshape(idx.shape)
        out = x.copy()
        # locate each update element
        for j in np.ndindex(*u.shape):
            one = np.zeros(u.shape, np.int64)
            one[j] = 1
            loc = _bind(jax.lax.scatter_add_p, np.zeros(x.shape, np.int64), iv, one, **p)
            pos = np.argwhere(loc)
            if len(pos) == 0:
                continue
            t = tuple(pos[0])
            out[t] = u[j] if comb is None else comb(out[t], u[j])
        return out

    ranges = []
    for i in np.ndindex(*idx.shape):
        ranges.append((-1, x.shape[m[i[-1]]]))
    return _split_ints(list(idx.flat), ranges, f)


@rule("iota")
def _iota(ctx, eqn):
    return lift(_bind(eqn.primitive, **eqn.params))


@rule("empty", "empty2")
def _empty(ctx, eqn):
    a = eqn.outvars[0].aval
    return lift(np.zeros(a.shape, a.dtype))


@rule("full_like", "create_token")
def _nope(ctx, eqn, *a):
    raise Unsupported(eqn.primitive.name)


# ---- reductions


def _reduce(arr, axes, f, init):
    axes = tuple(axes)
    keep = [i for i in range(arr.ndim) if i not in axes]
    out = np.empty([arr.shape[i] for i in keep], object)
    moved = np.transpose(arr, keep + list(axes)).reshape(out.shape + (-1,)) if arr.size else np.empty(out.shape + (0,), object)
    for i in np.ndindex(*out.shape):
        xs = list(moved[i])
        if not xs:
            out[i] = init
            continue
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        out[i] = r
    return out


def _mkreduce(name, fs, inits):
    def f(ctx, eqn, a):
        k = _k_of(eqn)
        return _reduce(a, eqn.params["axes"], fs[k], inits[k])

    RULES[name] = f


_mkreduce("reduce_sum", dict(f=xadd, i=iadd), dict(f=X0, i=0))
_mkreduce("reduce_prod", dict(f=xmul, i=imul), dict(f=X1, i=1))
_mkreduce("reduce_max", dict(f=xmax, i=lambda a, b: iite(ilt(a, b), b, a), b=bor), dict(f=NINF, i=-(2**63), b=False))
_mkreduce("reduce_min", dict(f=xmin, i=lambda a, b: iite(ilt(b, a), b, a), b=band), dict(f=PINF, i=2**63 - 1, b=True))
_mkreduce("reduce_and", dict(b=band), dict(b=True))
_mkreduce("reduce_or", dict(b=bor), dict(b=False))
_mkreduce("reduce_xor", dict(b=bxor), dict(b=False))


@rule("argmin", "argmax")
def _argminmax(ctx, eqn, a):
    ismin = eqn.primitive.name == "argmin"
    (ax,) = eqn.params["axes"]
    k = _k_of(eqn)
    b = np.moveaxis(a, ax, -1)
    out = np.empty(b.shape[:-1], object)
    for i in np.ndindex(*out.shape):
        xs = list(b[i])
        best, bi = xs[0], 0
        for j, x in enumerate(xs[1:], 1):
            if k == "f":
                better = xlt(x, best) if ismin else xlt(best, x)
                if not (x.fin and best.fin):
                    better = band(bnot(best.nan), bor(x.nan, better))
            elif k == "b":
                better = band(bnot(x), best) if ismin else band(x, bnot(best))
            else:
                better = ilt(x, best) if ismin else ilt(best, x)
            bi = iite(better, j, bi)
            best = gite(better, x, best)
        out[i] = bi
    return out


@rule("top_k")
def _top_k(ctx, eqn, a):
    k = eqn.params["k"]
    b = a
    vals = np.empty(b.shape[:-1] + (k,), object)
    idxs = np.empty(b.shape[:-1] + (k,), object)
    for i in np.ndindex(*b.shape[:-1]):
        items = [(x, j) for j, x in enumerate(b[i])]
        items = _sort_items(items, _desc_first)
        for j in range(k):
            vals[i + (j,)] = items[j][0]
            idxs[i + (j,)] = items[j][1]
    return [vals, idxs]


def _gt_total(x, y):
    """x strictly before y in descending order (NaN first)"""
    if isinstance(x, X):
        r = xlt(y, x)
        if not (x.fin and y.fin):
            r = bor(r, band(x.nan, bnot(y.nan)))
        return r
    return ilt(y, x)


def _lt_total(x, y):
    if isinstance(x, X):
        r = xlt(x, y)
        if not (x.fin and y.fin):
            r = bor(r, band(bnot(x.nan), y.nan))
        return r
    return ilt(x, y)


def _desc_first(p, q):
    """p must come before q; ties keep order (stable insertion)"""
    return bnot(_gt_total(q[0], p[0]))


def _sort_items(items, before):
    """insertion by adjacent exchange: bubble sort network; `before(p,q)` True keeps order.
    Stability: exchange only when q strictly before p."""
    items = list(items)
    n = len(items)
    for a in range(n):
        for j in range(n - 1 - a):
            p, q = items[j], items[j + 1]
            keep = before(p, q)
            items[j] = tuple(gite(keep, x, y) for x, y in zip(p, q))
            items[j + 1] = tuple(gite(keep, y, x) for x, y in zip(p, q))
    return items


@rule("sort")
def _sort(ctx, eqn, *ops):
    dim, nk = eqn.params["dimension"], eqn.params["num_keys"]
    moved = [np.moveaxis(o, dim, -1) for o in ops]
    outs = [np.empty(m.shape, object) for m in moved]

    def before(p, q):
        # lexicographic on first nk keys: not (q < p)
        lt = False
        for i in reversed(range(nk)):
            l = _lt_total(q[i], p[i])
            g = _lt_total(p[i], q[i])
            lt = bor(l, band(bnot(g), lt))
        return bnot(lt)

    for i in np.ndindex(*moved[0].shape[:-1]):
        items = list(zip(*[list(m[i]) for m in moved]))
        items = _sort_items(items, before)
        for j, it in enumerate(items):
            for o, v in zip(outs, it):
                o[i + (j,)] = v
    return [np.moveaxis(o, -1, dim) for o in outs]


def _cum(f):
    def g(ctx, eqn, a):
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        k = _k_of(eqn)
        b = np.moveaxis(a, ax, -1).copy()
        n = b.shape[-1]
        for i in np.ndindex(*b.shape[:-1]):
            xs = list(b[i])
            if rev:
                xs = xs[::-1]
            for j in range(1, n):
                xs[j] = f[k](xs[j - 1], xs[j])
            if rev:
                xs = xs[::-1]
            for j in range(n):
                b[i + (j,)] = xs[j]
        return np.moveaxis(b, -1, ax)

    return g


RULES["cumsum"] = _cum(dict(f=xadd, i=iadd))
RULES["cumprod"] = _cum(dict(f=xmul, i=imul))
RULES["cummax"] = _cum(dict(f=xmax, i=lambda a, b: iite(ilt(a, b), b, a)))
RULES["cummin"] = _cum(dict(f=xmin, i=lambda a, b: iite(ilt(b, a), b, a)))


@rule("dot_general")
def _dot_general(ctx, eqn, a, b):
    ((ca, cb), (ba, bb)) = eqn.params["dimension_numbers"]
    k = _k_of(eqn)
    add, mul, zero = {"f": (xadd, xmul, X0), "i": (iadd, imul, 0)}[k]
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    B = np.transpose(b, list(bb) + fb + list(cb))
    nb = [a.shape[i] for i in ba]
    na = [a.shape[i] for i in fa]
    nc = [a.shape[i] for i in ca]
    nbf = [b.shape[i] for i in fb]
    kk = int(np.prod(nc)) if nc else 1
    A = A.reshape(nb + [int(np.prod(na)), kk])
    B = B.reshape(nb + [int(np.prod(nbf)), kk])
    out = np.empty(nb + [A.shape[-2], B.shape[-2]], object)
    for i in np.ndindex(*out.shape):
        *bi, p, q = i
        x, y = A[tuple(bi) + (p,)], B[tuple(bi) + (q,)]
        s = None
        for l in range(kk):
            t = mul(x[l], y[l])
            s = t if s is None else add(s, t)
        out[i] = zero if s is None else s
    return out.reshape(nb + na + nbf)


# ---- small dense linear algebra


@rule("cholesky")
def _cholesky(ctx, eqn, a):
    out = np.empty(a.shape, object)
    n = a.shape[-1]
    for i in np.ndindex(*a.shape[:-2]):
        A = a[i]
        if eqn.params.get("symmetrize_input", False):
            h = xc(0.5)
            A = emap(lambda p, q: p if p is q or (p.fin and q.fin and req(p.v, q.v) is True) else xmul(h, xadd(p, q)), A, A.T)
        L = np.empty((n, n), object)
        bad = False
        for r in range(n):
            for c in range(n):
                L[r, c] = X0
        for c in range(n):
            s = A[c, c]
            for k in range(c):
                s = xsub(s, xmul(L[c, k], L[c, k]))
            bad = bor(bad, bnot(xlt(X0, s)))
            L[c, c] = ctx.sqrt(s)
            for r in range(c + 1, n):
                s = A[r, c]
                for k in range(c):
                    s = xsub(s, xmul(L[r, k], L[c, k]))
                L[r, c] = xdiv(s, L[c, c])
        # jax returns all-NaN (lower part) on failure
        for r in range(n):
            for c in range(n):
                out[i + (r, c)] = xite(bad, NAN, L[r, c]) if c <= r else X0
    return out


@rule("triangular_solve")
def _triangular_solve(ctx, eqn, a, b):
    p = eqn.params
    left, lowr, tr = p["left_side"], p["lower"], p["transpose_a"]
    unit = p["unit_diagonal"]
    out = np.empty(b.shape, object)
    for i in np.ndindex(*a.shape[:-2]):
        A, B = a[i], b[i]
        if not left:
            # X A = B  <=>  A^T X^T = B^T
            A2, B2 = A.T, B.T
            lo = not lowr
            t = tr
        else:
            A2, B2, lo, t = A, B, lowr, tr
        if t:
            A2, lo = A2.T, not lo
        n = A2.shape[0]
        Xs = np.empty(B2.shape, object)
        order = range(n) if lo else range(n - 1, -1, -1)
        for r in order:
            for c in range(B2.shape[1]):
                s = B2[r, c]
                for k in range(n):
                    if (lo and k < r) or (not lo and k > r):
                        s = xsub(s, xmul(A2[r, k], Xs[k, c]))
                Xs[r, c] = s if unit else xdiv(s, A2[r, r])
        res = Xs if left else Xs.T
        for j in np.ndindex(*res.shape):
            out[i + j] = res[j]
    return out


@rule("lu")
def _lu(ctx, eqn, a):
    n, m = a.shape[-2:]
    k = min(n, m)
    lu = a.copy()
    piv = np.empty(a.shape[:-2] + (k,), object)
    perm = np.empty(a.shape[:-2] + (n,), object)
    for i in np.ndindex(*a.shape[:-2]):
        A = lu[i].copy()
        P = list(range(n))
        for c in range(k):
            best, bi = xabs(A[c, c]), c
            for r in range(c + 1, n):
                v = xabs(A[r, c])
                g = xlt(best, v)
                best, bi = xite(g, v, best), iite(g, r, bi)
            piv[i + (c,)] = bi
            for r in range(c + 1, n):
                sw = ieq(bi, r)
                if sw is False:
                    continue
                rowc, rowr = A[c].copy(), A[r].copy()
                A[c] = [gite(sw, y, x) for x, y in zip(rowc, rowr)]
                A[r] = [gite(sw, x, y) for x, y in zip(rowc, rowr)]
                P[c], P[r] = iite(sw, P[r], P[c]), iite(sw, P[c], P[r])
            for r in range(c + 1, n):
                z = xeq(A[c, c], X0)
                f = xdiv(A[r, c], A[c, c])
                f = xite(z, A[r, c], f) if z is not False else f
                A[r, c] = f
                for q in range(c + 1, m):
                    A[r, q] = xsub(A[r, q], xmul(f, A[c, q]))
        for j in np.ndindex(n, m):
            lu[i + j] = A[j]
        for j in range(n):
            perm[i + (j,)] = P[j]
    return [lu, piv, perm]


@rule("geqrf")
def _geqrf(ctx, eqn, a):
    if is_conc(a):
        return _via_impl(ctx, eqn, [a])
    m, n = a.shape[-2:]
    k = min(m, n)
    out = a.copy()
    taus = np.empty(a.shape[:-2] + (k,), object)
    for i in np.ndindex(*a.shape[:-2]):
        A = a[i].copy()
        for c in range(k):
            alpha = A[c, c]
            rest = X0
            for r in range(c + 1, m):
                rest = xadd(rest, xmul(A[r, c], A[r, c]))
            triv = xeq(rest, X0)  # LAPACK: tau = 0 when the tail is zero
            nrm = ctx.sqrt(xadd(xmul(alpha, alpha), rest))
            beta = xite(xle(X0, alpha), xneg(nrm), nrm)
            tau = xite(triv, X0, xdiv(xsub(beta, alpha), beta))
            den = xsub(alpha, beta)
            v = [X0] * m
            v[c] = X1
            for r in range(c + 1, m):
                v[r] = xite(triv, X0, xdiv(A[r, c], den))
            for q in range(c + 1, n):
                s = A[c, q]
                for r in range(c + 1, m):
                    s = xadd(s, xmul(v[r], A[r, q]))
                s = xmul(tau, s)
                for r in range(c, m):
                    A[r, q] = xsub(A[r, q], xmul(s, v[r]))
            A[c, c] = xite(triv, alpha, beta)
            for r in range(c + 1, m):
                A[r, c] = v[r]
            taus[i + (c,)] = tau
        for j in np.ndindex(m, n):
            out[i + j] = A[j]
    return [out, taus]


@rule("householder_product")
def _householder_product(ctx, eqn, a, taus):
    m, n = a.shape[-2:]
    k = taus.shape[-1]
    out = a.copy()
    for i in np.ndindex(*a.shape[:-2]):
        Q = np.empty((m, n), object)
        for r, c in np.ndindex(m, n):
            Q[r, c] = X1 if r == c else X0
        for c in range(k - 1, -1, -1):
            v = [X0] * m
            v[c] = X1
            for r in range(c + 1, m):
                v[r] = a[i][r, c]
            tau = taus[i + (c,)]
            for q in range(n):
                s = X0
                for r in range(c, m):
                    s = xadd(s, xmul(v[r], Q[r, q]))
                s = xmul(tau, s)
                for r in range(c, m):
                    Q[r, q] = xsub(Q[r, q], xmul(s, v[r]))
        for j in np.ndindex(m, n):
            out[i + j] = Q[j]
    return out


# ---- opaque / observed / callbacks


@rule("opaque_fn")
def _opaque(ctx, eqn, x):
    p = eqn.params
    out = np.empty(eqn.outvars[0].aval.shape, object)
    for i in np.ndindex(*x.shape[:-1]):
        outs = ctx.opaque(p["name"], p["order"], p["dtype"], list(x[i]), p["m"])
        sub = np.empty(len(outs), object)
        for j, o in enumerate(outs):
            sub[j] = o
        out[i] = sub.reshape(out.shape[len(i):])
    return out


@rule("observe")
def _observe(ctx, eqn, *xs):
    ctx.events.append(Event("observe:" + eqn.params["name"], ctx.path, eqn.params, xs))
    return list(xs)


@rule("pure_callback", "io_callback", "debug_callback", "debug_print")
def _callback(ctx, eqn, *xs):
    ctx.events.append(Event(eqn.primitive.name, ctx.path, eqn.params, xs))
    outs = []
    for v in eqn.outvars:
        k = kind(v.aval.dtype)
        o = np.empty(v.aval.shape, object)
        for i in np.ndindex(*o.shape):
            o[i] = X(ctx.fresh("cb")) if k == "f" else ctx.fresh("cb", "I" if k == "i" else "B")
        outs.append(o)
    return outs


# ---- higher-order


def _closed(j):
    if hasattr(j, "jaxpr"):
        return j.jaxpr, j.consts
    return j, ()


def _call(ctx, j, args):
    jaxpr, consts = _closed(j)
    return eval_jaxpr(ctx, jaxpr, [lift(c) if not _isobj(c) else c for c in consts], args)


def _isobj(c):
    return isinstance(c, np.ndarray) and c.dtype == object


@rule("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint", "remat2", "xla_call", "custom_lin")
def _jit(ctx, eqn, *args):
    j = eqn.params.get("jaxpr") or eqn.params.get("call_jaxpr")
    return _call(ctx, j, args)


@rule("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_jvp_call_jaxpr")
def _custom(ctx, eqn, *args):
    p = eqn.params
    j = p.get("call_jaxpr") or p.get("fun_jaxpr") or p.get("jaxpr")
    return _call(ctx, j, args)


@rule("cond")
def _cond(ctx, eqn, index, *args):
    branches = eqn.params["branches"]
    i = index[()]
    n = len(branches)
    conds = []
    if kind(eqn.invars[0].aval.dtype) == "b":
        conds = [bnot(i), i]
    else:
        for b in range(n):
            if b == 0:
                conds.append(bnot(ilt(0, i)))
            elif b == n - 1:
                conds.append(bnot(ilt(i, n - 1)))
            else:
                conds.append(ieq(i, b))
    result = None
    for b, c in zip(branches, conds):
        if c is False:
            continue
        old = ctx.path
        newpath = band(old, c)
        if newpath is False:
            continue
        ctx.path = newpath
        try:
            outs = _call(ctx, b, args)
        finally:
            ctx.path = old
        if result is None or c is True:
            result = outs
            if c is True:
                break
        else:
            result = [aite(c, o, r) for o, r in zip(outs, result)]
    if result is None:  # unreachable code
        result = _call(ctx, branches[0], args)
    return result


@rule("while")
def _while(ctx, eqn, *args):
    p = eqn.params
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = args[:nc], args[nc : nc + nb], list(args[nc + nb :])
    active = True
    old = ctx.path
    bound = ctx.unroll
    exits = []  # (condition under which iteration k runs, carry before it)
    try:
        for it in range(bound + 1):
            (c,) = _call(ctx, p["cond_jaxpr"], list(cc) + carry)
            active = band(active, c[()])
            if active is False:
                break
            if isinstance(active, z3.ExprRef) and it >= 1 and ctx_infeasible(ctx, band(old, active)):
                active = False
                break
            if it == bound:
                ctx.unwind.append(band(old, active))
                break
            ctx.path = band(old, active)
            exits.append((active, carry))
            # inside the next iteration `active` holds, so the carry needs no merge yet
            carry = list(_call(ctx, p["body_jaxpr"], list(bc) + carry))
            ctx.path = old
    finally:
        ctx.path = old
    for act, before in reversed(exits):
        carry = [aite(act, n, o) for n, o in zip(carry, before)]
    return carry


def ctx_infeasible(ctx, cond):
    """cheap propositional/linear check used to stop unrolling early"""
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(abstract(b2z(cond)))
    return s.check() == z3.unsat


@rule("scan")
def _scan(ctx, eqn, *args):
    p = eqn.params
    if "ft_in" in p:
        nc, nk, _ = [len(t) for t in p["ft_in"].unpack()]
    else:
        nc, nk = p["num_consts"], p["num_carry"]
    consts, carry, xs = args[:nc], list(args[nc : nc + nk]), args[nc + nk :]
    n = p["length"]
    order = range(n - 1, -1, -1) if p["reverse"] else range(n)
    ys = {}
    for t in order:
        outs = _call(ctx, p["jaxpr"], list(consts) + carry + [x[t] if x[t].__class__ is np.ndarray else _wrap0(x[t]) for x in xs])
        carry = list(outs[:nk])
        ys[t] = outs[nk:]
    nys = len(eqn.outvars) - nk
    stacked = []
    for j in range(nys):
        aval = eqn.outvars[nk + j].aval
        o = np.empty(aval.shape, object)
        for t in range(n):
            y = ys[t][j]
            if y.ndim == 0:
                o[t] = y[()]
            else:
                o[t, ...] = y
        stacked.append(o)
    return carry + stacked


def _wrap0(e):
    o = np.empty((), object)
    o[()] = e
    return o


@rule("linear_solve")
def _linear_solve(ctx, eqn, *args):
    return _via_impl(ctx, eqn, args)


def _via_impl(ctx, eqn, args):
    """interpret a primitive through its Python impl rule, if that is itself traceable"""
    prim = eqn.primitive
    avals = [v.aval for v in eqn.invars]
    if all(is_conc(a) for a in args) and not any(hasattr(v, "jaxpr") for v in eqn.params.values()):
        try:
            o = _bind(prim, *[lower(a, v.dtype) for a, v in zip(args, avals)], **eqn.params)
            return [lift(x) for x in o] if prim.multiple_results else lift(o)
        except Exception:
            pass
    impl = getattr(prim, "impl", None)
    if impl is None or getattr(getattr(impl, "func", impl), "__name__", "") == "apply_primitive":
        raise Unsupported(prim.name)

    def f(*a):
        return prim.impl(*a, **eqn.params)

    try:
        j = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(a.shape, a.dtype) for a in avals])
    except Exception as e:
        raise Unsupported(f"{prim.name}: {type(e).__name__}: {e}") from e
    if any(q.primitive is prim for q in j.jaxpr.eqns) and len(j.jaxpr.eqns) == 1:
        raise Unsupported(prim.name)
    return _call(ctx, j, args)


# ---------------------------------------------------------------- main loop

_INT_FOLD_SKIP = {
    "opaque_fn", "observe", "while", "cond", "scan", "jit", "pjit", "custom_jvp_call", "custom_vjp_call",
    "pure_callback", "io_callback", "debug_callback", "linear_solve", "select_if_vmap", "unvmap_any",
    "unvmap_max", "unvmap_all", "nonbatchable", "closed_call", "remat", "checkpoint", "iota", "nontraceable",
}


def eval_jaxpr(ctx, jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, Literal):
            return lift(np.asarray(v.val), v.aval.dtype)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        ctx.prims[name] = ctx.prims.get(name, 0) + 1
        ctx.neqns += 1
        outs = None
        if name not in _INT_FOLD_SKIP and all(
            getattr(v.aval, "dtype", None) is not None and v.aval.dtype.kind in "iub" for v in list(eqn.invars) + list(eqn.outvars)
        ):
            if all(is_conc(a) for a in vals):
                try:
                    o = _bind(
                        eqn.primitive,
                        *[lower(a, v.aval.dtype) for a, v in zip(vals, eqn.invars)],
                        **eqn.params,
                    )
                    outs = [lift(x) for x in o] if eqn.primitive.multiple_results else [lift(o)]
                except Exception:
                    outs = None
        if outs is None:
            r = RULES.get(name)
            if r is not None:
                outs = r(ctx, eqn, *vals)
            else:
                outs = _via_impl(ctx, eqn, vals)
            if isinstance(outs, np.ndarray):
                outs = [outs]
        assert len(outs) == len(eqn.outvars), (name, len(outs), len(eqn.outvars))
        for v, o in zip(eqn.outvars, outs):
            if o.shape != tuple(v.aval.shape):
                raise Unsupported(f"{name}: shape {o.shape} vs {v.aval.shape}")
            if ctx.round and kind(v.aval.dtype) == "f":
                o = emap(lambda e: xc(e.tofloat()) if e.const else e, o)
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


# ---------------------------------------------------------------- nonlinear abstraction

_abs_cache = {}
_abs_vars = {}


def abstract(e):
    """Over-approximation: every nonlinear product/quotient becomes a fresh real (the same
    syntactic term always the same variable)."""
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in _abs_cache:
            todo.pop()
            continue
        ch = x.children()
        pend = [c for c in ch if c.get_id() not in _abs_cache]
        if pend:
            todo.extend(pend)
            continue
        todo.pop()
        if not ch:
            r = x
        else:
            new = [_abs_cache[c.get_id()] for c in ch]
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not _isnum(c) for c in new) > 1:
                r = _absvar(x, new)
            elif k == z3.Z3_OP_POWER:
                r = _absvar(x, new)
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not _isnum(new[1]):
                r = _absvar(x, new)
            else:
                r = x if all(a.eq(b) for a, b in zip(ch, new)) else x.decl()(*new)
        _abs_cache[i] = r
        T._keep.append(x)
    return _abs_cache[e.get_id()]


def _isnum(c):
    return z3.is_rational_value(c) or z3.is_int_value(c) or z3.is_algebraic_value(c)


def _absvar(x, new):
    key = (x.decl().kind(), tuple(sorted(c.get_id() for c in new)) if x.decl().kind() == z3.Z3_OP_MUL else tuple(c.get_id() for c in new))
    if key not in _abs_vars:
        v = z3.Real(f"nl!{len(_abs_vars)}") if x.sort() == z3.RealSort() else z3.Int(f"nl!{len(_abs_vars)}")
        _abs_vars[key] = (v, x, new)
        T._keep.append((x, new))
    return _abs_vars[key][0]
