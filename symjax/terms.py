"""Scalar terms: Python constants (bool, int, Fraction) or z3 expressions, with light
simplification.  Extended reals (`X`) carry explicit NaN/+inf/-inf flags."""

import math
import os
import sys
from fractions import Fraction

_Z3DIR = os.environ.get("VERIF_Z3_DIR", "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import z3
except ImportError:
    sys.path.append(_Z3DIR)
    import z3

F = Fraction


# ---------------------------------------------------------------- booleans


def isc(x):
    """is a Python constant"""
    return not isinstance(x, z3.ExprRef)


def b2z(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


def _same(a, b):
    return a is b or (
        isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    )


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if any(_same(x, y) for y in out):
            continue
        n = bnot(x)
        if any(_same(n, y) for y in out):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        if any(_same(x, y) for y in out):
            continue
        n = bnot(x)
        if any(_same(n, y) for y in out):
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bxor(a, b):
    if isinstance(a, bool):
        return bnot(b) if a else b
    if isinstance(b, bool):
        return bnot(a) if b else a
    if _same(a, b):
        return False
    return z3.Xor(a, b)


def biff(a, b):
    return bnot(bxor(a, b))


def bimplies(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if _same(a, b):
        return a
    if isinstance(a, bool):
        return bor(c, b) if a else band(bnot(c), b)
    if isinstance(b, bool):
        return bor(bnot(c), a) if b else band(c, a)
    return z3.If(c, a, b)


# ---------------------------------------------------------------- arithmetic (reals, ints)

_keep = []  # keeps z3 asts alive so that ids used as cache keys are not reused
_sign_cache = {}
_var_sign = {}  # var name -> sign


def frac(x):
    if isinstance(x, F):
        return x
    if isinstance(x, (bool, int)):
        return F(int(x))
    return F(float(x))


def r2z(a):
    if isinstance(a, z3.ExprRef):
        return a
    a = frac(a)
    return z3.Q(a.numerator, a.denominator) if a.denominator != 1 else z3.RealVal(a.numerator)


def real(name, sign="?"):
    _var_sign[name] = sign
    return z3.Real(name)


POS, NEG, NN, NP, ZERO, UNK = "+", "-", "0+", "0-", "0", "?"


def sgn(v):
    """Cheap sign analysis; one of + - 0+ 0- 0 ?"""
    if not isinstance(v, z3.ExprRef):
        return POS if v > 0 else NEG if v < 0 else ZERO
    k = v.get_id()
    r = _sign_cache.get(k)
    if r is None:
        r = _sgn(v)
        _sign_cache[k] = r
        _keep.append(v)
    return r


def _neg(s):
    return {POS: NEG, NEG: POS, NN: NP, NP: NN}.get(s, s)


def _mulsign(a, b):
    if ZERO in (a, b):
        return ZERO
    if UNK in (a, b):
        return UNK
    pos = {POS: (1, 1), NN: (1, 0), NEG: (-1, 1), NP: (-1, 0)}
    (sa, xa), (sb, xb) = pos[a], pos[b]
    return {(1, 1): POS, (1, 0): NN, (-1, 1): NEG, (-1, 0): NP}[(sa * sb, xa & xb)]


def _addsign(a, b):
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    if a in (POS, NN) and b in (POS, NN):
        return POS if POS in (a, b) else NN
    if a in (NEG, NP) and b in (NEG, NP):
        return NEG if NEG in (a, b) else NP
    return UNK


def _joinsign(a, b):
    if a == b:
        return a
    s = {a, b}
    if s <= {POS, NN, ZERO}:
        return NN
    if s <= {NEG, NP, ZERO}:
        return NP
    return UNK


def _sgn(v):
    if z3.is_rational_value(v):
        n = v.numerator_as_long()
        return POS if n > 0 else NEG if n < 0 else ZERO
    if z3.is_int_value(v):
        n = v.as_long()
        return POS if n > 0 else NEG if n < 0 else ZERO
    d = v.decl().kind()
    if d == z3.Z3_OP_UNINTERPRETED and v.num_args() == 0:
        return _var_sign.get(v.decl().name(), UNK)
    if d == z3.Z3_OP_ADD:
        s = ZERO
        for c in v.children():
            s = _addsign(s, sgn(c))
        return s
    if d == z3.Z3_OP_UMINUS:
        return _neg(sgn(v.arg(0)))
    if d == z3.Z3_OP_SUB:
        s = sgn(v.arg(0))
        for c in v.children()[1:]:
            s = _addsign(s, _neg(sgn(c)))
        return s
    if d == z3.Z3_OP_MUL:
        cs = v.children()
        ids = {}
        for c in cs:
            ids.setdefault(c.get_id(), []).append(c)
        s = POS
        for grp in ids.values():
            g = sgn(grp[0])
            if len(grp) % 2 == 0:
                s = _mulsign(s, POS if g in (POS, NEG) else ZERO if g == ZERO else NN)
            else:
                s = _mulsign(s, g)
        return s
    if d == z3.Z3_OP_DIV:
        b = sgn(v.arg(1))
        if b not in (POS, NEG):
            return UNK
        return _mulsign(sgn(v.arg(0)), b)
    if d == z3.Z3_OP_TO_REAL:
        return sgn(v.arg(0))
    if d == z3.Z3_OP_ITE:
        c, a, b = v.children()
        # abs pattern: if x<0 then -x else x   (built by rabs)
        if v.get_id() in _abs_ids:
            return NN
        if v.get_id() in _max_ids:
            return _max_ids[v.get_id()]
        return _joinsign(sgn(a), sgn(b))
    return UNK


_abs_ids = {}
_max_ids = {}


# ---- normal form: a sum of rational multiples of monomials; a monomial is a product of integer
# powers of atoms (variables, ites, and sums scaled to leading coefficient one).  Terms that are
# equal up to associativity, commutativity, signs and constant factors are the same z3 term.

_lin_tab = {}  # id of a rendered sum -> (constant, ((monomial expr, coefficient), ...))
_mono_tab = {}  # id of a rendered monomial -> ((factor expr, exponent), ...)
_abs_of = {}  # id of abs(x) -> x
_max_of = {}  # id of max(a, b) -> ("max" | "min", a, b)
_sqrt_of = {}  # id of a square root variable -> its argument


def lin(v):
    """(constant, {id: (monomial, coefficient)})"""
    if isc(v):
        return frac(v), {}
    t = _lin_tab.get(v.get_id())
    if t is not None:
        return t[0], {m.get_id(): (m, k) for m, k in t[1]}
    k = _cval(v)
    if k is not None:
        return frac(k), {}
    return F(0), {v.get_id(): (v, F(1))}


def unlin(c, d):
    items = sorted(((i, m, k) for i, (m, k) in d.items() if k != 0), key=lambda t: t[0])
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][2] == 1:
        return items[0][1]
    if c == 0 and len(items) > 1:
        r = _cancel(items)
        if r is not None:
            return r
    parts = [m if k == 1 else r2z(k) * m for _, m, k in items]
    if c != 0:
        parts.append(r2z(c))
    r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
    if r.get_id() not in _lin_tab:
        _lin_tab[r.get_id()] = (c, tuple((m, k) for _, m, k in items))
        _keep.append(r)
        _keep.extend(m for _, m, _ in items)
    return r


def _cancel(items):
    """(a*m + b*m + ...) / (a + b + ...)  ->  m"""
    fss = [_factors(m) for _, m, _ in items]
    for i, (f, e) in fss[0].items():
        t = _lin_tab.get(i)
        if e >= 0 or t is None or len(t[1]) != len(items) or not all(i in g and g[i][1] == e for g in fss[1:]):
            continue
        # common part of the monomials apart from f
        common = {j: (h, n) for j, (h, n) in fss[0].items() if j != i and all(j in g and g[j][1] == n for g in fss[1:])}
        rest, d = 0, {}
        for g, (_, _, k) in zip(fss, items):
            m = unmono({j: q for j, q in g.items() if j != i and j not in common})
            if isc(m):
                rest += k * m
            else:
                d[m.get_id()] = (m, k + d.get(m.get_id(), (m, 0))[1])
        td = {m.get_id(): k for m, k in t[1]}
        if set(td) != set(d):
            continue
        r = d[t[1][0][0].get_id()][1] / t[1][0][1]
        if rest == r * t[0] and all(d[j][1] == r * k for j, k in td.items()):
            common[i] = (f, e + 1)
            return rmul(r, unmono(common))
    return None


def _content(v):
    """v = k * p with the leading coefficient of p equal to one"""
    c, d = lin(v)
    if not d:
        return c, F(1)
    i0 = min(d)
    k = d[i0][1]
    if k == 1:
        return F(1), v
    return k, unlin(c / k, {i: (m, q / k) for i, (m, q) in d.items()})


def _factors(v):
    """exponents of a primitive term"""
    if isc(v):
        return {}
    t = _mono_tab.get(v.get_id())
    if t is not None:
        return {f.get_id(): (f, e) for f, e in t}
    return {v.get_id(): (v, 1)}


def _prod(fs):
    r = None
    for f, e in fs:
        for _ in range(e):
            r = f if r is None else r * f
    return r


def unmono(d):
    fs, coef = {}, F(1)
    todo = list(d.values())
    while todo:
        f, e = todo.pop()
        i = f.get_id()
        e += fs.pop(i, (f, 0))[1]
        if i in _abs_of and e and e % 2 == 0:  # |x|^2 = x^2
            todo += [(h, n * e) for h, n in _factors(_abs_of[i]).values()]
            continue
        if i in _sqrt_of and abs(e) >= 2:  # sqrt(x)^2 = x
            h = e // 2 if e > 0 else -((-e) // 2)
            k, g = _content(_sqrt_of[i])
            coef *= k**h
            todo += [(t, n * h) for t, n in _factors(g).values()]
            e -= 2 * h
        if e:
            fs[i] = (f, e)
    if coef != 1:
        return rmul(coef, unmono(fs))
    items = sorted(((i, f, e) for i, (f, e) in fs.items() if e != 0), key=lambda t: t[0])
    if not items:
        return F(1)
    if len(items) == 1 and items[0][2] == 1:
        return items[0][1]
    num = _prod([(f, e) for _, f, e in items if e > 0])
    den = _prod([(f, -e) for _, f, e in items if e < 0])
    r = num if den is None else (z3.RealVal(1) if num is None else num) / den
    if r.get_id() not in _mono_tab:
        _mono_tab[r.get_id()] = tuple((f, e) for _, f, e in items)
        _keep.append(r)
        _keep.extend(f for _, f, _ in items)
    return r


def _scale(k, v):
    if k == 1:
        return v
    c, d = lin(v)
    return unlin(c * k, {i: (m, q * k) for i, (m, q) in d.items()})


def radd(a, b):
    if isc(a) and isc(b):
        return a + b
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for i, (m, k) in db.items():
        d[i] = (m, d[i][1] + k) if i in d else (m, k)
    return unlin(ca + cb, d)


def rneg(a):
    return -a if isc(a) else _scale(F(-1), a)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a) or isc(b):
        k, v = (a, b) if isc(a) else (b, a)
        k = frac(k)
        return F(0) if k == 0 else _scale(k, v)
    ka, pa = _content(a)
    kb, pb = _content(b)
    d = _factors(pa)
    for i, (f, e) in _factors(pb).items():
        d[i] = (f, d[i][1] + e) if i in d else (f, e)
    return rmul(ka * kb, unmono(d))


_zero_oracle = [None]


def rdiv_nz(a, b):
    """a/b assuming b != 0"""
    if isc(a) and isc(b):
        return a / b
    if isc(a) and a == 0:
        return F(0)
    if isc(b):
        return rmul(a, 1 / frac(b))
    ka, pa = _content(a)
    kb, pb = _content(b)
    d = _factors(pa)
    for i, (f, e) in _factors(pb).items():
        d[i] = (f, d[i][1] - e) if i in d else (f, -e)
    return rmul(ka / kb, unmono(d))


def rite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b):
        if a == b:
            return a
    elif _same(a, b):
        return a
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    return z3.If(c, r2z(a), r2z(b))


def _cmp_sign(a, b):
    """sign of a-b if cheap"""
    if isc(b) and b == 0:
        return sgn(a)
    if isc(a) and a == 0:
        return _neg(sgn(b))
    if isc(b) and not isc(a):
        s = sgn(a)
        if b < 0 and s in (POS, NN, ZERO):
            return POS
        if b > 0 and s in (NEG, NP, ZERO):
            return NEG
    if isc(a) and not isc(b):
        s = sgn(b)
        if a < 0 and s in (POS, NN, ZERO):
            return NEG
        if a > 0 and s in (NEG, NP, ZERO):
            return POS
    return UNK


def _push_ite(f, a, b):
    """push a comparison against a constant into an ite whose leaves are constants"""
    for x, y, fl in ((a, b, False), (b, a, True)):
        if isc(y) and not isc(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, p, q = x.children()
            pv, qv = _cval(p), _cval(q)
            if pv is not None or qv is not None:
                p = pv if pv is not None else p
                q = qv if qv is not None else q
                l = f(y, p) if fl else f(p, y)
                r = f(y, q) if fl else f(q, y)
                return bite(c, l, r)
    return None


def _cval(p):
    if z3.is_int_value(p):
        return p.as_long()
    if z3.is_rational_value(p):
        return F(p.numerator_as_long(), p.denominator_as_long())
    return None


def _compare(op, a, b):
    """a-b brought to (coefficient sign, primitive left side, constant right side)"""
    c, d = lin(rsub(a, b))
    if not d:
        return None, c, None
    i0 = min(d)
    if len(d) == 1:
        # k*P/Q + c with Q of known sign: multiply through
        (m, k), = d.values()
        t = _mono_tab.get(m.get_id())
        if t is not None and c != 0 and any(e < 0 for _, e in t):
            num = {f.get_id(): (f, e) for f, e in t if e > 0}
            den = {f.get_id(): (f, -e) for f, e in t if e < 0}
            q = unmono(den)
            s = sgn(q)
            if s in (POS, NEG):
                e = radd(rmul(k, unmono(num)), rmul(c, q))
                return _compare(op, e if s == POS or op == "eq" else rneg(e), F(0))
    k = d[i0][1]
    return k > 0, unlin(F(0), {i: (m, q / k) for i, (m, q) in d.items()}), -c / k


def rlt(a, b):
    if isc(a) and isc(b):
        return bool(a < b)
    if _same(a, b):
        return False
    s = _cmp_sign(a, b)
    if s == NEG:
        return True
    if s in (POS, NN, ZERO):
        return False
    r = _push_ite(rlt, a, b)
    if r is not None:
        return r
    up, p, c = _compare("lt", a, b)
    if up is None:
        return bool(p < 0)
    s = _cmp_sign(p, c)
    if not up:
        s = _neg(s)
    if s == NEG:
        return True
    if s in (POS, NN, ZERO):
        return False
    if not isc(p):
        m = _max_of.get(p.get_id())
        if m is not None:
            kind, x, y = m
            l, r = (rlt(x, c), rlt(y, c)) if up else (rlt(c, x), rlt(c, y))
            return band(l, r) if (kind == "max") == up else bor(l, r)
        q = _sqrt_of.get(p.get_id())
        if q is not None and c >= 0:
            return rlt(q, c * c) if up else rlt(c * c, q)
    r = _push_ite(rlt, p, c) if up else _push_ite(rlt, c, p)
    if r is not None:
        return r
    return r2z(p) < r2z(c) if up else r2z(c) < r2z(p)


def rle(a, b):
    return bnot(rlt(b, a))


def req(a, b):
    if isc(a) and isc(b):
        return bool(a == b)
    if _same(a, b):
        return True
    s = _cmp_sign(a, b)
    if s in (POS, NEG):
        return False
    if s == ZERO:
        return True
    r = _push_ite(req, a, b)
    if r is not None:
        return r
    up, p, c = _compare("eq", a, b)
    if up is None:
        return p == 0
    s = _cmp_sign(p, c)
    if s in (POS, NEG):
        return False
    if s == ZERO:
        return True
    if c == 0:
        t = _mono_tab.get(p.get_id())
        if t is not None:
            return bor(*[req(f, F(0)) for f, e in t if e > 0])
        if p.get_id() in _abs_of:
            return req(_abs_of[p.get_id()], F(0))
        if p.get_id() in _sqrt_of:
            return req(_sqrt_of[p.get_id()], F(0))
    r = _push_ite(req, p, c)
    if r is not None:
        return r
    return r2z(p) == r2z(c)


def rabs(a):
    s = sgn(a)
    if s in (POS, NN, ZERO):
        return a
    if s in (NEG, NP):
        return rneg(a)
    k, p = _content(a)
    # pull factors of known sign out
    out, rest = {}, {}
    for i, (f, e) in _factors(p).items():
        if i in _abs_of:
            out[i] = (f, e)
        elif sgn(f) in (POS, NN):
            out[i] = (f, e)
        elif e % 2 == 0 and not (e < 0):
            out[i] = (f, e)
        else:
            rest[i] = (f, e)
    num = {i: t for i, t in rest.items() if t[1] > 0}
    den = {i: (f, -e) for i, (f, e) in rest.items() if e < 0}
    r = rmul(abs(k), unmono(out))
    if num:
        r = rmul(r, _abs_atom(unmono(num)))
    if den:
        r = rdiv_nz(r, _abs_atom(unmono(den)))
    return r


def _abs_atom(p):
    r = z3.If(p < 0, -p, p)
    if r.get_id() not in _abs_of:
        _abs_of[r.get_id()] = p
        _abs_ids[r.get_id()] = r
        _keep.append(r)
        _keep.append(p)
    return r


# --------- ints


def i2z(a):
    return z3.IntVal(int(a)) if isc(a) else a


def iop(op, a, b):
    if isc(a) and isc(b):
        return op(int(a), int(b))
    return op(i2z(a), i2z(b))


def _ipush(f, a, b):
    for x, y, fl in ((a, b, False), (b, a, True)):
        if isc(y) and not isc(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, p, q = x.children()
            pv, qv = _cval(p), _cval(q)
            if pv is not None or qv is not None:
                p = pv if pv is not None else p
                q = qv if qv is not None else q
                return (c, (f(y, p) if fl else f(p, y)), (f(y, q) if fl else f(q, y)))
    return None


def iadd(a, b):
    if isc(a) and isc(b):
        return int(a) + int(b)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    r = _ipush(iadd, a, b)
    if r is not None:
        return iite(*r)
    return i2z(a) + i2z(b)


def ineg(a):
    return -int(a) if isc(a) else -a


def isub(a, b):
    return iadd(a, ineg(b))


def imul(a, b):
    if isc(a) and isc(b):
        return int(a) * int(b)
    if isc(a) and a in (0, 1):
        return 0 if a == 0 else b
    if isc(b) and b in (0, 1):
        return 0 if b == 0 else a
    return i2z(a) * i2z(b)


def irem(a, b):
    """C-style remainder (sign of the dividend)"""
    if isc(a) and isc(b):
        if b == 0:
            return int(a)
        return int(math.fmod(int(a), int(b)))
    r = _ipush(irem, a, b)
    if r is not None:
        return iite(*r)
    az, bz = i2z(a), i2z(b)
    ab = z3.If(bz < 0, -bz, bz)
    return z3.If(az >= 0, az % ab, -((-az) % ab))


def idiv(a, b):
    """C-style division"""
    if isc(a) and isc(b):
        if b == 0:
            return -1
        q = abs(int(a)) // abs(int(b))
        return q if (a >= 0) == (b >= 0) else -q
    az, bz = i2z(a), i2z(b)
    ab, aa = z3.If(bz < 0, -bz, bz), z3.If(az < 0, -az, az)
    q = aa / ab
    return z3.If((az >= 0) == (bz >= 0), q, -q)


def iite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b):
        if int(a) == int(b):
            return int(a)
    elif _same(a, b):
        return a
    return z3.If(c, i2z(a), i2z(b))


def ilt(a, b):
    if isc(a) and isc(b):
        return int(a) < int(b)
    if _same(a, b):
        return False
    r = _push_ite(ilt, a, b)
    if r is not None:
        return r
    return i2z(a) < i2z(b)


def ieq(a, b):
    if isc(a) and isc(b):
        return int(a) == int(b)
    if _same(a, b):
        return True
    r = _push_ite(ieq, a, b)
    if r is not None:
        return r
    return i2z(a) == i2z(b)


def i2r(a):
    return F(int(a)) if isc(a) else z3.ToReal(a)


# ---------------------------------------------------------------- extended reals


class X:
    """Extended real.  At most one of nan/pi/ni holds; v is meaningful iff none does."""

    __slots__ = ("v", "nan", "pi", "ni")

    def __init__(self, v, nan=False, pi=False, ni=False):
        self.v = v
        self.nan = nan
        self.pi = pi
        self.ni = ni

    @property
    def fin(self):
        return self.nan is False and self.pi is False and self.ni is False

    @property
    def const(self):
        return (
            isc(self.v)
            and isinstance(self.nan, bool)
            and isinstance(self.pi, bool)
            and isinstance(self.ni, bool)
        )

    def key(self):
        return tuple(
            ("z", t.get_id()) if isinstance(t, z3.ExprRef) else ("c", t)
            for t in (self.v, self.nan, self.pi, self.ni)
        )

    def tofloat(self):
        assert self.const
        if self.nan:
            return math.nan
        if self.pi:
            return math.inf
        if self.ni:
            return -math.inf
        try:
            return float(self.v)
        except OverflowError:
            return math.inf if self.v > 0 else -math.inf

    def __repr__(self):
        if self.fin:
            return f"X({self.v})"
        return f"X({self.v}, nan={self.nan}, +inf={self.pi}, -inf={self.ni})"

    # operators, so that specifications can be written with numpy object arrays
    def __add__(self, o):
        return xadd(self, tox(o))

    def __radd__(self, o):
        return xadd(tox(o), self)

    def __sub__(self, o):
        return xsub(self, tox(o))

    def __rsub__(self, o):
        return xsub(tox(o), self)

    def __mul__(self, o):
        return xmul(self, tox(o))

    def __rmul__(self, o):
        return xmul(tox(o), self)

    def __truediv__(self, o):
        return xdiv(self, tox(o))

    def __rtruediv__(self, o):
        return xdiv(tox(o), self)

    def __neg__(self):
        return xneg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return xabs(self)


def tox(x):
    if isinstance(x, X):
        return x
    if isinstance(x, z3.ArithRef):
        return X(x if x.sort() == z3.RealSort() else z3.ToReal(x))
    return xc(x)


def xc(x):
    """constant"""
    if isinstance(x, F):
        return X(x)
    x = float(x)
    if math.isnan(x):
        return X(F(0), nan=True)
    if math.isinf(x):
        return X(F(0), pi=x > 0, ni=x < 0)
    return X(F(x))


NAN = xc(math.nan)
PINF = xc(math.inf)
NINF = xc(-math.inf)
X0 = xc(0.0)
X1 = xc(1.0)


def isfinite(a):
    return bnot(bor(a.nan, a.pi, a.ni))


def isnan(a):
    return a.nan


def xneg(a):
    return X(rneg(a.v), a.nan, a.ni, a.pi)


def xadd(a, b):
    v = radd(a.v, b.v)
    if a.fin and b.fin:
        return X(v)
    nan = bor(a.nan, b.nan, band(a.pi, b.ni), band(a.ni, b.pi))
    pi = band(bor(a.pi, b.pi), bnot(nan))
    ni = band(bor(a.ni, b.ni), bnot(nan))
    return X(v, nan, pi, ni)


def xsub(a, b):
    if a.fin and b.fin:
        return X(rsub(a.v, b.v))
    return xadd(a, xneg(b))


def _xsign(a):
    """(is positive, is negative, is zero) for non-nan"""
    fz = isfinite(a)
    pos = bor(a.pi, band(fz, rlt(F(0), a.v)))
    neg = bor(a.ni, band(fz, rlt(a.v, F(0))))
    zero = band(fz, req(a.v, F(0)))
    return pos, neg, zero


def xmul(a, b):
    v = rmul(a.v, b.v)
    if a.fin and b.fin:
        return X(v)
    ap, an, az = _xsign(a)
    bp, bn, bz = _xsign(b)
    ainf = bor(a.pi, a.ni)
    binf = bor(b.pi, b.ni)
    nan = bor(a.nan, b.nan, band(ainf, bz), band(binf, az))
    inf = band(bor(ainf, binf), bnot(nan))
    pos = bor(band(ap, bp), band(an, bn))
    return X(v, nan, band(inf, pos), band(inf, bnot(pos)))


_divzero = {}


def _divzero_sign(a, b):
    """sign of zero denominators is not tracked: an arbitrary but fixed sign per (a, b)"""
    k = (a.key(), b.key())
    if k not in _divzero:
        _divzero[k] = z3.Bool(f"zsign!{len(_divzero)}")
        _keep.append((a, b))
    return _divzero[k]


def xdiv(a, b, known_nonzero=None):
    bz0 = req(b.v, F(0))
    if bz0 is not False and known_nonzero is not None and b.fin and known_nonzero(b.v):
        bz0 = False
    if bz0 is False and b.fin:
        v = rdiv_nz(a.v, b.v)
        if a.fin:
            return X(v)
        s = rlt(F(0), b.v)
        return X(v, a.nan, bite(s, a.pi, a.ni), bite(s, a.ni, a.pi))
    ap, an, az = _xsign(a)
    bp, bn, bz = _xsign(b)
    ainf = bor(a.pi, a.ni)
    binf = bor(b.pi, b.ni)
    nan = bor(a.nan, b.nan, band(ainf, binf), band(az, bz))
    inf = band(bnot(nan), bor(ainf, band(bz, bnot(az))))
    if bz is False:
        bpos = bp
    elif bz is True:
        bpos = _divzero_sign(a, b)
    else:
        bpos = bor(bp, band(bz, _divzero_sign(a, b)))
    pos = biff(ap, bpos)
    if isc(b.v) and b.v == 0:
        v = F(0)
    else:
        v = rdiv_nz(a.v, b.v)
    v = rite(binf, F(0), v)
    return X(v, nan, band(inf, pos), band(inf, bnot(pos)))


def xite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    v = rite(c, a.v, b.v)
    if not (a.fin and b.fin):
        # a non-finite constant has no meaningful v: avoid creating an ite
        if a.const and not a.fin:
            v = b.v
        elif b.const and not b.fin:
            v = a.v
    return X(v, bite(c, a.nan, b.nan), bite(c, a.pi, b.pi), bite(c, a.ni, b.ni))


def xlt(a, b):
    if a.fin and b.fin:
        return rlt(a.v, b.v)
    fin = band(isfinite(a), isfinite(b))
    return band(
        bnot(a.nan),
        bnot(b.nan),
        bor(
            band(fin, rlt(a.v, b.v)),
            band(a.ni, bnot(b.ni)),
            band(b.pi, bnot(a.pi)),
        ),
    )


def xle(a, b):
    if a.fin and b.fin:
        return rle(a.v, b.v)
    fin = band(isfinite(a), isfinite(b))
    return band(
        bnot(a.nan), bnot(b.nan), bor(band(fin, rle(a.v, b.v)), a.ni, b.pi)
    )


def xeq(a, b):
    """IEEE equality (NaN != NaN)"""
    if a.fin and b.fin:
        return req(a.v, b.v)
    fin = band(isfinite(a), isfinite(b))
    return band(
        bnot(a.nan),
        bnot(b.nan),
        bor(band(fin, req(a.v, b.v)), band(a.pi, b.pi), band(a.ni, b.ni)),
    )


def xsame(a, b):
    """identity (NaN same as NaN)"""
    if a.fin and b.fin:
        return req(a.v, b.v)
    return bor(band(a.nan, b.nan), xeq(a, b))


def _ordered(a, b):
    if a.fin and b.fin and not isc(a.v) and (isc(b.v) or b.v.get_id() < a.v.get_id()):
        return b, a
    return a, b


def xmax(a, b):
    a, b = _ordered(a, b)
    r = xite(xlt(a, b), b, a)
    if a.fin and b.fin:
        if isinstance(r.v, z3.ExprRef) and z3.is_app_of(r.v, z3.Z3_OP_ITE):
            sa, sb = sgn(a.v), sgn(b.v)
            s = POS if POS in (sa, sb) else NN if (NN in (sa, sb) or ZERO in (sa, sb)) else None
            if s:
                _max_ids[r.v.get_id()] = s
            _max_of[r.v.get_id()] = ("max", a.v, b.v)
            _keep.append(r.v)
        return r
    return xite(bor(a.nan, b.nan), NAN, r)


def xmin(a, b):
    a, b = _ordered(a, b)
    r = xite(xlt(b, a), b, a)
    if a.fin and b.fin:
        if isinstance(r.v, z3.ExprRef) and z3.is_app_of(r.v, z3.Z3_OP_ITE):
            sa, sb = sgn(a.v), sgn(b.v)
            s = NEG if NEG in (sa, sb) else NP if (NP in (sa, sb) or ZERO in (sa, sb)) else None
            if s:
                _max_ids[r.v.get_id()] = s
            _max_of[r.v.get_id()] = ("min", a.v, b.v)
            _keep.append(r.v)
        return r
    return xite(bor(a.nan, b.nan), NAN, r)


def xabs(a):
    if a.fin:
        return X(rabs(a.v))
    return X(rabs(a.v), a.nan, bor(a.pi, a.ni), False)


def xsign(a):
    if a.fin and isc(a.v):
        return X(F((a.v > 0) - (a.v < 0)))
    p, n, _ = _xsign(a)
    v = rite(p, F(1), rite(n, F(-1), F(0)))
    return X(v, a.nan, False, False)
