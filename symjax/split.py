"""Case-splitting prover: rebuild the goal under an assignment of its ite conditions, so that at
the leaves only plain rational functions are left, where identities are decided exactly."""

import os
import time

from . import terms as T
from .terms import *
from .solve import STATS, full_check, lin_unsat, relevant


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- rational functions

LIMIT = 60000


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + k * c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def _mmul(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def _pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mmul(m, n)
            s = r.get(k, 0) + c * d
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def _ppow(a, e):
    r = {(): F(1)}
    for _ in range(e):
        r = _pmul(r, a)
    return r


def _pkey(p):
    return tuple(sorted(p.items()))


def _monic(p):
    k = p[min(p)]
    return k, {m: c / k for m, c in p.items()}


class Rat:
    """num / product of den[key] = (polynomial, exponent)"""

    def __init__(self, num, den):
        self.num, self.den = num, den


def _rat_add(a, b):
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, max(e, den.get(k, (p, 0))[1]))
    na, nb = a.num, b.num
    for k, (p, e) in den.items():
        ea, eb = a.den.get(k, (p, 0))[1], b.den.get(k, (p, 0))[1]
        if e > ea:
            na = _pmul(na, _ppow(p, e - ea))
        if e > eb:
            nb = _pmul(nb, _ppow(p, e - eb))
    return Rat(_padd(na, nb), den)


def _rat_mul(a, b):
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, e + den.get(k, (p, 0))[1])
    # cheap cancellation
    num = [dict(a.num), dict(b.num)]
    for j in range(2):
        if len(num[j]) > 1 or (num[j] and next(iter(num[j])) != ()):
            k, m = _monic(num[j])
            key = _pkey(m)
            if key in den and den[key][1] > 0:
                p, e = den[key]
                if e == 1:
                    del den[key]
                else:
                    den[key] = (p, e - 1)
                num[j] = {(): k}
    return Rat(_pmul(num[0], num[1]), den)


def _rat_inv(a):
    if not a.num:
        raise TooBig()
    num = {(): F(1)}
    for p, e in a.den.values():
        num = _pmul(num, _ppow(p, e))
    k, m = _monic(a.num)
    num = {x: c / k for x, c in num.items()}
    if m == {(): F(1)}:
        return Rat(num, {})
    # split monomials so that common factors cancel
    if len(m) == 1:
        (mono, _), = m.items()
        return Rat(num, {((((i, 1),), F(1)),): ({((i, 1),): F(1)}, e) for i, e in mono})
    return Rat(num, {_pkey(m): (m, 1)})


PRIME = (1 << 61) - 1


def _walk(v):
    """the sums and monomials of a term, by id; and its atoms"""
    lins, monos, atoms, todo, seen = {}, {}, {}, [v], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in T._lin_tab:
            lins[i] = x
            todo.extend(m for m, _ in T._lin_tab[i][1])
        elif i in T._mono_tab:
            monos[i] = x
            todo.extend(f for f, _ in T._mono_tab[i])
        elif T._cval(x) is None:
            atoms[i] = x
    return lins, monos, atoms


def _atoms_of(v):
    return _walk(v)[2]


def _whole_factors(v):
    """sums that occur as factors and whose monomials are seen nowhere else: the
    identity is first tried with those as unknowns"""
    lins, monos, _ = _walk(v)
    bags = {i: {f.get_id(): e for f, e in T._mono_tab[i]} for i in monos}
    out = []
    for i in {f.get_id() for m in monos for f, _ in T._mono_tab[m]} & set(lins):
        own = [m.get_id() for m, _ in T._lin_tab[i][1]]
        if T._lin_tab[i][0] or any(m not in bags or any(e < 0 or f in lins for f, e in bags[m].items()) for m in own):
            continue
        if not any(
            j not in own and all(bags[j].get(f, 0) >= e for f, e in bags[m].items()) for j in bags for m in own
        ):
            out.append(lins[i])
    return out


class Rats:
    def __init__(self):
        self.cache = {}
        self.atoms = {}
        self.eqs = {}
        self.marks = {}

    def rat(self, v):
        if isc(v):
            v = frac(v)
            return Rat({(): v} if v else {}, {})
        i = v.get_id()
        if i not in self.cache:
            self.cache[i] = self._rat(v)
            T._keep.append(v)
        return self.cache[i]

    def _rat(self, v):
        k = T._cval(v)
        if k is not None:
            return self.rat(F(k))
        i = v.get_id()
        t = T._lin_tab.get(i)
        if t is not None:
            r = self.rat(t[0])
            for m, k in t[1]:
                r = _rat_add(r, _rat_mul(self.rat(k), self.rat(m)))
            return r
        t = T._mono_tab.get(i)
        if t is not None:
            r = self.rat(F(1))
            for f, e in t:
                q = self.rat(f)
                if e < 0:
                    q = _rat_inv(q)
                for _ in range(abs(e)):
                    r = _rat_mul(r, q)
            return r
        self.atoms[i] = v
        return Rat({((i, 1),): F(1)}, {})

    def mark(self, v):
        """value at a pseudo-random point modulo a prime (None where undefined)"""
        if isc(v):
            v = frac(v)
            return v.numerator * pow(v.denominator, -1, PRIME) % PRIME
        i = v.get_id()
        if i not in self.marks:
            self.marks[i] = self._mark(v)
            T._keep.append(v)
        return self.marks[i]

    def _mark(self, v):
        k = T._cval(v)
        if k is not None:
            return self.mark(F(k))
        i = v.get_id()
        t = T._lin_tab.get(i)
        if t is not None:
            r = self.mark(t[0])
            for m, k in t[1]:
                m = self.mark(m)
                if m is None:
                    return None
                r += self.mark(k) * m
            return r % PRIME
        t = T._mono_tab.get(i)
        if t is not None:
            r = 1
            for f, e in t:
                q = self.mark(f)
                if q is None or (q == 0 and e < 0):
                    return None
                r = r * pow(q, e, PRIME) % PRIME
            return r
        return hash((i, 7919)) * 6364136223846793005 % PRIME

    def equal(self, p, q, k=1):
        """p = k q"""
        a, b = self.mark(p), self.mark(q)
        if a is None or b is None or (a - k * b) % PRIME:
            return False
        i = (p.get_id(), q.get_id(), k)
        if i not in self.eqs:
            T._keep.extend((p, q))
            try:
                self.eqs[i] = self.zero(rsub(p, rmul(F(k), q)))
            except TooBig:
                self.eqs[i] = False
        return self.eqs[i]

    def zero(self, v):
        """is the rational function identically zero?"""
        if not isc(v):
            whole = _whole_factors(v)
            if whole:
                r = Rats()
                for x in whole:
                    r.cache[x.get_id()] = Rat({((x.get_id(), 1),): F(1)}, {})
                try:
                    if r._zero(v):
                        return True
                except TooBig:
                    pass
            if self.mark(v) not in (0, None) and not any(i in T._sqrt_of for i in _atoms_of(v)):
                return False
        return self._zero(v)

    def _zero(self, v):
        p = self.rat(v).num
        while True:
            if not p:
                return True
            # sqrt(x)^2 -> x
            hit = None
            for m in p:
                for i, e in m:
                    if e >= 2 and i in T._sqrt_of:
                        # innermost last: eliminate the newest root first
                        if hit is None or i > hit:
                            hit = i
            if hit is None:
                return False
            q = self.rat(T._sqrt_of[hit])
            den = {(): F(1)}
            for d, e in q.den.values():
                den = _pmul(den, _ppow(d, e))
            deg = max(e // 2 for m in p for i, e in m if i == hit)
            out = {}
            pn, pd = [{(): F(1)}], [{(): F(1)}]
            for _ in range(deg):
                pn.append(_pmul(pn[-1], q.num))
                pd.append(_pmul(pd[-1], den))
            groups = {}
            for m, c in p.items():
                e = dict(m).get(hit, 0)
                rest = tuple((i, n) for i, n in m if i != hit)
                if e % 2:
                    rest = _mmul(rest, ((hit, 1),))
                g = groups.setdefault(e // 2, {})
                g[rest] = g.get(rest, 0) + c
            for h, g in groups.items():
                out = _padd(out, _pmul(g, _pmul(pn[h], pd[deg - h])))
            p = out


# ---------------------------------------------------------------- rebuilding under assumptions


class Env:
    def __init__(self, parent=None, rats=None):
        self.bools = dict(parent.bools) if parent else {}
        self.bounds = dict(parent.bounds) if parent else {}
        self.lits = list(parent.lits) if parent else []
        self.subst = dict(parent.subst) if parent else {}  # variable id -> term
        self.rats = rats or (parent.rats if parent else None)
        self.quot = dict(parent.quot) if parent else {}  # bounded sums of quotients

    def _atom(self, a):
        """comparison with a constant -> (term, op, constant)"""
        k = a.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ) or a.arg(0).sort() == z3.BoolSort():
            return None
        p, c = a.children()
        op = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "="}[k]
        if T._cval(p) is not None:
            p, c = c, p
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "=": "="}[op]
        c = T._cval(c)
        return None if c is None else (p, op, F(c))

    def assume(self, lit, val=True):
        """returns False on contradiction"""
        while z3.is_not(lit):
            lit, val = lit.arg(0), not val
        known = self.value(lit)
        if known is not None:
            return known == val
        T._keep.append(lit)
        self.lits.append(lit if val else z3.Not(lit))
        self.bools[lit.get_id()] = val
        a = self._atom(lit)
        if a is None:
            return True
        p, op, c = a
        T._keep.append(p)
        lo, los, hi, his, ne = self.bounds.get(p.get_id(), (None, False, None, False, ()))
        if not val:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "=": "!="}[op]
        if op == "=":
            lo = hi = c
            los = his = False
            self._solve_for(p, c)
        elif op == "!=":
            ne = ne + (c,)
        elif op in (">", ">="):
            if lo is None or c > lo or (c == lo and op == ">"):
                lo, los = c, op == ">"
        else:
            if hi is None or c < hi or (c == hi and op == "<"):
                hi, his = c, op == "<"
        if lo is not None and lo == hi and lo in ne:
            return False
        if lo is not None and lo in ne:
            los = True
        if hi is not None and hi in ne:
            his = True
        self.bounds[p.get_id()] = (lo, los, hi, his, ne)
        if len(self.quot) < 8 and _quotients(p):
            self.quot[p.get_id()] = p
        if hi == 0 and not his and self.sign(p) in (NN, ZERO) and p.get_id() in T._lin_tab and T._lin_tab[p.get_id()][0] == 0:
            # a sum of nonnegative terms that is not positive
            for m, k in T._lin_tab[p.get_id()][1]:
                if sgn(m) == (NN if k > 0 else NP):
                    z = req(m, F(0))
                    if z is False or (isinstance(z, z3.ExprRef) and _literal(z) and not self.assume(z)):
                        return False
        return not (lo is not None and hi is not None and (lo > hi or (lo == hi and (los or his))))

    def _solve_for(self, p, c):
        """p = c with p linear in a plain variable: substitute"""
        if p.sort() != z3.RealSort():
            return
        t = T._lin_tab.get(p.get_id()) or (F(0), ((p, F(1)),))
        for m, k in t[1]:
            if m.decl().kind() != z3.Z3_OP_UNINTERPRETED or m.get_id() in T._sqrt_of or m.get_id() in self.subst:
                continue
            rest = T.unlin(t[0] - c, {q.get_id(): (q, j) for q, j in t[1] if q is not m})
            if isc(rest) or m.decl().name() not in self._reach(rest):
                self.subst[m.get_id()] = rmul(rest, -1 / k)
                return

    def _reach(self, e):
        """the variables of a term and of what they are replaced by"""
        out, todo = {}, [e]
        while todo:
            for n, v in _deep_vars(todo.pop()).items():
                if n not in out:
                    out[n] = v
                    if v.get_id() in self.subst:
                        todo.append(r2z(self.subst[v.get_id()]))
        return out

    def sign(self, f):
        """sign of a factor"""
        s = sgn(f)
        b = self.bounds.get(f.get_id())
        if b is not None:
            lo, los, hi, his, ne = b
            if lo is not None and (lo > 0 or (lo == 0 and (los or 0 in ne))):
                return POS
            if hi is not None and (hi < 0 or (hi == 0 and (his or 0 in ne))):
                return NEG
            if lo == 0 and hi == 0:
                return ZERO
            if lo is not None and lo == 0 and s in (UNK, NN):
                return POS if 0 in ne else NN
            if hi is not None and hi == 0 and s in (UNK, NP):
                return NP
            if 0 in ne and s == NN:
                return POS
            if 0 in ne and s == NP:
                return NEG
        if s == UNK:
            t = T._mono_tab.get(f.get_id())
            if t is not None:
                s = POS
                for g, e in t:
                    q = self.sign(g)
                    if e % 2 == 0:
                        q = POS if (q in (POS, NEG) or e < 0) else NN
                    elif e < 0 and q in (NN, NP):
                        q = POS if q == NN else NEG
                    s = T._mulsign(s, q)
                return s
            t = T._lin_tab.get(f.get_id())
            if t is not None:
                s = sgn(t[0])
                for m, k in t[1]:
                    q = self.sign(m)
                    s = T._addsign(s, q if k > 0 else T._neg(q))
                return s
        return s

    def factor(self, c):
        """for a monomial compared with zero: a factor whose sign is not known"""
        a = self._atom(c)
        if a is None or a[2] != 0 or a[1] == "=" or a[0].get_id() not in T._mono_tab:
            return c
        for f, e in T._mono_tab[a[0].get_id()]:
            if e % 2 and self.sign(f) not in (POS, NEG, ZERO):
                r = rlt(F(0), f)
                if isinstance(r, z3.ExprRef) and _literal(r) and self.value(r) is None:
                    return r
        return c

    def value(self, a):
        neg = False
        while z3.is_not(a):
            a, neg = a.arg(0), not neg
        v = self.bools.get(a.get_id())
        if v is None:
            v = self._derive(a)
        return None if v is None else v != neg

    def _derive(self, a):
        t = self._atom(a)
        if t is None:
            return None
        p, op, c = t
        b = self.bounds.get(p.get_id())
        if b is None and self.rats is not None and self.quot and _quotients(p):
            for q in self.quot.values():
                if self.rats.equal(p, q):
                    b = self.bounds.get(q.get_id())
                    break
                if self.rats.equal(p, q, -1):
                    lo, los, hi, his, ne = self.bounds.get(q.get_id())
                    b = (None if hi is None else -hi, his, None if lo is None else -lo, los, tuple(-x for x in ne))
                    break
        if b is not None:
            lo, los, hi, his, ne = b
            if op == "=":
                if c in ne or (lo is not None and (c < lo or (c == lo and los))) or (hi is not None and (c > hi or (c == hi and his))):
                    return False
                if lo is not None and lo == hi == c:
                    return True
            elif op in ("<", ">="):
                r = None
                if hi is not None and (hi < c or (hi == c and his)):
                    r = True
                elif lo is not None and lo >= c:
                    r = False
                if r is not None:
                    return r == (op == "<")
            else:
                r = None
                if lo is not None and (lo > c or (lo == c and los)):
                    r = True
                elif hi is not None and hi <= c:
                    r = False
                if r is not None:
                    return r == (op == ">")
        s = self.sign(p)
        if s == UNK:
            return None
        lo = 0 if s in (POS, NN, ZERO) else None
        hi = 0 if s in (NEG, NP, ZERO) else None
        los, his = s == POS, s == NEG
        if op == "=":
            if (lo is not None and (c < lo or (c == lo and los))) or (hi is not None and (c > hi or (c == hi and his))):
                return False
            return True if s == ZERO and c == 0 else None
        if op in ("<", ">="):
            r = True if hi is not None and (hi < c or (hi == c and his)) else False if lo is not None and lo >= c else None
            return None if r is None else r == (op == "<")
        r = True if lo is not None and (lo > c or (lo == c and los)) else False if hi is not None and hi <= c else None
        return None if r is None else r == (op == ">")


def _quotients(p, cache={}):
    """a sum in which something is divided"""
    i = p.get_id()
    if i not in cache:
        T._keep.append(p)
        cache[i] = p.get_id() in T._lin_tab and _divides(p)
    return cache[i]


def _divides(p):
    i = p.get_id()
    t = T._lin_tab.get(i)
    if t is not None:
        return any(_divides(m) for m, _ in t[1])
    t = T._mono_tab.get(i)
    return t is not None and any(e < 0 or _divides(f) for f, e in t)


def _deep_vars(e):
    """names of the variables of a term, arguments of square roots included"""
    acc, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = x.children()
        if i in T._sqrt_of and not isc(T._sqrt_of[i]):
            todo.append(T._sqrt_of[i])
        if not ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        todo.extend(ch)
    return acc


class Rebuild:
    def __init__(self, ctx, env):
        self.ctx, self.env, self.cache, self.looks = ctx, env, {}, {}

    def look(self, b):
        if isinstance(b, bool):
            return b
        i = b.get_id()
        if i not in self.looks:
            T._keep.append(b)
            self.looks[i] = self._look(b)
        return self.looks[i]

    def _look(self, b):
        if z3.is_or(b) or z3.is_and(b):
            r = [self.look(c) for c in b.children()]
            return bor(*r) if z3.is_or(b) else band(*r)
        if z3.is_not(b):
            return bnot(self.look(b.arg(0)))
        v = self.env.value(b)
        return b if v is None else v

    def __call__(self, e):
        if isc(e):
            return e
        cache = self.cache
        todo = [e]
        while todo:
            x = todo[-1]
            i = x.get_id()
            if i in cache:
                todo.pop()
                continue
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE:
                c = x.arg(0)
                if c.get_id() not in cache:
                    todo.append(c)
                    continue
                cv = cache[c.get_id()]
                if isinstance(cv, bool):
                    y = x.arg(1) if cv else x.arg(2)
                    if y.get_id() not in cache:
                        todo.append(y)
                        continue
                    cache[i] = cache[y.get_id()]
                    todo.pop()
                    continue
            ch = x.children()
            if i in T._sqrt_of and isinstance(T._sqrt_of[i], z3.ExprRef):
                ch = [T._sqrt_of[i]]
            if i in self.env.subst:
                ch = [r2z(self.env.subst[i])]
            pend = [c for c in ch if c.get_id() not in cache]
            if pend:
                todo.extend(pend)
                continue
            todo.pop()
            cache[i] = self._one(x, k, [cache[c.get_id()] for c in ch])
            T._keep.append(x)
        return cache[e.get_id()]

    def _one(self, x, k, a):
        i = x.get_id()
        if i in self.env.subst:
            return a[0]
        if i in T._sqrt_of:
            q = T._sqrt_of[i]
            if not a or (isinstance(a[0], z3.ExprRef) and a[0].eq(q)):
                return x
            if isc(a[0]) and a[0] < 0:
                return x
            return self.ctx.sqrt(X(a[0])).v
        if not a:
            c = T._cval(x)
            if c is not None:
                return F(c) if x.sort() == z3.RealSort() else int(c)
            if k == z3.Z3_OP_TRUE:
                return True
            if k == z3.Z3_OP_FALSE:
                return False
            if x.sort() == z3.BoolSort():
                return self.look(x)
            b = self.env.bounds.get(i)
            if b is not None and b[0] is not None and b[0] == b[2]:
                return b[0] if x.sort() == z3.RealSort() else int(b[0])
            return x
        if k == z3.Z3_OP_AND:
            return band(*a)
        if k == z3.Z3_OP_OR:
            return bor(*a)
        if k == z3.Z3_OP_NOT:
            return bnot(a[0])
        if k == z3.Z3_OP_XOR:
            return bxor(*a)
        if k == z3.Z3_OP_IMPLIES:
            return bimplies(*a)
        s = x.arg(0).sort()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and s == z3.BoolSort():
            return biff(*a)
        if k == z3.Z3_OP_ITE:
            if x.sort() == z3.BoolSort():
                return bite(*a)
            if x.sort() == z3.IntSort():
                return iite(*a)
            if i in T._abs_of and not isinstance(a[0], bool):
                return rabs(a[2])
            m = T._max_of.get(i)
            if m is not None and not isinstance(a[0], bool):
                f = xmax if m[0] == "max" else xmin
                return f(X(a[1]), X(a[2])).v
            return rite(*a)
        if s == z3.IntSort():
            if all(isc(c) for c in a):
                r = z3.simplify(x.decl()(*[z3.IntVal(c) for c in a]))
                if z3.is_true(r) or z3.is_false(r):
                    return z3.is_true(r)
                c = T._cval(r)
                return c if r.sort() == z3.IntSort() else F(c)
            if k == z3.Z3_OP_EQ:
                return self.look(ieq(*a))
            if k == z3.Z3_OP_LT:
                return self.look(ilt(*a))
            if k == z3.Z3_OP_GT:
                return self.look(ilt(a[1], a[0]))
            if k == z3.Z3_OP_LE:
                return bnot(self.look(ilt(a[1], a[0])))
            if k == z3.Z3_OP_GE:
                return bnot(self.look(ilt(a[0], a[1])))
            r = x.decl()(*[T.i2z(c) for c in a])
            return r
        if k == z3.Z3_OP_ADD:
            r = a[0]
            for b in a[1:]:
                r = radd(r, b)
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for b in a[1:]:
                r = rsub(r, b)
            return r
        if k == z3.Z3_OP_UMINUS:
            return rneg(a[0])
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for b in a[1:]:
                r = rmul(r, b)
            return r
        if k == z3.Z3_OP_DIV:
            if isc(a[1]) and a[1] == 0:
                return a[0] if isc(a[0]) and a[0] == 0 else F(0)  # guarded elsewhere
            return rdiv_nz(*a)
        if k == z3.Z3_OP_EQ:
            return self.look(req(*a))
        if k == z3.Z3_OP_LT:
            return self.look(rlt(*a))
        if k == z3.Z3_OP_GT:
            return self.look(rlt(a[1], a[0]))
        if k == z3.Z3_OP_LE:
            return bnot(self.look(rlt(a[1], a[0])))
        if k == z3.Z3_OP_GE:
            return bnot(self.look(rlt(a[0], a[1])))
        sorts = [c.sort() for c in x.children()]
        return x.decl()(*[z3.BoolVal(c) if isinstance(c, bool) else r2z(c) if q == z3.RealSort() else T.i2z(c) for c, q in zip(a, sorts)])


# ---------------------------------------------------------------- the prover


def _disjuncts(g):
    out, todo, seen = [], [g], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_or(x):
            todo.extend(x.children())
        elif z3.is_not(x) and z3.is_and(x.arg(0)):
            todo.extend(bnot(c) for c in x.arg(0).children())
        elif z3.is_implies(x):
            todo.extend([bnot(x.arg(0)), x.arg(1)])
        else:
            out.append(x)
    return out


def _conjuncts(g):
    """the conjuncts of a conjunction, nested ones flattened, smallest first; None otherwise"""
    if not (z3.is_and(g) or (z3.is_not(g) and (z3.is_or(g.arg(0)) or z3.is_not(g.arg(0))))):
        return None
    out, todo, seen = [], [g], set()
    while todo:
        x = todo.pop()
        if x is True:
            continue
        x = b2z(x)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        T._keep.append(x)
        if z3.is_and(x):
            todo.extend(x.children())
        elif z3.is_not(x) and z3.is_or(x.arg(0)):
            todo.extend(bnot(c) for c in x.arg(0).children())
        elif z3.is_not(x) and z3.is_not(x.arg(0)):
            todo.append(x.arg(0).arg(0))
        else:
            out.append(x)
    return sorted(out, key=lambda x: (_size(x), x.get_id()))


def _literal(x):
    while z3.is_not(x):
        x = x.arg(0)
    k = x.decl().kind()
    return k == z3.Z3_OP_UNINTERPRETED or k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) or (
        k == z3.Z3_OP_EQ and x.arg(0).sort() != z3.BoolSort()
    )


def _is_eq(x):
    return x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == z3.RealSort()


def _conditions(g):
    """atoms inside ite conditions, those without inner ites; with the number of occurrences"""
    seen, out = set(), {}
    inner = {}

    def has_ite(x):
        i = x.get_id()
        if i not in inner:
            inner[i] = x.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in x.children()) or (
                i in T._sqrt_of and not isc(T._sqrt_of[i]) and has_ite(T._sqrt_of[i])
            )
        return inner[i]

    done = set()

    def atoms(c):
        if c.get_id() in done:
            return
        done.add(c.get_id())
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or z3.is_implies(c) or c.decl().kind() in (z3.Z3_OP_XOR,):
            for d in c.children():
                atoms(d)
        elif c.decl().kind() == z3.Z3_OP_EQ and c.arg(0).sort() == z3.BoolSort():
            for d in c.children():
                atoms(d)
        elif not has_ite(c):
            i = c.get_id()
            out[i] = (c, out.get(i, (c, 0))[1] + 1)

    todo = [g]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.decl().kind() == z3.Z3_OP_ITE:
            atoms(x.arg(0))
        todo.extend(x.children())
        if i in T._sqrt_of and not isc(T._sqrt_of[i]):
            todo.append(T._sqrt_of[i])
    return out


def _denominators(g):
    """ids of the factors things are divided by, and of what is under a root"""
    out, seen, todo = set(), set(), [g]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        for f, e in T._mono_tab.get(i, ()):
            if e < 0:
                out.add(f.get_id())
        todo.extend(x.children())
        q = T._sqrt_of.get(i)
        if q is not None and not isc(q):
            out |= {f.get_id() for f, _ in T._factors(q).values()}
            todo.append(q)
    return out


def _size(x, cache={}):
    i = x.get_id()
    if i not in cache:
        cache[i] = (1 + sum(_size(c) for c in x.children()), x)
    return cache[i][0]


def _facts(fs):
    """signs of variables and definitions of square roots (normalisation makes them trivial)"""
    out = []
    for n, v in _deep_vars(z3.And(*fs)).items():
        s = T._var_sign.get(n)
        if s in (POS, NN, NEG, NP):
            out.append({POS: v > 0, NN: v >= 0, NEG: v < 0, NP: v <= 0}[s])
        i = v.get_id()
        if i in T._sqrt_of:
            q = r2z(T._sqrt_of[i])
            out.append(z3.Implies(q >= 0, v * v == q))
    return out


class Prover:
    def __init__(self, ctx, hyps, seconds=20, leaf_ms=2000, log=None):
        self.ctx, self.hyps = ctx, hyps
        self.end = time.time() + seconds
        self.leaf_ms = leaf_ms
        self.rats = Rats()
        self.leaves = 0
        self.log = log or (lambda *a: None)
        self.stuck = None

    def prove(self, goal):
        t = time.time()
        try:
            r = self._node(b2z(goal), Env(rats=self.rats), 0)
        except TooBig:
            r = False
        STATS.note("case split + rational identities", time.time() - t)
        return r

    def _node(self, goal, env, depth):
        if time.time() > self.end or depth > 40:
            self.stuck = self.stuck or ("time", env.lits)
            return False
        # unit propagation into the environment
        for _ in range(12):
            rb = Rebuild(self.ctx, env)
            g = rb(goal)
            if g is True:
                return True
            n = len(env.lits)
            if isinstance(g, z3.ExprRef):
                for d in _disjuncts(g):
                    if _literal(d) and not _is_eq(d) and not env.assume(bnot(d)):
                        return True
            for h in self.hyps:
                hb = rb(h)
                if hb is False:
                    return True
                if isinstance(hb, z3.ExprRef) and len(env.lits) < 60:
                    for c in [hb] if not z3.is_and(hb) else hb.children():
                        if _literal(c) and not _conditions(c) and not env.assume(c):
                            return True
            if len(env.lits) == n:
                break
        if isinstance(g, z3.ExprRef):
            cs = _conjuncts(g)
            if cs is not None:
                known = Env(env)
                for c in cs:
                    if not self._node(b2z(c), Env(known), depth + 1):
                        return False
                    if _literal(c) and not known.assume(c):
                        return True
                return True
            for d in _disjuncts(g):
                if _is_eq(d):
                    try:
                        if self.rats.zero(rsub(d.arg(0), d.arg(1))):
                            return True
                    except TooBig:
                        pass
        g = b2z(g)
        n0 = len(self.ctx.axioms)
        hy = [b2z(rb(h)) for h in self.hyps + self.ctx.axioms]
        if len(self.ctx.axioms) > n0:
            hy += [b2z(rb(h)) for h in self.ctx.axioms[n0:]]
        hy = [h for h in hy if not z3.is_true(h)]
        neg = b2z(bnot(g))
        hy = hy + env.lits
        hy += _facts(hy + [neg])
        if not z3.is_false(g):
            hy = relevant(hy, neg)
        if lin_unsat(hy, neg, 1500, lemmas=True):
            return True
        conds = _conditions(g)
        conds = {i: c for i, c in conds.items() if env.value(c[0]) is None}
        if not conds and isinstance(g, z3.ExprRef):
            for d in _disjuncts(g):
                if not _literal(d):
                    for a in _bool_atoms(d):
                        if env.value(a) is None and not _conditions(a):
                            conds[a.get_id()] = (a, 1)
        if conds:
            dens = _denominators(g)

            def rank(t):
                a = env._atom(t[0])
                den = a is not None and a[0].get_id() in dens
                return (not den, a is None, not _is_eq(t[0]), _size(t[0]), -t[1], t[0].get_id())

            c, _ = min(conds.values(), key=rank)
            c = env.factor(c)
            if "TRACE" in os.environ:
                print("  " * depth, len(conds), str(c).replace("\n", " ")[:400], flush=True)
            for val in (True, False):
                e2 = Env(env)
                if not e2.assume(c, val):
                    continue
                if not self._node(goal, e2, depth + 1):
                    return False
            return True
        self.leaves += 1
        if lin_unsat(hy, neg, 1500, lemmas=True, poly=True):
            return True
        if not self.leaf_ms:
            return False
        r, m = full_check(hy + [neg], self.leaf_ms)
        if r == "unsat":
            return True
        self.stuck = (r, list(env.lits), g, hy, m)
        return False


def _bool_atoms(c):
    out, todo, seen = [], [c], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if _literal(x):
            while z3.is_not(x):
                x = x.arg(0)
            out.append(x)
        elif x.sort() == z3.BoolSort():
            todo.extend(x.children())
    return out
