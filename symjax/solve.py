"""Deciding queries: hypotheses |= goal ?"""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction as F

from .terms import *
from .interp import abstract, _abs_vars

HERE = os.path.dirname(os.path.abspath(__file__))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}
        self.z3_unknown = 0

    def note(self, how, dt, n=1):
        self.queries += n
        self.solver_s += dt
        self.by[how] = self.by.get(how, 0) + n


STATS = Stats()


def _vars(e, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = x.children()
        if not ch:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
        else:
            todo.extend(ch)
    return acc


def relevant(hyps, goal):
    """cone of influence by shared variables"""
    pool = [(h, set(_vars(h))) for h in hyps]
    need = set(_vars(goal))
    chosen = []
    changed = True
    while changed:
        changed = False
        rest = []
        for h, vs in pool:
            if not vs or vs & need:
                chosen.append(h)
                if not vs <= need:
                    need |= vs
                    changed = True
            else:
                rest.append((h, vs))
        pool = rest
    return chosen


def _abs_facts(forms):
    names = {}
    seen = set()
    for f in forms:
        _vars(f, names, seen)
    byname = {v.decl().name(): (v, x) for v, x, _ in _abs_vars.values()}
    out = []
    for n in names:
        if n in byname:
            v, x = byname[n]
            s = sgn(x)
            if s == "+":
                out.append(v > 0)
            elif s == "0+":
                out.append(v >= 0)
            elif s == "-":
                out.append(v < 0)
            elif s == "0-":
                out.append(v <= 0)
    return out


def _lemmas(forms):
    """basic sign/zero lemmas for the abstracted products and quotients that occur (closed
    under nesting)"""
    byname = {v.decl().name(): (v, x, new) for v, x, new in _abs_vars.values()}
    out, done, todo = [], set(), []
    names, seen = {}, set()
    for f in forms:
        _vars(f, names, seen)
    todo = [n for n in names if n in byname]
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        v, x, new = byname[n]
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL and len(new) > 2:
            cnt = {}
            for c in new:
                cnt.setdefault(c.get_id(), []).append(c)
            if all(len(g) % 2 == 0 for g in cnt.values()):
                out.append(v >= 0)
        if len(new) != 2:
            continue
        a, b = new
        if k == z3.Z3_OP_MUL:
            if a.eq(b):
                out += [v >= 0, (a == 0) == (v == 0)]
            else:
                out += [
                    (v == 0) == z3.Or(a == 0, b == 0),
                    (v > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)),
                ]
        elif k == z3.Z3_OP_DIV:
            out += [
                z3.Implies(b != 0, (v == 0) == (a == 0)),
                z3.Implies(b > 0, z3.And((v > 0) == (a > 0), (v >= 1) == (a >= b), (v <= 1) == (a <= b))),
                z3.Implies(b < 0, (v > 0) == (a < 0)),
            ]
        sub = {}
        _vars(a, sub)
        _vars(b, sub)
        todo += [m for m in sub if m in byname and m not in done]
    return out


_som_cache = {}


def som(e):
    k = e.get_id()
    if k not in _som_cache:
        r = z3.simplify(e, som=True, som_blowup=1000, hoist_mul=False, max_steps=400000)
        _som_cache[k] = (r, e)
    return _som_cache[k][0]


def lin_unsat(hyps, neg, timeout=4000, lemmas=False, poly=False):
    """unsatisfiability of a linear over-approximation; with `poly` after rewriting every
    polynomial to a sum of monomials, so that equal polynomials become equal terms"""
    t = time.time()
    fs = list(hyps) + [neg]
    if poly:
        fs = [som(f) for f in fs]
    fs = [abstract(f) for f in fs]
    fs += _abs_facts(fs)
    if lemmas:
        fs += _lemmas(fs)
    s = z3.SimpleSolver()
    s.set("timeout", timeout)
    s.add(fs)
    r = s.check()
    STATS.note("linear-abstraction", time.time() - t)
    return r == z3.unsat


def full_check(fs, timeout=4000, seed=0):
    """in-process; returns (verdict, assignment or None)"""
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    if seed:
        s.set("random_seed", seed)
    s.add(fs)
    r = s.check()
    STATS.note("z3", time.time() - t)
    if r == z3.sat:
        m = s.model()
        return "sat", {d.name(): conv(m[d]) for d in m.decls() if d.arity() == 0}
    return str(r), None


def conv(v):
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return F(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return F(a.numerator_as_long(), a.denominator_as_long())
    return F(0)


def _unj(v):
    if v[0] == "b":
        return v[1]
    if v[0] == "i":
        return int(v[1])
    if v[0] == "r":
        return F(int(v[1]), int(v[2]))
    return F(0)


def to_smt2(fs, logic=None):
    s = z3.Solver()
    s.add(fs)
    return s.to_smt2()


class Job:
    """a portfolio run in subprocesses"""

    CONFS = ["default", "nlsat", "lia2", "cvc5", "simple"]

    def __init__(self, fs, tlim, seed=0, confs=None):
        self.dir = tempfile.mkdtemp(prefix="vq")
        self.path = os.path.join(self.dir, "q.smt2")
        txt = to_smt2(fs)
        with open(self.path, "w") as f:
            f.write(txt)
        self.t0 = time.time()
        self.tlim = tlim
        self.procs = []
        hasint = " Int)" in txt
        for c in confs or self.CONFS:
            if c == "cvc5":
                exe = shutil.which("cvc5")
                if not exe:
                    continue
                p2 = os.path.join(self.dir, "c.smt2")
                with open(p2, "w") as f:
                    f.write("(set-logic ALL)\n" + txt)
                cmd = [exe, f"--tlimit={int(tlim * 1000)}", "--nl-ext-tplanes", p2]
            else:
                if c == "nlsat" and hasint:
                    continue
                cmd = [sys.executable, os.path.join(HERE, "worker.py"), self.path, c, str(tlim), str(seed)]
            out = open(os.path.join(self.dir, c + ".out"), "w+")
            self.procs.append(
                (c, subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, start_new_session=True), out)
            )

    def wait(self):
        verdict, model, who = "unknown", None, None
        sat_nomodel = False
        live = list(self.procs)
        try:
            while live and verdict == "unknown" and time.time() - self.t0 < self.tlim + 15:
                for item in list(live):
                    c, p, out = item
                    if p.poll() is None:
                        continue
                    live.remove(item)
                    out.seek(0)
                    txt = out.read().strip()
                    if c == "cvc5":
                        first = txt.splitlines()[0].strip() if txt else ""
                        if first == "unsat":
                            verdict, who = "unsat", c
                        elif first == "sat":
                            sat_nomodel = True
                    else:
                        try:
                            j = json.loads(txt.splitlines()[-1])
                        except Exception:
                            continue
                        if j["r"] == "unsat":
                            verdict, who = "unsat", c
                        elif j["r"] == "sat":
                            verdict, who = "sat", c
                            model = {k: _unj(v) for k, v in j["m"].items()}
                    if verdict != "unknown":
                        break
                else:
                    time.sleep(0.02)
        finally:
            for c, p, out in self.procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                out.close()
            shutil.rmtree(self.dir, ignore_errors=True)
        STATS.note("portfolio:" + str(who or "none"), time.time() - self.t0)
        if verdict == "unknown" and sat_nomodel:
            verdict = "sat?"
        return verdict, model


# ---------------------------------------------------------------- evaluating terms


def evaluate(e, asg, cache=None):
    """value of a z3 term under an assignment (missing variables default to 0/False)"""
    if not isinstance(e, z3.ExprRef):
        return e
    cache = {} if cache is None else cache
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in cache:
            todo.pop()
            continue
        ch = x.children()
        pend = [c for c in ch if c.get_id() not in cache]
        if pend:
            todo.extend(pend)
            continue
        todo.pop()
        cache[i] = _ev1(x, [cache[c.get_id()] for c in ch], asg)
    return cache[e.get_id()]


def _ev1(x, a, asg):
    k = x.decl().kind()
    if z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_algebraic_value(x):
        v = conv(x)
        return F(v) if x.sort() == z3.RealSort() else v
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    if k == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name()
        if n in asg:
            return asg[n]
        return False if x.sort() == z3.BoolSort() else (F(0) if x.sort() == z3.RealSort() else 0)
    if k == z3.Z3_OP_ADD:
        s = a[0]
        for b in a[1:]:
            s = s + b
        return s
    if k == z3.Z3_OP_SUB:
        s = a[0]
        for b in a[1:]:
            s = s - b
        return s
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_MUL:
        s = a[0]
        for b in a[1:]:
            s = s * b
        return s
    if k == z3.Z3_OP_DIV:
        return F(a[0]) / a[1] if a[1] != 0 else F(0)
    if k == z3.Z3_OP_IDIV:
        return a[0] // a[1] if a[1] != 0 else 0
    if k == z3.Z3_OP_MOD:
        return a[0] % a[1] if a[1] != 0 else 0
    if k == z3.Z3_OP_TO_REAL:
        return F(a[0])
    if k == z3.Z3_OP_TO_INT:
        return a[0].__floor__()
    if k == z3.Z3_OP_ITE:
        return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_AND:
        return all(a)
    if k == z3.Z3_OP_OR:
        return any(a)
    if k == z3.Z3_OP_NOT:
        return not a[0]
    if k == z3.Z3_OP_XOR:
        return a[0] != a[1]
    if k == z3.Z3_OP_IMPLIES:
        return (not a[0]) or a[1]
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return a[0] == a[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(a)) == len(a)
    if k == z3.Z3_OP_LT:
        return a[0] < a[1]
    if k == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if k == z3.Z3_OP_GT:
        return a[0] > a[1]
    if k == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if k == z3.Z3_OP_POWER:
        return a[0] ** int(a[1])
    raise NotImplementedError(str(x.decl()))


def evalx(x, asg, cache=None):
    """concrete float of an X"""
    import math

    cache = {} if cache is None else cache
    if evaluate(x.nan, asg, cache):
        return math.nan
    if evaluate(x.pi, asg, cache):
        return math.inf
    if evaluate(x.ni, asg, cache):
        return -math.inf
    v = evaluate(x.v, asg, cache)
    try:
        return float(v)
    except OverflowError:
        return math.inf if v > 0 else -math.inf
