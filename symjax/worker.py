"""Solver worker: reads an SMT-LIB file, runs one z3 configuration, prints a JSON verdict."""
import json
import os
import sys

sys.path.append(os.environ.get("VERIF_Z3_DIR", "/opt/veriftools/pyvenv/lib/python3.12/site-packages"))
import z3


def val(v):
    if z3.is_true(v) or z3.is_false(v):
        return ["b", z3.is_true(v)]
    if z3.is_int_value(v):
        return ["i", v.as_long()]
    if z3.is_rational_value(v):
        return ["r", str(v.numerator_as_long()), str(v.denominator_as_long())]
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return ["r", str(a.numerator_as_long()), str(a.denominator_as_long())]
    return ["?", str(v)]


def main():
    path, conf, tlim, seed = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    fs = z3.parse_smt2_file(path)
    if conf == "nlsat":
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "tseitin-cnf", "qfnra-nlsat").solver()
    elif conf == "nra":
        s = z3.Tactic("qfnra").solver()
    elif conf == "lia2":
        s = z3.SimpleSolver()
        s.set("arith.solver", 2)
    elif conf == "simple":
        s = z3.SimpleSolver()
    else:
        s = z3.Solver()
    s.set("timeout", int(tlim * 1000))
    try:
        s.set("random_seed", seed)
    except z3.Z3Exception:
        pass
    s.add(fs)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        print(json.dumps({"r": "unknown", "why": str(e)}))
        return
    out = {"r": str(r)}
    if r == z3.sat:
        m = s.model()
        out["m"] = {d.name(): val(m[d]) for d in m.decls() if d.arity() == 0}
    print(json.dumps(out))


main()
