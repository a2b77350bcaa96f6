"""Usage: check.py ID [--tier quick|thorough] [--verbose] [--only SUBSTR] [--replay FILE]"""

import argparse
import importlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("EQX_ON_ERROR", "raise")
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 0)
    t0 = time.time()
    import jax

    jax.config.update("jax_enable_x64", True)
    import logging

    logging.getLogger("jax").setLevel(logging.ERROR)
    import optimistix

    assert os.path.realpath(optimistix.__file__).startswith(os.path.realpath(REPO)), optimistix.__file__
    from symjax import harness
    from symjax.solve import STATS

    mod = importlib.import_module("props." + a.prop.lower())
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == a.prop and k.get("status") == "known":
                    known.append(k)
    if a.replay:
        r = json.load(open(a.replay))
        cases = [c for t in ("quick", "thorough") for c in mod.cases(t) if c.name == r["case"]]
        v = harness.concrete_verdicts(cases[0], r["inputs"], harness._tab_unjson(r["tables"]))
        print("VERDICTS " + json.dumps(v))
        bad = [k for k, x in v.items() if x is False or k == "__raised__"]
        print("REPRODUCED" if bad else "not reproduced", bad)
        sys.exit(1 if bad else 0)
    budget = 800 if a.tier == "quick" else 3000
    R = harness.Runner(a.prop, a.tier, seed, known, budget=budget, verbose=a.verbose)
    for c in mod.cases(a.tier):
        if a.only and a.only not in c.name:
            continue
        if R.violations:
            break  # the verdict is settled
        if R.left() < 20:
            R.inconclusive.append(c.name + ": not started (time budget)")
            continue
        R.run_case(c)
    for k in {json.dumps(k, sort_keys=True) for k in R.known_hits}:
        k = json.loads(k)
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    ev = {
        "property": a.prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": R.nclaims,
            "discharged": R.discharged,
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {a.prop} --tier {a.tier}",
            "trusted_base": [
                "JAX tracing (make_jaxpr) of the current /repo source",
                "the jaxpr-to-SMT interpreter in /verif/symjax (validated by /verif/selftest.py)",
                "z3 5.3.2 / cvc5 1.1.2",
            ],
            "explanation": "symbolic execution of the traced real code over exact extended reals; SMT verdict per obligation; loops unrolled to the stated bound with unwinding obligations",
            "functions_encoded": sorted(R.functions),
            "cases": R.cases_run,
            "queries": STATS.queries,
            "queries_by_method": STATS.by,
            "solver_time_s": round(STATS.solver_s, 2),
            "primitives_interpreted": sum(R.prims.values()),
            "witnesses_satisfied": R.witnessed,
            "witnesses_undecided": R.wit_unknown,
            "bounds": getattr(mod, "BOUNDS", ""),
            "undecided": R.inconclusive,
            "not_reproduced": R.nonrepro,
            "encoding_errors": R.errors,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(R.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{a.prop}: {R.discharged}/{R.nclaims} obligations, {len(R.cases_run)} cases, {STATS.queries} queries, "
        f"solver {STATS.solver_s:.1f}s, wall {time.time() - t0:.1f}s"
    )
    for e in R.errors:
        print("ERROR", e)
    for e in R.inconclusive:
        print("UNDECIDED", e)
    for e in R.nonrepro:
        print("NOT-REPRODUCED", e)
    if R.violations:
        for v in R.violations:
            print(f"# {v.case}: {v.label}")
            print(f"VIOLATION property={a.prop} replay={v.path}")
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(2 if (R.errors or R.inconclusive or R.nonrepro) else 0)


try:
    main()
except SystemExit:
    raise
except BaseException:
    import traceback

    traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(2)
