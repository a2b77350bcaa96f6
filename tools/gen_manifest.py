"""Writes MANIFEST.json from the modules present in props/."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
have = sorted(f[:-3].upper() for f in os.listdir(V + "/props") if re.fullmatch(r"c\d+\.py", f))
checks = []
for i in ids:
    if i in have and i not in NA:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "symbolic execution of the real implementation from its compiler IR (jaxpr traced from the current source), SMT verdict per obligation (z3/cvc5), counterexamples replayed on the real code",
                "level": "proof",
                "level_note": "bounded proof over exact extended reals: every value of every input and every user function within the step/dimension bounds recorded in the evidence file; rounding is not modelled",
            }
        )
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python selftest.py",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not written yet")} for i in ids if i not in [c["property"] for c in checks]],
    "notes": "setup_cmd validates the jaxpr interpreter against real JAX execution of every built-in solver; it builds nothing.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
