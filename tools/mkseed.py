"""mkseed.py ID PROP FILE OLD NEW NEEDS WHAT  (demo.py on stdin): writes seeded/ID."""
import json, os, subprocess, sys

sid, prop, f, old, new, needs, what = sys.argv[1:8]
demo = sys.stdin.read()
p = os.path.join("/repo/optimistix", f)
s = open(p).read()
assert s.count(old) == 1, s.count(old)
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
try:
    open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
finally:
    open(p, "w").write(s)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(demo)
open(d + "/demo.sh", "w").write(
    '#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
