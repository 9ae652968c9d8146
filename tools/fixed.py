"""Record fix commits of /repo: tools/fixed.py <commit-ish>=<property> ... """
import json
import subprocess
import sys

p = "/verif/KNOWN_FINDINGS.json"
d = json.load(open(p))
for a in sys.argv[1:]:
    c, prop = a.split("=")
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, msg = s.split(" ", 1)
    assert msg.startswith("fix:"), s
    if not any(f" {h} " in x for x in d["fixed"]):
        d["fixed"].append(f"fixed: property={prop} {h} {msg[4:].strip()}")
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
