#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.py and checks.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from properties import P
from checks import CHECKS
hook = "d60cc06"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", hook], capture_output=True, text=True).stdout.strip() or hook
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, note, tech in P:
    pid = d["id"]
    if pid not in CHECKS:
        na.append(dict(property=pid, reason="check under construction"))
        continue
    c = CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py run %s quick" % pid, thorough_cmd="python3 check.py run %s thorough" % pid,
                       technique=c.get("technique") or "explicit-state bounded exhaustive enumeration on the real code",
                       level="model_checking", level_note=c.get("level_note") or c.get("bounds") or "see DESIGN.md"))
m = dict(version=1, setup_cmd="python3 check.py warm",
         hooks=dict(guard="CLOUDINI_VERIFICATION_POINTS_PER_CHUNK",
                    enable="checks compile /repo's sources with -DCLOUDINI_VERIFICATION_POINTS_PER_CHUNK=<n> (see checks.py)",
                    source_commits=[full]),
         checks=checks, not_applicable=na)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# the table of planted bugs in DESIGN.md
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):
    import re
    rows = ["| bug | property whose check reports it | needs |", "|---|---|---|"]
    for n in sorted(os.listdir(sd)):
        meta = json.load(open(os.path.join(sd, n, "meta.json")))
        rows.append("| %s | %s | %s |" % (n, meta["property"], meta["needs"].replace("|", "/")))
    p = os.path.join(V, "DESIGN.md")
    t = open(p).read()
    t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
    open(p, "w").write(t)
