"""Rewrites the 'fixed' entries of known_findings.json from the fix: commits in /repo (open entries are kept as they are)."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = json.load(open(V + "/tools/fix_props.json"))  # commit subject -> property
p = V + "/known_findings.json"; old = json.load(open(p)) if os.path.exists(p) else []
out = [e for e in old if e.get("status") == "open"]
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    for pid in PROP[s].split(): out.append(dict(status="fixed", property=pid, line="fixed: property=%s %s %s" % (pid, h, s[5:])))
json.dump(out, open(p, "w"), indent=1)
