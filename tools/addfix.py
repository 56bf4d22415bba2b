"""addfix.py PROPERTY WHAT [COMMIT]: records a commit of /repo (by default the last) as the repair of a finding."""
import json, subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
h, t = subprocess.check_output(["git", "-C", os.environ.get("VP_REPO", "/repo"), "log", "-1", "--format=%h %s"] + sys.argv[3:], text=True).strip().split(" ", 1)
assert t.startswith("fix:") and all(x.get("commit") != h for x in d)
d.append({"property": sys.argv[1], "id": f"fixed-{h}", "status": "fixed", "commit": h, "what": sys.argv[2], "line": f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}"})
json.dump(d, open(f, "w"), indent=1)
