"""Usage: plant.py SPEC.py -- SPEC defines id, property, file, old, new (or edits=[(file,old,new)...]), needs, breaks, demo.
Builds the change in a scratch copy, confirms it (tests pass, demo 0 -> nonzero), and writes seeded/<id>/."""
import sys, os, subprocess, shutil, json, runpy, tempfile
s = runpy.run_path(sys.argv[1])
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
d = tempfile.mkdtemp(prefix="plant"); r = d + "/repo"
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", r, symlinks=True)
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    for f, o, n in edits:
        p = os.path.join(r, "python/moz/l10n", f)
        t = open(p).read()
        assert t.count(o) == 1, (f, t.count(o))
        open(p, "w").write(t.replace(o, n))
    patch = subprocess.check_output(["git", "-C", r, "diff", "--no-color"], text=True)
    # changed lines must be original ones
    for f, o, n in edits:
        b = subprocess.check_output(["git", "-C", "/repo", "show", base + ":python/moz/l10n/" + f], text=True)
    cur = None
    orig = set()
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            orig = set(subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + l[6:]], text=True).splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
            print("WARNING: not an original line:", l)
    env = dict(os.environ, PYTHONPATH=r + "/python")
    out = subprocess.run(["bash", "/opt/vp/test.sh", d + "/o.json"], capture_output=True, text=True, env=env, cwd=r)
    base_ok = json.load(open("/opt/vp/BASELINE.json"))
    if "--direct" in sys.argv or True:
        # run the tests of the scratch copy itself
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "python/tests"], cwd=r, env=env, capture_output=True, text=True)
        print(t.stdout.strip().splitlines()[-1])
        if t.returncode: print(t.stdout[-2500:])
    o = f"{V}/seeded/{s['id']}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(patch)
    open(o + "/demo.py", "w").write(s["demo"].lstrip())
    open(o + "/demo.sh", "w").write('#!/bin/sh\nPYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    a = subprocess.run(["sh", o + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["sh", o + "/demo.sh"], cwd=r, capture_output=True, text=True)
    print("demo unchanged:", a.returncode, a.stderr[-300:], "| patched:", b.returncode, b.stderr.strip().splitlines()[-1:])
    ok = t.returncode == 0 and a.returncode == 0 and b.returncode != 0
    print(s["id"], "OK" if ok else "REJECTED")
    if not ok: shutil.rmtree(o)
finally:
    shutil.rmtree(d)
