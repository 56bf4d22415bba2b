"""Writes MANIFEST.json from properties.jsonl, checks/ and the tables below."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
 "C34": "decided inside lxml/libxml2, a compiled C library that cannot be executed symbolically here; the Python side is covered by C09 and C10 with the element tree as the boundary",
}
NOTES = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"python3-vt -m symx.run {i}",
            "thorough_cmd": f"python3-vt -m symx.run {i} --thorough",
            "technique": "symbolic execution of the real Python source (AST-instrumented on every run), path verdicts by z3, counterexamples replayed on the unmodified code",
            "level": "model_checking",
            "level_note": NOTES.get(i, "Bounded: every input within the bounds stated in the evidence is covered by an explored path whose assertions z3 decides; longer or differently shaped inputs are outside the claim. Trusts the symbolic str/dict/re model of /verif/symx (checked on each run against the real code, one model per sampled path), z3 and CPython."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1,
     "setup_cmd": "python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); import symx.run'",
     "checks": checks, "not_applicable": na,
     "notes": "All checks share the executor in symx/ (see DESIGN.md). Known findings are in known_findings.json."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
