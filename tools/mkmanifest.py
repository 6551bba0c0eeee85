#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/pNN.py is claimed."""
import json, os, importlib.util, ast, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
NOTES = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
for p in props:
    f = V + "/checks/%s.py" % p["id"].lower()
    if os.path.exists(f):
        src = open(f).read()
        tr = re.search(r'^TRACE = "(\w+)"', src, re.M)
        specs = sorted(set(re.findall(r'\("(\w+)", "\w+\.cfg"', src)))
        checks.append({
            "property": p["id"],
            "quick_cmd": "bin/check %s quick" % p["id"],
            "thorough_cmd": "bin/check %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "TLA+ specification (%s) model-checked with TLC; its behaviours and seeded inputs replayed on the code; recorded traces validated by TLC (%s)"
                         % (", ".join(specs), tr.group(1) if tr else "trace module"),
            "level": "model_checking",
            "level_note": NOTES.get(p["id"], "The TLA+ model is exhaustive within small constants; the code is bound to it by trace validation of the executed inputs (bounded, seeded), on lattice values with fixed-point tolerance. Trusts TLC, the harness's scaling of floats to integers, numpy/astropy."),
        })
    else:
        na.append({"property": p["id"], "reason": NOTES.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "No hooks: the library's public results already expose the state the specification needs; /repo is imported as it is.", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
