"""Regenerates MANIFEST.json from properties.jsonl and the registered plans."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import plans  # noqa: E402
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; recorded executions of the library validated against it by TLC"
NOTE = ("TLC accepts or rejects every logged call of generated sessions against the TLA+ definition of the answer, over all "
        "small graphs and many random larger ones (storage orders, label types, construction routes, weights, dtypes); "
        "bounded, not a proof. Trusts TLC, the projection in harness/vlib.py and GraphBLAS' own element access.")
EXTRA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": f"python3 harness/check.py {i}",
                       "thorough_cmd": f"python3 harness/check.py {i} --tier thorough",
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": "specified in properties.jsonl; its check is still being built"})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
