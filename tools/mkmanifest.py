"""writes MANIFEST.json from properties.jsonl and the contracts present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"C23": "The ensemble covariance of the generated noise field tending to the target as the number of realisations grows is a statement about a probability distribution in the limit; the deductive verifier reasons about single runs. Its deterministic parts (sampler algebra, kernel factorisation) are C01 and C13.",
      "C24": "That gradient descent on a non-convex loss reaches a good fit has no contract that holds for every input; the deterministic bookkeeping of calibrate() is C10 and the loss value C09."}
NOTE = "Every obligation generated from /repo's current source by PyVC (mechanical symbolic execution of the real functions, any array sizes, loops by invariant or summary) is discharged by its algebraic normaliser with z3 back end; reals for floats, library primitives (numpy/torch/scipy) by their documented contracts; runtime contracts on the real code (bounded, not counted as proof) give the failing input. "
EXTRA = {}
p = os.path.join(V, "tools", "notes.json")
if os.path.exists(p): EXTRA = json.load(open(p))
checks, na = [], []
for q in props:
    i = q["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    f = "contracts/%s.py" % i.lower()
    if not os.path.exists(os.path.join(V, f)): na.append({"property": i, "reason": "contract not built yet"}); continue
    checks.append({"property": i, "quick_cmd": "python3-vt " + f, "thorough_cmd": "VERIF_TIER=thorough python3-vt " + f,
                   "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification (PyVC: symbolic execution of the real functions against contracts; normal form + z3), failing inputs by runtime contracts",
                   "level": "proof", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the functions are extracted from /repo's working tree on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", len(na), "n/a")
