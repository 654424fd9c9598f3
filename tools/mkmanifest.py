#!/usr/bin/env python3
"""write MANIFEST.json"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = {
    "C11": " torch.autograd.grad is an assumed contract (derivative, graph lifetime, requires_grad); the bounded runs use the real torch.",
    "C15": " einsumt.einsumt is assumed to compute what numpy.einsum computes (the bounded runs use the real one).",
    "C20": " scipy.optimize.curve_fit is an assumed contract (returns some parameters and a covariance for the concatenated data).",
    "C21": " The axes of matplotlib and scipy.optimize.curve_fit are assumed contracts (the bounded runs use matplotlib itself).",
}
BUILT = os.environ.get("BUILT", " ".join(ids)).split()
checks = []
for i in ids:
    if i not in BUILT:
        continue
    checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python -m hvc.check {i} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python -m hvc.check {i} --tier thorough",
                   "technique": "contract-based deductive verification: pre/postconditions on the functions of /repo, verification conditions from symbolic execution of the "
                                "source, discharged by an exact rational normal form and z3; contracts replayed on the real package",
                   "level": "proof",
                   "level_note": "All obligations for all inputs, every trailing shape and all paths, over the reals; numpy semantics, the verifier and smoothness of energies are trusted; "
                                 "floating point is only covered by the bounded runs of the same contracts on the real package, which are labelled bounded." + NOTE.get(i, "")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/selfcheck.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": "contracts not built yet"} for i in ids if i not in BUILT],
     "notes": "See DESIGN.md. The verifier is /verif/hvc; contracts are in /verif/hvc/contracts. No hooks in /repo: the verified text is /repo/src itself, executed from its AST with symbolic arrays."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
