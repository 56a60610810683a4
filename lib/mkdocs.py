#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/cryptovampire/src/"
L = []
def P(id, title, st, over, q, why, files, mech, obs, tech, note):
    L.append((dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=[S + f if not f.startswith("crates/") else f for f in files], mechanism=[dict(name=n, where=S + w if not w.startswith("crates/") else w) for n, w in mech], observe_at=obs, hook_needed=None)), tech, note))
ORA = ("the SMT file written by to-file",)
TE = "symbolic execution of the real translator's LLVM IR (own engine, z3), then z3 decides each emitted axiom against the reference trace semantics of the source"
TS = "symbolic execution of the real code's LLVM IR (own engine, z3) with assertions checked by the solver on every path"
NT = "Within the bounds every execution (order, happening steps, inputs, primitives' values) is decided by z3, for every source of the family; trusts the reference semantics, the engine's model of LLVM IR (counterexamples are replayed natively) and z3."
TEST = "The tests only run whole protocols when the provers are installed, or parse single files; none judges what an emitted axiom means."
exec(open(os.path.join(V, "lib", "proptable.py")).read())
L.sort(key=lambda x: x[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in L: f.write(json.dumps(p) + "\n")
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough",
   evidence_file=f"evidence/{p['id']}.json", technique=t, level=PROPS[p["id"]]["level"], level_note=n) for p, t, n in L if p["id"] in PROPS]
m = dict(version=1, setup_cmd="python3 check.py --setup",
  hooks=HOOKS, checks=checks,
  not_applicable=[dict(property=p["id"], reason=n) for p, t, n in L if p["id"] not in PROPS],
  notes="Bounds and what lies outside them: DESIGN.md. Genuine defects: known-findings.txt. A check that could not decide something exits 2 and says what.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(L), "properties,", len(checks), "checks")
