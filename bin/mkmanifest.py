#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed for every property that has one in checks/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
SPEC = {
 "C01": "Expr.tla", "C02": "Expr.tla", "C03": "Store.tla", "C04": "Clamp.tla", "C05": "Newton1.tla, Poly.tla",
 "C06": "Newton2.tla, LinSys.tla", "C07": "Builder.tla", "C08": "Solve.tla, LinSys.tla", "C09": "OneEq.tla, Poly.tla", "C10": "Program.tla",
 "C11": "Decor.tla", "C12": "Cond.tla", "C13": "Units.tla", "C14": "MatrixOps.tla", "C15": "Inverse.tla",
 "C16": "Handles.tla", "C17": "SolverHandles.tla", "C18": "Network.tla", "C19": "ModelBuild.tla", "C20": "Cli.tla", "C21": "Procedure.tla, Program.tla", "C22": "Tags.tla", "C23": "Tabs.tla", "C24": "CppMatrix.tla", "C25": "CppSolver.tla", "C26": "Wiring.tla", "C27": "Whole.tla",
}
TECH = {"C21": "TLA+ specification (spec/%s): traces recorded from the real code are checked against it with TLC"}
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, "TLA+ specification (spec/%s) checked with TLC; its behaviours are replayed into the real code") % SPEC[i].replace(", ", ", spec/"),
                           level="model_checking",
                           level_note=NOTE.get(i, "TLC checks the specification exhaustively within small constants and by seeded random walks beyond them; the code is compared with it on every behaviour emitted. Trusts TLC, the spelling/rounding glue in checks/ and the harness.")))
    else:
        na.append(dict(property=i, reason="no check built yet (work in progress)"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks: the harness uses the public API of the crates only. See DESIGN.md.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
