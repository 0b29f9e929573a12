"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
TECH = {
    "C01": "PBT: generated airplanes against an independent geometry model",
    "C02": "PBT: generated airplanes, grid against reference and tiling identities",
    "C03": "PBT: differential, input file against programmatic construction",
    "C04": "PBT: generated surfaces and commands against a reference, metamorphic mixing relations",
    "C05": "PBT: differential against an independent lifting-line solver",
    "C06": "PBT: sum identities over generated models, differential against an independent model",
    "C07": "PBT: metamorphic scaling relations",
    "C08": "PBT: metamorphic mirror relation",
    "C09": "PBT: metamorphic translation and moment-transfer relations",
    "C10": "PBT: metamorphic and differential, rates and local fields",
    "C11": "stateful PBT: call histories against fresh models",
    "C12": "stateful PBT: call histories with snapshots of arguments and results",
    "C13": "PBT: derivatives against differences of the solver with a self-estimated error",
    "C14": "PBT: round trip through known states, post-condition of every answer",
    "C15": "PBT: post-conditions of stall answers against a scan of section loads",
    "C16": "PBT: defining relation and metamorphic relations of the aerodynamic centre",
    "C17": "PBT: round trip of result files",
    "C18": "PBT: differential against an independent blade-element vortex solver",
    "C19": "PBT: metamorphic equivalence of operating states, motor balance oracle",
    "C20": "PBT: differential against an independent slipstream model, metamorphic relations",
    "C21": "PBT: metamorphic rotation relations of propeller loads",
    "C22": "PBT: generated models, mesh invariants and reference outlines",
    "C23": "PBT: metamorphic, omitted against documented defaults",
    "C24": "PBT: generated invalid requests must be rejected",
    "C25": "PBT: metamorphic, equivalent descriptions of one airplane",
    "C26": "PBT: convergence to Prandtl's series solution",
}
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        cmd = "PYTHONHASHSEED=0 /opt/venv/bin/python run_check.py %s --tier %s"
        checks.append({"property": pid, "quick_cmd": cmd % (pid, "quick"), "thorough_cmd": cmd % (pid, "thorough"),
                       "technique": TECH[pid], "level": "exploration",
                       "level_note": NOTES.get(pid, "Seeded random search with shrinking over generated cases; no "
                                               "proof. Trusts the reference code in vlib/, numpy/scipy and the "
                                               "stated domain (assumptions in the evidence file).")})
    else:
        missing.append({"property": pid, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from vlib import env; "
     "import hypothesis, numpy, scipy, stl; print('ok')\"",
     "checks": checks, "not_applicable": missing}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", [x["property"] for x in missing])
