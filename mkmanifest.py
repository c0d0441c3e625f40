"""Writes MANIFEST.json from properties.jsonl and cones.py."""
import json, os, subprocess
from cones import CONES, level
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], text=True).split()
checks = []
for p in props:
    c = CONES[p["id"]]
    note = ("Every obligation of the functions under contract is discharged by Verus on the source extracted from "
            "/repo on each run, for all inputs; ")
    if c.get("whole"):
        tech = "function contracts on the real code, discharged by Verus"
        note += "the contracts cover the whole statement. "
    elif c["modules"]:
        tech = "function contracts on the real code, discharged by Verus (part: %s); rest bounded" % c["part"]
        note += "proved: %s. Bounded, not proved: %s. " % (c["part"], c.get("bounded", "the rest of the statement"))
    else:
        tech = "bounded search standing in for contracts"
        note = "No contract decides it yet; bounded. "
    note += ("A bounded search of the real code with an independent oracle runs beside it. Trusted: the extraction, the "
             "prelude's contracts for std, a formatter that does not fail; texts shorter than 2^32 - 1 characters.")
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": tech, "level": level(p["id"]), "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "latex_ast_verif", "enable": "RUSTFLAGS=\"--cfg latex_ast_verif\" cargo build", "source_commits": hook},
     "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
