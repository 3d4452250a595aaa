#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/MAP; properties without a harness are not_applicable (with a reason)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = {l.split()[0]: l.split()[1:] for l in open(os.path.join(here, "harness/MAP")) if l.strip()}
TECH = "stateless model checking: exhaustive choice-tree enumeration of the real library code against a reference model"
NOTE = {
 "C25": "Every position of a failing allocation of every operation in the bounded histories is executed on the real code with AddressSanitizer.",
}
DEF = ("Every execution within the stated bounds is run on the real library code (rebuilt from the working tree{san}) and compared with an "
       "independent reference model; nothing is sampled. Beyond the bounds (longer histories, other argument values) nothing is claimed. "
       "Trusts the harness model, the compiler and libm.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason="check not built yet")); continue
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
        technique=TECH + (" with fault injection" if i in ("C23", "C24", "C25") else ""), level="model_checking",
        level_note=NOTE.get(i, "") + (" " if i in NOTE else "") + DEF.format(san=", with AddressSanitizer" if have[i][1] == "asan" else "")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
