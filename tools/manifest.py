#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = "TLA+ specification of the search (MVSearch); every run of the real solver is checked by TLC as a behaviour of it"
CONV = "TLA+ specification of the file formats and converters (MVConvert); sessions of the real tools checked by TLC"
TECH = {"C14": "TLA+ specification of what a run may depend on (MVSession); repeated real runs checked by TLC",
        "C15": "TLA+ reading of the file format (MVFormat, MVSession); real runs on laid-out files checked by TLC",
        "C20": "TLA+ specification of acceptable benchmarks (MVGen); generated files checked by TLC",
        "C21": "TLA+ specification of acceptable benchmarks (MVGen); generated files checked by TLC",
        "C27": "TLA+ specification of the help menu and of incomplete command lines (MVMenu); real runs checked by TLC",
        "C26": "TLA+ specification of the tools' file effects (MVFiles); recorded real runs checked by TLC"}
NOTE = {}
checks = []
with open(os.path.join(V, "properties.jsonl")) as f:
    ids = [json.loads(l)["id"] for l in f]
for i in ids:
    tech = TECH.get(i, CONV if i in ("C16", "C17", "C18", "C19", "C28") else SEARCH)
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking",
                   "level_note": NOTE.get(i, "the specification is explicit and its design is model-checked within small "
                                 "constants; the binding to the code is by checking recorded real runs on generated "
                                 "problems, not exhaustive over inputs")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the programs' own verbose log, output files and clock readings are observed from outside. "
              "Defects found and repaired are listed in known-findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
