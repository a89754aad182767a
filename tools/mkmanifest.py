#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.txt's head (run after editing)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROG = ("TLA+ specification (EtrSem/EtrProg/EtrTrace) checked with TLC; every transition TLC explores is replayed into the "
        "real library, and random histories of the real library are validated against the specification by TLC")
NOTE = ("bounded: small-scope values and a generated statement library for the exhaustive part, sampled histories (incl. long vectors) for "
        "the trace part; values compared exactly or with a rounding bound")
T = {f"C{n:02d}": PROG for n in range(1, 22)}
T["C14"] = ("TLA+ specification of the storage objects (EtrStore) checked with TLC; its behaviours replayed into the real storage classes, "
            "random histories validated against it by TLC")
AD = ("TLA+ specification of tracked variables and forward derivatives (EtrAD) checked with TLC; its behaviours replayed into the real "
      "derivative classes, random histories validated against it by TLC")
T["C15"] = T["C16"] = AD
import sys
done = sys.argv[1:] or sorted(T)
NA = []
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
           "technique": T[p], "level": "model_checking", "level_note": NOTE} for p in sorted(T) if p in done]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in sorted(T) if p not in done],
     "notes": "All checks compile generated drivers against /repo/include of the current working tree (STANDALONE_ETR); no hooks in /repo are needed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
