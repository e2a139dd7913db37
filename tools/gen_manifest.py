#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py (run by hand when the plan changes)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import PLAN
NA = {}
NOTE = {
    "C17": "Every entry point is fed generated, damaged and spliced inputs in a supervised process; the specification's total-function clause (an answer within the bound) is checked by TLC on every recorded call. Sampling: absence of panics outside the explored inputs is not proved.",
    "C23": "A watching allocator records what each secret buffer holds when it is released; TLC checks every recorded life cycle (create, copy, set PIN, drop in ten ways) against the memory model. Copies made on the stack or inside the crypto library are not seen.",
    "C25": "Draws of several threads and processes are merged and TLC checks that none repeats, none repeats itself, every bit varies and paired draws share nothing. Statistical quality of the operating system's generator is trusted.",
    "C29": "Emulated FIDO tokens stand behind the udev, open and ioctl functions the pinned authenticator crate calls; every CTAP2 command they receive is recorded and TLC decides each call by the token machine of the specification. The emulator's fidelity to real tokens is an assumption; the non-default ctap-hid-fido2 backend is not built.",
    "C28": "Emulated YubiKeys stand behind the PC/SC functions the pinned yubikey crate calls; every command they receive is recorded and TLC decides each call by the token machine of the specification. The emulator's fidelity to real tokens is an assumption.",
    "C26": "Families of related calls are answered in different orders, histories, processes and threads; TLC checks that each call has one answer over all histories.",
}
checks = []
for p in sorted(PLAN):
    ms = PLAN[p].get("models", [])
    tech = "TLA+ specification checked with TLC; recorded executions of the real library validated against it by TLC"
    if ms:
        tech += "; behaviours of the exhaustive models " + ", ".join("MC_" + m for m in ms) + " replayed into the library"
    checks.append(dict(property=p, quick_cmd=f"bin/check {p} quick", thorough_cmd=f"bin/check {p} thorough",
                       evidence_file=f"evidence/{p}.json", technique=tech, level="model_checking",
                       level_note=NOTE.get(p, "Every recorded call of the explored sessions is decided by the byte-level TLA+ specification (not by the code under test). Bounded: assurance extends to the models' constants and the generated sessions; cryptographic primitives are taken as perfect, with their facts computed independently by the harness.")))
json.dump(dict(version=1, setup_cmd="bin/check build", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="No hooks in /repo are needed: everything is observed through the public API."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
