#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties which have a check."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import check  # noqa: E402

TLA = "TLA+ specification, TLC; "
TRACE = TLA + "TLC-enumerated schedules and random histories replayed into the real code, recorded traces validated by TLC"
EXACT = "Every recorded trace is decided by TLC against an executable TLA+ specification of the whole interface, so any deviation in a "\
        "run that was made is found; coverage of runs is exhaustive for the small alphabets and keyrings enumerated by TLC, sampled "\
        "(VERIF_SEED) beyond. Trusts g++ 11, TLC, and the recording harness in /verif/harness."
NOTES = {
    "default": (TRACE, EXACT),
}


def main():
    all_checks, _ = check.checks()
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    notes = dict(NOTES)
    for m in ("checks_tuple", "checks_rpc", "checks_python"):
        try:
            notes.update(getattr(__import__(m), "NOTES", {}))
        except ModuleNotFoundError:
            pass
    out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
           "notes": "check.py <property> rebuilds everything from /repo's working tree in .work/ and removes it; no hooks in /repo."}
    for p in props:
        if p in all_checks:
            t, n = notes.get(p, notes["default"])
            out["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                                  "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
        else:
            out["not_applicable"].append({"property": p, "reason": "no check yet"})
    json.dump(out, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
