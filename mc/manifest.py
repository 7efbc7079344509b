#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the list of claimed properties (run by hand)."""
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_SCHED = "stateless model checking of the real daemon (controlled scheduler, exhaustive deviations up to a bound)"
T_SEQ = "exhaustive enumeration of operation sequences on the real code under a controlled scheduler"
T_ENUM = "bounded exhaustive enumeration of inputs through the real code"
T_CRASH = "exhaustive crash-point enumeration on the real code"
NOTE = ("Every execution runs the real code of /repo in-process under a controlled scheduler with virtual time; "
        "all schedules within the stated deviation bound from the default schedule are run. Trusted: the libc-level "
        "stand-ins for processes, ptys and time in mc/src/rt.rs, the scenario oracles, and that behaviour beyond the bound is alike.")
TECH = {**{i: T_ENUM for i in ("P05", "P17", "P22", "P28", "P29")},
        **{i: T_SEQ + "; " + T_SCHED for i in ("P15", "P18", "P19", "P20")},
        "P21": T_SCHED + "; " + T_CRASH}
CL = json.load(open(os.path.join(base, 'mc', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(base, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CL['claimed']:
        c = CL['claimed'][i]
        checks.append({"property": i, "quick_cmd": f"bash mc/run.sh check {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash mc/run.sh check {i}",
                       "technique": c.get("technique", TECH.get(i, T_SCHED)), "level": "model_checking",
                       "level_note": (c.get("note", "") + " " + NOTE).strip()})
    else:
        na.append({"property": i, "reason": CL['na'].get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "bash mc/run.sh build", "checks": checks, "not_applicable": na},
          open(os.path.join(base, 'MANIFEST.json'), 'w'), indent=1)
