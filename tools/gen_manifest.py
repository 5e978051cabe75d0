#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the PLAN of check.py."""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import check
NA = {
    "C19": "printing is a pure function of a sheet: no schedule, clock, I/O, fault or history can influence it, so there is nothing for a simulator to decide; the other checks use it only through their own independent CSS reader",
    "C20": "selector scoping is a pure function of selector and class name, computed once with no shared state or fault point; deterministic simulation has nothing to vary",
    "C21": "acceptance of a text is a pure function of the text (its stability under threads, history and failures is C01, which is claimed); nothing for a scheduler or fault injector to decide",
    "C22": "the equality of the two macro syntaxes is settled inside rustc at compile time; there is no execution to simulate",
}
TODO = "not built yet"
NOTE = {}
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PLAN:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py run {i}", thorough_cmd=f"python3 check.py thorough {i}",
            evidence_file=f"evidence/{i}.json", technique=check.TECHNIQUE.get(i, check.TECHNIQUE_DEFAULT), level="exploration",
            level_note=check.LEVEL_NOTE.get(i, check.LEVEL_NOTE_DEFAULT)))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none: no hooks in /repo", enable="the simulator instruments the unmodified crates with a rustc wrapper (tools/) and interposes libc calls; nothing in /repo is switched on", source_commits=[]),
         notes="thorough tier: VERIF_TIER=thorough. A replay file is re-executed by 'python3 check.py replay FILE'.")
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
open(f"{H}/MANIFEST.json", "a").write("\n")
