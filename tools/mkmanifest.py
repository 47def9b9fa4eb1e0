#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand when the set of checks changes."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HIST = "property-based testing: generated mock declarations and operation histories against a reference model, with shrinking"
COMP = "property-based testing: generated declarations compiled against oracles, with shrinking"
DIFF = "property-based testing: generated declarations, differential between expansions (or with and without the attribute), with shrinking"
T = {
    "C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST, "C05": HIST, "C06": HIST, "C07": HIST, "C08": HIST,
    "C09": HIST, "C11": HIST, "C12": HIST, "C20": HIST,
    "C13": COMP, "C14": COMP, "C15": COMP, "C17": COMP, "C19": COMP, "C21": COMP, "C22": COMP, "C16": HIST, "C23": HIST, "C24": HIST,
    "C18": DIFF, "C25": DIFF,
    "C10": "property-based testing: generated threads, expectations and schedules run under a deterministic scheduler, against a linearizability oracle, with shrinking",
}
NOTE_H = "random histories over random declarations (fixed number per tier); a violation is a concrete shrunk history replayed in a fresh process. Not exhaustive: declarations outside of the generator's grammar (DESIGN.md) are not seen."
NOTE_C = "random programs over a grammar of declarations (fixed number per tier), each compiled and run against an oracle that the generator knows; a violation is a concrete shrunk program that is compiled again on replay. Not exhaustive."
NOTE = {i: NOTE_C for i in ("C15", "C17", "C18", "C19", "C21", "C22", "C25")}
NOTE["C10"] = "random cases of 2 to 4 threads and their schedules (fixed number per tier) over a fixed set of mocks of every kind; switches happen at the atomics of mockall/src/lib.rs (through the guarded hook), at locks, in closures and between calls; sequential consistency only; see DESIGN.md"
HOOKS = {
    "guard": "mockall_verif (rustc cfg)",
    "enable": "the check of C10 builds harness/conc, and mockall with it, with RUSTFLAGS='--cfg mockall_verif'",
    "source_commits": ["8b850d2ac443a74d8aefcc143bf2102d3ab0cc5a"],
}
NA = {}
exec(open(V + "/tools/manifest_extra.py").read()) if os.path.exists(V + "/tools/manifest_extra.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": T[i],
            "level": "exploration",
            "level_note": NOTE.get(i, NOTE_H),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}
if "HOOKS" in globals():
    m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
