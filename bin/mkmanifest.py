#!/usr/bin/env python3
"""Write MANIFEST.json from config.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, c in sorted(PROPS.items()):
    if p.startswith("_"):
        continue
    units, kani = [x if isinstance(x, str) else x["unit"] for x in c.get("verus", [])], [h for g in c.get("kani", {}).values() for h in g]
    proof = bool(units or kani)
    how = []
    if units:
        how.append("Verus contracts on functions extracted from /repo on every run (" + ", ".join(units) + ")")
    if kani:
        how.append("Kani contract harnesses on the compiled real code")
    how.append("contracts checked at run time on the real code to find a failing input" + ("" if proof else " (bounded stand-in)"))
    note = NOTES.get(p, "")
    if not note:
        note = ("Every obligation of the contracts is discharged by the verifier for all inputs; assumptions are listed in the evidence. " if proof else
                "Bounded: the contract is evaluated on the running code over the cases counted in the evidence; not proved. ")
    checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p}",
                   "technique": "contract-based deductive verification: " + "; ".join(how), "level": "proof" if proof else "exploration", "level_note": note})
na = [
    ("C20", "contracts within reach are sequential: Verus' concurrency contracts need permissions and atomics threaded through std's RwLock and mpsc and the kernel's sockets, which the code does not have; no obligation over the real code would express interleavings"),
    ("C21", "the property speaks of what remains after a process is killed between two of its instructions and after the kernel discards its queue; a contract holds at function exits only, and nothing in the code could restore it (a count in shared memory)"),
    ("C22", "the binding runs inside a Node.js process through napi-rs macros; neither Verus nor Kani processes that code and its contracts would have to speak of the JavaScript heap"),
    ("C23", "the code of those platforms does not compile here (no target, no system headers), so no contract could be checked against what runs"),
]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "hooks": {"guard": "cfg(kani)", "enable": "set by cargo kani; the included harnesses are found through the environment variable IPMB_VERIF_DIR", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in na],
     "notes": "see DESIGN.md; known_findings.txt lists repaired and open defects"}
hc = os.path.join(V, "bin", "hook_commits.txt")
if os.path.exists(hc):
    m["hooks"]["source_commits"] = open(hc).read().split()
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
