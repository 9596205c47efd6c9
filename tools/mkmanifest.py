#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
TECH = {
 "C01": "TLA+/TLC: exhaustive model of the API and of the fingerprint's soundness; trace validation of recorded calls of the real library",
 "C02": "TLA+/TLC trace validation of the same product under many blockings, tiles and machines",
 "C03": "TLA+/TLC: exhaustive model of the packed layouts; trace validation of packed calls and reported sizes",
 "C04": "TLA+/TLC: API state machine; chains generated by TLC simulation replayed in the library; trace validation",
 "C05": "TLA+/TLC: memory automaton; trace validation of every load and store of the instrumented library",
 "C06": "TLA+/TLC: exhaustive model of the parallel steps; trace validation of per-thread access sets; repeated runs",
 "C07": "TLA+/TLC: API state machine with resources; trace validation of allocation and descriptor balance",
 "C08": "TLA+/TLC: histories generated by TLC simulation replayed in the library; trace validation; concurrent callers",
 "C09": "TLA+/TLC: exhaustive model of the schedules; trace validation of every micro-kernel call with operand provenance",
 "C10": "TLA+/TLC: exhaustive model of the packed layouts (bijection); trace validation of packed buffer contents",
 "C11": "TLA+/TLC trace validation of micro-kernel calls for every depth and tile",
 "C12": "TLA+/TLC trace validation of transposes",
 "C13": "TLA+/TLC: exhaustive model of machine reports; trace validation of queries under simulated machines",
 "C14": "TLA+/TLC: exhaustive model of grids; trace validation of grid choices and generated tables",
 "C15": "TLA+/TLC: exhaustive model of the traversals; trace validation of the observed block order",
 "C16": "TLA+/TLC: exhaustive model of the traffic argument; trace validation of chosen orders",
 "C17": "TLA+/TLC: exhaustive model of budgets and covers; trace validation of block plans",
 "C18": "TLA+/TLC: exhaustive model of the verdict; trace validation of checker calls with planted errors",
}
NOTE = {
 "default": "The explicit model is checked exhaustively within its bounds; the real library, rebuilt from /repo, is bound to it by validating recorded behaviour, so assurance extends to the explored inputs (random from VERIF_SEED plus systematic edge shapes). Trusted: TLC, the harness's recording, the compiler.",
}
REASON = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "CAKE_VERIF", "enable": "no hooks were needed: harnesses link the unchanged sources with wrapped symbols and stand-in kernels", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.TABLE:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                            "technique": TECH[i], "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": REASON.get(i, "its check is being built")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
