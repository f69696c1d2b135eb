#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
table = json.load(open(V + "/checks/table.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    e = table.get(p["id"])
    if not e:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 checks/run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 checks/run.py %s --tier thorough" % p["id"],
        "technique": e.get("technique", "runtime monitoring: model/trace oracle over generated histories under ASan+UBSan"
                           if not e.get("threads") else
                           "runtime monitoring: online trace oracle over perturbed threaded runs, TSan and ASan+UBSan"),
        "level": "exploration",
        "level_note": e.get("note", "Holds on the executions the monitors observed (counts in the evidence file); "
                                    "generated from the seed, so a violation needs to be reached to be seen."),
    })
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"",
     "hooks": {"guard": "none", "enable": "no hooks are needed in the repository: the monitors sit around the public "
               "interface and compiler instrumentation (sanitizers, trace-pc) does the rest", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check compiles its harness against /repo/src as it is and runs it; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
