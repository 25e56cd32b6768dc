#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks/*/check.json (run by hand after adding a check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    c = f"{V}/checks/{pid}/check.json"
    if not os.path.exists(c):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    conf = json.load(open(c))
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 engine/check.py {pid} quick",
            "thorough_cmd": f"python3 engine/check.py {pid} thorough",
            "technique": conf.get("technique", "stateful property-based testing against a reference model, with shrinking; libFuzzer over the same properties in the thorough tier"),
            "level": "exploration",
            "level_note": conf.get(
                "level_note",
                "Random search over generated cases against an explicit oracle, compiled with ASan/UBSan from the current headers; a pass means no counterexample among the generated cases. Trusts the model, the compiler and the sanitizers.",
            ),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3 engine/check.py --build-all",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the library is header-only and observed through its public API. known_findings.txt lists the defects repaired by fix: commits in /repo.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
