#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after adding a check)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS, NOT_APPLICABLE, HOOK_COMMITS  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 lib/setup.py",
    hooks=dict(guard="VERIF_HOOKS (unused: no check needs a hook in /repo)", enable="nothing to enable: the checks compile /repo's sources as they are, with sanitizers, and observe public APIs and intercepted libc calls", source_commits=HOOK_COMMITS),
    checks=[dict(property=p, quick_cmd=f"python3 lib/run.py {p} --tier quick", thorough_cmd=f"python3 lib/run.py {p} --tier thorough",
                 evidence_file=f"evidence/{p}.json", technique=CHECKS[p]["technique"], level=CHECKS[p]["level"], level_note=CHECKS[p]["note"])
            for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")) for p in props if p not in CHECKS],
    notes="Drivers in harness/, runner in lib/run.py; see DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
