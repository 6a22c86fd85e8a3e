#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import CHECKS, NOT_APPLICABLE, LEVEL_NOTE
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(top, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                      evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection: " + CHECKS[i]["how"],
                      level="exploration", level_note=LEVEL_NOTE) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "the check for this property is not built yet")) for i in ids if i not in CHECKS],
         notes="No hooks in /repo: the seams are the pthread, libc and operator new/delete symbols and the compiler's -fsanitize=thread instrumentation.")
with open(os.path.join(top, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
